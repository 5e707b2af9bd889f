"""C28: nothing that arrives makes the receiver fail in other ways."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions

DESERIALIZE = 'golem_messages.message.base.Message.deserialize'
GOOD = (1262304001, 32819212799)


def data_of(name, payload):
    tail = any_bytes('version', n=32) if name == 'Hello' else b''
    return be(NUMBER[name], 2) + be(any_int('timestamp', *GOOD), 8) + b'\0' \
        + any_bytes('sig', n=65) + payload + tail


def received(data, key=None):
    out = attempt(base.Message.deserialize, data, None, check_time=False,
                  sender_public_key=key)
    ensure(or_(out.ok, out.raised(exceptions.MessageError)),
           'a message or a message error')
    if out.ok:
        ensure(isinstance(out.value, base.Message), 'a message')
    return out


# those whose fields are taken as they are
FLAT = [n for n in NAMES if n not in NESTED and n not in NODES and n not in (
    'Peers', 'Tasks', 'WantToComputeTask', 'FileTransferToken')]


@lemma('C28', params=FLAT, targets=[DESERIALIZE])
def any_payload(name):
    """Whatever the contents are"""
    received(data_of(name, any_bytes('payload', minlen=1)))


FIELD = [(n, f) for n in NAMES if n not in FLAT for f in FIELDS[n]]


# fields with a structure of their own
STRUCT = {
    'node': ('node_name', 'key', 'task_server_port', 'prv_addr', 'pub_addr',
             'prv_port', 'pub_port', 'p2p_prv_port', 'p2p_pub_port',
             'prv_addresses', 'hyperdrive_prv_port', 'port_statuses',
             'nat_type'),
    'peer': ('address', 'port', 'node'),
    'compute_task_def': ('task_id', 'subtask_id', 'deadline', 'extra_data'),
    'stats': ('pids_stats', 'memory_stats', 'cpu_stats', 'other'),
    'files': ('path', 'checksum', 'size', 'category'),
    'task_header': ('task_id', 'task_owner', 'subtasks_count', 'min_version',
                    'timestamp', 'mask', 'market_type', 'deadline', 'other'),
}
SCALAR = 'none bool int float str bytes'.split()


def structure(name, field):
    if field in NODES.get(name, ()):
        return 'node', False
    if (name, field) == ('Peers', 'peers'):
        return 'peer', True
    if (name, field) == ('FileTransferToken', 'files'):
        return 'files', True
    if (name, field) == ('Tasks', 'tasks'):
        return 'task_header', True
    if (name, field) in (
            ('WantToComputeTask', 'task_header'),
            ('TaskToCompute', 'compute_task_def'),
            ('ReportComputedTask', 'stats')):
        return field, False
    return None, False


@lemma('C28', params=FIELD, targets=[DESERIALIZE])
def any_value(name, field):
    """Whatever the value of a field is, and if it is missing"""
    m = valid_message(name)
    slots = m.slots()
    for s in slots:
        if s[0] == field:
            s[1] = any_value_of(name, field, s[1])
    if choice('missing', (False, True)):
        slots = [s for s in slots if s[0] != field]
    received(data_of(name, cbor(slots)))


def any_value_of(name, field, good):
    kind_, many = structure(name, field)
    if kind_:
        return odd_structure(kind_, many, good)
    if field in NESTED.get(name, {}):
        # more of them in C08
        odd = any_val('value', kinds=SCALAR)
        return choice('form', (odd, [odd, odd], [False, [odd, odd, odd]],
                               [True, [[odd, odd, odd]]], [odd, []]))
    return any_wire('value')


def odd_structure(kind_, many, good):
    """Something else, or a dictionary with one odd value"""
    form = choice('form', ('else', 'list', 'dict'))
    if form == 'else':
        return any_val('value', kinds=SCALAR)
    if form == 'list':
        return [any_val('item', kinds=SCALAR)]
    if many:
        good = good[0] if good else {}
    d = dict(good or {})
    d[choice('key', STRUCT[kind_])] = any_val('value', kinds=SCALAR + ['list'])
    return [d] if many else d


@lemma('C28', params=[x for x in FIELD if structure(*x)[0]],
       targets=[DESERIALIZE],
       bounded='search only: random values of structured fields')
def any_structure(name, field):
    """Whatever the value of a structured field is"""
    m = valid_message(name)
    slots = m.slots()
    kind_, many = structure(name, field)
    for s in slots:
        if s[0] == field:
            s[1] = any_wire('value')
            if choice('dict', (False, True)):
                d = {k: any_wire('value ' + k) for k in STRUCT[kind_]
                     if choice('with ' + k, (True, True, False))}
                s[1] = [d] if many else d
    received(data_of(name, cbor(slots)))


FIXED = {'task_header': lambda t: None,
         'compute_task_def': lambda t: {'task_id': any_wire(t + '.task_id'),
                                        'subtask_id': any_wire(t + '.sub')}}


def wire_of(name, tag, level=0):
    """Fields with any values; what is included may be missing on the
    first level"""
    out = []
    for f in FIELDS[name]:
        t = '%s%s.%s' % (tag, name, f)
        k = NESTED.get(name, {}).get(f)
        if level and f in FIXED:
            out.append([f, FIXED[f](t)])
            continue
        if k is None:
            out.append([f, any_wire(t)])
            continue
        how = 'good'
        if level == 0:
            how = choice(t, ('good', 'nothing'))
        elif (k[-1] == '?' or level > 2):
            how = 'nothing'
        if how == 'nothing':
            out.append([f, [False, None]])
        else:
            one = [[any_int(t + '.type', 0, 65535),
                    any_int(t + '.time', 0, 2 ** 40), False],
                   any_wire(t + '.sig'),
                   wire_of(k.strip('?*'), t + '/', level + 1)]
            out.append([f, [k[-1] == '*', [one] if k[-1] == '*' else one]])
    return out


@lemma('C28', params=NAMES, targets=[DESERIALIZE],
       bounded='search only: random values in all fields at once')
def any_values(name):
    """Whatever the values of the fields are, and are missing"""
    received(data_of(name, cbor(wire_of(name, ''))))


@lemma('C28', params=NAMES, targets=[DESERIALIZE])
def no_fields(name):
    """Whatever there is instead of fields"""
    received(data_of(name, cbor(choice('contents', (
        None, 0, 'text', b'bytes', [], {}, [[]], [1, 2], [['a', 1, 2]],
        [[[], []]], [[{}, 1]], ['ab'], True, 1.5)))))
