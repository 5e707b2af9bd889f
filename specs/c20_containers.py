"""C20: containers have a strict schema and survive a round trip."""
from vc import *  # noqa
from golem_messages import datastructures, exceptions, validators
from golem_messages.datastructures import masking, p2p, stats, tasks


# ------------------------------------------------ what each field accepts
def integer(v):
    return kind(v, 'int')


def positive(v):
    return kind(v, 'int') and as_int(v) >= 1


def not_negative(v):
    return kind(v, 'int') and as_int(v) >= 0


def port(v):
    return kind(v, 'int') and and_(as_int(v) >= 1, as_int(v) <= 65534)


def text(v):
    return kind(v, 'str')


def text128(v):
    return kind(v, 'str') and len(as_str(v)) <= 128


def boolean(v):
    return kind(v, 'bool')


def raw(v):
    return kind(v, 'bytes')


def dictionary(v):
    return kind(v, 'dict')


def version(v):
    return kind(v, 'str') and is_version(as_str(v))


def ip(v):
    return kind(v, 'str') and is_ip(as_str(v))


def anything(v):
    return True


def market(v):
    return kind(v, 'str') and or_(as_str(v) == 'Brass', as_str(v) == 'Usage')


NODE = {
    'node_name': text, 'key': text128, 'prv_port': port, 'pub_port': port,
    'p2p_prv_port': port, 'p2p_pub_port': port, 'prv_addr': ip,
    'pub_addr': ip, 'prv_addresses': anything,
    'hyperdrive_prv_port': integer, 'hyperdrive_pub_port': integer,
    'port_statuses': anything, 'nat_type': anything,
}
NODE_DEFAULTS = {'prv_addresses': [], 'port_statuses': {}, 'nat_type': []}
HEADER = {
    'mask': raw, 'timestamp': integer, 'signature': raw, 'task_id': text128,
    'deadline': integer, 'subtask_timeout': not_negative,
    'market_type': market, 'environment': text128,
    'environment_prerequisites': dictionary, 'min_version': version,
    'estimated_memory': integer, 'max_price': integer,
    'subtask_budget': integer, 'subtasks_count': positive,
    'concent_enabled': boolean,
}
REQUIRED = ('task_id', 'task_owner', 'subtasks_count', 'min_version',
            'timestamp')
BLKIO = {k: dictionary for k in (
    'io_merged_recursive', 'io_queue_recursive', 'io_service_bytes_recursive',
    'io_service_time_recursive', 'io_serviced_recursive',
    'io_time_recursive', 'io_wait_time_recursive', 'sectors_recursive')}
MEMORY = {'kernel_tcp_usage': dictionary, 'kernel_usage': dictionary,
          'swap_usage': dictionary, 'usage': dictionary, 'cache': integer,
          'stats': dictionary, 'use_hierarchy': boolean}
PIDS = {'current': integer, 'limit': integer}
HINT = {version: 'version', ip: 'ip', market: ['Brass', 'Usage', 'brass'],
        port: [0, 1, 65534, 65535, 65536], positive: [0, 1],
        not_negative: [-1, 0]}


def needed():
    """Valid values of the fields a task header must have"""
    return {
        'task_id': any_str('task_id', maxlen=128),
        'task_owner': {'node_name': any_str('owner')},
        'subtasks_count': any_int('count', 1),
        'min_version': any_str('min_version', hint='version'),
        'timestamp': any_int('ts'),
    }


SCHEMA = {
    'Node': (p2p.Node, NODE, dict),
    'TaskHeader': (tasks.TaskHeader, HEADER, needed),
    'BlockIoStats': (stats.BlockIoStats, BLKIO, dict),
    'MemoryStats': (stats.MemoryStats, MEMORY, dict),
    'PidStats': (stats.PidStats, PIDS, dict),
}
FIELDS = tuple((n, k) for n in sorted(SCHEMA) for k in SCHEMA[n][1])


def given(name, base):
    g = base()
    if 'min_version' in g:
        assume(is_version(g['min_version']))
    return g


def stored(k, v):
    """What the field holds once a good value was given"""
    if v is None:
        return None
    if k == 'mask':
        return masking.Mask(as_bytes(v))
    if k == 'market_type':
        return tasks.TaskHeader.MARKET_TYPE(as_str(v))
    return v


@lemma('C20', params=FIELDS,
       targets=['golem_messages.datastructures.Container.deserialize_slot'])
def field_accepts_exactly(name, k):
    """Each field takes exactly its values; nothing (None) when optional."""
    cls, fields, base = SCHEMA[name]
    good = fields[k]
    v = any_val('value', hint=HINT.get(good))
    if good is ip:
        assume(not_(kind(v, 'int', 'bool', 'bytes')))
    kw = given(name, base)
    kw[k] = v
    required = k in REQUIRED
    out = attempt(cls, **kw)
    ok = or_(good(v), kind(v, 'none') and not required)
    ensure(iff(out.ok, ok), 'accepted exactly when it should be')
    if not out.ok:
        cover('rejects')
        ensure(out.raised(exceptions.FieldError), 'with a field error')
        if out.raised(exceptions.FieldError):
            ensure(out.exc.field == k, 'naming the field')
            ensure(same(out.exc.value, v), 'and the value')
        return
    cover('accepts')
    got = getattr(out.value, k)
    if k == 'mask':
        ensure(v is None or same(got.to_bytes(), v), 'is stored')
    else:
        ensure(same(got, stored(k, v)), 'is stored')
    d = out.value.to_dict()
    ensure(same(d[k], v), 'and comes back in the dictionary form')
    ensure(set(d) == set(cls.__slots__), 'which has every declared field')
    again = attempt(cls, **d)
    ensure(again.ok, 'which is accepted')
    if again.ok:
        ensure(same(again.value.to_dict(), d), 'and gives the same again')


@lemma('C20', params=sorted(SCHEMA),
       targets=['golem_messages.datastructures.Container.load_slots'])
def schema_is_complete(p):
    cls, fields, base = SCHEMA[p]
    want = set(fields) | ({'task_owner'} if p == 'TaskHeader' else set())
    ensure(set(cls.__slots__) == want, 'exactly the documented fields')
    name = any_str('name')
    v = any_val('value')
    assume(and_(*[name != k for k in want]))
    kw = given(p, base)
    kw[name] = v
    out = attempt(cls, **kw)
    ensure(out.raised(exceptions.FieldError), 'unknown fields are refused')
    if out.raised(exceptions.FieldError):
        ensure(out.exc.field == name, 'by name')
        ensure(same(out.exc.value, v), 'with the value')


@lemma('C20', params=sorted(SCHEMA),
       targets=['golem_messages.datastructures.Container.load_slots'])
def fields_not_given(p):
    cls, fields, base = SCHEMA[p]
    kw = given(p, base)
    a = cls(**kw)
    for k in fields:
        if k not in kw:
            want = NODE_DEFAULTS[k] if p == 'Node' and k in NODE_DEFAULTS \
                else None
            ensure(same(getattr(a, k), want), 'nothing or default: ' + k)
        else:
            ensure(same(getattr(a, k), kw[k]), 'given: ' + k)
    if p == 'Node':
        a.prv_addresses.append('x')
        a.nat_type.append('x')
        a.port_statuses['x'] = 1
        b = cls()
        for k in NODE_DEFAULTS:
            ensure(same(getattr(b, k), NODE_DEFAULTS[k]),
                   'defaults are not shared: ' + k)


@lemma('C20', params=REQUIRED,
       targets=['golem_messages.datastructures.Container.load_slots'])
def required_fields(k):
    kw = given('TaskHeader', needed)
    ensure(attempt(tasks.TaskHeader, **kw).ok, 'complete: accepted')
    how = choice('how', ('missing', 'none'))
    if how == 'missing':
        del kw[k]
    else:
        kw[k] = None
    out = attempt(tasks.TaskHeader, **kw)
    ensure(out.raised(exceptions.FieldError), 'incomplete: field error')
    if out.raised(exceptions.FieldError):
        ensure(out.exc.field == k, 'naming the missing field')
        ensure(out.exc.value is None, 'without a value')


GOOD = {
    integer: lambda n: any_int(n), positive: lambda n: any_int(n, 1),
    not_negative: lambda n: any_int(n, 0),
    port: lambda n: any_int(n, 1, 65534), text: lambda n: any_str(n),
    text128: lambda n: any_str(n, maxlen=128),
    boolean: lambda n: any_bool(n), raw: lambda n: any_bytes(n),
    dictionary: lambda n: {'k': any_val(n, ('int', 'str', 'none'))},
    anything: lambda n: any_val(n, ('none', 'int', 'str')),
    market: lambda n: choice(n, ('Brass', 'Usage')),
}


def a_good(good, n):
    if good is version:
        v = any_str(n, hint='version')
        assume(is_version(v))
        return v
    if good is ip:
        v = any_str(n, hint='ip')
        assume(is_ip(v))
        return v
    return GOOD[good](n)


@lemma('C20', params=sorted(SCHEMA),
       targets=['golem_messages.datastructures.Container.to_dict'])
def all_fields_round_trip(p):
    """All fields at once: what goes in is what the dictionary form has, and
    the dictionary form builds the same container again."""
    cls, fields, base = SCHEMA[p]
    kw = {k: a_good(fields[k], k) for k in fields}
    if p == 'TaskHeader':
        kw['task_owner'] = {'node_name': any_str('owner')}
    want = dict(kw)
    a = cls(**kw)
    d = a.to_dict()
    for k in fields:
        if k in NODE_DEFAULTS:
            pass
        ensure(same(d[k], want[k]), 'kept: ' + k)
    if p == 'TaskHeader':
        ensure(same(d['task_owner']['node_name'],
                    want['task_owner']['node_name']), 'kept: task_owner')
    ensure(len(d) == len(want), 'nothing else')
    b = cls(**d)
    ensure(same(b.to_dict(), d), 'rebuilt')
    ensure(attempt(repr, a).ok, 'can be shown')


@lemma('C20',
       targets=['golem_messages.datastructures.tasks.TaskHeader'])
def header_owner():
    """The owner is a node, or the dictionary form of one."""
    v = any_val('value', ('none', 'bool', 'int', 'str', 'bytes', 'list',
                          'obj'))
    kw = given('TaskHeader', needed)
    kw['task_owner'] = v
    out = attempt(tasks.TaskHeader, **kw)
    ensure(out.raised(exceptions.FieldError), 'nothing else is accepted')
    key = any_val('key', ('none', 'int', 'str'))
    owner = {'key': key, 'prv_port': 7}
    if choice('as', ('dict', 'node')) == 'node':
        owner = attempt(p2p.Node, **owner)
        assume(owner.ok)
        owner = owner.value
    kw['task_owner'] = owner
    out = attempt(tasks.TaskHeader, **kw)
    ensure(iff(out.ok, or_(kind(key, 'none'), text128(key))),
           'the node is checked as well')
    if out.ok:
        cover('accepts')
        o = out.value.task_owner
        ensure(type(o) is p2p.Node, 'a node')
        ensure(same(o.key, key), 'with its fields')
        ensure(o.prv_port == 7, 'all of them')
        d = out.value.to_dict()['task_owner']
        ensure(type(d) is dict, 'a dictionary on the way out')
        ensure(same(d['key'], key), 'with the fields')
        if type(owner) is p2p.Node:
            ensure(o is owner, 'the very node')
    else:
        ensure(out.raised(exceptions.FieldError), 'field error')


# ------------------------------------------------------ a container of ours
class Box(datastructures.Container):
    __slots__ = {
        'a': (validators.validate_integer,
              validators.validate_positive_integer),
        'b': (),
        'c': (validators.validate_varchar128,),
        'd': (validators.validate_integer,),
    }
    REQUIRED = frozenset(('a',))
    DEFAULTS = {'b': list, 'd': lambda: 'default needs no validation'}

    @classmethod
    def deserialize_c(cls, value):
        return ('in', value)

    @classmethod
    def serialize_c(cls, value):
        return ('out', value)


@lemma('C20',
       targets=['golem_messages.datastructures.Container.load_slots'])
def any_container():
    kw = {}
    for k in ('a', 'b', 'c', 'd'):
        if choice('has ' + k, (True, False)):
            kw[k] = any_val(k, ('none', 'int', 'str'))
    a, c, d = kw.get('a'), kw.get('c'), kw.get('d')
    out = attempt(Box, **kw)
    ok = and_('a' in kw and positive(a), or_(kind(c, 'none'), text128(c)),
              or_(kind(d, 'none'), integer(d)))
    ensure(iff(out.ok, ok), 'accepted iff required fields are there and every '
           'validator agrees')
    if not out.ok:
        cover('rejects')
        ensure(out.raised(exceptions.FieldError), 'field error')
        return
    cover('accepts')
    x = out.value
    ensure(same(x.a, a), 'a')
    ensure(same(x.b, kw['b']) if 'b' in kw else x.b == [], 'b')
    ensure(x.c is None if kw.get('c') is None else same(x.c, ('in', c)),
           'values pass through the decoding hook')
    ensure(same(x.d, d if 'd' in kw else 'default needs no validation'), 'd')
    e = x.to_dict()
    ensure(list(e) == ['a', 'b', 'c', 'd'], 'in the declared order')
    ensure(same(e['c'], ('out', x.c)), 'and the encoding hook')


@lemma('C20',
       targets=['golem_messages.datastructures.Container.__init__'])
def hooks_may_fail():
    """Whatever a decoding hook raises, a message error comes out."""
    exc = choice('exception', (ValueError('x'), KeyError('k'),
                               TypeError('t'), ZeroDivisionError('z'),
                               exceptions.FieldError('f', field='q')))

    class Bad(datastructures.Container):
        __slots__ = {'a': ()}

        @classmethod
        def deserialize_a(cls, value):
            raise exc
    out = attempt(Bad, a=any_val('v', ('int', 'str')))
    ensure(out.raised(exceptions.MessageError), 'message error')
    if isinstance(exc, exceptions.FieldError):
        ensure(out.exc is exc, 'field errors as they are')
    else:
        ensure(out.exc.__cause__ is exc, 'others as the cause')


# --------------------------------------------------------------- statistics
PARTS = {'blkio_stats': (stats.BlockIoStats, 'io_time_recursive', 'dict'),
         'cpu_stats': (stats.CpuStats, 'throttling_data', 'dict'),
         'memory_stats': (stats.MemoryStats, 'cache', 'int'),
         'pids_stats': (stats.PidStats, 'limit', 'int')}


@lemma('C20', params=sorted(PARTS),
       targets=['golem_messages.datastructures.stats.ProviderStats'])
def provider_stats(part):
    cls, field, want = PARTS[part]
    v = any_val('value')
    inner = choice('how', ('direct', 'inner', 'object'))
    if inner == 'direct':
        given = v
        assume(not_(kind(v, 'dict')))
        ok = kind(v, 'none')
    else:
        if want == 'dict':
            assume(or_(not_(kind(v, 'dict')), same(v, {})))
        given = {field: v}
        ok = kind(v, 'none', want)
        if inner == 'object':
            given = attempt(cls, **given)
            assume(given.ok)
            given = given.value
    out = attempt(stats.ProviderStats, **{part: given})
    ensure(iff(out.ok, ok), 'accepted iff the part and its fields are good')
    if not out.ok:
        cover('rejects')
        ensure(out.raised(exceptions.FieldError), 'field error')
        return
    cover('accepts')
    x = getattr(out.value, part)
    if inner == 'direct':
        ensure(x is None, 'nothing')
    else:
        ensure(type(x) is cls, 'of the right kind')
        if part == 'cpu_stats':
            ensure(x.throttling_data is None, 'no data')
        else:
            ensure(same(getattr(x, field), v), 'with the field')
        if inner == 'object':
            ensure(x is given, 'the very object')
    d = out.value.to_dict()
    ensure(set(d) == set(PARTS), 'dictionary form has all parts')
    for k in PARTS:
        ensure((d[k] is None) == (k != part or x is None), k)
    again = stats.ProviderStats(**d)
    ensure(same(again.to_dict(), d), 'round trip')


DATA = {'cpu_usage': (stats.CpuUsage, 'percpu_usage'),
        'throttling_data': (stats.ThrottlingData, 'periods')}


@lemma('C20', params=sorted(DATA),
       targets=['golem_messages.datastructures.stats.CpuStats'])
def cpu_stats(part):
    cls, field = DATA[part]
    v = any_val('value', ('none', 'int', 'str', 'bool'))
    key = choice('key', (field, 'nonsense'))
    out = attempt(stats.CpuStats, **{part: {key: v}})
    ensure(iff(out.ok, key == field), 'only the known keys')
    if not out.ok:
        ensure(out.raised(exceptions.MessageError), 'message error')
        return
    x = getattr(out.value, part)
    ensure(type(x) is cls, 'kind')
    ensure(same(x[field], v), 'value')
    d = out.value.to_dict()
    ensure(same(d[part][field], v), 'dictionary form')
    ensure(set(d[part]) == set(cls.ITEMS), 'complete')
    ensure(same(stats.CpuStats(**d).to_dict(), d), 'round trip')
