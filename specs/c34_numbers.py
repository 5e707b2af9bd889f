"""C34: numbers, headers and lists in received messages."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions
from golem_messages.message import tasks as msg_tasks

W = 'golem_messages.message.tasks.WantToComputeTask.'
T = 'golem_messages.message.tasks.TaskToCompute.'
R = 'golem_messages.message.tasks.ReportComputedTask.'
P = 'golem_messages.message.p2p.'
# field: the least value (None: any integer), is it optional?
NUMBERS = {
    ('WantToComputeTask', 'num_subtasks'): (1, False),
    ('WantToComputeTask', 'cpu_usage'): (0, True),
    ('TaskToCompute', 'price'): (None, False),
    ('TaskToCompute', 'size'): (None, False),
}
FIELDS_OF = {
    ('Peers', 'peers'): [P + 'Peers.deserialize_slot'],
    ('Tasks', 'tasks'): [P + 'Tasks.deserialize_slot'],
}


def good_number(key, v):
    least, optional = NUMBERS[key]
    if kind(v, 'none'):
        return optional
    if not is_int(v):
        return False
    return True if least is None else as_int(v) >= least


def rejected(out, f, v):
    ensure(out.raised(exceptions.FieldError), 'a field error')
    ensure(out.exc.field == f, 'about this field')
    ensure(same(out.exc.value, v), 'with the value')


@lemma('C34', params=sorted(NUMBERS), targets=[
    W + 'deserialize_slot', T + 'deserialize_slot'])
def number(name, f):
    """Whole numbers of at least the least value, and nothing else"""
    v = any_wire('value')
    out = attempt(by_name(name)().deserialize_slot, f, v)
    ensure(iff(out.ok, good_number((name, f), v)), 'accepted iff sensible')
    if out.ok:
        cover('accepted')
        ensure(same(out.value, v), 'as it was sent')
    else:
        cover('refused')
        rejected(out, f, v)


@lemma('C34', params=sorted(NUMBERS), targets=[
    W + 'deserialize_slot', T + 'deserialize_slot'])
def number_in_a_message(name, f):
    """... whatever else is in the message"""
    v = any_wire('value')
    rest = [[g, None] for g in FIELDS[name]
            if g not in (f, 'num_subtasks', 'price', 'size', 'task_header',
                         'want_to_compute_task', 'compute_task_def')]
    where = choice('where', ('first', 'last'))
    slots = [[f, v]] + rest if where == 'first' else rest + [[f, v]]
    out = attempt(by_name(name), slots=slots)
    ensure(iff(out.ok, good_number((name, f), v)), 'accepted iff sensible')
    if out.ok:
        ensure(same(getattr(out.value, f), v), 'as it was sent')
    else:
        rejected(out, f, v)


@lemma('C34', targets=[
    'golem_messages.message.tasks.ConcentEnabled.__init__'])
def with_or_without_concent():
    """Whether Concent takes part is always told by true or false"""
    name = choice('class', ('WantToComputeTask', 'TaskToCompute'))
    how = choice('given as', ('argument', 'received', 'missing'))
    v = any_wire('value')
    f = 'concent_enabled'
    if how == 'argument':
        m = by_name(name)(**{f: v})
    elif how == 'received':
        m = by_name(name)(slots=[[f, v]])
    else:
        m = by_name(name)()
    x = getattr(m, f)
    ensure(or_(x is True, x is False), 'true or false')
    if how == 'missing':
        ensure(x is False, 'no unless told')
    else:
        ensure(iff(x, bool(v)), 'as it was given')


# --------------------------------------------------------------- the lists
LISTS_OF = {('Peers', 'peers'): 'Peer', ('Tasks', 'tasks'): 'TaskHeader'}


@lemma('C34', params=sorted(LISTS_OF), targets=[
    P + 'Peers.deserialize_peer_list', P + 'Tasks.deserialize_tasks'])
def only_lists(name, f):
    """Where a list is expected nothing but a list is accepted"""
    v = any_wire('value')
    assume(not_(kind(v, 'list')))
    out = attempt(by_name(name)().deserialize_slot, f, v)
    rejected(out, f, v)


def header_of(tag):
    return task_header(tag).to_dict()


def peer_of(tag):
    return peer(tag).serialize()


@lemma('C34', params=sorted(LISTS_OF), targets=[
    P + 'Peers.deserialize_peer_list', P + 'Tasks.deserialize_tasks',
    P + 'Peers.serialize_peer_list', P + 'Tasks.serialize_tasks'])
def elements(name, f):
    """Each element in its place, none missing, none added, however many"""
    make = peer_of if f == 'peers' else header_of
    sent = any_list('sent', make)
    m = by_name(name)(slots=[[f, sent]])
    got = getattr(m, f)
    ensure(isinstance(got, list), 'a list')
    ensure(len(got) == len(sent), 'as many')
    again = m.serialize_slot(f, got)
    ensure(isinstance(again, list), 'sent as a list')
    ensure(len(again) == len(sent), 'sent as many')
    i = any_int('index', 0)
    assume(i < len(sent))
    cover('an element')
    ensure(type(got[i]).__name__ == LISTS_OF[name, f], 'of these')
    back = got[i].serialize() if f == 'peers' else got[i].to_dict()
    ensure(same(back, sent[i]), 'as it was sent')
    ensure(same(again[i], sent[i]), 'and sent on the same')


def refused(name, f, make, bad):
    """The bad one among any number of good ones, anywhere"""
    good = any_list('good', make)
    place = any_int('place', 0)
    assume(place <= len(good))
    out = attempt(by_name(name), slots=[[f, inserted(good, place, bad)]])
    if out.ok:
        # lists are received by an argument for any element of them: this one
        getattr(out.value, f)[place]
    return out


@lemma('C34', params=[('address', ), ('port', ), ('node', )],
       targets=[P + 'Peers.deserialize_peer_list'])
def one_bad_peer(part):
    """One peer that is not valid makes the message refused, wherever it
    is"""
    bad = peer_of('bad')
    v = any_wire('value')
    if part == 'address':
        assume(not_(and_(kind(v, 'str'), is_ip(v)))
               if kind(v, 'str') else not_(or_(
                   kind(v, 'int'), kind(v, 'bytes'), kind(v, 'bool'))))
    elif part == 'port':
        if is_int(v):
            assume(or_(as_int(v) < 1, as_int(v) > 65534))
    else:
        assume(not_(kind(v, 'dict')))
    bad[part] = v
    out = refused('Peers', 'peers', peer_of, bad)
    ensure(out.raised(exceptions.FieldError), 'a field error')
    ensure(out.exc.field == part, 'about this part')


@lemma('C34', params=[('subtasks_count', ), ('min_version', ),
                      ('task_owner', ), ('element', )],
       targets=[P + 'Tasks.deserialize_tasks'])
def one_bad_header(part):
    """... and so does a task header"""
    bad = header_of('bad')
    v = any_wire('value')
    if part == 'subtasks_count':
        if is_int(v):
            assume(as_int(v) < 1)
    elif part == 'min_version':
        if kind(v, 'str'):
            assume(not_(is_version(v)))
    else:
        assume(not_(kind(v, 'dict')))
    if part == 'element':
        bad = v
    else:
        bad[part] = v
    out = refused('Tasks', 'tasks', header_of, bad)
    ensure(out.raised(exceptions.FieldError), 'a field error')
    ensure(out.exc.field == ('tasks' if part == 'element' else part),
           'about this part')


@lemma('C34', params=sorted(LISTS_OF), targets=[
    P + 'Peers.deserialize_peer_list', P + 'Tasks.deserialize_tasks'])
def no_structure(name, f):
    """An element which is nothing of the kind is not passed over either"""
    bad = any_val('value', ('none', 'bool', 'int', 'float', 'str', 'bytes'))
    out = refused(name, f, peer_of if f == 'peers' else header_of, bad)
    ensure(out.raised(exceptions.MessageError), 'refused')


@lemma('C34', params=[('Peers', 'peers', k) for k in range(8)] + [
    ('Tasks', 'tasks', k) for k in range(8)], targets=[
    P + 'Peers.deserialize_peer_list', P + 'Tasks.deserialize_tasks'])
def parts_missing(name, f, some):
    """An element with some of its parts only, or none at all"""
    make = peer_of if f == 'peers' else header_of
    needed = ('address', 'port', 'node') if f == 'peers' else (
        'task_id', 'subtasks_count', 'task_owner')
    whole = make('bad')
    bad = {k: whole[k] for i, k in enumerate(needed) if some & 1 << i}
    out = refused(name, f, make, bad)
    if f == 'peers' and some == 7:
        ensure(out.ok, 'nothing is missing')
    else:
        ensure(out.raised(exceptions.FieldError), 'a field error')
