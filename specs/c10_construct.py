"""C10: making a message and comparing messages."""
import copy

from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions

INIT = 'golem_messages.message.base.Message.__init__'
LOAD = 'golem_messages.message.base.Message.load_slots'
EQ = 'golem_messages.message.base.Message.__eq__'

# what a field holds if it is not given
EMPTY = {('Peers', 'peers'), ('Tasks', 'tasks'), ('Gossip', 'gossip'),
         ('ResourcePeers', 'resource_peers')}


def default(name, f):
    if (name, f) in EMPTY:
        return []
    if f == 'concent_enabled':
        return False
    if (name, f) == ('WantToComputeTask', 'num_subtasks'):
        return 1
    if (name, f) == ('TaskFailure', 'reason'):
        return tasks.TaskFailure.REASON.ComputationError
    return None


@lemma('C10', params=NAMES, targets=[INIT, LOAD])
def defaults(name):
    """A message made of nothing"""
    now = now_s()
    a, b = by_name(name)(), by_name(name)()
    for f in FIELDS[name]:
        x = getattr(a, f)
        d = default(name, f)
        ensure(type(x) is type(d) and x == d, f + ' is empty')
        if isinstance(d, list):
            ensure(x is not getattr(b, f), f + ' is not shared')
    ensure(type(a.header) is datastructures.MessageHeader, 'header')
    ensure(a.header.type_ == NUMBER[name], 'type')
    ensure(eq(a.timestamp, now), 'the present time')
    ensure(a.encrypted is False, 'not encrypted')
    ensure(a.sig is None, 'not signed')


@lemma('C10', params=NAMES, targets=[INIT, LOAD])
def given_fields(name):
    """Each field given by its name is what was given, the others are as
    if nothing was given, and so are header and signature"""
    given = [f for f in FIELDS[name]]
    if given:
        given = [choice('field', given + ['all'])]
        if given == ['all']:
            given = FIELDS[name]
    kw = {}
    for f in given:
        kw[f] = field_value(name, f, '', 3)
    h, sig = header(name), any_bytes('sig', n=65)
    m = by_name(name)(header=h, sig=sig, **kw)
    for f in FIELDS[name]:
        x = getattr(m, f)
        d = default(name, f)
        if f not in kw:
            ensure(type(x) is type(d) and x == d, f + ' is empty')
        elif f == 'concent_enabled':
            ensure(x is kw[f] or same(x, kw[f]), f + ' as given')
        elif (name, f) in EMPTY:
            if kw[f]:
                ensure(x is kw[f] or same(x, kw[f]), f + ' as given')
            else:
                ensure(type(x) is list and x == [], f + ' is empty')
        elif d is not None and kind(kw[f], 'none'):
            ensure(x == d, f + ' as given')
        else:
            ensure(x is kw[f] or same(x, kw[f]), f + ' as given')
    ensure(m.header is h, 'header as given')
    ensure(m.sig is sig or same(m.sig, sig), 'signature as given')


@lemma('C10', params=NAMES, targets=[INIT])
def unknown_fields(name):
    """There are no other fields"""
    out = attempt(by_name(name), no_such_field=any_int('value'))
    ensure(out.raised(AttributeError), 'refused')
    m = by_name(name)()
    out = attempt(setattr, m, 'no_such_field', 1)
    ensure(out.raised(AttributeError), 'nor later')


@lemma('C10', params=NAMES, targets=[EQ])
def equal_to_itself(name):
    m = any_message(name)
    ensure(m == m, 'itself')
    ensure(not m != m, 'not different')
    c = copy.copy(m)
    ensure(m == c and c == m, 'a copy')
    c.encrypted = not m.encrypted
    ensure(m == c and c == m, 'encrypted or not')


@lemma('C10', params=NAMES, targets=[EQ])
def not_equal_to_others(name):
    """Other classes, other things"""
    m = any_message(name)
    v = any_wire('other')
    ensure(not_(m == v), 'a value')
    ensure(m != v, 'a value')
    other = choice('class', [n for n in ('RandVal', 'Ping', 'Hello',
                                         'Disconnect', 'RemoveTask')
                             if n != name])
    x = by_name(other)(header=m.header, sig=m.sig)
    ensure(not_(m == x), 'another class')
    ensure(not_(x == m), 'another class, the other way round')


@lemma('C10', params=NAMES, targets=[EQ])
def same_time_and_signature(name):
    """A message differs from its copy with another time or signature or
    type number"""
    m = any_message(name)
    c = copy.copy(m)
    how = choice('what', ('time', 'signature', 'type'))
    if how == 'time':
        c.header = header(name, 'other ')
        good = c.timestamp == m.timestamp
    elif how == 'signature':
        c.sig = choice('signature', (None, any_bytes('other sig', n=65)))
        good = c.sig is not None and eq(c.sig, m.sig)
    else:
        t = any_int('type', 0, 65535)
        c.header = datastructures.MessageHeader(t, m.timestamp, False)
        good = t == NUMBER[name]
    ensure(iff(m == c, good), 'equal iff the same')
    ensure(iff(c == m, good), 'both ways')


def equal_contents(name, a, b):
    """Every field is equal, in wire form"""
    out = []
    for f in FIELDS[name]:
        x, y = getattr(a, f), getattr(b, f)
        if f in NESTED.get(name, {}):
            if x is None or y is None:
                out.append(x is y)
                continue
            out.append(and_(x.header == y.header, x.sig == y.sig,
                            equal_contents(type(x).__name__, x, y)))
            continue
        if f in NODES.get(name, ()) or f in ('task_header', 'stats'):
            x, y = x.to_dict(), y.to_dict()
        out.append(x == y)
    return and_(*out)


@lemma('C10', params=[n for n in NAMES if FIELDS[n] and n not in LISTS],
       targets=[EQ])
def same_contents(name):
    """Equal exactly if every field is equal"""
    a = any_message(name, 'a/')
    b = any_message(name, 'b/')
    b.header, b.sig = a.header, a.sig
    if name == 'Hello':
        b._version = a._version
    ensure(iff(a == b, equal_contents(name, a, b)),
           'equal iff the same contents')


@lemma('C10', targets=['golem_messages.message.base.Hello.__eq__'])
def same_version():
    a = any_message('Hello', 'a/')
    b = copy.copy(a)
    b._version = any_str('version')
    ensure(iff(a == b, eq(a._version, b._version)), 'equal iff the same')
    ensure(iff(b == a, eq(a._version, b._version)), 'both ways')
