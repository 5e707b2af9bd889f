"""C08: messages included in messages."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions

SLOTS = [(n, f) for n in NAMES for f in NESTED.get(n, {})]
D = 'golem_messages.message.base.Message.'
DESERIALIZE = [D + 'deserialize_slot', D + 'deserialize_message',
               D + 'deserialize_message_single']
SERIALIZE = [D + 'serialize_slot', D + 'serialize_message',
             D + 'serialize_message_single']
# included messages with fields of one kind only
PLAIN = [(n, f) for n, f in SLOTS if f == 'remove_tasks']


def slot_of(name, f):
    """class of the included message, may be nothing, is a list"""
    k = NESTED[name][f]
    return k.strip('?*'), k[-1] == '?', k[-1] == '*'


def envelope(tag, inner):
    """The wire form of a message of the class, down to its fields (which
    are left out)"""
    h = [any_wire(tag + 'type'), any_wire(tag + 'time'),
         any_wire(tag + 'encrypted')]
    return h, any_wire(tag + 'sig')


@lemma('C08', params=SLOTS, targets=DESERIALIZE)
def nothing(name, f):
    """Nothing is accepted exactly where it is documented"""
    klass, optional, is_list = slot_of(name, f)
    m = by_name(name)()
    flag = any_wire('flag')
    out = attempt(m.deserialize_slot, f, [flag, None])
    ensure(out.ok == optional, 'accepted iff documented')
    if out.ok:
        ensure(out.value is None, 'and stands for nothing')
    else:
        ensure(out.raised(exceptions.FieldError), 'a field error')
        ensure(out.exc.field == f, 'about this field')


@lemma('C08', params=SLOTS, targets=DESERIALIZE)
def list_or_not(name, f):
    """A list where one message is expected, or the other way round"""
    klass, optional, is_list = slot_of(name, f)
    m = by_name(name)()
    v = any_wire('value')
    assume(not kind(v, 'none'))
    out = attempt(m.deserialize_slot, f, [not is_list, v])
    ensure(out.raised(exceptions.FieldError), 'refused')
    ensure(out.exc.field == f, 'about this field')
    ensure(same(out.exc.value, v), 'with the value')


@lemma('C08', params=SLOTS, targets=DESERIALIZE)
def broken_form(name, f):
    """What is not a pair is refused, whatever it is"""
    m = by_name(name)()
    v = any_val('value', kinds='none bool int float str bytes'.split())
    assume(not (kind(v, 'str') or kind(v, 'bytes')) or len(v) != 2)
    out = attempt(m.deserialize_slot, f, v)
    ensure(out.raised(exceptions.FieldError), 'refused')
    ensure(out.exc.field == f, 'about this field')
    n = choice('items', (0, 1, 3))
    v = [any_wire('item %d' % i) for i in range(n)]
    out = attempt(m.deserialize_slot, f, v)
    ensure(out.raised(exceptions.FieldError), 'refused: no pair')
    ensure(out.exc.field == f, 'about this field: no pair')


@lemma('C08', params=SLOTS, targets=DESERIALIZE)
def broken_message(name, f):
    """What is not header, signature and fields is refused"""
    klass, optional, is_list = slot_of(name, f)
    m = by_name(name)()
    v = any_val('value', kinds='bool int float'.split())
    if choice('how', ('no triple', 'wrong number')) == 'wrong number':
        v = [any_wire('item %d' % i) for i in range(
            choice('items', (0, 1, 2, 4)))]
    elif choice('header', ('fine', 'broken')) == 'broken':
        v = [any_val('header', kinds=['none', 'bool', 'int', 'float']),
             any_wire('sig'), []]
    out = attempt(m.deserialize_slot, f, [is_list, [v] if is_list else v])
    ensure(out.raised(exceptions.FieldError), 'refused')
    ensure(out.exc.field == f, 'about this field')


@lemma('C08', params=SLOTS, targets=DESERIALIZE)
def header_and_signature(name, f):
    """An included message has the class documented for the field, its own
    header and its own signature"""
    klass, optional, is_list = slot_of(name, f)
    m = by_name(name)()
    h, sig = envelope('', klass)
    v = [h, sig, []]
    out = attempt(m.deserialize_slot, f, [is_list, [v] if is_list else v])
    ensure(out.ok, 'accepted')
    r = out.value
    if is_list:
        ensure(type(r) is list and len(r) == 1, 'a list')
        r = r[0]
    ensure(type(r) is by_name(klass), 'class')
    ensure(type(r.header) is datastructures.MessageHeader, 'header')
    ensure(all_(same(x, y) for x, y in zip(r.header, h)), 'header values')
    ensure(same(r.sig, sig), 'signature')


@lemma('C08', params=[s for s in SLOTS if slot_of(*s)[2]],
       targets=DESERIALIZE)
def lists_of_any_length(name, f):
    """A list of messages of any length: refused altogether if an element
    is not a message, else each element in its place"""
    klass = slot_of(name, f)[0]
    m = by_name(name)()
    v = any_list('value', lambda t: [
        [any_wire(t + 'type'), any_wire(t + 'time'), any_wire(t + 'enc')],
        any_wire(t + 'sig'), []])
    out = attempt(m.deserialize_slot, f, [True, v])
    ensure(out.ok, 'accepted')
    ensure(len(out.value) == len(v), 'length')
    i = any_int('index', 0)
    assume(i < len(v))
    ensure(type(out.value[i]) is by_name(klass), 'class')
    ensure(all_(same(x, y) for x, y in zip(out.value[i].header, v[i][0])),
           'header')
    ensure(same(out.value[i].sig, v[i][1]), 'signature')


@lemma('C08', params=[s for s in SLOTS if slot_of(*s)[2]],
       targets=DESERIALIZE)
def lists_of_anything(name, f):
    m = by_name(name)()
    v = any_list('value', lambda t: any_val(
        t, kinds='none bool int float'.split()))
    out = attempt(m.deserialize_slot, f, [True, v])
    if out.ok:
        if len(v) > 0:
            ensure(out.value[0] is None, 'no element is accepted')
        ensure(len(v) == 0, 'only the empty one')
    else:
        ensure(out.raised(exceptions.FieldError), 'a field error')
        ensure(out.exc.field == f, 'about this field')


@lemma('C08', params=SLOTS, targets=SERIALIZE)
def sending_nothing(name, f):
    klass, optional, is_list = slot_of(name, f)
    m = by_name(name)()
    setattr(m, f, None)
    out = attempt(m.serialize_slot, f, None)
    ensure(out.ok == optional, 'sent iff documented')
    if out.ok:
        ensure(out.value == (False, None), 'as nothing')
    else:
        ensure(out.raised(exceptions.FieldError), 'a field error')
        ensure(out.exc.field == f, 'about this field')


@lemma('C08', params=SLOTS, targets=SERIALIZE)
def sending_something_else(name, f):
    """Anything but messages of the documented class is refused"""
    klass, optional, is_list = slot_of(name, f)
    m = by_name(name)()
    what = choice('what', ('value', 'another message', 'a listed value',
                           'a message amid others'))
    if what == 'value':
        v = any_val('value', kinds='bool int float str bytes dict'.split())
    elif what == 'another message':
        other = choice('other', NAMES)
        v = by_name(other)()
        assume(other != klass)
    elif what == 'a listed value':
        v = [any_wire('element')]
    else:
        v = [by_name(klass)(), by_name('Ping')(), by_name(klass)()]
        if any(x in NESTED.get(klass, {}) for x in FIELDS[klass]):
            v = [by_name('Ping')()]
    setattr(m, f, v)
    bad = v[0] if what == 'a listed value' else v
    out = attempt(m.slots)
    ensure(not out.ok, 'refused')
    ensure(out.raised(exceptions.FieldError), 'a field error')
    out = attempt(m.serialize_slot, f, v)
    ensure(out.raised(exceptions.FieldError), 'refused: field')
    ensure(out.exc.field == f, 'about this field')
    if what != 'a message amid others':
        ensure(out.exc.value is bad or same(out.exc.value, bad),
               'with the value')


@lemma('C08', params=SLOTS, targets=SERIALIZE)
def sending(name, f):
    """An included message is sent with its own header, signature and
    fields, unchanged"""
    klass, optional, is_list = slot_of(name, f)
    m = by_name(name)()
    one = any_message(klass, 'one/', depth=2)
    if is_list:
        two = any_message(klass, 'two/', depth=2)
        v = [one, two]
    else:
        v = one
    before = cbor(one.slots())
    out = attempt(m.serialize_slot, f, v)
    ensure(out.ok, 'sent')
    flag, body = out.value
    ensure(flag is is_list, 'flag')
    if is_list:
        ensure(len(body) == 2, 'length')
        ensure(same(list(body[1][0]), list(two.header)), 'second header')
        ensure(same(body[1][1], two.sig), 'second signature')
        body = body[0]
    h, sig, fields = body
    ensure(same(list(h), list(one.header)), 'header')
    ensure(same(sig, one.sig), 'signature')
    ensure(eq(cbor(fields), before), 'fields')
