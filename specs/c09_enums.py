"""C09: fields with an enumerated set of values."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions

SLOTS = [(n, f) for n in NAMES for f in ENUMS.get(n, {})]
D = 'golem_messages.message.base.Message.'
DESERIALIZE, SERIALIZE = D + 'deserialize_slot', D + 'serialize_slot'


@lemma('C09', params=SLOTS, targets=[DESERIALIZE])
def received(name, f):
    """Exactly the published texts (and nothing at all) are accepted, each
    for its own member"""
    texts = ENUMS[name][f]
    m = by_name(name)()
    v = any_wire('value', hint=list(texts.values()))
    out = attempt(m.deserialize_slot, f, v)
    good = or_(kind(v, 'none'), *[eq(v, t) for t in texts.values()])
    ensure(iff(out.ok, good), 'accepted iff published')
    if out.ok:
        if out.value is None:
            ensure(kind(v, 'none'), 'nothing for nothing')
        else:
            cover('a member')
            ensure(type(out.value) is enum_of(name, f), 'a member')
            ensure(eq(v, texts[out.value.name]), 'the member of its text')
    else:
        cover('refused')
        ensure(out.raised(exceptions.FieldError), 'a field error')
        ensure(out.exc.field == f, 'about this field')
        ensure(same(out.exc.value, v), 'with the value')


@lemma('C09', params=SLOTS, targets=[DESERIALIZE, SERIALIZE])
def published_members(name, f):
    """The members are the published ones; each is sent as its text, which
    is received as the member"""
    texts = ENUMS[name][f]
    e = enum_of(name, f)
    ensure({x.name: x.value for x in e} == texts, 'members and texts')
    ensure(len(e.__members__) == len(texts), 'no aliases')
    x = choice('member', list(e))
    m = by_name(name)()
    ensure(m.serialize_slot(f, x) == texts[x.name], 'sent as its text')
    ensure(type(m.serialize_slot(f, x)) is str, 'which is plain text')
    ensure(m.deserialize_slot(f, texts[x.name]) is x, 'and received')


@lemma('C09', params=SLOTS, targets=[
    DESERIALIZE, D + '__init__', D + 'load_slots'])
def in_a_message(name, f):
    """A message with anything else in such a field is not accepted"""
    texts = ENUMS[name][f]
    v = any_wire('value', hint=list(texts.values()))
    out = attempt(by_name(name), slots=[[f, v]])
    good = or_(kind(v, 'none'), *[eq(v, t) for t in texts.values()])
    ensure(iff(out.ok, good), 'accepted iff published')
    if out.ok:
        r = getattr(out.value, f)
        if (name, f) == ('TaskFailure', 'reason'):
            ensure(implies(kind(v, 'none'),
                           r is enum_of(name, f).ComputationError),
                   'the default')
            ensure(type(r) is enum_of(name, f), 'a member')
        else:
            ensure(iff(r is None, kind(v, 'none')), 'nothing')
            ensure(r is None or type(r) is enum_of(name, f), 'a member')
        if r is not None and not kind(v, 'none'):
            ensure(eq(v, texts[r.name]), 'the member of its text')
    else:
        ensure(out.raised(exceptions.FieldError), 'a field error')
        ensure(out.exc.field == f, 'about this field')
