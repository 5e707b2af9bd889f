"""C21: validated and frozen dictionaries never hold what they must not."""
from vc import *  # noqa
from golem_messages import datastructures, exceptions, validators
from golem_messages.datastructures import p2p, stats


class Recorder(datastructures.SetItemDict):
    """Every way of filling it must go through item assignment."""

    def __setitem__(self, key, value):
        super().__setitem__(key, ('via setitem', value))


class Frozen(datastructures.FrozenDict):
    ITEMS = {'a': 7, 'b': [], 'c': {'k': [1]}, 'd': None}


class Checked(datastructures.ValidatingDict):
    def validate_a(self, value):
        validators.validate_integer('a', value)


FROZEN = (Frozen, stats.BlockIoEntry, stats.CpuUsage, stats.ThrottlingData,
          stats.MemoryData)


def some_items(keys, label='v'):
    """Any subset of keys, with arbitrary values"""
    out = {}
    for k in keys:
        if choice(label + ' has ' + k, (False, True)):
            out[k] = any_val(label + ' ' + k)
    return out


@lemma('C21', params=('dict', 'pairs', 'kwargs', 'both'),
       targets=['golem_messages.datastructures.SetItemDict.__init__'])
def construction_uses_item_assignment(how):
    given = some_items(('x', 'y'))
    more = some_items(('y', 'z'), 'w') if how == 'both' else {}
    if how == 'dict':
        d = Recorder(given)
    elif how == 'pairs':
        d = Recorder(list(given.items()))
    elif how == 'kwargs':
        d = Recorder(**given)
    else:
        d = Recorder(given, **more)
    want = dict(given)
    want.update(more)
    ensure(len(d) == len(want), 'exactly the given keys')
    ensure(all_([k in d and same(d[k], ('via setitem', want[k]))
                 for k in want]),
           'every value went through item assignment; keywords win')
    cover('constructed')


@lemma('C21', targets=['golem_messages.datastructures.SetItemDict.__init__'])
def construction_empty():
    ensure(len(Recorder()) == 0, 'empty')
    ensure(len(Recorder({})) == 0, 'empty from dict')
    ensure(len(Recorder([])) == 0, 'empty from pairs')


@lemma('C21', params=FROZEN,
       targets=['golem_messages.datastructures.FrozenDict.__init__'])
def frozen_construction(cls):
    given = some_items(sorted(cls.ITEMS))
    d = attempt(cls, given) if choice('how', ('dict', 'kwargs')) == 'dict' \
        else attempt(cls, **given)
    ensure(d.ok, 'allowed keys are accepted')
    if not d.ok:
        return
    d = d.value
    ensure(set(d) == set(cls.ITEMS), 'has exactly the allowed keys')
    for k in cls.ITEMS:
        want = given[k] if k in given else cls.ITEMS[k]
        ensure(same(d[k], want), 'given value or default: ' + k)
    cover('constructed')


@lemma('C21', params=FROZEN,
       targets=['golem_messages.datastructures.FrozenDict.__setitem__'])
def frozen_rejects_unknown_keys(cls):
    key = any_str('key')
    value = any_val('value')
    known = key in cls.ITEMS
    how = choice('how', ('dict', 'pairs', 'assign'))
    before = cls()
    if how == 'dict':
        out = attempt(cls, {key: value})
    elif how == 'pairs':
        out = attempt(cls, [(key, value)])
    else:
        d = cls()

        def put():
            d[key] = value
        out = attempt(put)
    ensure(iff(out.ok, known), 'accepted iff the key is allowed')
    if not out.ok:
        cover('rejects')
        ensure(out.raised(KeyError), 'unknown key: KeyError')
        if how == 'assign':
            ensure(same(dict(d), dict(before)), 'a rejected assignment '
                   'changes nothing')
    else:
        cover('accepts')
        d = d if how == 'assign' else out.value
        ensure(len(d) == len(cls.ITEMS), 'no key is added')
        for k in cls.ITEMS:
            ensure(implies(key == k, same(d[k], value)),
                   'the value is stored')
            ensure(or_(key == k, same(d[k], before[k])),
                   'other entries are untouched')


@lemma('C21', params=(Frozen, stats.CpuUsage),
       targets=['golem_messages.datastructures.FrozenDict._set_defaults'])
def frozen_defaults_are_not_shared(cls):
    d = cls()
    orig = {k: snapshot(v) for k, v in cls.ITEMS.items()}
    for k, v in d.items():
        if isinstance(v, list):
            v.append('changed')
        if isinstance(v, dict):
            v['k'].append('changed')
            v['new'] = 1
    e = cls()
    for k in orig:
        ensure(same(e[k], orig[k]),
               'changing one instance does not change the next: ' + k)
        ensure(same(cls.ITEMS[k], orig[k]), 'nor the defaults: ' + k)


@lemma('C21', params=FROZEN + (p2p.Peer,),
       targets=['golem_messages.datastructures.FrozenDict.__setattr__'])
def frozen_attributes_are_read_only(cls):
    name = choice('name', ('a', 'ITEMS', 'address', 'x'))
    d = cls() if cls is not p2p.Peer else None
    if d is None:
        d = p2p.Peer.__new__(p2p.Peer)
    out = attempt(setattr, d, name, any_val('v'))
    ensure(out.raised(AttributeError), 'no attribute can be set')


@lemma('C21',
       targets=['golem_messages.datastructures.ValidatingDict.__setitem__'])
def validating_dict():
    old = any_int('old')
    value = any_val('value')
    how = choice('how', ('dict', 'pairs', 'kwargs', 'assign'))
    if how == 'dict':
        out = attempt(Checked, {'a': value, 'z': value})
    elif how == 'pairs':
        out = attempt(Checked, [('a', value), ('z', value)])
    elif how == 'kwargs':
        out = attempt(Checked, a=value, z=value)
    else:
        d = Checked(a=old)

        def put():
            d['a'] = value
            d['z'] = value
        out = attempt(put)
    ensure(iff(out.ok, is_int(value)), 'stored iff the validator accepts')
    if out.ok:
        cover('accepts')
        d = d if how == 'assign' else out.value
        ensure(same(d['a'], value), 'the value is stored')
        ensure(same(d['z'], value), 'keys without a validator take any value')
        ensure(len(d) == 2, 'nothing else')
    else:
        cover('rejects')
        ensure(out.raised(exceptions.FieldError), 'field error')
        ensure(out.exc.field == 'a', 'names the field')
        if how == 'assign':
            ensure(same(d['a'], old), 'the old value stays')
            ensure('z' not in d, 'nothing else is stored')


@lemma('C21',
       targets=['golem_messages.datastructures.ValidatingDict.__setitem__'])
def validating_dict_any_key():
    key = any_str('key')
    value = any_val('value')
    assume(key != 'a')
    d = Checked()

    def put():
        d[key] = value
    ensure(attempt(put).ok, 'no validator: anything goes')
    ensure(len(d) == 1, 'stored once')
    ensure(same(d[key], value), 'as given')


@lemma('C21', targets=['golem_messages.datastructures.p2p.Peer'])
def validated_and_frozen():
    """The combination used for peers: unknown keys are refused even when a
    validator of that name exists, invalid values are refused."""
    class Both(datastructures.ValidatingDict, datastructures.FrozenDict):
        ITEMS = {'a': 5, 'b': None}

        def validate_a(self, value):
            validators.validate_positive_integer('a', value)

        def validate_zz(self, value):
            pass
    key = any_str('key')
    value = any_val('value')
    assume(not_(kind(value, 'float')))
    out = attempt(Both, {key: value})
    good = and_(kind(value, 'int'), as_int(value) >= 1)
    ensure(iff(out.ok, or_(key == 'b', and_(key == 'a', good))),
           'accepted iff allowed and valid')
    if out.ok:
        cover('accepts')
        d = out.value
        ensure(len(d) == 2, 'all keys present')
        ensure(implies(key == 'a', same(d['a'], value)), 'a stored')
        ensure(implies(key == 'a', d['b'] is None), 'b default')
        ensure(implies(key == 'b', same(d['b'], value)), 'b stored')
        ensure(implies(key == 'b', same(d['a'], 5)), 'a default')
    else:
        cover('rejects')
        ensure(out.raised(KeyError, exceptions.FieldError), 'error kinds')
