"""Symbolic containers: lists of unknown length, dicts with unknown keys,
sets with symbolic membership."""
import z3

from . import ropes
from .sym import (E, Internal, PathEnd, Rope, SAny, SBool, SInt, Sym,
                  Unsupported, assumption, bounded, concrete_int, conj, disj,
                  imprecise, issym, narrow, neg, num_t, tb, truth, wrapb,
                  wrapn)


class SList(Sym):
    """An immutable list of unknown length; elem(i) is memoised."""
    __slots__ = ('name', 'n', '_elem', 'memo')
    __class__ = property(lambda self: list)

    def __init__(self, name, elem, n=None):
        self.name = name
        if n is None:
            n = z3.Int(name + '.len')
            E.pm.add(n >= 0)
        self.n = n
        self._elem = elem
        self.memo = {}

    def elem(self, i):
        key = i if isinstance(i, int) else z3.simplify(i)
        k = key if isinstance(key, int) else (
            key.as_long() if z3.is_int_value(key) else key.get_id())
        if k not in self.memo:
            self.memo[k] = (self._elem(key), key)
        return self.memo[k][0]

    def vc_truth(self):
        return wrapb(self.n > 0)

    def __bool__(self):
        return E.pm.fork(self.n > 0)

    def __len__(self):
        return concrete_int(wrapn(self.n, False))

    def __iter__(self):
        i = 0
        while E.pm.fork(self.n > i):
            if i >= E.unroll:
                bounded('loop over a list of unknown length: first %d '
                        'elements' % E.unroll)
                raise PathEnd()
            yield self.elem(i)
            i += 1

    def __getitem__(self, k):
        if isinstance(k, slice):
            return list(self)[k]
        if type(k) is SInt:
            if E.pm.fork(z3.Or(k.t >= self.n, k.t < -self.n)):
                raise IndexError('list index out of range')
            if E.pm.fork(k.t < 0):
                return self.elem(self.n + k.t)
            return self.elem(k.t)
        k = concrete_int(k)
        if k >= 0:
            if not E.pm.fork(self.n > k):
                raise IndexError('list index out of range')
            return self.elem(k)
        if not E.pm.fork(self.n >= -k):
            raise IndexError('list index out of range')
        return self.elem(self.n + k)

    def __eq__(self, o):
        o = narrow(o)
        if o is self:
            return True
        if not isinstance(o, list):
            return False
        if type(o) is SList:
            if len(o.memo) == 0 and len(self.memo) == 0:
                pass
            return list(self) == list(o)
        if not E.pm.fork(self.n == len(o)):
            return False
        return conj(*[truth(self.elem(i) == x) for i, x in enumerate(o)])

    __hash__ = None

    def __contains__(self, x):
        for y in self:
            if y is x or y == x:
                return True
        return False

    def __add__(self, o):
        return list(self) + list(o)

    def __radd__(self, o):
        return list(o) + list(self)

    def count(self, x):
        return list(self).count(x)

    def index(self, *a):
        return list(self).index(*a)

    def copy(self):
        return self

    def append(self, x):
        raise Unsupported('append to a list of unknown length')

    extend = insert = pop = remove = clear = sort = reverse = append
    __setitem__ = __delitem__ = append


def map_list(src, f, name):
    """[f(x) for x in src] for a list of unknown length, by induction on the
    list: either no element makes f raise - then element i of the result is
    f(src[i]) - or some element does, and its exception propagates."""
    pm = E.pm
    k = pm.choose([True, src.n > 0])
    if k == 1:
        i = z3.Int(pm.fresh('idx'))
        pm.add(z3.And(i >= 0, i < src.n))
        f(src.elem(i))
        raise PathEnd()      # this element does not raise: other branch

    def elem(i):
        try:
            return f(src.elem(i))
        except Internal:
            raise
        except Exception:
            raise PathEnd()
    return SList(name, elem, src.n)


class _NoDefault:
    pass


class SDict(Sym):
    """A dict whose keys are symbolically present.  entries: key -> [present,
    value]; default(key): value of a key outside entries, whose presence is
    then unknown (open dict), or None (closed dict)."""
    __slots__ = ('name', 'entries', 'default', 'others')
    __class__ = property(lambda self: dict)

    def __init__(self, name, entries, default=None, others=None):
        self.name = name
        self.entries = entries
        self.default = default
        self.others = others     # materialised further keys of an open dict

    def entry(self, k):
        """[present, value] for a concrete or symbolic key (may fork)."""
        k = narrow(k)
        if issym(k):
            if isinstance(k, Rope):
                for q, e in list(self.entries.items()):
                    if isinstance(q, str) and k == q:
                        return e
                    if q is k:
                        return e
                if self.default is None:
                    return [False, None]
                E.hash_ok += 1
                try:
                    e = [z3.Bool(E.pm.fresh(self.name + '.has')),
                         self.default(E.pm.fresh('k'))]
                    self.entries[k] = e
                finally:
                    E.hash_ok -= 1
                return e
            raise Unsupported('symbolic dict key')
        if k in self.entries:
            return self.entries[k]
        for q in list(self.entries):
            if issym(q) and q == k:
                return self.entries[q]
        if self.default is None:
            return [False, None]
        e = [z3.Bool('%s.has{%s}' % (self.name, k)), self.default(k)]
        self.entries[k] = e
        return e

    def has(self, k):
        return wrapb(self.entry(k)[0])

    def __contains__(self, k):
        return bool(self.has(k))

    def vc_contains(self, k):
        return self.has(k)

    def __getitem__(self, k):
        p, v = self.entry(k)
        if not E.pm.fork(tb(p)):
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        p, v = self.entry(k)
        return v if E.pm.fork(tb(p)) else d

    def pop(self, k, *d):
        e = self.entry(k)
        if E.pm.fork(tb(e[0])):
            v = e[1]
            e[0] = False
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def setdefault(self, k, d=None):
        e = self.entry(k)
        if E.pm.fork(tb(e[0])):
            return e[1]
        self[k] = d
        return d

    def __setitem__(self, k, v):
        k = narrow(k)
        if issym(k):
            e = self.entry(k)
            if e[1] is None and e[0] is False and self.default is None:
                E.hash_ok += 1
                try:
                    self.entries[k] = [True, v]
                finally:
                    E.hash_ok -= 1
                return
            e[0], e[1] = True, v
            return
        self.entries.pop(k, None)
        self.entries[k] = [True, v]

    def __delitem__(self, k):
        self.pop(k)

    def _open_rest(self, limit=1):
        if self.default is None:
            return
        if self.others is None:
            self.others = []
        i = 0
        while True:
            if i == len(self.others):
                self.others.append(z3.Bool('%s.more%d' % (self.name, i)))
            if not E.pm.fork(self.others[i]):
                return
            if i >= limit:
                bounded('iteration over a dict of unknown keys: at most one '
                        'unknown key')
                raise PathEnd()
            key = ropes.str_atom('%s.key%d' % (self.name, i))
            for q in list(self.entries):
                E.pm.add(tb(neg(key == q)))
            E.hash_ok += 1
            try:
                self.entries[key] = [True, self.default('key%d' % i)]
            finally:
                E.hash_ok -= 1
            yield key
            i += 1

    def __iter__(self):
        for k, e in list(self.entries.items()):
            if E.pm.fork(tb(e[0])):
                yield k
        for k in self._open_rest():
            yield k

    def keys(self):
        return list(self)

    def values(self):
        return [self.entry(k)[1] for k in self]

    def items(self):
        return [(k, self.entry(k)[1]) for k in self]

    def vc_len(self):
        if self.default is not None:
            return len(list(self))
        return wrapn(z3.Sum([z3.IntVal(0)] + [
            z3.If(tb(e[0]), 1, 0) for e in self.entries.values()]), False)

    def __len__(self):
        return len(list(self))

    def vc_truth(self):
        if self.default is None:
            return disj(*[wrapb(tb(e[0])) for e in self.entries.values()])
        if self.others is None:
            self.others = [z3.Bool('%s.more0' % self.name)]
        return disj(*([wrapb(tb(e[0])) for e in self.entries.values()]
                      + [wrapb(self.others[0])]))

    def __bool__(self):
        r = self.vc_truth()
        return r if r is True or r is False else E.pm.fork(r.t)

    def copy(self):
        return SDict(self.name, {k: list(e) for k, e in
                                 self.entries.items()}, self.default,
                     list(self.others) if self.others is not None else None)

    __copy__ = copy

    def update(self, *a, **k):
        for d in a:
            for key in (d.keys() if hasattr(d, 'keys') else []):
                self[key] = d[key]
        for key in k:
            self[key] = k[key]

    def clear(self):
        self.entries = {}
        self.default = None

    def __eq__(self, o):
        o = narrow(o)
        if o is self:
            return True
        if not isinstance(o, dict):
            return False
        return dict(self.items()) == (
            dict(o.items()) if type(o) is SDict else o)

    __hash__ = None

    def native(self):
        E.hash_ok += 1
        try:
            return {k: self.entries[k][1] for k in self}
        finally:
            E.hash_ok -= 1


def first(x, n):
    """The first n elements of x (or all, if there are fewer)"""
    if type(x) is SDict:
        out = []
        for k, e in list(x.entries.items()):
            if len(out) < n and E.pm.fork(tb(e[0])):
                out.append(k)
        rest = x._open_rest(n + 1)
        while len(out) < n:
            try:
                out.append(next(rest))
            except StopIteration:
                break
        return out
    if isinstance(x, ropes.Rope):
        out = []
        for i in range(n):
            if not ropes.len_ge(x, i + 1):
                break
            out.append(x[i])
        return out
    if type(x) is SList:
        out = []
        for i in range(n):
            if not E.pm.fork(x.n > i):
                break
            out.append(x.elem(i))
        return out
    return x


class SSet(Sym):
    """A finite set of known candidates with symbolic membership."""
    __slots__ = ('m', '_card')
    __class__ = property(lambda self: set)

    def __init__(self, m, card=None):
        self.m = m               # element -> True or z3 Bool
        self._card = card

    def card(self):
        key = frozenset((k, True if v is True else v.get_id())
                        for k, v in self.m.items())
        if self._card is None and key in E.pm.cards:
            self._card = E.pm.cards[key][0]
        if key not in E.pm.cards and self._card is not None:
            E.pm.cards[key] = self._card, list(self.m.values())
        if self._card is None:
            c = sum(1 for v in self.m.values() if v is True)
            s = [z3.If(v, 1, 0) for v in self.m.values() if v is not True]
            self._card = wrapn(z3.Sum(s + [z3.IntVal(c)]), False) if s else c
            E.pm.cards[key] = self._card, list(self.m.values())
        return self._card

    def vc_len(self):
        return self.card()

    def vc_truth(self):
        return disj(*[wrapb(tb(v)) for v in self.m.values()])

    def __bool__(self):
        r = self.vc_truth()
        return r if r is True or r is False else E.pm.fork(r.t)

    def __len__(self):
        return concrete_int(self.card())

    def __iter__(self):
        for k, v in list(self.m.items()):
            if E.pm.fork(tb(v)):
                yield k

    def vc_contains(self, k):
        if issym(k):
            return disj(*[conj(k == e, wrapb(tb(v)))
                          for e, v in self.m.items()])
        return wrapb(tb(self.m[k])) if k in self.m else False

    def __contains__(self, k):
        return bool(self.vc_contains(k))

    def __or__(self, o):
        o = as_sset(o)
        if o is None:
            return NotImplemented
        m = dict(self.m)
        inter = []
        for k, v in o.m.items():
            if k in m:
                inter.append((m[k], v))
                m[k] = _or(m[k], v)
            else:
                m[k] = v
        r = SSet(m)
        if not inter or all(_disjoint(a, b) for a, b in inter):
            r._card = self.card() + o.card()
            r.card()
        return r

    __ror__ = __or__
    __ior__ = __or__
    union = __or__

    def update(self, *os):
        for o in os:
            r = self | set_of(o)
            self.m, self._card = r.m, r._card

    def __and__(self, o):
        o = as_sset(o)
        if o is None:
            return NotImplemented
        return SSet({k: _and(v, o.m[k]) for k, v in self.m.items()
                     if k in o.m})

    __rand__ = __and__
    intersection = __and__

    def __sub__(self, o):
        o = as_sset(o)
        if o is None:
            return NotImplemented
        m = {}
        sub = True
        for k, v in self.m.items():
            if k not in o.m:
                m[k] = v
            elif o.m[k] is not True:
                m[k] = _and(v, z3.Not(o.m[k]))
        r = SSet(m)
        for k, v in o.m.items():
            if k not in self.m or not _implies(v, self.m[k]):
                sub = False
                break
        if sub:
            r._card = self.card() - o.card()
            r.card()
        return r

    difference = __sub__
    __isub__ = __sub__

    def __rsub__(self, o):
        o = as_sset(o)
        return NotImplemented if o is None else o - self

    def __eq__(self, o):
        o = as_sset(o)
        if o is None:
            return False
        cs = []
        for k in set(self.m) | set(o.m):
            cs.append(wrapb(tb(self.m.get(k, False))
                            == tb(o.m.get(k, False))))
        return conj(*cs)

    __hash__ = None

    def issubset(self, o):
        o = as_sset(o)
        return conj(*[wrapb(z3.Implies(tb(v), tb(o.m.get(k, False))))
                      for k, v in self.m.items()])

    __le__ = issubset

    def issuperset(self, o):
        return as_sset(o).issubset(self)

    __ge__ = issuperset

    def isdisjoint(self, o):
        return neg(truth(self & o))

    def copy(self):
        return SSet(dict(self.m), self._card)

    def add(self, k):
        if k in self.m and self.m[k] is True:
            return
        self.m[k] = True
        self._card = None

    def discard(self, k):
        self.m.pop(k, None)
        self._card = None

    def remove(self, k):
        if k not in self.m or not E.pm.fork(tb(self.m[k])):
            raise KeyError(k)
        self.discard(k)


def _or(a, b):
    if a is True or b is True:
        return True
    return z3.simplify(z3.Or(a, b))


def _and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    return z3.simplify(z3.And(a, b))


def _conjuncts(x):
    if x is True:
        return []
    if z3.is_and(x):
        out = []
        for c in x.children():
            out.extend(_conjuncts(c))
        return out
    return [x]


def _implies(a, b):
    """Syntactic: b's conjuncts are among a's."""
    ids = {c.get_id() for c in _conjuncts(a)}
    return all(c.get_id() in ids for c in _conjuncts(b)) or \
        _subset_fact(a, b)


_SUBSET = {}     # id of membership variable -> conjuncts it implies (kept)


def _subset_fact(a, b):
    have = {}
    todo = _conjuncts(a)
    while todo:
        c = todo.pop()
        if c.get_id() in have:
            continue
        have[c.get_id()] = c
        if c.get_id() in _SUBSET:
            todo.extend(_SUBSET[c.get_id()][1])
    return all(c.get_id() in have for c in _conjuncts(b))


def _disjoint(a, b):
    for x, y in ((a, b), (b, a)):
        have = {}
        todo = _conjuncts(x)
        while todo:
            c = todo.pop()
            if c.get_id() in have:
                continue
            have[c.get_id()] = c
            if c.get_id() in _SUBSET:
                todo.extend(_SUBSET[c.get_id()][1])
        for c in have.values():
            if z3.is_not(c):
                if y is not True and z3.is_expr(y) and \
                        c.arg(0).get_id() == y.get_id():
                    return True
    return False


def as_sset(o):
    if type(o) is SSet:
        return o
    if isinstance(o, (set, frozenset)) and not issym(o):
        return SSet({k: True for k in o})
    return None


def set_of(x):
    """set(x)"""
    if type(x) is SSet:
        return x.copy()
    return x


def sample(population, k):
    """random.sample: k distinct members of the population."""
    pop = as_sset(population) if isinstance(population, (set, frozenset)) \
        else None
    if pop is None:
        pop = SSet({x: True for x in population})
    n = pop.card()
    if not (0 <= k) or not (k <= n):
        raise ValueError('Sample larger than population or is negative')
    m = {}
    for e, v in pop.m.items():
        b = z3.Bool(E.pm.fresh('smp'))
        if v is not True:
            E.pm.add(z3.Implies(b, v))
        cs = _conjuncts(v)
        _SUBSET[b.get_id()] = (b, cs)
        m[e] = b
    r = SSet(m, k)
    r.card()
    E.pm.lemma_terms.append(r)
    return r


class SymGen(Sym):
    """A generator over the members of a symbolic set."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items       # list of (cond, value)

    def __iter__(self):
        for c, v in self.items:
            if E.pm.fork(tb(c)):
                yield v
