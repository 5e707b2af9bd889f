"""Structural comparison used in specifications (never forks on scalars)."""
import z3

from . import seqs
from .sym import (BOOL, BYT, DICT, E, WHOLE, FLT, INT, KINDNAMES, LIST, NONE, OBJ,
                  Rope, SAny, SBool, SFloat, SInt, STRK, Sym, Unsupported,
                  conj, disj, imprecise, issym, tb, wrapb)

SCALARS = (type(None), bool, int, float, str, bytes)


def kindof(x):
    t = type(x)
    if t in (bool, SBool):
        return BOOL
    if t in (int, SInt):
        return INT
    if t in (float, SFloat):
        return FLT
    if x is None:
        return NONE
    if not issym(x):
        if isinstance(x, str):
            return STRK
        if isinstance(x, bytes):
            return BYT
        if isinstance(x, (list, tuple)):
            return LIST
        if isinstance(x, dict):
            return DICT
        if isinstance(x, bool):
            return BOOL
        if isinstance(x, int):
            return INT
        return OBJ
    if isinstance(x, str):
        return STRK
    if isinstance(x, bytes):
        return BYT
    if t is seqs.SList:
        return LIST
    if t is seqs.SDict:
        return DICT
    return OBJ


def unlinked(why):
    """An unknown truth value (the caller must not fork)."""
    imprecise('comparison left open: ' + why)
    return SBool(z3.Bool(E.pm.fresh('same')))


def same(a, b, wire=False, depth=0):
    """Equality including the types of scalars.  wire=True identifies tuple
    and list (the codec does)."""
    if a is b:
        return True
    if depth > 30:
        raise Unsupported('deep comparison too deep')
    ta, tb_ = type(a), type(b)
    if ta is SAny and a.resolved is not None:
        return same(a.resolved[1], b, wire, depth)
    if tb_ is SAny and b.resolved is not None:
        return same(a, b.resolved[1], wire, depth)
    if ta is SAny and tb_ is SAny:
        outs = [conj(a.kind == NONE, b.kind == NONE)]
        for k in (BOOL, INT, FLT, STRK, BYT):
            outs.append(conj(a.kind == k, b.kind == k,
                             a.payload(k) == b.payload(k)))
        if a.name == b.name:
            return True
        # containers of unknown shape: their identities
        imprecise('two unknown containers are compared as wholes')
        return disj(conj(whole(a) == whole(b), a.kind == b.kind,
                         disj(a.kind == LIST, a.kind == DICT,
                              a.kind == OBJ)), *outs)
    if tb_ is SAny:
        a, b, ta, tb_ = b, a, tb_, ta
    if ta is SAny:
        k = kindof(b)
        if k in (LIST, DICT):
            if E.nofork and E.pm.lookup(z3.simplify(a.kind == k)) is None:
                return conj(a.kind == k, unlinked('unknown container'))
            if not E.pm.fork(a.kind == k):
                return False
            return same(a.narrow(), b, wire, depth)
        if k == OBJ:
            return False
        if k == NONE:
            return wrapb(a.kind == NONE)
        return conj(a.kind == k, a.payload(k) == b)
    import enum
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        if not issym(a) and not issym(b):
            return type(a) is type(b) and a is b
        return False
    ka, kb = kindof(a), kindof(b)
    if ka != kb:
        return False
    if ka in (NONE,):
        return True
    if ka in (BOOL, INT, FLT, STRK, BYT):
        if not wire and not issym(a) and not issym(b) \
                and type(a) is not type(b):
            return False
        r = (a == b)
        if r is NotImplemented:
            return False
        return r
    if ka == LIST:
        if not wire and isinstance(a, tuple) != isinstance(b, tuple):
            return False
        if not wire and not issym(a) and not issym(b) \
                and type(a) is not type(b):
            return False
        if ta is seqs.SList or tb_ is seqs.SList:
            return same_slist(a, b, wire, depth)
        if len(a) != len(b):
            return False
        return conj(*[same(x, y, wire, depth + 1) for x, y in zip(a, b)])
    if ka == DICT:
        if not wire and not issym(a) and not issym(b) \
                and type(a) is not type(b):
            return False
        return same_dict(a, b, wire, depth)
    # objects
    if type(a) is not type(b):
        return False
    if issym(a):
        r = (a == b)
        return False if r is NotImplemented else r
    if hasattr(type(a), 'vc_same'):
        return a.vc_same(b)
    mod = type(a).__module__
    if mod.startswith('golem_messages') or mod.startswith('specs'):
        names = attr_names(a) | attr_names(b)
        if not names and type(a).__eq__ is object.__eq__ and not hasattr(
                a, '__dict__'):
            return True
        cs = []
        for n in sorted(names):
            ha, hb = hasattr(a, n), hasattr(b, n)
            if ha != hb:
                return False
            if ha:
                cs.append(same(getattr(a, n), getattr(b, n), wire,
                               depth + 1))
        return conj(*cs)
    r = (a == b)
    return r


def whole(x):
    """The value of a container of unknown shape, as one"""
    n = x.name
    if type(x) is not SAny:
        for end in ('.' + KINDNAMES[LIST], '.' + KINDNAMES[DICT]):
            if n.endswith(end):
                n = n[:-len(end)]
                break
        else:
            return None
        if type(x) is seqs.SDict and (x.entries or x.default is None):
            return None
    return z3.Const(n + '.whole', WHOLE)


def attr_names(a):
    out = set(getattr(a, '__dict__', {}))
    for c in type(a).__mro__:
        sl = c.__dict__.get('__slots__', ())
        if isinstance(sl, str):
            sl = (sl,)
        for n in sl:
            if n.startswith('__'):
                continue
            out.add(n)
    return out


def same_slist(a, b, wire, depth):
    if type(a) is not seqs.SList:
        a, b = b, a
    n2 = b.n if type(b) is seqs.SList else z3.IntVal(len(b))
    ln = wrapb(a.n == n2)
    if type(b) is not seqs.SList:
        if E.nofork and E.pm.lookup(z3.simplify(a.n == n2)) is None:
            return conj(a.n == n2, unlinked('list of unknown length'))
        if not E.pm.fork(a.n == n2):
            return False
        return conj(*[same(a.elem(i), b[i], wire, depth + 1)
                      for i in range(len(b))])
    if a.name == b.name and a.n.eq(n2):
        return True
    if E.nofork:
        wa, wb = whole(a), whole(b)
        if wa is not None and wb is not None:
            imprecise('two unknown containers are compared as wholes')
            return conj(ln, wa == wb)
        c = unlinked('lists of unknown length')
        E.linked.append((c, a, b, wire))
        return conj(ln, c)
    i = z3.Int(E.pm.fresh('sk'))
    if not E.pm.fork(z3.And(a.n > 0, n2 > 0)):
        return ln
    E.pm.add(z3.And(i >= 0, i < a.n, i < n2))
    # arbitrary common index: universally quantified in a goal; where the
    # lists differ at all it is a place where they do
    c = conj(ln, same(a.elem(i), b.elem(i), wire, depth + 1))
    if c is not True and c is not False:
        E.linked.append((c, a, b, wire))
    return c


def linked_at(i):
    """Lists that were assumed equal are so at this place"""
    for c, a, b, wire in list(E.linked):
        if E.pm.fork(z3.And(i >= 0, i < a.n, i < b.n)):
            x, y = a.elem(i), b.elem(i)
            E.nofork += 1
            try:
                r = same(x, y, wire)
            finally:
                E.nofork -= 1
            E.pm.add(z3.Implies(tb(c), tb(r)))


def same_dict(a, b, wire, depth):
    sa, sb = type(a) is seqs.SDict, type(b) is seqs.SDict
    if not sa and not sb:
        if any(issym(k) for k in a) or any(issym(k) for k in b):
            if len(a) != len(b):
                return False
            cs = []
            for (k, v), (k2, v2) in zip(a.items(), b.items()):
                cs.append(same(k, k2))
                cs.append(same(v, v2, wire, depth + 1))
            return conj(*cs)
        if set(a) != set(b):
            return False
        if wire == 'ordered' and list(a) != list(b):
            return False
        return conj(*[same(a[k], b[k], wire, depth + 1) for k in a])
    if sa and sb and a.default is not None and a.default is b.default \
            and len(a.entries) == 0 and len(b.entries) == 0:
        return True
    if wire == 'ordered' and not (
            sa and sb and a.name == b.name
            and list(a.entries) == list(b.entries)):
        return conj(unlinked('order of unknown keys'),
                    same_dict(a, b, True, depth))

    def get(d, k):
        if type(d) is seqs.SDict:
            p, v = d.entry(k)
            return tb(p), v
        return z3.BoolVal(k in d), d.get(k)
    keys = list(a.entries if sa else a)
    for k in list(b.entries if sb else b):
        if k not in keys:
            keys.append(k)
    cs = []
    for k in keys:
        pa, va = get(a, k)
        pb, vb = get(b, k)
        cs.append(wrapb(pa == pb))
        if va is vb:
            continue
        if z3.is_false(z3.simplify(pa)) or z3.is_false(z3.simplify(pb)):
            continue
        cs.append(disj(wrapb(z3.Not(pa)), same(va, vb, wire, depth + 1)))
    if (sa and a.default is not None) or (sb and b.default is not None):
        if not (sa and sb and a.default is b.default):
            cs.append(False)
    return conj(*cs)


def wire_same(a, b):
    return same(a, b, wire=True)


def snapshot(v, wire=False):
    """Deep copy of a value as the codec would transport it."""
    if issym(v):
        if type(v) is SAny and v.resolved is not None:
            k = v.resolved[0]
            if k in (LIST, DICT):
                return snapshot(v.resolved[1], wire)
            return v.resolved[1]
        if type(v) is seqs.SDict:
            d = seqs.SDict(v.name, {k: [e[0], snapshot(e[1], wire)]
                                    for k, e in v.entries.items()},
                           v.default, v.others)
            return d
        return v
    if isinstance(v, dict):
        E.hash_ok += 1
        try:
            return {snapshot(k): snapshot(x, wire)
                    for k, x in dict.items(v)}
        finally:
            E.hash_ok -= 1
    if isinstance(v, (list, tuple)):
        return [snapshot(x, wire) for x in v]
    if isinstance(v, str) and type(v) is not str:
        return str.__str__(v)
    return v
