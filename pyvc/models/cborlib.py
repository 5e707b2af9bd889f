"""Assumed contract of the cbor package: an injective encoder of wire values
and its inverse decoder.  Concrete values go through the real (pure Python)
cbor code, loaded from the project's own interpreter."""
import importlib.util
import os
import types

import z3

from .. import deep, ropes, seqs
from ..ops import has_sym
from ..ropes import Atom, fun, pieces_of, term
from ..sym import (BYTES, E, OBJ, Opaque, Rope, SAny, SBool, SFloat, SInt,
                   Unsupported, assumption, issym, narrow, tb)

SITE = '/opt/venv-pypy/lib/pypy3.9/site-packages'
_REAL = None


def real():
    global _REAL
    if _REAL is None:
        path = os.path.join(SITE, 'cbor', 'cbor.py')
        spec = importlib.util.spec_from_file_location('_real_cbor', path)
        _REAL = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_REAL)
    return _REAL


def decode(lit):
    """(value, bytes used)"""
    import io
    return real()._loads(io.BytesIO(lit))


def encode(v):
    return real().dumps(v)


class NotWire(Exception):
    pass


def check(v, depth=0):
    """Raise what the encoder raises for a value it cannot encode."""
    if depth > 60:
        raise Unsupported('cbor value too deep')
    t = type(v)
    if t is SAny:
        if v.resolved is not None:
            return check(v.resolved[1], depth)
        if E.pm.fork(v.kind == OBJ):
            return check(v.narrow(), depth)
        return
    if v is None or t in (bool, int, float, str, bytes, SBool, SInt, SFloat):
        return
    if issym(v):
        if isinstance(v, (Rope, seqs.SList)):
            return
        if type(v) is seqs.SDict:
            for k, e in v.entries.items():
                if e[1] is not None:
                    check_if(e[0], e[1], depth + 1)
            return
    elif isinstance(v, (str, bytes, int, float)):
        return
    elif isinstance(v, (list, tuple)):
        for x in v:
            check(x, depth + 1)
        return
    elif isinstance(v, dict):
        for k, x in v.items():
            check(k, depth + 1)
            check(x, depth + 1)
        return
    elif isinstance(v, real().Tag):
        return check(v.value, depth + 1)
    elif t is Opaque:
        if E.pm.fork(z3.Bool(v.vc_name + '.is_cbor_tag')):
            return
    raise Exception("don't know how to cbor serialize object of type %s")


def check_if(present, v, depth):
    try:
        check(v, depth)
    except Exception:
        if E.pm.fork(tb(present)):
            raise


def dumps(ob, sort_keys=False):
    if sort_keys:
        raise Unsupported('cbor.dumps(sort_keys=True)')
    if type(ob) is not SAny:
        ob = narrow(ob)
    check(ob)
    if not has_sym(ob, 12):
        lit = encode(ob)
        if len(lit) > 1:
            E.nofork += 1
            try:
                for old, atom in E.cbor:
                    c = deep.same(old, ob, 'ordered')
                    if c is not False:
                        if E.pm.entailed(tb(c)):
                            return ropes.SBytes([atom])
                        E.pm.add((atom.t == ropes.lit_term(lit)) == tb(c))
            finally:
                E.nofork -= 1
        return lit
    snap = deep.snapshot(ob)
    E.nofork += 1
    try:
        conds = []
        for old, atom in E.cbor:
            c = deep.same(old, snap, 'ordered')
            if c is True:
                return ropes.SBytes([atom])
            if c is not False:
                if E.pm.entailed(tb(c)):
                    return ropes.SBytes([atom])
                conds.append((atom, c))
    finally:
        E.nofork -= 1
    t = z3.Const(E.pm.fresh('cbor'), BYTES)
    E.pm.add(z3.Length(t) >= 1)
    atom = Atom(t, None, ('cbor', snap), True)
    for old, c in conds:
        E.pm.add((old.t == t) == tb(c))
    E.cbor.append((snap, atom))
    assumption('cbor.dumps is injective on wire values and cbor.loads is '
               'its inverse')
    return ropes.SBytes([atom])


def loads(data):
    data = narrow(data)
    if data is None:
        raise ValueError('got None for buffer to decode in loads')
    if not isinstance(data, (bytes, bytearray)):
        raise TypeError('a bytes-like object is required')
    if not issym(data):
        import io
        return real().loads(bytes(data))
    ps = pieces_of(data)
    if ps and isinstance(ps[0], Atom) and ps[0].tag \
            and ps[0].tag[0] == 'cbor':
        return deep.snapshot(ps[0].tag[1])
    t = term(data)
    for snap, atom in E.cbor:
        if E.pm.entailed(atom.t == t):
            return deep.snapshot(snap)
    for old, v in E.loads:
        if old.eq(t):
            return v
    ok = fun('is_cbor', BYTES, z3.BoolSort())(t)
    E.pm.add(z3.Implies(ok, z3.Length(t) >= 1))
    if not E.pm.fork(ok):
        raise Exception('malformed cbor')
    v = SAny(E.pm.fresh('wire'), kinds=range(OBJ + 1))
    E.loads.append((t, v))
    return v


def module():
    m = types.ModuleType('cbor')
    m.dumps = dumps
    m.loads = loads
    m.Tag = real().Tag
    return m
