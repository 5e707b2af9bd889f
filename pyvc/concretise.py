"""Concrete inputs from a solver model, in the JSON form the replay harness
(runtime/vc.py) reads.  Where the model fixes the value of a predicate such
as 'is an IP address', a real string with that value is substituted."""
import hashlib
import re

import z3

from . import deep, ropes, seqs
from .sym import (BOOL, BYT, DICT, E, FLT, INT, LIST, NONE, OBJ, Rope, SAny,
                  SBool, SFloat, SInt, STRK, issym, num_t, tb)

B = z3.BoolSort()


def ev(model, t):
    return model.eval(t, model_completion=True)


def as_bool(model, t):
    return z3.is_true(ev(model, t))


def as_int(model, t):
    v = ev(model, t)
    return v.as_long() if z3.is_int_value(v) else 0


def as_int_bv(model, atom):
    v = ev(model, atom.tag[1])
    return (v.as_long() if z3.is_bv_value(v) else 0).to_bytes(atom.n, 'big')


def as_real(model, t):
    v = ev(model, t)
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return v.numerator_as_long() / v.denominator_as_long()
    return 0.0


def unescape(s):
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)),
                  s)


def as_str(model, t):
    v = ev(model, t)
    if z3.is_string_value(v):
        return unescape(v.as_string())
    return ''


def as_bytes(model, t):
    out = []

    def walk(v):
        k = v.decl().kind()
        if k == z3.Z3_OP_SEQ_EMPTY:
            return
        if k == z3.Z3_OP_SEQ_UNIT:
            c = v.arg(0)
            out.append(c.as_long() if z3.is_bv_value(c) else 0)
            return
        if k == z3.Z3_OP_SEQ_CONCAT:
            for c in v.children():
                walk(c)
    walk(ev(model, t))
    return bytes(out)


def known(model, t):
    """Value of a Bool the model interprets, else None."""
    v = model.eval(t, model_completion=False)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def real_str(model, t):
    s = as_str(model, t)
    S = ropes.STR

    def f(n, *sorts):
        return ropes._F.get((n,) + tuple(str(x) for x in sorts))
    q = f('is_ip', S, B)
    key = hashlib.sha256(s.encode('utf-8', 'surrogatepass')).digest()
    if q is not None and known(model, q(t)):
        return '10.%d.%d.%d' % tuple(key[:3])
    q = f('sv_ok', S, B)
    if q is not None and known(model, q(t)):
        nums = []
        for n in ('major', 'minor', 'patch'):
            g = f('sv_' + n, S, z3.IntSort())
            nums.append(str(as_int(model, g(t))) if g is not None else '1')
        out = '.'.join(nums)
        for n, sep in (('haspre', '-'), ('hasbuild', '+')):
            g = f('sv_' + n, S, B)
            if g is not None and known(model, g(t)):
                out += sep + 'x' + key[:2].hex()
        return out
    q = f('is_uuid', S, B)
    if q is not None and known(model, q(t)):
        import uuid
        g = f('uuid_bytes', S, ropes.BYTES)
        b = as_bytes(model, g(t)) if g is not None else key[:16]
        return str(uuid.UUID(bytes=(b + b'\0' * 16)[:16]))
    for n in ('eth_is_hex', 'is_hex', 'is_hex_address'):
        q = f(n, S, B)
        if q is not None and known(model, q(t)):
            k = len(s) - len(s) % 2
            if n == 'is_hex_address':
                return '0x' + key[:20].hex()
            g = f('unhex' if n == 'is_hex' else 'eth_unhex', S, ropes.BYTES)
            if g is not None:
                return as_bytes(model, g(t)).hex()
            return (key.hex() * (k // 64 + 1))[:k]
    return s


def enc(v):
    """JSON form of a concrete value"""
    if v is None:
        return ['none']
    if isinstance(v, bool):
        return ['bool', v]
    if isinstance(v, int):
        return ['int', str(v)]
    if isinstance(v, float):
        return ['float', repr(v)]
    if isinstance(v, str):
        return ['str', v]
    if isinstance(v, (bytes, bytearray)):
        return ['bytes', bytes(v).hex()]
    if isinstance(v, (list, tuple)):
        return ['list', [enc(x) for x in v]]
    if isinstance(v, dict):
        return ['dict', [[enc(k), enc(x)] for k, x in v.items()]]
    return ['obj']


def value(model, v, depth=0):
    """JSON form of a symbolic value under the model"""
    if depth > 6:
        return ['none']
    t = type(v)
    if t is SAny:
        k = v.resolved[0] if v.resolved is not None else as_int(
            model, v.kind)
        if k == NONE:
            return ['none']
        if k == OBJ:
            return ['obj']
        return value(model, v.payload(k), depth + 1)
    if t is SBool:
        return ['bool', as_bool(model, v.t)]
    if t is SInt:
        return ['int', str(as_int(model, v.t))]
    if t is SFloat:
        return ['float', repr(as_real(model, v.t))]
    if isinstance(v, Rope):
        ps = ropes.pieces_of(v)
        if not isinstance(v, str) and all(
                not isinstance(p, ropes.Atom) or p.tag and p.tag[0] == 'bv'
                for p in ps):
            return ['bytes', b''.join(
                as_int_bv(model, p) if isinstance(p, ropes.Atom) else p
                for p in ps).hex()]
        tt = ropes.term(v)
        if isinstance(v, str):
            return ['str', real_str(model, tt)]
        return ['bytes', as_bytes(model, tt).hex()]
    if t is seqs.SList:
        n = min(as_int(model, v.n), 12)
        out = []
        by = {}
        for x, key in list(v.memo.values()):
            i = key if isinstance(key, int) else as_int(model, key)
            by[i] = x
        for i in range(n):
            try:
                out.append(value(model, by[i] if i in by else v.elem(i),
                                 depth + 1))
            except Exception:
                out.append(['none'])
        return ['list', out]
    if t is seqs.SDict:
        out = []
        for k, e in list(v.entries.items()):
            if as_bool(model, tb(e[0])):
                out.append([value(model, k, depth + 1),
                            value(model, e[1], depth + 1)])
        return ['dict', out]
    if isinstance(v, (list, tuple)):
        return ['list', [value(model, x, depth + 1) for x in v]]
    if isinstance(v, dict):
        return ['dict', [[value(model, k, depth + 1),
                          value(model, x, depth + 1)]
                         for k, x in v.items()]]
    return enc(v)


def input_value(model, kind, payload):
    if kind == 'int' or kind == 'now':
        return ['int', str(as_int(model, payload))]
    if kind == 'bool':
        return ['bool', as_bool(model, payload)]
    if kind == 'float':
        return ['float', repr(as_real(model, payload))]
    if kind == 'choice':
        return ['int', str(payload)]
    if kind == 'privkey':
        b = as_bytes(model, ropes.term(payload))
        return ['bytes', hashlib.sha256(b'key' + b).hexdigest()]
    return value(model, payload)
