"""Symbolic values.  They are ordinary Python objects that overload the
operators; wherever the host needs a real bool the path manager forks."""
import math
import operator

import z3


class Internal(BaseException):
    """Engine control flow: never caught by the code under verification."""


class Unsupported(Internal):
    """The engine cannot interpret this construct."""


class PathEnd(Internal):
    """This path is infeasible or has nothing left to say."""


class Timeout(Internal):
    pass


class Ctx:
    """The engine's per-run state."""
    pm = None
    hash_ok = 0
    unroll = 3
    nofork = 0

    def begin_path(self):
        self.hash_ok = 0
        self.nofork = 0
        self.now = None
        self.uuid1 = []
        self.ivs = []
        self.hashes = {}
        self.memos = {}
        self.cbor = []
        self.loads = []
        self.seen = {}
        self.linked = []


E = Ctx()

B8 = z3.BitVecSort(8)
BYTES = z3.SeqSort(B8)
STR = z3.StringSort()

# kinds of an unknown (wire) value
NONE, BOOL, INT, FLT, STRK, BYT, LIST, DICT, OBJ = range(9)
KINDNAMES = ['none', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'dict',
             'obj']


def bounded(reason):
    E.pm.res.bounded.add(reason)


def imprecise(reason):
    E.pm.imprecise.add(reason)
    E.pm.res.imprecise.add(reason)


def assumption(text):
    E.pm.res.assumptions.add(text)


# ------------------------------------------------------------ formulas
def tb(x):
    """bool-ish -> z3 Bool"""
    if x is True or x is False:
        return z3.BoolVal(x)
    if isinstance(x, SBool):
        return x.t
    if z3.is_expr(x):
        return x
    raise Unsupported('not a formula: %r' % (type(x),))


def wrapb(t):
    """z3 Bool -> host bool when it is one"""
    if t is True or t is False:
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def conj(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(tb(x))
    if not out:
        return True
    return wrapb(z3.And(*out) if len(out) > 1 else out[0])


def disj(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(tb(x))
    if not out:
        return False
    return wrapb(z3.Or(*out) if len(out) > 1 else out[0])


def neg(x):
    if x is True or x is False:
        return not x
    return wrapb(z3.Not(tb(x)))


class Sym:
    __slots__ = ()

    def __hash__(self):
        if E.hash_ok:
            return id(self)
        raise Unsupported('hash of a symbolic %s' % type(self).__name__)

    def __repr__(self):
        raise Unsupported('native repr of a symbolic value')

    __str__ = __repr__

    def __format__(self, spec):
        raise Unsupported('native format of a symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return neg(r)


def typ(x):
    return object.__getattribute__(x, '__class__') if not isinstance(
        x, type) else type(x)


def rawtype(x):
    return type(x)


def issym(x):
    return issubclass(type(x), Sym)


# --------------------------------------------------------------- numbers
def num_t(x):
    """number -> (z3 term, is_real) or None"""
    t = type(x)
    if t is SInt:
        return x.t, False
    if t is SFloat:
        return x.t, True
    if t is SBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0)), False
    if t is bool:
        return z3.IntVal(1 if x else 0), False
    if t is int:
        return z3.IntVal(x), False
    if t is float:
        if math.isinf(x) or math.isnan(x):
            return None
        return z3.RealVal(repr(x)) if False else _real(x), True
    if isinstance(x, int) and not issym(x):
        return z3.IntVal(int(x)), False
    return None


def _real(x):
    n, d = x.as_integer_ratio()
    return z3.Q(n, d)


def both(a, b):
    x, y = num_t(a), num_t(b)
    if x is None or y is None:
        return None
    (s, r1), (t, r2) = x, y
    if r1 != r2:
        if not r1:
            s = z3.ToReal(s)
        else:
            t = z3.ToReal(t)
    return s, t, (r1 or r2)


def wrapn(t, real):
    t = z3.simplify(t)
    if real:
        if z3.is_rational_value(t):
            return float(t.as_fraction())
        return SFloat(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def narrow(x):
    while type(x) is SAny:
        x = x.narrow()
    return x


def _arith(name, fn):
    def op(a, b):
        b = narrow(b)
        r = both(a, b)
        if r is None:
            if type(b) is float:
                return _special(name, a, b)
            return NotImplemented
        s, t, real = r
        return wrapn(fn(s, t), real)

    def rop(a, b):
        b = narrow(b)
        r = both(b, a)
        if r is None:
            return NotImplemented
        s, t, real = r
        return wrapn(fn(s, t), real)
    return op, rop


def _special(name, a, b):
    raise Unsupported('arithmetic with inf/nan')


def _cmp(fn, inf_pos, inf_neg):
    def op(a, b):
        b = narrow(b)
        r = both(a, b)
        if r is None:
            if type(b) is float:
                if math.isnan(b):
                    return False
                return inf_pos if b > 0 else inf_neg
            return NotImplemented
        s, t, real = r
        return wrapb(fn(s, t))
    return op


class Num(Sym):
    __slots__ = ()
    __add__, __radd__ = _arith('add', lambda s, t: s + t)
    __sub__, __rsub__ = _arith('sub', lambda s, t: s - t)
    __lt__ = _cmp(lambda s, t: s < t, True, False)
    __le__ = _cmp(lambda s, t: s <= t, True, False)
    __gt__ = _cmp(lambda s, t: s > t, False, True)
    __ge__ = _cmp(lambda s, t: s >= t, False, True)

    def __eq__(self, other):
        if type(other) is SAny:
            return other.__eq__(self)
        r = both(self, other)
        if r is None:
            if issym(other) or type(other) in (str, bytes, float, tuple,
                                               list, dict, type(None)):
                return False
            return NotImplemented
        return wrapb(r[0] == r[1])

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else neg(r)

    __hash__ = Sym.__hash__

    def __mul__(self, other):
        other = narrow(other)
        if isinstance(other, (str, bytes, list, tuple)) \
                or isinstance(other, Rope):
            k = concrete_int(self)
            return other * k
        r = both(self, other)
        if r is None:
            return NotImplemented
        return wrapn(r[0] * r[1], r[2])

    def __rmul__(self, other):
        return self.__mul__(other)

    def __truediv__(self, other):
        return _div(self, other)

    def __rtruediv__(self, other):
        return _div(other, self)

    def __floordiv__(self, other):
        return _floordiv(self, other)[0]

    def __rfloordiv__(self, other):
        return _floordiv(other, self)[0]

    def __mod__(self, other):
        return _floordiv(self, other)[1]

    def __rmod__(self, other):
        return _floordiv(other, self)[1]

    def __divmod__(self, other):
        return _floordiv(self, other)

    def __neg__(self):
        t, r = num_t(self)
        return wrapn(-t, r)

    def __pos__(self):
        return self

    def __abs__(self):
        t, r = num_t(self)
        return wrapn(z3.If(t < 0, -t, t), r)

    def __bool__(self):
        t, r = num_t(self)
        return E.pm.fork(t != 0)

    def __float__(self):
        raise Unsupported('native float() of a symbolic number')

    def __pow__(self, k):
        if type(k) is int and 0 <= k <= 8:
            r = 1
            for _ in range(k):
                r = r * self
            return r
        raise Unsupported('symbolic **')

    def __rpow__(self, b):
        raise Unsupported('symbolic exponent')


def _div(a, b):
    a, b = narrow(a), narrow(b)
    r = both(a, b)
    if r is None:
        if type(a) is float or type(b) is float:
            raise Unsupported('division with inf/nan')
        return NotImplemented
    s, t, real = r
    if not real:
        s, t = z3.ToReal(s), z3.ToReal(t)
    if E.pm.fork(t == 0):
        raise ZeroDivisionError('division by zero')
    assumption('floating-point arithmetic treated as exact real arithmetic')
    return wrapn(s / t, True)


def _floordiv(a, b):
    a, b = narrow(a), narrow(b)
    r = both(a, b)
    if r is None:
        raise TypeError('unsupported operand type(s) for //')
    s, t, real = r
    if E.pm.fork(t == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if real:
        q = z3.ToReal(z3.ToInt(s / t))
        return wrapn(q, True), wrapn(s - q * t, True)
    if E.pm.fork(t > 0):
        q = s / t          # z3 div: floor for a positive divisor
        return wrapn(q, False), wrapn(s % t, False)
    q = (-s) / (-t)
    return wrapn(q, False), wrapn(s - q * t, False)


def concrete_int(x):
    """The value of a symbolic int if the path determines it."""
    if type(x) is SAny:
        x = x.narrow()
    if isinstance(x, int) and not issym(x):
        return int(x)
    if type(x) is SBool:
        return int(bool(x))
    if type(x) is SInt:
        s = z3.simplify(x.t)
        if z3.is_int_value(s):
            return s.as_long()
        pm = E.pm
        v = pm.some_value(x.t)
        if v is not None and z3.is_int_value(v) and pm.entailed(x.t == v):
            return v.as_long()
        raise Unsupported('a concrete integer is needed here')
    raise TypeError('an integer is required')


class SBool(Num):
    __slots__ = ('t',)
    __class__ = property(lambda self: bool)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.pm.fork(self.t)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if type(o) in (bool, SBool):
            return conj(self, o)
        return as_sint(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SBool):
            return disj(self, o)
        return as_sint(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SBool):
            return wrapb(z3.Xor(self.t, tb(o)))
        return as_sint(self) ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~as_sint(self)


def as_sint(x):
    if type(x) is SInt:
        return x
    return SInt(num_t(x)[0])


BVW = 256


class SInt(Num):
    """A mathematical integer; bv is an optional unsigned bit-vector form
    whose value it equals."""
    __slots__ = ('_t', '_bv', 'tag', 'bits')
    __class__ = property(lambda self: int)

    def __init__(self, t=None, bv=None, tag=None, bits=None):
        self._t = t
        self._bv = bv
        self.tag = tag
        self.bits = bits         # {position: True or z3 Bool}, all others 0

    @property
    def bv(self):
        if self._bv is None and self.bits is not None:
            self._bv = from_bits(self.bits)
        return self._bv

    @property
    def t(self):
        if self._t is None:
            self._t = z3.BV2Int(self.bv)
        return self._t

    def __bool__(self):
        if self.bv is not None:
            return E.pm.fork(self.bv != 0)
        return E.pm.fork(self.t != 0)

    def __eq__(self, o):
        if self.bv is not None:
            if type(o) in (int, bool):
                w = self.bv.size()
                if o < 0 or o >= 1 << w:
                    return False
                return wrapb(self.bv == z3.BitVecVal(int(o), w))
            if type(o) is SInt and o.bv is not None:
                a, b = same_width(self.bv, o.bv)
                return wrapb(a == b)
        return Num.__eq__(self, o)

    __hash__ = Sym.__hash__

    def __index__(self):
        return concrete_int(self)

    def __int__(self):
        raise Unsupported('native int() of a symbolic integer')

    # --- bit operations
    def _bits(self, o, name):
        o = narrow(o)
        if type(o) in (bool, SBool):
            o = as_sint(o) if type(o) is SBool else int(o)
        if name == '|' and self.bits is not None:
            b = bits_of(o)
            if b is not None:
                r = dict(self.bits)
                for k, c in b.items():
                    d = r.get(k)
                    r[k] = c if d is None else True if (
                        c is True or d is True) else z3.simplify(z3.Or(c, d))
                return SInt(bits=r)
        if type(o) is int:
            if self.bv is None and name == '&' and o >= 0 \
                    and (o + 1) & o == 0:
                return wrapn(self.t % (o + 1), False)
            a = to_bv(self)
            if o < 0:
                if name == '&':
                    b = z3.BitVecVal(o, a.size())
                    return SInt(bv=z3.simplify(a & b))
                raise Unsupported('bit operation with a negative number')
            w = max(a.size(), o.bit_length())
            a, b = widen(a, w), z3.BitVecVal(o, w)
        elif type(o) is SInt:
            a, b = same_width(to_bv(self), to_bv(o))
        else:
            return NotImplemented
        r = {'&': operator.and_, '|': operator.or_,
             '^': operator.xor}[name](a, b)
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return SInt(bv=r)

    def __and__(self, o):
        return self._bits(o, '&')

    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, '|')

    __ror__ = __or__

    def __xor__(self, o):
        return self._bits(o, '^')

    __rxor__ = __xor__

    def __invert__(self):
        return wrapn(-self.t - 1, False)

    def __lshift__(self, k):
        k = concrete_int(k)
        if k < 0:
            raise ValueError('negative shift count')
        if self.bv is not None:
            return SInt(bv=z3.simplify(
                z3.Concat(self.bv, z3.BitVecVal(0, k)) if k else self.bv))
        return wrapn(self.t * (1 << k), False)

    def __rlshift__(self, o):
        # o << self : decided by the few values self can take
        k = concrete_int(self)
        return o << k

    def __rshift__(self, k):
        k = concrete_int(k)
        if k < 0:
            raise ValueError('negative shift count')
        if self.bv is not None:
            return SInt(bv=z3.simplify(z3.LShR(self.bv, k)))
        return wrapn(self.t / (1 << k), False)

    def __rrshift__(self, o):
        return o >> concrete_int(self)

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    # --- int methods
    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import ropes
        return ropes.int_to_bytes(self, length, byteorder, signed)

    def bit_length(self):
        raise Unsupported('symbolic bit_length')

    @property
    def real(self):
        return self

    def is_integer(self):
        return True


def from_bits(bits):
    w = max(bits) + 1 if bits else 1
    w += -w % 256
    parts, zeros = [], 0
    one, nil = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
    for k in range(w - 1, -1, -1):
        c = bits.get(k)
        if c is None:
            zeros += 1
            continue
        if zeros:
            parts.append(z3.BitVecVal(0, zeros))
            zeros = 0
        if c is True:
            parts.append(one)
            continue
        n = c.arg(0) if z3.is_not(c) else None
        if n is not None and z3.is_eq(n):
            a, b = n.children()
            if a.eq(nil):
                a, b = b, a
            if b.eq(nil):
                parts.append(a)
                continue
        if z3.is_eq(c):
            a, b = c.children()
            if a.eq(one):
                a, b = b, a
            if b.eq(one):
                parts.append(a)
                continue
        parts.append(z3.If(c, one, nil))
    if zeros:
        parts.append(z3.BitVecVal(0, zeros))
    return z3.simplify(z3.Concat(*parts) if len(parts) > 1 else parts[0])


def bits_of(x):
    """The bits of a number as a dictionary, if that form is known."""
    if type(x) is SInt:
        return x.bits
    if type(x) is int and x >= 0:
        return {k: True for k in range(x.bit_length()) if x >> k & 1}
    return None


def to_bv(x):
    if x.bv is not None:
        return x.bv
    if E.pm.entailed(z3.And(x.t >= 0, x.t < 2 ** 64)):
        return z3.Int2BV(x.t, 64)
    if E.pm.entailed(z3.And(x.t >= 0, x.t < 2 ** BVW)):
        return z3.Int2BV(x.t, BVW)
    raise Unsupported('bit operation on an unbounded integer')


def widen(a, w):
    return a if a.size() == w else z3.ZeroExt(w - a.size(), a)


def same_width(a, b):
    w = max(a.size(), b.size())
    return widen(a, w), widen(b, w)


class SFloat(Num):
    """A float, treated as a mathematical real."""
    __slots__ = ('t',)
    __class__ = property(lambda self: float)

    def __init__(self, t):
        self.t = t

    def __trunc__(self):
        return wrapn(z3.If(self.t >= 0, z3.ToInt(self.t),
                           -z3.ToInt(-self.t)), False)

    def __floor__(self):
        return wrapn(z3.ToInt(self.t), False)

    def __ceil__(self):
        return wrapn(-z3.ToInt(-self.t), False)

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round(x, n)')
        f = z3.ToInt(self.t)
        d = self.t - z3.ToReal(f)
        half = z3.Q(1, 2)
        return wrapn(z3.If(d < half, f, z3.If(
            d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))), False)

    def is_integer(self):
        return wrapb(z3.ToReal(z3.ToInt(self.t)) == self.t)


# ------------------------------------------------------------- ropes (base)
class Rope(Sym):
    """Symbolic str/bytes; see ropes.py for the operations."""
    __slots__ = ('pieces',)


# ------------------------------------------------------------ unknown value
def pyeq(a, b):
    """a == b for two containers of unknown shape: an unknown relation, but
    symmetric and true of the same values"""
    imprecise('two unknown containers are compared as wholes')
    if b.name < a.name:
        a, b = b, a
    x = z3.Const(a.name + '.whole', WHOLE)
    y = z3.Const(b.name + '.whole', WHOLE)
    r = z3.Function('PyEq', WHOLE, WHOLE, z3.BoolSort())(x, y)
    E.pm.add(z3.Implies(x == y, r))
    return wrapb(r)


WHOLE = z3.DeclareSort('Whole')


class SAny(Sym):
    """A value of unknown type, as the wire decoder can produce (never an
    instance of a repository class)."""
    __slots__ = ('name', 'kind', 'p', 'resolved', 'depth', 'hint')

    def __init__(self, name, kinds=None, depth=0, hint=None):
        self.name = name
        self.kind = z3.Int(name + '.kind')
        self.p = {}
        self.resolved = None
        self.depth = depth
        self.hint = hint or {}
        kinds = kinds if kinds is not None else range(OBJ)
        E.pm.add(z3.Or(*[self.kind == k for k in kinds]))

    def payload(self, k):
        if k in self.p:
            return self.p[k]
        from . import ropes, seqs
        n = '%s.%s' % (self.name, KINDNAMES[k])
        if k == NONE:
            v = None
        elif k == BOOL:
            v = SBool(z3.Bool(n))
        elif k == INT:
            v = SInt(z3.Int(n))
        elif k == FLT:
            v = SFloat(z3.Real(n))
        elif k == STRK:
            v = ropes.str_atom(n)
        elif k == BYT:
            v = ropes.bytes_atom(n)
        elif k == LIST:
            mk = self.hint.get('list')
            v = mk(n) if mk else seqs.SList(
                n, lambda i: SAny('%s[%s]' % (n, i), depth=self.depth + 1))
        elif k == DICT:
            mk = self.hint.get('dict')
            v = mk(n) if mk else seqs.SDict(n, {}, default=lambda kk: SAny(
                '%s{%s}' % (n, kk), depth=self.depth + 1))
        else:
            v = self.hint['obj'] if 'obj' in self.hint else Opaque(n)
        self.p[k] = v
        return v

    def is_kind(self, *ks):
        if self.resolved is not None:
            return wrapb(z3.BoolVal(self.resolved[0] in ks))
        return wrapb(z3.Or(*[self.kind == k for k in ks]))

    def narrow(self):
        if self.resolved is not None:
            return self.resolved[1]
        k = E.pm.choose([self.kind == i for i in range(9)])
        self.resolved = (k, self.payload(k))
        return self.resolved[1]

    def resolve_known(self):
        """Narrow without forking when the path already fixes the kind."""
        if self.resolved is None:
            for k in range(9):
                if E.pm.lookup(z3.simplify(self.kind == k)) is True:
                    self.resolved = (k, self.payload(k))
                    break
        return self.resolved[1] if self.resolved else self

    @property
    def __class__(self):
        return typ(self.narrow())

    def __eq__(self, other):
        if other is self:
            return True
        if self.resolved is not None:
            return self.resolved[1] == other
        if type(other) is SAny:
            if other.resolved is not None:
                other = other.resolved[1]
            else:
                outs = []
                for k in range(NONE, BYT + 1):
                    for j in range(NONE, BYT + 1):
                        num = k in (BOOL, INT, FLT) and j in (BOOL, INT, FLT)
                        if k != j and not num:
                            continue
                        outs.append(conj(
                            self.kind == k, other.kind == j,
                            True if k == NONE else
                            self.payload(k) == other.payload(j)))
                if E.pm.entailed(z3.And(self.kind != LIST, self.kind != DICT,
                                        self.kind != OBJ)) or \
                   E.pm.entailed(z3.And(other.kind != LIST,
                                        other.kind != DICT,
                                        other.kind != OBJ)):
                    return disj(*outs)
                if E.pm.entailed(self.kind != OBJ) and \
                        E.pm.entailed(other.kind != OBJ):
                    e = pyeq(self, other)
                    for k in (LIST, DICT):
                        outs.append(conj(self.kind == k, other.kind == k, e))
                    return disj(*outs)
                return self.narrow() == other.narrow()
        if other is None:
            return wrapb(self.kind == NONE)
        t = type(other)
        if t in (bool, int, float, SBool, SInt, SFloat):
            return disj(*[conj(self.kind == k, self.payload(k) == other)
                          for k in (BOOL, INT, FLT)])
        if isinstance(other, str):
            return conj(self.kind == STRK, self.payload(STRK) == other)
        if isinstance(other, bytes):
            return conj(self.kind == BYT, self.payload(BYT) == other)
        if t.__module__ != 'builtins' and not issym(other) \
                and not isinstance(other, (list, dict)):
            if type(other).__eq__ is object.__eq__:
                return False
        return self.narrow() == other

    def __ne__(self, other):
        return neg(self.__eq__(other))

    def __bool__(self):
        if self.resolved is not None:
            return bool(self.resolved[1])
        return bool(truth(self))

    def __hash__(self):
        v = self.narrow()
        if isinstance(v, (list, dict)):
            raise TypeError('unhashable type')
        return hash(v)

    def __len__(self):
        return len(self.narrow())

    def __iter__(self):
        return iter(self.narrow())

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            if name in ('__deepcopy__', '__copy__', '__reduce_ex__'):
                raise AttributeError(name)
        return getattr(self.narrow(), name)

    def __index__(self):
        return operator.index(self.narrow())

    def __int__(self):
        raise Unsupported('native int()')

    def __float__(self):
        raise Unsupported('native float()')

    def __contains__(self, x):
        return x in self.narrow()

    def __getitem__(self, k):
        return self.narrow()[k]

    def __setitem__(self, k, v):
        self.narrow()[k] = v

    def __delitem__(self, k):
        del self.narrow()[k]


def _fwd(name):
    f = getattr(operator, name, None)

    def op(self, other):
        return f(self.narrow(), other)

    def rop(self, other):
        return f(other, self.narrow())
    return op, rop


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'lshift',
           'rshift', 'and', 'or', 'xor', 'pow'):
    _f = {'and': 'and_', 'or': 'or_'}.get(_n, _n)
    _o, _r = _fwd(_f)
    setattr(SAny, '__%s__' % _n, _o)
    setattr(SAny, '__r%s__' % _n, _r)
for _n in ('lt', 'le', 'gt', 'ge'):
    setattr(SAny, '__%s__' % _n, _fwd(_n)[0])
for _n in ('neg', 'pos', 'abs', 'invert'):
    def _u(self, _f=getattr(operator, _n)):
        return _f(self.narrow())
    setattr(SAny, '__%s__' % _n, _u)
for _n in ('trunc', 'floor', 'ceil'):
    def _u(self, _f=getattr(math, _n)):
        return _f(self.narrow())
    setattr(SAny, '__%s__' % _n, _u)


class Opaque:
    """An object of a type unknown to the code under verification."""

    def __init__(self, name):
        self.vc_name = name


def truth(x):
    """bool(x) as host bool or SBool, without forking where possible."""
    t = type(x)
    if t is SBool:
        return x
    if t is SInt or t is SFloat:
        return wrapb(x.t != 0) if not (t is SInt and x.bv is not None) \
            else wrapb(x.bv != 0)
    if t is SAny:
        if x.resolved is not None:
            return truth(x.resolved[1])
        return disj(conj(x.kind == BOOL, x.payload(BOOL)),
                    conj(x.kind == INT, truth(x.payload(INT))),
                    conj(x.kind == FLT, truth(x.payload(FLT))),
                    conj(x.kind == STRK, truth(x.payload(STRK))),
                    conj(x.kind == BYT, truth(x.payload(BYT))),
                    conj(x.kind == LIST, truth(x.payload(LIST))),
                    conj(x.kind == DICT, truth(x.payload(DICT))),
                    x.kind == OBJ)
    if hasattr(t, 'vc_truth'):
        return x.vc_truth()
    return bool(x)
