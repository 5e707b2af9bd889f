"""Symbolic str and bytes as ropes: concatenations of literals and atoms."""
import z3

from .sym import (BYTES, E, Internal, PathEnd, Rope, SAny, SBool, SFloat, SInt, STR,
                  Sym, Unsupported, assumption, bounded, concrete_int, conj,
                  disj, imprecise, issym, narrow, neg, num_t, tb, wrapb,
                  wrapn)


class Atom:
    """An indivisible piece: z3 term, length (int, or None if unknown)."""
    __slots__ = ('t', 'n', 'tag', 'split', 'isbytes')

    def __init__(self, t, n=None, tag=None, isbytes=True):
        self.t = t
        self.n = n
        self.tag = tag
        self.split = None
        self.isbytes = isbytes

    def length(self):
        return self.n if self.n is not None else z3.Length(self.t)


def lit_term(x):
    if isinstance(x, bytes):
        if not x:
            return z3.Empty(BYTES)
        us = [z3.Unit(z3.BitVecVal(b, 8)) for b in x]
        return us[0] if len(us) == 1 else z3.Concat(*us)
    return z3.StringVal(x)


def norm(pieces):
    out = []

    def put(p):
        if isinstance(p, Atom):
            if p.split is not None:
                for q in p.split:
                    put(q)
                return
            if p.n == 0:
                return
            out.append(p)
        else:
            if not p:
                return
            if out and not isinstance(out[-1], Atom):
                out[-1] = out[-1] + p
            else:
                out.append(p)
    for p in pieces:
        put(p)
    return out


def mk(cls, pieces):
    """Rope or, when fully literal, a host str/bytes."""
    ps = norm(pieces)
    if not ps:
        return cls.empty
    if len(ps) == 1 and not isinstance(ps[0], Atom):
        return ps[0]
    return cls(ps)


def pieces_of(x):
    if isinstance(x, Rope):
        return norm(x.pieces)
    return [x] if len(x) else []


def bytes_atom(name, n=None, tag=None):
    t = z3.Const(name, BYTES)
    if n is not None:
        E.pm.add(z3.Length(t) == n)
        if n == 0:
            return b''
    return SBytes([Atom(t, n, tag, True)])


def str_atom(name, n=None, tag=None):
    t = z3.Const(name, STR)
    if n is not None:
        E.pm.add(z3.Length(t) == n)
        if n == 0:
            return ''
    return SStr([Atom(t, n, tag, False)])


def term_atom(t, n=None, tag=None, isbytes=True):
    """A rope around an existing z3 term."""
    if n is not None:
        E.pm.add(z3.Length(t) == n)
    cls = SBytes if isbytes else SStr
    return cls([Atom(t, n, tag, isbytes)])


def of_length(x, n):
    """x, whose length is known to be n on this path"""
    ps = pieces_of(x) if isinstance(x, Rope) else ()
    if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].n is None:
        return term_atom(ps[0].t, n, ps[0].tag, ps[0].isbytes)
    return x


def term(x):
    if isinstance(x, Rope):
        ps = norm(x.pieces)
        if not ps:
            return lit_term(x.empty)
        ts = [p.t if isinstance(p, Atom) else lit_term(p) for p in ps]
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)
    return lit_term(x)


def rlen(x):
    """Length as host int or SInt."""
    if not isinstance(x, Rope):
        return len(x)
    c, s = 0, []
    for p in norm(x.pieces):
        if isinstance(p, Atom):
            if p.n is None:
                s.append(z3.Length(p.t))
            else:
                c += p.n
        else:
            c += len(p)
    if not s:
        return c
    return wrapn(z3.Sum(s + [z3.IntVal(c)]), False)


def len_ge(x, k):
    n = rlen(x)
    if isinstance(n, int) and not issym(n):
        return n >= k
    return E.pm.fork(n.t >= k)


def split_atom(a, k, from_end=False):
    """Split an atom at offset k (from the end: the last k elements)."""
    pm = E.pm
    sort = a.t.sort()
    if a.tag is not None and a.tag[0] == 'bv':
        k1 = a.n - k if from_end else k
        k2 = 8 * (a.n - k1)
        return (bv_atom(z3.Extract(8 * a.n - 1, k2, a.tag[1])),
                bv_atom(z3.Extract(k2 - 1, 0, a.tag[1])))
    n1 = z3.Const(pm.fresh('sp'), sort)
    n2 = z3.Const(pm.fresh('sp'), sort)
    if from_end:
        l2 = k
        l1 = a.n - k if a.n is not None else None
    else:
        l1 = k
        l2 = a.n - k if a.n is not None else None
    pm.add(a.t == z3.Concat(n1, n2))
    if l1 is not None:
        pm.add(z3.Length(n1) == l1)
    if l2 is not None:
        pm.add(z3.Length(n2) == l2)
    tag = tag1 = None
    if a.tag and a.tag[0] == 'hash' and a.n is not None and \
            type(a.tag[1]) is str and a.tag[1] != 'address':
        # a part that is long enough has no collisions either
        if l1 >= 16:
            tag1 = ('hash', (a.tag[1], 0, l1), a.tag[2])
        if l2 >= 16:
            tag = ('hash', (a.tag[1], l1, a.n), a.tag[2])
    if (l1, l2) == (12, 20) and a.tag and a.tag[:2] == ('hash', 'keccak'):
        # an Ethereum address
        tag = ('hash', 'address', a.tag[2])
        pm.add(n2 == fun('address', BYTES, BYTES)(term(a.tag[2])))
        assumption('no two public keys have the same Ethereum address')
    p1 = Atom(n1, l1, tag1, a.isbytes)
    p2 = Atom(n2, l2, tag, a.isbytes)
    a.split = [p1, p2]
    return p1, p2


def short_length(a, limit):
    """The length of an atom known to be shorter than the limit"""
    n = wrapn(z3.Length(a.t), False)
    try:
        return concrete_int(n)
    except Unsupported:
        if limit > 32:
            raise
    for i in range(limit):
        if E.pm.fork(z3.Length(a.t) == i):
            return i
    raise PathEnd()


def cut(x, k):
    """(first k, rest) with Python clipping; forks on the length."""
    cls = type(x)
    if not len_ge(x, k):
        return x, cls.empty
    left, need = [], k
    ps = norm(x.pieces)
    i = 0
    while i < len(ps) and need > 0:
        p = ps[i]
        if isinstance(p, Atom):
            if p.n is None:
                if E.pm.fork(z3.Length(p.t) >= need):
                    if E.pm.entailed(z3.Length(p.t) == need):
                        left.append(p)
                        need = 0
                        i += 1
                        break
                    a, b = split_atom(p, need)
                    left.append(a)
                    ps[i] = b
                    need = 0
                    break
                if E.pm.entailed(z3.Length(p.t) == 0):
                    i += 1
                    continue
                # a short atom in front: its length must be determined
                n = short_length(p, need)
                left.append(p)
                need -= n
                i += 1
            elif p.n <= need:
                left.append(p)
                need -= p.n
                i += 1
            else:
                a, b = split_atom(p, need)
                left.append(a)
                ps[i] = b
                need = 0
        else:
            if len(p) <= need:
                left.append(p)
                need -= len(p)
                i += 1
            else:
                left.append(p[:need])
                ps[i] = p[need:]
                need = 0
    return mk(cls, left), mk(cls, ps[i:])


def cut_end(x, k):
    """(rest, last k) with Python clipping."""
    cls = type(x)
    if not len_ge(x, k):
        return cls.empty, x
    right, need = [], k
    ps = norm(x.pieces)
    while ps and need > 0:
        p = ps[-1]
        if isinstance(p, Atom):
            if p.n is None:
                if E.pm.fork(z3.Length(p.t) >= need):
                    if E.pm.entailed(z3.Length(p.t) == need):
                        right.insert(0, ps.pop())
                        break
                    a, b = split_atom(p, need, True)
                    ps[-1] = a
                    right.insert(0, b)
                    break
                if E.pm.entailed(z3.Length(p.t) == 0):
                    ps.pop()
                    continue
                n = short_length(p, need)
                right.insert(0, ps.pop())
                need -= n
            elif p.n <= need:
                right.insert(0, ps.pop())
                need -= p.n
            else:
                a, b = split_atom(p, need, True)
                ps[-1] = a
                right.insert(0, b)
                need = 0
        else:
            if len(p) <= need:
                right.insert(0, ps.pop())
                need -= len(p)
            else:
                right.insert(0, p[-need:])
                ps[-1] = p[:-need]
                need = 0
    return mk(cls, ps), mk(cls, right)


def _cut(x, k):
    if not isinstance(x, Rope):
        return x[:k], x[k:]
    return cut(x, k)


def _cut_end(x, k):
    if k == 0:
        return x, x[:0]
    if not isinstance(x, Rope):
        return x[:-k], x[-k:]
    return cut_end(x, k)


def num_int(x):
    return num_t(x)[0] if issym(x) else z3.IntVal(x)


def known_int(a):
    try:
        return a if a is None else concrete_int(a)
    except Unsupported:
        return a


def sym_cut(x, k):
    """Cut at a symbolic position where two parts are known to meet"""
    cls = type(x)
    ps = norm(x.pieces) if isinstance(x, Rope) else [x]
    if E.pm.fork(num_int(k) < 0):
        raise Unsupported('a concrete integer is needed here')
    if E.pm.entailed(num_int(rlen(x)) <= num_int(k)):
        return x, x[:0]
    for i in range(len(ps)):
        head = mk(cls, ps[:i])
        if E.pm.entailed(num_int(rlen(head)) == num_int(k)):
            return head, mk(cls, ps[i:])
    raise Unsupported('a concrete integer is needed here')


def rslice(x, a, b, c):
    if c is not None and c != 1:
        raise Unsupported('extended slice of a symbolic string')
    if issym(a) or issym(b):
        a, b = known_int(a), known_int(b)
    if issym(b):
        x, b = sym_cut(x, b)[0], None
    if issym(a):
        if b is not None:
            raise Unsupported('a slice from a symbolic position')
        return sym_cut(x, a)[1]
    if a is not None and b is not None and a < 0 <= b:
        raise Unsupported('slice with mixed signs')
    if a is not None and a < 0:
        x = _cut_end(x, -a)[1]
        a = None
        if b is not None:
            x = _cut_end(x, -b)[0]
        return x
    if b is not None:
        x = _cut_end(x, -b)[0] if b < 0 else _cut(x, b)[0]
    if a:
        x = _cut(x, a)[1]
    return x


def index(x, i):
    i = concrete_int(i)
    if i >= 0:
        if not len_ge(x, i + 1):
            raise IndexError('index out of range')
        one = rslice(x, i, i + 1, None)
    else:
        if not len_ge(x, -i):
            raise IndexError('index out of range')
        one = _cut(_cut_end(x, -i)[1], 1)[0]
    if isinstance(x, SStr):
        return one
    if not isinstance(one, Rope):
        return one[0]
    return SInt(bv=seq2bv(one))


# ------------------------------------------------------------- equality
def req(a, b):
    """Equality of two ropes/literals of the same kind -> bool or SBool."""
    if a is b:
        return True
    la, lb = rlen(a), rlen(b)
    if not issym(la) and not issym(lb) and la != lb:
        return False
    pa, pb = pieces_of(a), pieces_of(b)
    conds = []
    # strip aligned parts from the front, then from the back
    for end in (0, -1):
        while pa and pb:
            if conds and conds[-1] is False:
                return False
            x, y = pa[end], pb[end]
            xa, ya = isinstance(x, Atom), isinstance(y, Atom)
            if xa and ya:
                if x is y or x.t.eq(y.t):
                    pa.pop(end)
                    pb.pop(end)
                    continue
                if x.n is not None and y.n is not None:
                    if x.n == y.n:
                        conds.append(atom_eq(x, y))
                        pa.pop(end)
                        pb.pop(end)
                        continue
                    big, ps = (x, pa) if x.n > y.n else (y, pb)
                    if big.tag is not None and big.tag[0] != 'bv':
                        break
                    p1, p2 = split_atom(big, min(x.n, y.n), end == -1)
                    ps[end:end + 1 if end == 0 else None] = [p1, p2]
                    continue
                if len(pa) == 1 and len(pb) == 1 or (
                        end == 0 and x.tag and y.tag and
                        x.tag[0] == y.tag[0] == 'cbor'):
                    # (an encoding is never the beginning of another)
                    conds.append(atom_eq(x, y))
                    pa.pop(end)
                    pb.pop(end)
                    continue
                break
            if not xa and not ya:
                k = min(len(x), len(y))
                if end == 0:
                    if x[:k] != y[:k]:
                        return False
                    pa[0], pb[0] = x[k:], y[k:]
                else:
                    if x[-k:] != y[-k:]:
                        return False
                    pa[-1], pb[-1] = x[:-k], y[:-k]
                pa[:] = [p for p in pa if isinstance(p, Atom) or p]
                pb[:] = [p for p in pb if isinstance(p, Atom) or p]
                continue
            # atom against literal
            at, lit, ps, qs = (x, y, pa, pb) if xa else (y, x, pb, pa)
            if at.n is not None and at.n <= len(lit):
                part = lit[:at.n] if end == 0 else lit[len(lit) - at.n:]
                rest = lit[at.n:] if end == 0 else lit[:len(lit) - at.n]
                conds.append(atom_lit(at, part))
                ps.pop(end)
                if rest:
                    qs[end] = rest
                else:
                    qs.pop(end)
                continue
            if at.n is None and len(ps) == 1 and len(qs) == 1:
                conds.append(atom_lit(at, lit))
                pa, pb = [], []
                break
            if at.n is not None and at.n > len(lit) and (
                    at.tag is None or at.tag[0] == 'bv'):
                p1, p2 = split_atom(at, len(lit), end == -1)
                ps[end:end + 1 if end == 0 else None] = [p1, p2]
                continue
            break
    if pa or pb:
        cls = SBytes if isinstance(a, (bytes, SBytes)) else SStr
        if not pa or not pb:
            rest = mk(cls, pa or pb)
            n = rlen(rest)
            conds.append(wrapb(num_t(n)[0] == 0))
        else:
            conds.append(wrapb(term(mk(cls, pa)) == term(mk(cls, pb))))
    return conj(*conds)


INJECTIVE = ('hash', 'cbor', 'hex', 'utf8', 'enc', 'sig', 'mac', 'pub',
             'uuidstr', 'uuidbytes', 'chex')


def atom_eq(x, y):
    tx, ty = x.tag, y.tag
    if tx and ty and tx[0] == ty[0]:
        k = tx[0]
        if k == 'be' and tx[1] == ty[1]:
            return tx[2] == ty[2]
        if k == 'bv' and tx[1].size() == ty[1].size():
            return wrapb(tx[1] == ty[1])
        if k in ('hash', 'mac'):
            if tx[1] != ty[1]:
                return wrapb(x.t == y.t)
            assumption('cryptographic hashes and MACs are collision free, and '
                       'so are parts of them from 16 bytes on')
            return conj(*[req(p, q) for p, q in zip(tx[2:], ty[2:])])
        if k in ('hex', 'utf8', 'chex'):
            return req(tx[1], ty[1])
        if k == 'cbor':
            from .deep import wire_same
            assumption('cbor.dumps is injective on wire values and '
                       'cbor.loads is its inverse')
            return wire_same(tx[1], ty[1])
        if k == 'eq':
            return tx[1](tx, ty)
    return wrapb(x.t == y.t)


def atom_lit(at, lit):
    tag = at.tag
    if at.n == len(lit) and at.t.get_id() in E.pm.linked:
        return wrapb(seq2bv(mk(SBytes, [at])) == z3.BitVecVal(
            int.from_bytes(lit, 'big'), 8 * len(lit)))
    if tag:
        if tag[0] == 'be':
            return tag[2] == int.from_bytes(lit, 'big')
        if tag[0] == 'bv':
            return wrapb(tag[1] == z3.BitVecVal(
                int.from_bytes(lit, 'big'), tag[1].size()))
        if tag[0] == 'hex':
            try:
                raw = bytes.fromhex(lit)
            except ValueError:
                return False
            if raw.hex() != lit:
                return False
            return req(tag[1], raw)
        if tag[0] == 'utf8':
            try:
                return req(tag[1], lit.decode())
            except UnicodeDecodeError:
                return False
        if tag[0] == 'cbor':
            from .deep import wire_same
            from .models import cborlib
            try:
                v, used = cborlib.decode(lit)
            except Exception:
                return False
            if used != len(lit) or cborlib.encode(v) != lit:
                return wrapb(at.t == lit_term(lit))
            return wire_same(tag[1], v)
    return wrapb(at.t == lit_term(lit))


# ------------------------------------------------------ integers in bytes
_F = {}


def fun(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _F:
        _F[key] = z3.Function(name, *sorts)
    return _F[key]


def seq2bv(x):
    """Big-endian unsigned value of a rope of known length, as bit-vector."""
    if not isinstance(x, Rope):
        return z3.BitVecVal(int.from_bytes(x, 'big'), 8 * len(x))
    out = []
    for p in norm(x.pieces):
        if isinstance(p, Atom):
            if p.tag and p.tag[0] == 'bv':
                out.append(p.tag[1])
                continue
            if p.n is None:
                raise Unsupported('integer from bytes of unknown length')
            n = p.n
            s2b = fun('seq2bv%d' % n, BYTES, z3.BitVecSort(8 * n))
            b2s = fun('bv2seq%d' % n, z3.BitVecSort(8 * n), BYTES)
            bv = s2b(p.t)
            E.pm.linked.add(p.t.get_id())
            E.pm.keep.append(p.t)
            if p.tag and p.tag[0] == 'be':
                E.pm.add(z3.BV2Int(bv) == num_t(p.tag[2])[0])
            if n == 1:
                E.pm.add(p.t == z3.Unit(bv))
            else:
                E.pm.add(b2s(bv) == p.t)
            out.append(bv)
        else:
            out.append(z3.BitVecVal(int.from_bytes(p, 'big'), 8 * len(p)))
    return out[0] if len(out) == 1 else z3.simplify(z3.Concat(*out))


def int_from_bytes(x, byteorder='big', signed=False):
    if signed or byteorder != 'big':
        if not isinstance(x, Rope):
            return int.from_bytes(x, byteorder, signed=signed)
        n = rlen(x)
        if issym(n) or n > 64:
            raise Unsupported('int.from_bytes of unknown length')
        return little_or_signed(x, n, byteorder, signed)
    if not isinstance(x, Rope):
        return int.from_bytes(x, 'big')
    ps = norm(x.pieces)
    if len(ps) == 1 and isinstance(ps[0], Atom):
        tag = ps[0].tag
        if tag and tag[0] == 'be':
            return tag[2]
        if tag and tag[0] == 'bv':
            return SInt(bv=tag[1])
    n = rlen(x)
    if issym(n):
        # unknown length: an uninterpreted non-negative number
        f = fun('seq2int', BYTES, z3.IntSort())
        v = f(term(x))
        E.pm.add(v >= 0)
        for k in range(0, 5):
            E.pm.add(z3.Implies(z3.Length(term(x)) <= k, v < 256 ** k))
        return SInt(v)
    return SInt(bv=seq2bv(x))


def little_or_signed(x, n, byteorder, signed):
    parts = [seq2bv(x[i:i + 1]) for i in range(n)]
    if byteorder == 'little':
        parts.reverse()
    bv = parts[0] if n == 1 else z3.Concat(*parts)
    if signed:
        return SInt(z3.BV2Int(bv, is_signed=True))
    return SInt(bv=bv)


def int_to_bytes(x, length, byteorder, signed):
    if signed or byteorder != 'big':
        raise Unsupported('to_bytes: little endian or signed')
    n = concrete_int(length)
    if x.bv is not None:
        w = x.bv.size()
        if w > 8 * n:
            hi = z3.Extract(w - 1, 8 * n, x.bv)
            if not E.pm.fork(hi == 0):
                raise OverflowError('int too big to convert')
            bv = z3.Extract(8 * n - 1, 0, x.bv)
        elif w < 8 * n:
            bv = z3.ZeroExt(8 * n - w, x.bv)
        else:
            bv = x.bv
        return mk(SBytes, [bv_atom(bv)])
    if E.pm.fork(x.t < 0):
        raise OverflowError("can't convert negative int to unsigned")
    if not E.pm.fork(x.t < 256 ** n):
        raise OverflowError('int too big to convert')
    return be_atom(x, n)


def bv_atom(bv):
    """The bytes of a bit-vector, most significant first, as an atom."""
    bv = z3.simplify(bv)
    n = bv.size() // 8
    b2s = fun('bv2seq%d' % n, z3.BitVecSort(8 * n), BYTES)
    s2b = fun('seq2bv%d' % n, BYTES, z3.BitVecSort(8 * n))
    t = b2s(bv)
    E.pm.add(s2b(t) == bv)
    E.pm.add(z3.Length(t) == n)
    if n == 1:
        E.pm.add(t == z3.Unit(bv))
    return Atom(t, n, ('bv', bv))


def be_atom(x, n):
    """n-byte big-endian form of an int known to be in range."""
    if not issym(x):
        return int(x).to_bytes(n, 'big')
    f = fun('be%d' % n, z3.IntSort(), BYTES)
    g = fun('unbe%d' % n, BYTES, z3.IntSort())
    t = f(x.t)
    E.pm.add(g(t) == x.t)
    return term_atom(t, n, ('be', n, x))


# ------------------------------------------------------------------ classes
def _other(self, o):
    """o as something ropes can be combined with, or None."""
    if type(o) is SAny:
        o = o.narrow()
    if isinstance(self, SBytes):
        if isinstance(o, (bytes, bytearray)) and not issym(o):
            return bytes(o)
        if isinstance(o, SBytes):
            return o
        return None
    if type(o) is str:
        return o
    if isinstance(o, SStr):
        return o
    if isinstance(o, str):
        return str.__str__(o)
    return None


class _R(Rope):
    __slots__ = ()
    empty = None

    def __init__(self, pieces):
        self.pieces = pieces

    def __add__(self, o):
        p = _other(self, o)
        if p is None:
            raise TypeError("can't concat")
        return mk(type(self), self.pieces + pieces_of(p))

    def __radd__(self, o):
        p = _other(self, o)
        if p is None:
            raise TypeError("can't concat")
        return mk(type(self), pieces_of(p) + self.pieces)

    def __mul__(self, k):
        k = concrete_int(k)
        return mk(type(self), list(self.pieces) * max(0, k))

    __rmul__ = __mul__

    def __eq__(self, o):
        if type(o) is SAny:
            return o.__eq__(self)
        p = None
        if issym(o) or isinstance(o, (str, bytes, bytearray)):
            p = _other(self, o)
        if p is None:
            if issym(o) or o is None or type(o) in (
                    int, float, bool, str, bytes, list, dict, tuple):
                return False
            return NotImplemented
        return req(self, p)

    __hash__ = Sym.__hash__

    def vc_truth(self):
        n = rlen(self)
        if not issym(n):
            return n > 0
        return wrapb(n.t > 0)

    def __bool__(self):
        r = self.vc_truth()
        return r if r is True or r is False else E.pm.fork(r.t)

    def __len__(self):
        return concrete_int(rlen(self))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return rslice(self, k.start, k.stop, k.step)
        return index(self, k)

    def __iter__(self):
        n = rlen(self)
        if not issym(n):
            for i in range(n):
                yield self[i]
            return
        i = 0
        while E.pm.fork(num_t(n) > i):
            if i >= E.unroll:
                raise Unsupported('iteration over a string of unknown '
                                  'length')
            yield self[i]
            i += 1

    def __lt__(self, o):
        p = _other(self, o)
        if p is None:
            raise TypeError("'<' not supported")
        if isinstance(self, SStr):
            return wrapb(term(self) < term(p))
        raise Unsupported('ordering of symbolic bytes')

    def __gt__(self, o):
        p = _other(self, o)
        if p is None:
            raise TypeError("'>' not supported")
        if isinstance(self, SStr):
            return wrapb(term(p) < term(self))
        raise Unsupported('ordering of symbolic bytes')

    def __le__(self, o):
        return disj(self < o, self == o)

    def __ge__(self, o):
        return disj(self > o, self == o)

    def __contains__(self, o):
        p = _other(self, o)
        if p is None:
            if isinstance(self, SBytes) and isinstance(o, int):
                raise Unsupported('int in symbolic bytes')
            raise TypeError('in <string> requires string')
        return bool(wrapb(z3.Contains(term(self), term(p))))

    def startswith(self, p):
        if isinstance(p, tuple):
            return disj(*[self.startswith(q) for q in p])
        if not isinstance(p, Rope) and not isinstance(p, (str, bytes)):
            raise TypeError('startswith')
        if not issym(p):
            n = rlen(self)
            if not issym(n):
                if n < len(p):
                    return False
                return req(rslice(self, 0, len(p), None), p)
        return wrapb(z3.PrefixOf(term(p), term(self)))

    def endswith(self, p):
        if isinstance(p, tuple):
            return disj(*[self.endswith(q) for q in p])
        if not issym(p):
            n = rlen(self)
            if not issym(n):
                if n < len(p):
                    return False
                return req(_cut_end(self, len(p))[1], p)
        return wrapb(z3.SuffixOf(term(p), term(self)))

    def join(self, parts):
        return join(self, parts)

    def _fn(self, name, n=None, out=None):
        """An uninterpreted function of the string."""
        sort = BYTES if isinstance(self, SBytes) else STR
        f = fun('py_' + name, sort, sort)
        return term_atom(f(term(self)), n, None, isinstance(self, SBytes))


def join(sep, parts):
    parts = [narrow(p) for p in parts]
    cls = SBytes if isinstance(sep, (bytes, SBytes)) else SStr
    ps = []
    for i, p in enumerate(parts):
        if cls is SStr and not isinstance(p, str):
            raise TypeError('sequence item: expected str instance')
        if cls is SBytes and not isinstance(p, (bytes, bytearray)):
            raise TypeError('sequence item: expected a bytes-like object')
        if i:
            ps.extend(pieces_of(sep))
        ps.extend(pieces_of(p))
    return mk(cls, ps)


class SBytes(_R):
    __slots__ = ()
    empty = b''
    __class__ = property(lambda self: bytes)

    def hex(self, *a):
        if a:
            raise Unsupported('hex with separator')
        out = []
        for p in norm(self.pieces):
            if isinstance(p, Atom):
                out.append(hex_atom(p))
            else:
                out.append(p.hex())
        return mk(SStr, out)

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self, encoding, errors)

    def lower(self):
        return self._fn('blower')

    def rstrip(self, *a):
        raise Unsupported('rstrip on symbolic bytes')

    strip = lstrip = rstrip

    def find(self, *a):
        raise Unsupported('find on symbolic bytes')

    index = split = replace = count = find


def hex_atom(p):
    f = fun('hex', BYTES, STR)
    t = f(p.t)
    E.pm.add(z3.Length(t) == (2 * p.n if p.n is not None
                              else 2 * z3.Length(p.t)))
    g = fun('unhex', STR, BYTES)
    E.pm.add(g(t) == p.t)
    return Atom(t, 2 * p.n if p.n is not None else None,
                ('hex', SBytes([p])), False)


class SStr(_R):
    __slots__ = ()
    empty = ''
    __class__ = property(lambda self: str)

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self, encoding, errors)

    def lower(self):
        return self._fn('lower')

    def upper(self):
        return self._fn('upper')

    def strip(self, *a):
        if a:
            raise Unsupported('strip(chars)')
        return self._fn('strip')

    def rstrip(self, *a):
        if a:
            raise Unsupported('rstrip(chars)')
        return self._fn('rstrip')

    def lstrip(self, *a):
        if a:
            raise Unsupported('lstrip(chars)')
        return self._fn('lstrip')

    def isdigit(self):
        f = fun('py_isdigit', STR, z3.BoolSort())
        return wrapb(f(term(self)))

    def replace(self, a, b, n=-1):
        raise Unsupported('replace on a symbolic str')

    def format(self, *a, **k):
        raise Unsupported('symbolic format string')

    def split(self, *a):
        raise Unsupported('split on a symbolic str')

    rsplit = find = rfind = index = count = partition = split
    zfill = ljust = rjust = center = title = split


ASCII_ENC = ('ascii', 'us-ascii')
UTF8 = ('utf-8', 'utf8', 'UTF-8', 'utf_8')


def encode(x, encoding='utf-8', errors='strict'):
    if encoding not in UTF8 and encoding not in ASCII_ENC:
        raise Unsupported('codec %r' % (encoding,))
    out = []
    for p in norm(x.pieces):
        if not isinstance(p, Atom):
            out.append(p.encode(encoding, errors))
            continue
        tag = p.tag
        if tag and tag[0] == 'utf8dec':
            out.extend(pieces_of(tag[1]))
            continue
        isascii = tag is not None and tag[0] in (
            'hex', 'chex', 'uuidstr', 'ascii', 'version', 'intstr')
        if encoding in ASCII_ENC and not isascii:
            if errors != 'replace':
                raise Unsupported('ascii encoding of an arbitrary str')
            f = fun('asciirep', STR, BYTES)
            t = f(p.t)
            E.pm.add(z3.Length(t) == z3.Length(p.t))
            out.append(Atom(t, p.n, ('asciirep', SStr([p])), True))
            continue
        f = fun('utf8', STR, BYTES)
        g = fun('utf8dec', BYTES, STR)
        t = f(p.t)
        E.pm.add(g(t) == p.t)
        if isascii:
            E.pm.add(z3.Length(t) == (p.n if p.n is not None
                                      else z3.Length(p.t)))
        else:
            E.pm.add(z3.Length(t) >= z3.Length(p.t))
            E.pm.add(z3.Length(t) <= 4 * z3.Length(p.t))
        out.append(Atom(t, p.n if isascii else None,
                        ('utf8', SStr([p]), isascii), True))
    return mk(SBytes, out)


def decode(x, encoding='utf-8', errors='strict'):
    if encoding not in UTF8 and encoding not in ASCII_ENC:
        raise Unsupported('codec %r' % (encoding,))
    out = []
    for p in norm(x.pieces):
        if not isinstance(p, Atom):
            out.append(p.decode(encoding, errors))
            continue
        tag = p.tag
        if tag and tag[0] == 'utf8' and (encoding in UTF8 or tag[2]):
            out.extend(pieces_of(tag[1]))
            continue
        if tag and tag[0] == 'asciirep' and errors == 'replace':
            f = fun('asciirep_dec', BYTES, STR)
            out.append(Atom(f(p.t), p.n, None, False))
            continue
        if errors == 'replace' and encoding in ASCII_ENC:
            f = fun('asciirep_dec', BYTES, STR)
            t = f(p.t)
            E.pm.add(z3.Length(t) == z3.Length(p.t))
            out.append(Atom(t, p.n, None, False))
            continue
        if errors != 'strict':
            raise Unsupported('decode errors=%r' % errors)
        ok = fun('is_' + encoding.replace('-', '').lower(), BYTES,
                 z3.BoolSort())
        if not E.pm.fork(ok(p.t)):
            raise UnicodeDecodeError(encoding, b'?', 0, 1,
                                     'invalid start byte')
        g = fun('utf8dec', BYTES, STR)
        f = fun('utf8', STR, BYTES)
        t = g(p.t)
        E.pm.add(f(t) == p.t)
        E.pm.add(z3.Length(t) <= (p.n if p.n is not None
                                  else z3.Length(p.t)))
        out.append(Atom(t, None, ('utf8dec', SBytes([p])), False))
    return mk(SStr, out)


def opaque_str(base='fmt'):
    """A string whose content the properties do not depend on."""
    return str_atom(E.pm.fresh(base))


def hexlify(x):
    """bytes -> bytes (hex digits)"""
    return encode_any(x.hex() if isinstance(x, SBytes)
                      else bytes(x).hex())


def encode_any(s):
    return s.encode('ascii')


def unhexlify(s):
    """str/bytes of hex digits -> bytes"""
    import binascii
    if isinstance(s, SBytes):
        out = []
        ps = norm(s.pieces)
        if all(not isinstance(p, Atom) or
               (p.tag and p.tag[0] == 'utf8') for p in ps):
            s = decode(s)
        else:
            return _unhex_atom(s)
    if not isinstance(s, Rope):
        return binascii.unhexlify(s)
    out = []
    for p in norm(s.pieces):
        if isinstance(p, Atom):
            if p.tag and p.tag[0] in ('hex', 'chex'):
                out.extend(pieces_of(p.tag[1]))
            else:
                return _unhex_atom(s)
        else:
            if len(p) % 2:
                return _unhex_atom(s)
            out.append(binascii.unhexlify(p))
    return mk(SBytes, out)


def _unhex_atom(s):
    import binascii
    t = term(s)
    sort = t.sort()
    isb = isinstance(s, SBytes)
    ok = fun('is_hex_b' if isb else 'is_hex', sort, z3.BoolSort())
    n = rlen(s)
    nt = num_t(n)[0]
    E.pm.add(z3.Implies(ok(t), nt % 2 == 0))
    E.pm.add(z3.Implies(nt == 0, ok(t)))
    if not E.pm.fork(ok(t)):
        raise binascii.Error('Non-hexadecimal digit found')
    f = fun('unhex_b' if isb else 'unhex', sort, BYTES)
    r = f(t)
    E.pm.add(2 * z3.Length(r) == nt)
    ln = None
    if not issym(n):
        ln = n // 2
    return term_atom(r, ln, ('unhex', s))
