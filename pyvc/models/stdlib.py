"""Models (assumed contracts) of the standard-library functions the code
calls, on symbolic arguments.  With concrete arguments the real function is
executed, except for the clock."""
import binascii
import calendar
import copy
import datetime
import functools
import hashlib
import importlib
import ipaddress
import logging
import random
import struct
import time
import uuid
import warnings

import z3

from .. import ropes, seqs
from ..ops import MODELS, always, has_sym, method, model, truth
from ..ropes import Atom, SBytes, SStr, fun, pieces_of, rlen, term
from ..sym import (BOOL, BYT, BYTES, E, FLT, INT, Internal, LIST, NONE,
                   PathEnd, Rope, SAny, SBool, SFloat, SInt, STR, STRK, Sym,
                   Unsupported, assumption, concrete_int, conj, disj,
                   imprecise, issym, narrow, neg, num_t, tb, wrapb, wrapn)

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()

# ------------------------------------------------------------------- clock


def now_us():
    if E.pm is None:
        return 1262304000 * 10**6      # import time
    if E.now is None:
        n = z3.Int('now_us')
        # the clock shows a time between 2010 and 3010 (the range of
        # acceptable timestamps is asserted separately by the code)
        E.pm.add(z3.And(n >= 1262304000 * 10**6, n < 32503680000 * 10**6))
        E.now = SInt(n)
        E.pm.inputs.append(('now_us', 'now', n))
        assumption('the clock is read as constant during one call and shows '
                   'a time between 2010-01-01 and 3000-01-01')
    return E.now


def to_real(x):
    t, real = num_t(x)
    return t if real else z3.ToReal(t)


class SGm:
    """time.struct_time of the (symbolic) current time"""
    vc_symbolic = True

    def __init__(self, secs):
        self.secs = secs


@always(time.time)
def m_time():
    n = now_us()
    return wrapn(to_real(n) / 1000000, True)


@always(time.time_ns)
def m_time_ns():
    return now_us() * 1000


@always(time.gmtime)
def m_gmtime(secs=None):
    if secs is None:
        return SGm(now_us() // 1000000)
    secs = narrow(secs)
    if not issym(secs):
        return time.gmtime(secs)
    return SGm(secs.__floor__())


@always(calendar.timegm)
def m_timegm(tt):
    if isinstance(tt, SGm):
        return tt.secs
    if isinstance(tt, SDateTime):
        return wrapn(num_t(tt.us)[0] / 1000000, False)
    return calendar.timegm(tt)


@always(time.sleep)
def m_sleep(*a):
    return None


# ---------------------------------------------------------------- datetime
EPOCH = datetime.datetime(1970, 1, 1)
MAXD = datetime.timedelta.max // datetime.timedelta(microseconds=1)
DT_MIN = (datetime.datetime.min - EPOCH) // datetime.timedelta(microseconds=1)
DT_MAX = (datetime.datetime.max - EPOCH) // datetime.timedelta(microseconds=1)


def delta_us(x):
    if type(x) is SDelta:
        return x.us
    if isinstance(x, datetime.timedelta):
        return x // datetime.timedelta(microseconds=1)
    return None


def date_us(x):
    if type(x) is SDateTime:
        return x.us
    if isinstance(x, datetime.datetime) and not issym(x):
        if x.tzinfo is not None:
            raise Unsupported('aware datetime')
        return (x - EPOCH) // datetime.timedelta(microseconds=1)
    return None


def mkdelta(us):
    if not issym(us):
        return datetime.timedelta(microseconds=us)
    if E.pm.fork(z3.Or(us.t > MAXD, us.t < -MAXD)):
        raise OverflowError('days=%d; must have magnitude <= 999999999')
    return SDelta(us)


def round_half_even(x):
    """real -> int as datetime does"""
    if not issym(x):
        return round(x)
    if type(x) is SInt:
        return x
    return x.__round__()


class _Ord(Sym):
    __slots__ = ()

    def _c(self, o, f):
        u = self._key(o)
        if u is None:
            return NotImplemented
        return f(self.us, u)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        u = self._key(o)
        return False if u is None else self.us == u

    __hash__ = Sym.__hash__


class SDelta(_Ord):
    __slots__ = ('us',)
    __class__ = property(lambda self: datetime.timedelta)

    def __init__(self, us):
        self.us = us

    def _key(self, o):
        return delta_us(o)

    def __add__(self, o):
        u = delta_us(o)
        if u is not None:
            return mkdelta(self.us + u)
        u = date_us(o)
        if u is not None:
            return mkdate(self.us + u)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        u = delta_us(o)
        return NotImplemented if u is None else mkdelta(self.us - u)

    def __rsub__(self, o):
        u = delta_us(o)
        if u is not None:
            return mkdelta(u - self.us)
        u = date_us(o)
        if u is not None:
            return mkdate(u - self.us)
        return NotImplemented

    def __mul__(self, k):
        k = narrow(k)
        if num_t(k) is None:
            return NotImplemented
        r = self.us * k
        if isinstance(r, float):
            r = round_half_even(r)
        return mkdelta(r)

    __rmul__ = __mul__

    def __truediv__(self, k):
        u = delta_us(k)
        if u is not None:
            return self.us / u
        r = self.us / narrow(k)
        return mkdelta(round_half_even(r))

    def __floordiv__(self, k):
        u = delta_us(k)
        if u is not None:
            return self.us // u
        return mkdelta(self.us // narrow(k))

    def __neg__(self):
        return SDelta(-self.us)

    def __abs__(self):
        return SDelta(abs(self.us))

    def vc_truth(self):
        return truth(self.us)

    def __bool__(self):
        return bool(self.us)

    def total_seconds(self):
        return wrapn(to_real(self.us) / 1000000, True)

    @property
    def days(self):
        return self.us // 86400000000

    @property
    def seconds(self):
        return self.us // 1000000 % 86400

    @property
    def microseconds(self):
        return self.us % 1000000


def mkdate(us):
    if not issym(us):
        if not DT_MIN <= us <= DT_MAX:
            raise OverflowError('date value out of range')
        return SDateTime(us)
    if E.pm.fork(z3.Or(us.t > DT_MAX, us.t < DT_MIN)):
        raise OverflowError('date value out of range')
    return SDateTime(us)


class SDateTime(_Ord):
    """A naive UTC datetime as microseconds since the epoch."""
    __slots__ = ('us',)
    __class__ = property(lambda self: datetime.datetime)

    def __init__(self, us):
        self.us = us

    def _key(self, o):
        return date_us(o)

    def __add__(self, o):
        u = delta_us(o)
        return NotImplemented if u is None else mkdate(self.us + u)

    __radd__ = __add__

    def __sub__(self, o):
        u = delta_us(o)
        if u is not None:
            return mkdate(self.us - u)
        u = date_us(o)
        return NotImplemented if u is None else mkdelta(self.us - u)

    def __rsub__(self, o):
        u = date_us(o)
        return NotImplemented if u is None else mkdelta(u - self.us)

    def timestamp(self):
        raise Unsupported('datetime.timestamp() depends on the local zone')

    def utctimetuple(self):
        return SGm(self.us // 1000000)

    timetuple = utctimetuple

    def replace(self, **k):
        if set(k) == {'microsecond'} and k['microsecond'] == 0:
            return SDateTime(self.us - self.us % 1000000)
        raise Unsupported('datetime.replace')


@always(datetime.datetime.utcnow)
def m_utcnow():
    return SDateTime(now_us())


@always(datetime.datetime.utcfromtimestamp)
def m_utcfromtimestamp(ts):
    ts = narrow(ts)
    if num_t(ts) is None and not isinstance(ts, float):
        raise TypeError('an integer is required (got type %s)'
                        % type(ts).__name__)
    if isinstance(ts, bool) and not issym(ts):
        ts = int(ts)
    if not issym(ts):
        d = datetime.datetime.utcfromtimestamp(ts)
        return SDateTime(date_us(d))
    t, real = num_t(ts)
    if real:
        us = round_half_even(wrapn(t * 1000000, True))
    else:
        us = wrapn(t * 1000000, False)
    if issym(us):
        bad = z3.Or(us.t > DT_MAX, us.t < DT_MIN)
        if E.pm.fork(bad):
            # far away: OverflowError, else ValueError
            if E.pm.fork(z3.Or(us.t > 2**63 * 10**6,
                               us.t < -2**63 * 10**6)):
                raise OverflowError('timestamp out of range')
            raise ValueError('year is out of range')
    return SDateTime(us)


@always(datetime.datetime.now, datetime.datetime.fromtimestamp)
def m_local(*a, **k):
    raise Unsupported('local time')


@model(datetime.timedelta)
def m_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0,
                minutes=0, hours=0, weeks=0):
    us = 0
    for v, k in ((days, 86400000000), (seconds, 1000000), (microseconds, 1),
                 (milliseconds, 1000), (minutes, 60000000),
                 (hours, 3600000000), (weeks, 604800000000)):
        v = narrow(v)
        if num_t(v) is None:
            raise TypeError('unsupported type for timedelta component')
        us = us + v * k
    if isinstance(us, float):
        us = round_half_even(us)
    return mkdelta(us)


# -------------------------------------------------------------------- uuid
class SUUID(Sym):
    __slots__ = ('bytes',)
    __class__ = property(lambda self: uuid.UUID)

    def __init__(self, b):
        self.bytes = b

    @property
    def node(self):
        return ropes.int_from_bytes(self.bytes[10:], 'big')

    @property
    def int(self):
        return ropes.int_from_bytes(self.bytes, 'big')

    @property
    def hex(self):
        return self.bytes.hex()

    def vc_str(self):
        return uuid_str(self.bytes)

    def __eq__(self, o):
        if type(o) is SUUID:
            return ropes.req(self.bytes, o.bytes)
        if isinstance(o, uuid.UUID):
            return ropes.req(self.bytes, o.bytes)
        return False

    __hash__ = Sym.__hash__


def uuid_str(b):
    f = fun('uuid_str', BYTES, STR)
    t = f(term(b))
    E.pm.add(fun('is_uuid', STR, B)(t))
    E.pm.add(fun('uuid_bytes', STR, BYTES)(t) == term(b))
    assumption('str() of a UUID is a 36 character string that UUID() maps '
               'back to the same value')
    return ropes.term_atom(t, 36, ('uuidstr', b), False)


@always(uuid.UUID)
def m_uuid(hex=None, bytes=None, bytes_le=None, fields=None, int=None,
           version=None, **k):
    hex, bytes = narrow(hex), narrow(bytes)
    if hex is not None and bytes is None:
        if isinstance(hex, str):
            if not issym(hex):
                return uuid.UUID(hex)
            ps = pieces_of(hex)
            if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].tag \
                    and ps[0].tag[0] == 'uuidstr':
                return SUUID(ps[0].tag[1])
            t = term(hex)
            ok = fun('is_uuid', STR, B)(t)
            E.pm.add(z3.Implies(ok, z3.Length(t) >= 32))
            if not E.pm.fork(ok):
                raise ValueError('badly formed hexadecimal UUID string')
            return SUUID(ropes.term_atom(
                fun('uuid_bytes', STR, BYTES)(t), 16))
        if isinstance(hex, Rope) or isinstance(
                hex, builtin_bytes):
            raise TypeError('a bytes-like object is required, not str')
        if isinstance(hex, uuid.UUID) or not issym(hex):
            return uuid.UUID(hex)     # AttributeError
        raise AttributeError('replace')
    if bytes is not None and hex is None:
        n = rlen(bytes) if isinstance(bytes, builtin_bytes) else len(bytes)
        if not truth(n == 16):
            raise ValueError('bytes is not a 16-char string')
        if not issym(bytes):
            return uuid.UUID(bytes=bytes)
        return SUUID(bytes)
    if int is not None and issym(int):
        raise Unsupported('UUID(int=)')
    kw = {n: v for n, v in (('hex', hex), ('bytes', bytes),
                            ('bytes_le', bytes_le), ('fields', fields),
                            ('int', int)) if v is not None}
    return uuid.UUID(version=version, **kw)


builtin_bytes = type(b'')


@always(uuid.uuid1)
def m_uuid1(node=None, clock_seq=None):
    pm = E.pm
    pre = ropes.bytes_atom(pm.fresh('uuid1time'), 10)
    for q in E.uuid1:
        pm.add(tb(neg(pre == q)))
    E.uuid1.append(pre)
    assumption('uuid1() never repeats a (timestamp, clock sequence) pair')
    node = narrow(node)
    if node is None:
        tail = ropes.bytes_atom(pm.fresh('uuid1node'), 6)
    else:
        if not isinstance(node, int):
            raise TypeError('node must be an integer')
        if not truth(conj(node >= 0, node < (1 << 48))):
            raise ValueError('field 6 out of range (need a 48-bit value)')
        tail = ropes.int_to_bytes(node, 6, 'big', False) if issym(node) \
            else node.to_bytes(6, 'big')
    return SUUID(pre + tail)


@always(uuid.uuid4)
def m_uuid4():
    return SUUID(ropes.bytes_atom(E.pm.fresh('uuid4'), 16))


# ------------------------------------------------------------------ struct
def parse_fmt(fmt):
    if not fmt.startswith(('!', '>')):
        raise Unsupported('struct format %r' % fmt)
    out, num = [], ''
    for ch in fmt[1:]:
        if ch.isdigit():
            num += ch
            continue
        if ch in 'ps':
            out.append((ch, int(num or 1)))
        elif ch in SIZES:
            out.extend([(ch, SIZES[ch])] * int(num or 1))
        else:
            raise Unsupported('struct format %r' % fmt)
        num = ''
    return out


SIZES = {'H': 2, 'Q': 8, 'I': 4, 'L': 4, 'B': 1, '?': 1}


@model(struct.pack)
def m_pack(fmt, *args):
    items = parse_fmt(fmt)
    if len(items) != len(args):
        raise struct.error('pack expected %d items for packing (got %d)'
                           % (len(items), len(args)))
    out = []
    for (ch, n), v in zip(items, args):
        v = narrow(v)
        if not issym(v):
            out.append(struct.pack('!%d%s' % (n, ch) if ch in 'ps'
                                   else '!' + ch, v))
        elif ch == '?':
            b = truth(v)
            out.append(ropes.int_to_bytes(SInt(bv=z3.If(
                b.t, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))), 1, 'big',
                False) if issym(b) else (b'\1' if b else b'\0'))
        elif ch in 'ps':
            if not isinstance(v, bytes):
                raise struct.error("argument for '%s' must be a bytes object"
                                   % ch)
            out.append(pascal(v, n) if ch == 'p' else fixed(v, n))
        else:
            if not isinstance(v, int):
                raise struct.error('required argument is not an integer')
            if not truth(conj(v >= 0, v < 256 ** n)):
                raise struct.error('argument out of range')
            out.append(ropes.be_atom(v, n) if not (
                type(v) is SInt and v.bv is not None)
                else ropes.int_to_bytes(v, n, 'big', False))
    return ropes.join(b'', out)


def fixed(v, n):
    raise Unsupported("struct 's'")


def pascal(v, n):
    f = fun('pascal%d' % n, BYTES, BYTES)
    g = fun('unpascal%d' % n, BYTES, BYTES)
    tv = term(v)
    t = f(tv)
    E.pm.add(z3.Implies(z3.Length(tv) <= n - 1, g(t) == tv))
    E.pm.add(z3.Length(g(t)) <= n - 1)
    E.pm.add(z3.Implies(z3.Length(tv) > n - 1,
                        g(t) == z3.Extract(tv, 0, n - 1)))
    return ropes.term_atom(t, n, ('pascal', v, n))


@model(struct.unpack)
def m_unpack(fmt, data):
    items = parse_fmt(fmt)
    data = narrow(data)
    size = sum(n for _, n in items)
    if not isinstance(data, bytes):
        raise TypeError('a bytes-like object is required')
    if not truth(rlen(data) == size):
        raise struct.error('unpack requires a buffer of %d bytes' % size)
    out, rest = [], data
    for ch, n in items:
        one, rest = ropes._cut(rest, n)
        one = ropes.of_length(one, n)
        if not issym(one):
            out.append(struct.unpack('!%d%s' % (n, ch) if ch in 'ps'
                                     else '!' + ch, one)[0])
        elif ch == '?':
            out.append(wrapb(ropes.seq2bv(one) != 0))
        elif ch == 'p':
            out.append(unpascal(one, n))
        elif ch == 's':
            out.append(one)
        else:
            out.append(ropes.int_from_bytes(one, 'big'))
    return tuple(out)


def unpascal(one, n):
    ps = pieces_of(one)
    if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].tag and \
            ps[0].tag[0] == 'pascal':
        v = ps[0].tag[1]
        ln = rlen(v)
        if truth(ln <= n - 1):
            return v
        return v[:n - 1]
    g = fun('unpascal%d' % n, BYTES, BYTES)
    t = g(term(one))
    E.pm.add(z3.Length(t) <= n - 1)
    return ropes.term_atom(t)


# --------------------------------------------------------------- ipaddress
@model(ipaddress.ip_address)
def m_ip(x):
    x = narrow(x)
    if isinstance(x, str):
        ok = fun('is_ip', STR, B)(term(x))
        E.pm.add(z3.Implies(ok, z3.Length(term(x)) >= 2))
        if E.pm.fork(ok):
            return SIP(x)
    elif isinstance(x, bytes):
        n = rlen(x)
        if truth(disj(n == 4, n == 16)):
            return SIP(x)
    elif isinstance(x, int):
        if truth(conj(x >= 0, x < (1 << 128))):
            return SIP(x)
    raise ValueError('does not appear to be an IPv4 or IPv6 address')


class SIP:
    vc_symbolic = True

    def __init__(self, x):
        self.x = x


# ------------------------------------------------------------------ random
@always(random.sample)
def m_sample(population, k, **kw):
    k = narrow(k)
    if isinstance(k, float):
        raise TypeError('k must be an integer')
    return seqs.sample(population, k)


@always(random.random, random.randint, random.choice, random.randrange)
def m_random(*a):
    raise Unsupported('random')


# ----------------------------------------------------------------- hashlib
class SHash:
    def __init__(self, name, data=b''):
        self.name = name
        self.data = data
        self.digest_size = SIZE[name]

    def update(self, data):
        data = narrow(data)
        if not isinstance(data, (bytes, bytearray)):
            raise TypeError('object supporting the buffer API required')
        self.data = self.data + data

    def digest(self):
        return digest(self.name, self.data)

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        return SHash(self.name, self.data)


SIZE = {'sha1': 20, 'sha256': 32, 'sha3_256': 32, 'keccak': 32, 'md5': 16,
        'sha512': 64}


def digest(name, data):
    if not issym(data):
        if name == 'keccak':
            from .keccak import keccak256
            return keccak256(bytes(data))
        return getattr(hashlib, name)(data).digest()
    key = (name, tuple((p.t.get_id() if isinstance(p, Atom) else p)
                       for p in pieces_of(data)))
    if key in E.hashes:
        return E.hashes[key]
    f = fun('H_' + name, BYTES, BYTES)
    t = f(term(data))
    r = ropes.term_atom(t, SIZE[name], ('hash', name, data))
    E.hashes[key] = r
    return r


def _mk(name):
    def mk(data=b'', **k):
        h = SHash(name)
        data = narrow(data)
        if issym(data) or data != b'':
            h.update(data)
        return h
    return mk


for _n in ('sha1', 'sha256', 'md5', 'sha512', 'sha3_256'):
    always(getattr(hashlib, _n))(_mk(_n))


# --------------------------------------------------------- copy, functools
@always(copy.copy)
def m_copy(x):
    if type(x) is SAny:
        x = x.narrow()
    if issym(x):
        return x.copy() if isinstance(x, (seqs.SDict, seqs.SSet)) else x
    return copy.copy(x)


class Memo:
    """functools.lru_cache: results are remembered by argument equality."""

    def __init__(self, f):
        self.f = f
        functools.update_wrapper(self, f)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return functools.partial(self, obj)

    def __call__(self, *a, **k):
        from ..ops import Runtime
        entries = E.memos.setdefault(id(self), [])
        for a2, k2, r in entries:
            if len(a2) == len(a) and set(k) == set(k2):
                same = conj(*([eq(x, y) for x, y in zip(a, a2)]
                              + [eq(k[q], k2[q]) for q in k]))
                if same is True or (issym(same) and E.pm.fork(same.t)):
                    return r
        r = Runtime.call(self.f, *a, **k)
        entries.append((a, k, r))
        return r

    def cache_clear(self):
        E.memos.pop(id(self), None)

    def cache_info(self):
        raise Unsupported('cache_info')


def eq(x, y):
    if x is y:
        return True
    r = (x == y)
    return False if r is NotImplemented else truth(r)


@always(functools.lru_cache)
def m_lru(maxsize=128, typed=False):
    if callable(maxsize):
        return Memo(maxsize)
    return Memo


if hasattr(functools, 'cache'):
    always(functools.cache)(Memo)


# ---------------------------------------------------------------- binascii
@model(binascii.hexlify, binascii.b2a_hex)
def m_hexlify(x, *a):
    x = narrow(x)
    if not isinstance(x, (bytes, bytearray)):
        raise TypeError('a bytes-like object is required')
    return ropes.hexlify(x)


@model(binascii.unhexlify, binascii.a2b_hex)
def m_unhexlify(x):
    x = narrow(x)
    if not isinstance(x, (bytes, str)):
        raise TypeError('argument should be bytes, buffer or ASCII string')
    return ropes.unhexlify(x)


# ----------------------------------------------- no effect on the properties
@always(warnings.warn)
def m_warn(*a, **k):
    return None


for _n in ('debug', 'info', 'warning', 'error', 'exception', 'critical',
           'log'):
    always(getattr(logging.Logger, _n))(lambda *a, **k: None)
    always(getattr(logging, _n))(lambda *a, **k: None)


@always(importlib.import_module)
def m_import(name, package=None):
    from ..loader import import_module
    return import_module(name)
