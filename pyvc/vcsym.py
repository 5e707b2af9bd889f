"""The specification vocabulary, symbolic interpretation (module `vc` while
the engine runs a specification)."""
import datetime
import enum
import sys

import z3

from . import deep, ops, ropes, seqs, solver
from .models import crypto, stdlib
from .ops import CONTRACTS, Runtime, has_sym
from .ropes import rlen, term
from .sym import (BOOL, BYT, DICT, E, FLT, INT, Internal, LIST, NONE, OBJ,
                  Opaque, PathEnd, Rope, SAny, SBool, SFloat, SInt, STRK,
                  Sym, Unsupported, conj, disj, imprecise, issym, narrow,
                  neg, num_t, tb, truth, wrapb, wrapn)

SYMBOLIC = True
LEMMAS = []


class Lemma:
    def __init__(self, prop, fn, params, targets, bounded, budget, trials):
        self.prop = prop
        self.fn = fn
        self.params = params
        self.targets = targets
        self.bounded = bounded
        self.budget = budget
        self.trials = trials
        self.name = fn.__module__.replace('specs.', '') + '.' + fn.__name__


def lemma(prop, params=((),), targets=(), bounded=None, budget=None,
          trials=None):
    """A proof obligation generator for a property (or several)."""
    def deco(fn):
        LEMMAS.append(Lemma(prop if isinstance(prop, (tuple, list))
                            else (prop,), fn, params, targets, bounded,
                            budget, trials))
        return fn
    return deco


# ------------------------------------------------------------------ inputs
def _name(name):
    k = E.seen.get(name, 0)
    E.seen[name] = k + 1
    return name if k == 0 else '%s#%d' % (name, k)


def any_int(name, lo=None, hi=None, hint=None):
    n = _name(name)
    v = SInt(z3.Int('in.' + n))
    if lo is not None:
        E.pm.add(tb(v >= lo))
    if hi is not None:
        E.pm.add(tb(v <= hi))
    E.pm.inputs.append((n, 'int', v.t))
    return v


def any_bool(name):
    n = _name(name)
    v = SBool(z3.Bool('in.' + n))
    E.pm.inputs.append((n, 'bool', v.t))
    return v


def any_float(name, lo=None, hi=None):
    n = _name(name)
    v = SFloat(z3.Real('in.' + n))
    if lo is not None:
        E.pm.add(tb(v >= lo))
    if hi is not None:
        E.pm.add(tb(v <= hi))
    E.pm.inputs.append((n, 'float', v.t))
    return v


def any_str(name, hint=None, maxlen=None, n=None):
    nm = _name(name)
    v = ropes.str_atom('in.' + nm, n)
    if maxlen is not None:
        E.pm.add(tb(rlen(v) <= maxlen))
    E.pm.inputs.append((nm, 'str', v))
    return v


def any_bytes(name, n=None, maxlen=None, minlen=None, hint=None,
              number=False):
    nm = _name(name)
    if number:
        v = ropes.mk(ropes.SBytes, [ropes.bv_atom(
            z3.BitVec('in.' + nm, 8 * n))])
    else:
        v = ropes.bytes_atom('in.' + nm, n)
    if maxlen is not None:
        E.pm.add(tb(rlen(v) <= maxlen))
    if minlen is not None:
        E.pm.add(tb(rlen(v) >= minlen))
    E.pm.inputs.append((nm, 'bytes', v))
    return v


KINDS = {'none': NONE, 'bool': BOOL, 'int': INT, 'float': FLT, 'str': STRK,
         'bytes': BYT, 'list': LIST, 'dict': DICT, 'obj': OBJ}


def any_val(name, kinds=None, hint=None):
    """Any plain value: None, bool, int, float, str, bytes, list, dict or
    an object of a foreign class."""
    nm = _name(name)
    ks = [KINDS[k] for k in kinds] if kinds else range(OBJ + 1)
    v = SAny('in.' + nm, kinds=ks)
    E.pm.inputs.append((nm, 'val', v))
    return v


def any_wire(name, hint=None):
    """Any value the wire format can carry."""
    return any_val(name, ('none', 'bool', 'int', 'float', 'str', 'bytes',
                          'list', 'dict'), hint)


def any_list(name, elem=None):
    """A list of any length of any wire values (or of elem(name))."""
    nm = _name(name)
    if elem is None:
        v = seqs.SList('in.' + nm, lambda i: SAny(
            'in.%s[%s]' % (nm, i), depth=1))
    else:
        v = seqs.SList('in.' + nm, lambda i: elem('%s[%s]' % (nm, i)))
    E.pm.inputs.append((nm, 'list', v))
    return v


def each(lst, f):
    """[f(x) for x in lst]"""
    if type(lst) is not seqs.SList:
        return [f(x) for x in lst]
    return seqs.SList(E.pm.fresh('each'), lambda i: f(lst.elem(i)), lst.n)


def positions(lst):
    """The places of the list: each of them, or an arbitrary one"""
    if type(lst) is not seqs.SList:
        return list(range(len(lst)))
    if not E.pm.fork(lst.n > 0):
        return []
    i = z3.Int(E.pm.fresh('place'))
    E.pm.add(z3.And(i >= 0, i < lst.n))
    deep.linked_at(i)
    return [SInt(i)]


def inserted(lst, k, v):
    """The list with v put in at place k"""
    if type(lst) is not seqs.SList:
        return lst[:k] + [v] + lst[k:]
    t = k.t if type(k) is SInt else z3.IntVal(k)

    def elem(i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        if E.pm.fork(i == t):
            return v
        return lst.elem(i) if E.pm.fork(i < t) else lst.elem(i - 1)
    return seqs.SList(E.pm.fresh('inserted'), elem, lst.n + 1)


def any_dict(name, keys=(), other=True, wire=True):
    """A dict with any of the given keys (values of any kind) and, if other,
    arbitrary further string keys."""
    nm = _name(name)
    kinds = range(OBJ) if wire else range(OBJ + 1)

    def mk(k):
        return SAny('in.%s{%s}' % (nm, k), kinds=kinds, depth=1)
    entries = {k: [z3.Bool('in.%s.has{%s}' % (nm, k)), mk(k)] for k in keys}
    v = seqs.SDict('in.' + nm, entries, mk if other else None)
    E.pm.inputs.append((nm, 'dict', v))
    return v


def choice(name, options):
    """One of finitely many (concrete) options."""
    nm = _name(name)
    options = list(options)
    t = z3.Int('in.' + nm)
    E.pm.add(z3.And(t >= 0, t < len(options)))
    k = E.pm.choose([t == i for i in range(len(options))])
    E.pm.inputs.append((nm, 'choice', k))
    return options[k]


def any_privkey(name):
    nm = _name(name)
    v = ropes.bytes_atom('in.' + nm, 32)
    E.pm.add(crypto.ISSEC(term(v)))
    E.pm.inputs.append((nm, 'privkey', v))
    return v


def pub(priv):
    """The 64-byte public key of a private key."""
    return crypto.pub_of(priv)


def any_sig(name, candidates=(), n=65):
    """Any 65 bytes; on the real interpreter also the signatures the
    candidate thunks produce."""
    nm = _name(name)
    v = ropes.bytes_atom('in.' + nm, n)
    E.pm.inputs.append((nm, 'sig', v))
    return v


def any_uuid(name, hint=None):
    """The text form of any UUID."""
    nm = _name(name)
    b = ropes.bytes_atom('in.' + nm, 16)
    E.pm.inputs.append((nm, 'bytes', b))
    return stdlib.uuid_str(b)


def any_address(name):
    """The checksum form of any 20-byte address"""
    from .models import ethlib
    nm = _name(name)
    b = ropes.bytes_atom('in.' + nm, 20)
    E.pm.inputs.append((nm, 'bytes', b))
    return ethlib.checksum(b)


# --------------------------------------------------------------- statements
def assume(cond):
    cond = truth(cond)
    if cond is True:
        return
    if cond is False:
        raise PathEnd()
    if E.pm.check(cond.t) == z3.unsat:
        raise PathEnd()
    E.pm.add(cond.t)


def ensure(cond, label):
    cond = truth(cond)
    E.pm.ensure(cond if cond is True or cond is False else cond.t, label)


def cover(label):
    E.pm.cover(label)


def note(text):
    E.pm.notes.append(text)


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *classes):
        return self.exc is not None and isinstance(self.exc, classes)


def attempt(f, *a, **k):
    if '__vc_sdict__' in k and not ops.takes_kwargs(f):
        raise Unsupported('symbolic keyword')
    try:
        return Outcome(Runtime.call(f, *a, **k))
    except Internal:
        raise
    except Exception as e:
        E.pm.notes.append('%s: %s' % (type(e).__name__, safe_args(e)))
        solver.suspicious(e)
        if TRACEBACKS:
            import traceback
            traceback.print_exc()
        return Outcome(exc=e)


attempt.vc_kwargs = True
TRACEBACKS = False


def safe_args(e):
    return ', '.join('<symbolic>' if has_sym(x) else str(x)[:80]
                     for x in e.args)


# ----------------------------------------------------------------- formulas
def and_(*xs):
    return conj(*[truth(x) for x in xs])


def or_(*xs):
    return disj(*[truth(x) for x in xs])


def not_(x):
    return neg(truth(x))


def implies(a, b):
    return disj(neg(truth(a)), truth(b))


def iff(a, b):
    a, b = truth(a), truth(b)
    if a is True or a is False:
        return b if a else neg(b)
    if b is True or b is False:
        return a if b else neg(a)
    return wrapb(a.t == b.t)


def all_(xs):
    return conj(*[truth(x) for x in xs])


def any_(xs):
    return disj(*[truth(x) for x in xs])


def ite(c, a, b):
    c = truth(c)
    if c is True:
        return a
    if c is False:
        return b
    x, y = num_t(a), num_t(b)
    if x is not None and y is not None and x[1] == y[1]:
        return wrapn(z3.If(c.t, x[0], y[0]), x[1])
    return a if E.pm.fork(c.t) else b


def same(a, b):
    return deep.same(a, b)


def wire_same(a, b):
    return deep.wire_same(a, b)


def eq(a, b):
    r = (a == b)
    return False if r is NotImplemented else truth(r)


def is_int(v):
    """an int that is not a bool"""
    if type(v) is SAny:
        return v.is_kind(INT)
    return deep.kindof(v) == INT


def kind(v, *names):
    ks = [KINDS[k] for k in names]
    if type(v) is SAny:
        return v.is_kind(*ks)
    return deep.kindof(v) in ks


def as_int(v):
    """the integer payload of a value (meaningful where kind is int)"""
    return v.payload(INT) if type(v) is SAny and v.resolved is None else \
        (v.resolved[1] if type(v) is SAny else v)


def as_str(v):
    return v.payload(STRK) if type(v) is SAny and v.resolved is None else \
        (v.resolved[1] if type(v) is SAny else v)


def as_bytes(v):
    return v.payload(BYT) if type(v) is SAny and v.resolved is None else \
        (v.resolved[1] if type(v) is SAny else v)


def length(v):
    if type(v) is SAny:
        v = v.narrow()
    return Runtime.call(len, v)


# -------------------------------------------------------------- environment
def now_us():
    """The clock (microseconds since the epoch), constant during a lemma
    unless advanced."""
    return stdlib.now_us()


def now_s():
    return stdlib.now_us() // 1000000


def advance_clock(us):
    E.now = stdlib.now_us() + us


def set_version(v):
    sys.modules['golem_messages'].__version__ = v


def is_ip(s):
    """Does the text denote an IPv4 or IPv6 address?"""
    s = narrow(s)
    if not issym(s):
        import ipaddress
        try:
            ipaddress.ip_address(s)
            return True
        except ValueError:
            return False
    t = term(s)
    ok = ropes.fun('is_ip', ropes.STR, z3.BoolSort())(t)
    E.pm.add(z3.Implies(ok, z3.Length(t) >= 2))
    return wrapb(ok)


def is_version(s):
    from .models import semver
    s = narrow(s)
    if not issym(s):
        return semver.validate(s)
    t = term(s)
    ok = ropes.fun('sv_ok', ropes.STR, z3.BoolSort())(t)
    E.pm.add(z3.Implies(ok, z3.Length(t) >= 5))
    return wrapb(ok)


def is_uuid(s):
    s = narrow(s)
    if not issym(s):
        import uuid
        try:
            uuid.UUID(s)
            return True
        except ValueError:
            return False
    ps = ropes.pieces_of(s)
    if len(ps) == 1 and getattr(ps[0], 'tag', None) and \
            ps[0].tag[0] == 'uuidstr':
        return True
    t = term(s)
    ok = ropes.fun('is_uuid', ropes.STR, z3.BoolSort())(t)
    E.pm.add(z3.Implies(ok, z3.Length(t) >= 32))
    return wrapb(ok)


def sha(name, data):
    return stdlib.digest(name, data)


def keccak(data):
    return stdlib.digest('keccak', data)


def address_of(pubkey):
    from .models import ethlib
    return ethlib.address(pubkey)


def cbor(v):
    from .models import cborlib
    return cborlib.dumps(v)


def be(x, n):
    """n-byte big-endian form"""
    if issym(x):
        return ropes.be_atom(x, n)
    return int(x).to_bytes(n, 'big')


def sign(priv, digest32):
    """The 65-byte recoverable signature of a 32-byte digest."""
    return crypto.raw_sign(priv, digest32)


def snapshot(v):
    return deep.snapshot(v)
