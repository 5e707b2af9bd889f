"""The specification vocabulary, concrete interpretation: the same lemma
functions run on the real interpreter against the real code, with inputs
taken from a counterexample and/or chosen at random."""
import ast
import datetime
import decimal
import enum
import hashlib
import ipaddress
import json
import os
import random
import signal
import string
import sys
import time
import traceback
import uuid

SYMBOLIC = False
LEMMAS = []
REPO = os.environ.get('VC_REPO', '/repo')
REAL_TIME = time.time
REAL_GMTIME = time.gmtime


class Skip(BaseException):
    """This input is outside the lemma's assumptions."""


class Failed(BaseException):
    def __init__(self, label):
        BaseException.__init__(self, label)
        self.label = label


class Hang(BaseException):
    pass


class Lemma:
    def __init__(self, prop, fn, params, targets, bounded, budget, trials):
        self.prop = prop
        self.fn = fn
        self.params = params
        self.targets = targets
        self.bounded = bounded
        self.budget = budget
        self.trials = trials
        self.name = fn.__module__.replace('specs.', '') + '.' + fn.__name__


def lemma(prop, params=((),), targets=(), bounded=None, budget=None,
          trials=None):
    def deco(fn):
        LEMMAS.append(Lemma(prop if isinstance(prop, (tuple, list))
                            else (prop,), fn, params, targets, bounded,
                            budget, trials))
        return fn
    return deco


# ------------------------------------------------------------- the case
class Case:
    def __init__(self, seed, given=None, p=0.0):
        self.rng = random.Random(seed)
        self.given = {n: v for n, k, v in given or () if v is not None}
        self.p = p
        self.used = []
        self.seen = {}
        self.values = {}
        self.covers = set()
        self.ensured = 0
        self.now = None
        self.notes = []
        self.interesting = []
        self.failed = None


CUR = None


class Foreign:
    """An object of a class the code does not know."""


def dec(j):
    t = j[0]
    if t == 'none':
        return None
    if t == 'bool':
        return bool(j[1])
    if t == 'int':
        return int(j[1])
    if t == 'float':
        return float(j[1])
    if t == 'str':
        return j[1]
    if t == 'bytes':
        return bytes.fromhex(j[1])
    if t == 'list':
        return [dec(x) for x in j[1]]
    if t == 'dict':
        return {_hashable(dec(k)): dec(v) for k, v in j[1]}
    return Foreign()


def _hashable(k):
    try:
        hash(k)
        return k
    except TypeError:
        return repr(k)


def enc(v):
    if v is None:
        return ['none']
    if isinstance(v, bool):
        return ['bool', v]
    if isinstance(v, int):
        return ['int', str(v)]
    if isinstance(v, float):
        return ['float', repr(v)]
    if isinstance(v, str):
        return ['str', v]
    if isinstance(v, (bytes, bytearray)):
        return ['bytes', bytes(v).hex()]
    if isinstance(v, (list, tuple)):
        return ['list', [enc(x) for x in v]]
    if isinstance(v, dict):
        return ['dict', [[enc(k), enc(x)] for k, x in v.items()]]
    return ['obj']


def _input(name, kind, valid, gen, decode=dec):
    k = CUR.seen.get(name, 0)
    CUR.seen[name] = k + 1
    n = name if k == 0 else '%s#%d' % (name, k)
    if n in CUR.given and CUR.rng.random() < CUR.p:
        try:
            v = decode(CUR.given[n])
            if valid(v):
                CUR.used.append([n, kind, CUR.given[n]])
                return v
        except (ValueError, TypeError, IndexError, OverflowError):
            pass
    v = gen(CUR.rng)
    # now and then the same as another one
    old = CUR.values.setdefault(kind == 'privkey', [])
    if old and CUR.rng.random() < (.3 if kind == 'privkey' else .1):
        w = CUR.rng.choice(old)
        if valid(w):
            v = w
    if len(old) < 500 and not isinstance(v, (list, dict)):
        old.append(v)
    CUR.used.append([n, kind, enc(v)])
    return v


# ------------------------------------------------- constants of the source
_CONST = None


def constants():
    global _CONST
    if _CONST is None:
        ints, strs, byts = {0, 1, -1, 2, 127, 128, 255, 256, 65535, 65536,
                            2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64}, set(), set()
        for root, dirs, files in os.walk(REPO + '/golem_messages'):
            if 'factories' in root:
                continue
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                try:
                    with open(os.path.join(root, f), encoding='utf-8') as fh:
                        tree = ast.parse(fh.read())
                except (SyntaxError, OSError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant):
                        v = n.value
                        if isinstance(v, bool):
                            continue
                        if isinstance(v, int) and v.bit_length() < 300:
                            ints.update((v, v + 1, v - 1, -v))
                        elif isinstance(v, str) and len(v) < 60:
                            strs.add(v)
                        elif isinstance(v, bytes) and len(v) < 60:
                            byts.add(v)
        _CONST = (sorted(ints), sorted(strs), sorted(byts))
    return _CONST


# ------------------------------------------------------------- generators
ALPHA = string.ascii_letters + string.digits


def gen_int(r, lo=None, hi=None):
    if lo is not None and hi is not None:
        c = [x for x in (lo, lo + 1, hi, hi - 1) if lo <= x <= hi]
        if r.random() < .25:
            return r.choice(c)
        if r.random() < .3:
            k = [x for x in constants()[0] if lo <= x <= hi]
            if k:
                return r.choice(k)
        if r.random() < .3 and hi - lo > 50:
            return r.randint(lo, lo + 50)
        return r.randint(lo, hi)
    m = r.random()
    if m < .3:
        v = r.choice(constants()[0])
    elif m < .6:
        v = r.randint(-5, 50)
    elif m < .8:
        v = r.randint(-2 ** 16, 2 ** 16)
    elif m < .95:
        v = r.randint(-2 ** 64, 2 ** 64)
    else:
        v = r.randint(-2 ** 300, 2 ** 300)
    if lo is not None and v < lo:
        v = lo + (lo - v)
    if hi is not None and v > hi:
        v = hi - (v - hi)
    return v


def gen_len(r, cap=None):
    m = r.random()
    if m < .1:
        n = 0
    elif m < .5:
        n = r.randint(1, 10)
    elif m < .75:
        n = r.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129,
                      255, 256, 257])
    else:
        n = r.randint(0, 400)
    return n if cap is None else min(n, cap)


def hinted(r, hint, kind):
    """A value of the hinted family or NotImplemented"""
    if isinstance(hint, (list, tuple)):
        if hint and r.random() < .6:
            v = r.choice(list(hint))
            return v() if callable(v) else v
        return NotImplemented
    if hint is None or r.random() < .25:
        return NotImplemented
    if hint == 'version':
        return gen_version(r)
    if hint == 'ip':
        m = r.random()
        if m < .4:
            v = '.'.join(str(r.randint(0, 260)) for _ in range(4))
        elif m < .6:
            v = str(ipaddress.IPv6Address(r.getrandbits(128)))
        else:
            v = r.choice(['127.0.0.1', '::1', '0.0.0.0', '::', 'localhost',
                          '10.0.0.1/8', '10.0.0', '010.0.0.1', ' 10.0.0.1',
                          'fe80::1', '::ffff:1.2.3.4', '1.2.3.4\n', '::g'])
        return v
    if hint == 'uuid':
        return r.choice([str(uuid.UUID(int=r.getrandbits(128))),
                         'x', uuid.UUID(int=r.getrandbits(128)).hex])
    if hint == 'pubkey':
        return '%0128x' % r.getrandbits(512)
    if hint == 'hex':
        return '%x' % r.getrandbits(r.randint(1, 300))
    raise ValueError(hint)


def gen_version(r):
    def num():
        return str(r.choice([0, 1, 2, 3, 9, 10, 11, r.randint(0, 99)]))
    m = r.random()
    v = '.'.join([num(), num(), num()])
    if m < .5:
        return v
    if m < .6:
        return v + '-' + r.choice(['a', 'rc.1', '0', 'b2', '01', '', 'a..b'])
    if m < .7:
        return v + '+' + r.choice(['x', 'b.1', '', '007'])
    if m < .8:
        return v + '-a+b'
    return r.choice(['1', '1.2', '01.2.3', 'v1.2.3', '', '1.2.3.4', '1.2.x',
                     ' 1.2.3', '1.2.3 ', '-1.2.3', '1.02.3'])


def gen_str(r, hint=None, cap=None):
    v = hinted(r, hint, 'str')
    if isinstance(v, str) and (cap is None or len(v) <= cap):
        return v
    m = r.random()
    if m < .15 and constants()[1]:
        v = r.choice(constants()[1])
        return v if cap is None else v[:cap]
    if m < .2:
        v = '%x' % r.getrandbits(512)
        return v if cap is None else v[:cap]
    if m < .25:
        v = str(uuid.UUID(int=r.getrandbits(128)))
        return v if cap is None else v[:cap]
    if m < .3:
        v = gen_version(r)
        return v if cap is None else v[:cap]
    n = gen_len(r, cap)
    if m < .4:
        return ''.join(chr(r.choice([r.randint(32, 126), r.randint(160, 400),
                                     r.randint(0x4e00, 0x4f00)]))
                       for _ in range(n))
    return ''.join(r.choice(ALPHA) for _ in range(n))


def gen_bytes(r, n=None, lo=0, cap=None):
    if n is None:
        if r.random() < .1 and constants()[2]:
            v = r.choice(constants()[2])
            if lo <= len(v) and (cap is None or len(v) <= cap):
                return v
        n = max(gen_len(r, cap), lo)
    m = r.random()
    if m < .08:
        return bytes(n)
    if m < .12:
        return b'\xff' * n
    v = bytearray(r.getrandbits(8) for _ in range(n))
    if n and r.random() < .15:
        v[0] = 0
    if n and r.random() < .1:
        v[-1] = 0
    return bytes(v)


KNAMES = ['none', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'dict',
          'obj']


def gen_val(r, kinds, hint=None, depth=0):
    v = hinted(r, hint, 'val') if depth == 0 else NotImplemented
    if v is not NotImplemented and kind(v, *kinds):
        return v
    k = r.choice(list(kinds))
    if k == 'none':
        return None
    if k == 'bool':
        return r.random() < .5
    if k == 'int':
        return gen_int(r)
    if k == 'float':
        return r.choice([0.0, 1.0, -1.5, 0.5, 1e10, r.uniform(-1e6, 1e6),
                         float(r.choice(constants()[0][:50]))])
    if k == 'str':
        return gen_str(r)
    if k == 'bytes':
        return gen_bytes(r)
    sub = [x for x in kinds if depth < 2 or x not in ('list', 'dict')] \
        or ['none']
    if k == 'list':
        return [gen_val(r, sub, None, depth + 1)
                for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if k == 'dict':
        return {gen_str(r): gen_val(r, sub, None, depth + 1)
                for _ in range(r.choice([0, 1, 1, 2]))}
    return Foreign()


# ----------------------------------------------------------------- inputs
def any_int(name, lo=None, hi=None, hint=None):
    def ok(v):
        return type(v) is int and (lo is None or v >= lo) and \
            (hi is None or v <= hi)

    def gen(r):
        if hint and r.random() < .5:
            v = r.choice(list(hint))
            if ok(v):
                return v
        return gen_int(r, lo, hi)
    return _input(name, 'int', ok, gen)


def any_bool(name):
    return _input(name, 'bool', lambda v: type(v) is bool,
                  lambda r: r.random() < .5)


def any_float(name, lo=None, hi=None):
    def ok(v):
        return type(v) is float and (lo is None or v >= lo) and \
            (hi is None or v <= hi)

    def gen(r):
        for _ in range(50):
            v = gen_val(r, ['float'])
            if r.random() < .3:
                v = float(r.randint(-100, 2 ** 32)) + r.choice([0, .25, .5])
            if ok(v):
                return v
        return float(lo if lo is not None else hi)
    return _input(name, 'float', ok, gen)


def any_str(name, hint=None, maxlen=None, n=None):
    cap = n if n is not None else maxlen

    def gen(r):
        v = gen_str(r, hint, cap)
        if n is not None:
            v = (v + 'x' * n)[:n]
        return v
    return _input(name, 'str', lambda v: type(v) is str and (
        maxlen is None or len(v) <= maxlen) and (n is None or len(v) == n),
        gen)


def any_bytes(name, n=None, maxlen=None, minlen=None, hint=None,
              number=False):
    def ok(v):
        return type(v) is bytes and (n is None or len(v) == n) and (
            maxlen is None or len(v) <= maxlen) and (
            minlen is None or len(v) >= minlen)

    def gen(r):
        v = hinted(r, hint, 'bytes')
        if v is not NotImplemented and ok(v):
            return v
        return gen_bytes(r, n, minlen or 0, maxlen)
    return _input(name, 'bytes', ok, gen)


def any_val(name, kinds=None, hint=None):
    ks = list(kinds) if kinds else KNAMES
    return _input(name, 'val', lambda v: kind(v, *ks),
                  lambda r: gen_val(r, ks, hint))


def any_wire(name, hint=None):
    return any_val(name, ('none', 'bool', 'int', 'float', 'str', 'bytes',
                          'list', 'dict'), hint)


WIRE = ['none', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'dict']


def any_list(name, elem=None):
    if elem is None:
        return _input(name, 'list', lambda v: type(v) is list, lambda r: [
            gen_val(r, WIRE, None, 1)
            for _ in range(r.choice([0, 1, 1, 2, 3, 5]))])
    n = len(CUR.given.get(name, ['list', [0] * CUR.rng.choice(
        [0, 1, 1, 2, 3])])[1])
    return [elem('%s[%d]' % (name, i)) for i in range(n)]


def each(lst, f):
    return [f(x) for x in lst]


def positions(lst):
    return list(range(len(lst)))


def inserted(lst, k, v):
    return lst[:k] + [v] + lst[k:]


def any_dict(name, keys=(), other=True, wire=True):
    ks = WIRE if wire else KNAMES

    def gen(r):
        d = {}
        order = list(keys)
        r.shuffle(order)
        miss = r.choice([0, 0, .1, .5])
        for k in order:
            if r.random() >= miss:
                d[k] = gen_val(r, ks, None, 1)
        if other and r.random() < .3:
            d[gen_str(r)] = gen_val(r, ks, None, 1)
        return d
    return _input(name, 'dict', lambda v: type(v) is dict, gen)


def choice(name, options):
    options = list(options)
    i = _input(name, 'choice', lambda v: type(v) is int
               and 0 <= v < len(options),
               lambda r: r.randrange(len(options)))
    return options[i]


def any_privkey(name):
    def gen(r):
        old = CUR.values.get(True)
        if old and r.random() < .1:
            # the key whose public key differs in the sign of y only
            n = 2 ** 256 - 0x14551231950b75fc4402da1732fc9bebf
            return (n - int.from_bytes(r.choice(old), 'big')).to_bytes(
                32, 'big')
        return hashlib.sha256(b'k%d' % r.getrandbits(64)).digest()
    return _input(name, 'privkey', lambda v: type(v) is bytes
                  and len(v) == 32, gen)


def pub(priv):
    from coincurve import PrivateKey
    return PrivateKey(priv).public_key.format(compressed=False)[1:]


def any_sig(name, candidates=(), n=65):
    def gen(r):
        if candidates and r.random() < .7:
            v = r.choice(list(candidates))
            try:
                v = v() if callable(v) else v
            except Exception:
                v = None
            if isinstance(v, bytes) and len(v) == n:
                if r.random() < .15:
                    v = bytearray(v)
                    v[r.randrange(n)] ^= 1 << r.randrange(8)
                    v = bytes(v)
                return v
        return gen_bytes(r, n)
    return _input(name, 'sig', lambda v: type(v) is bytes and len(v) == n,
                  gen)


def any_uuid(name, hint=None):
    b = any_bytes(name, 16, hint=hint)
    return str(uuid.UUID(bytes=b))


def any_address(name):
    import eth_utils
    return eth_utils.to_checksum_address(any_bytes(name, 20))


# ------------------------------------------------------------- statements
def assume(cond):
    if not cond:
        raise Skip()


def ensure(cond, label):
    CUR.ensured += 1
    if not cond:
        raise Failed(label)


def cover(label):
    CUR.covers.add(label)


def note(text):
    CUR.notes.append(text)


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *classes):
        return self.exc is not None and isinstance(self.exc, classes)


def attempt(f, *a, **k):
    try:
        return Outcome(f(*a, **k))
    except Exception as e:
        CUR.notes.append('%s: %s' % (type(e).__name__, str(e)[:200]))
        return Outcome(exc=e)


# --------------------------------------------------------------- formulas
def and_(*xs):
    return all(bool(x) for x in xs)


def or_(*xs):
    return any([bool(x) for x in xs])


def not_(x):
    return not x


def implies(a, b):
    return (not a) or bool(b)


def iff(a, b):
    return bool(a) == bool(b)


def all_(xs):
    return all([bool(x) for x in xs])


def any_(xs):
    return any([bool(x) for x in xs])


def ite(c, a, b):
    return a if c else b


def _attr_names(a):
    out = set(getattr(a, '__dict__', {}))
    for c in type(a).__mro__:
        sl = c.__dict__.get('__slots__', ())
        if isinstance(sl, str):
            sl = (sl,)
        for n in sl:
            if not n.startswith('__'):
                out.add(n)
    return out


def same(a, b, wire=False):
    if a is b:
        return True
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        return a is b
    if wire and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(
            same(x, y, wire) for x, y in zip(a, b))
    if wire and isinstance(a, dict) and isinstance(b, dict):
        pass
    elif wire and isinstance(a, str) and isinstance(b, str):
        return str.__eq__(a, b)
    elif type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(
            same(x, y, wire) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            k in b and same(a[k], b[k], wire) for k in a)
    mod = type(a).__module__
    if (mod.startswith('golem_messages') or mod.startswith('specs')) and \
            not isinstance(a, (str, bytes, int)):
        for n in _attr_names(a) | _attr_names(b):
            if hasattr(a, n) != hasattr(b, n):
                return False
            if hasattr(a, n) and not same(getattr(a, n), getattr(b, n),
                                          wire):
                return False
        return True
    return bool(a == b)


def wire_same(a, b):
    return same(a, b, True)


def eq(a, b):
    return bool(a == b)


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def kind(v, *names):
    if v is None:
        k = 'none'
    elif isinstance(v, bool):
        k = 'bool'
    elif isinstance(v, int):
        k = 'int'
    elif isinstance(v, float):
        k = 'float'
    elif isinstance(v, str):
        k = 'str'
    elif isinstance(v, (bytes, bytearray)):
        k = 'bytes'
    elif isinstance(v, (list, tuple)):
        k = 'list'
    elif isinstance(v, dict):
        k = 'dict'
    else:
        k = 'obj'
    return k in names


def as_int(v):
    return v if kind(v, 'int', 'bool') else 0


def as_str(v):
    return v if kind(v, 'str') else ''


def as_bytes(v):
    return v if kind(v, 'bytes') else b''


def length(v):
    return len(v)


# ------------------------------------------------------------ environment
def _start_clock():
    if CUR.now is None:
        lo, hi = 1262304001 * 10 ** 6, 7258118400 * 10 ** 6
        CUR.now = _input(
            'now_us', 'now', lambda v: type(v) is int
            and 1262304000 * 10 ** 6 <= v < 32503680000 * 10 ** 6,
            lambda r: r.choice([1600000000 * 10 ** 6,
                                r.randint(lo, hi),
                                r.randint(lo, hi) // 10 ** 6 * 10 ** 6]))
    return CUR.now


def _fake_time():
    return _start_clock() / 1e6 if CUR is not None else REAL_TIME()


def _fake_gmtime(secs=None):
    if secs is None and CUR is not None:
        secs = _start_clock() // 10 ** 6
    return REAL_GMTIME() if secs is None else REAL_GMTIME(secs)


def now_us():
    return _start_clock()


def now_s():
    return _start_clock() // 1000000


def advance_clock(us):
    CUR.now = _start_clock() + us


def set_version(v):
    sys.modules['golem_messages'].__version__ = v


def is_ip(s):
    try:
        ipaddress.ip_address(s)
        return True
    except ValueError:
        return False


def is_version(s):
    import semantic_version
    try:
        semantic_version.Version(s)
        return True
    except ValueError:
        return False


def is_uuid(s):
    try:
        uuid.UUID(s)
        return True
    except ValueError:
        return False


def sha(name, data):
    return getattr(hashlib, name)(data).digest()


def keccak(data):
    import eth_utils
    return eth_utils.keccak(data)


def address_of(pubkey):
    import eth_utils
    return eth_utils.to_checksum_address(eth_utils.keccak(pubkey)[-20:])


def cbor(v):
    import cbor as c
    return c.dumps(v)


def be(x, n):
    return int(x).to_bytes(n, 'big')


def sign(priv, digest32):
    from coincurve import PrivateKey
    return PrivateKey(priv).sign_recoverable(digest32, hasher=None)


def snapshot(v):
    if isinstance(v, dict):
        return {snapshot(k): snapshot(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    return v


# ------------------------------------------------------------------ runner
def _alarm(signum, frame):
    raise Hang()


class State:
    """Module- and class-level state, restored after each run."""

    def __init__(self):
        self.mods = [(m.__dict__, dict(m.__dict__))
                     for n, m in sys.modules.items()
                     if n == 'golem_messages'
                     or n.startswith('golem_messages.')]
        self.held = []
        for d, old in self.mods:
            for v in old.values():
                if type(v) in (dict, list, set):
                    self.held.append((v, v.copy()))

    def restore(self):
        for d, old in self.mods:
            if len(d) != len(old) or any(
                    d.get(k) is not v for k, v in old.items()):
                d.clear()
                d.update(old)
        for v, old in self.held:
            if len(v) != len(old) or v != old:
                v.clear()
                (v.update if isinstance(v, (dict, set))
                 else v.extend)(old)


STATE = None


def run_once(lem, p, seed, given=None, prob=0.0, limit=20):
    """A run that does not finish within the limit, nor within 10 seconds of
    processor time afterwards, counts as one that never does."""
    out = run_timed(lem, p, seed, given, prob, limit, signal.ITIMER_REAL)
    if out[0] == 'hang':
        out = run_timed(lem, p, seed, given, prob, 10, signal.ITIMER_VIRTUAL)
        if out[0] == 'hang':
            out = ('fail', 'the code under test finishes') + out[2:]
    return out


def run_timed(lem, p, seed, given, prob, limit, timer):
    """-> (verdict, label, case); verdict in ok/skip/fail/hang"""
    global CUR
    random.seed(seed)
    CUR = Case(seed, given, prob)
    case = CUR
    signal.setitimer(timer, limit)
    try:
        try:
            lem.fn(*p)
            v = 'ok', None
        except Skip:
            v = 'skip', None
        except Failed as e:
            v = 'fail', e.label
        except Hang:
            v = 'hang', None
        except MemoryError:
            v = 'skip', None
        except Exception as e:
            case.notes.append(traceback.format_exc()[-1500:])
            v = 'fail', 'no unexpected exception (%s)' % type(e).__name__
    finally:
        signal.setitimer(timer, 0)
        CUR = None
        STATE.restore()
    return v + (case,)


def lemma_params(lem):
    ps = lem.params() if callable(lem.params) else lem.params
    return [p if isinstance(p, tuple) else (p,) for p in ps]


def do_task(t, emit):
    lem = {x.name: x for x in LEMMAS}[t['lemma']]
    p = lemma_params(lem)[t['param']]
    out = {'id': t['id'], 'verdict': 'ok', 'runs': 0, 'skipped': 0,
           'hangs': 0, 'distinct': 0, 'covers': [], 'ensured': 0}
    covers = set()
    distinct = set()
    deadline = REAL_TIME() + t['budget_s']
    base = t['seed']
    plan = []
    for cex in t.get('cex', ()):
        plan.append((cex, 1.0))
    k = 0
    while True:
        if k < len(plan):
            given, prob = plan[k]
        else:
            if k - len(plan) >= t['trials'] or REAL_TIME() > deadline:
                break
            r = random.Random('%s/%d' % (base, k))
            if t.get('cex') and r.random() < .6:
                given = r.choice(t['cex'])
                prob = r.choice([.95, .7, .5])
            else:
                given, prob = None, 0.0
        seed = '%s/%d' % (base, k)
        verdict, label, case = run_once(
            lem, p, seed, given, prob,
            limit=max(2, min(20, deadline - REAL_TIME() + 5)))
        k += 1
        out['runs'] += 1
        if verdict == 'skip':
            out['skipped'] += 1
            continue
        if verdict == 'hang':
            out['hangs'] += 1
            if out['hangs'] > 2:
                break
            continue
        out['ensured'] += case.ensured
        covers |= case.covers
        distinct.add(hash(json.dumps(case.used)))
        if verdict == 'fail':
            out.update(verdict='fail', label=label, inputs=case.used,
                       notes=case.notes[-6:], seed=seed,
                       from_cex=k <= len(plan))
            break
        if 'sample' not in out and case.ensured:
            out['sample'] = case.used
    out['covers'] = sorted(covers)
    out['distinct'] = len(distinct)
    emit(out)


def main(argv):
    """vc.py TASKS.json RESULTS.jsonl, or vc.py --replay FILE"""
    global STATE
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.path.insert(0, os.path.dirname(here))
    sys.modules['vc'] = sys.modules['__main__']
    sys.dont_write_bytecode = True
    import standins
    with open(argv[1] if argv[0] == '--replay' else argv[0]) as f:
        job = json.load(f)
    standins.install()
    time.time = _fake_time
    time.gmtime = _fake_gmtime
    import importlib
    for sub in ('', '/message', '/message/concents', '/datastructures'):
        d = REPO + '/golem_messages' + sub
        if not os.path.isdir(d):
            continue
        for f in sorted(os.listdir(d)):
            if f.endswith('.py') and f != '__init__.py':
                try:
                    importlib.import_module(
                        ('golem_messages' + sub + '/' + f[:-3]).replace(
                            '/', '.'))
                except ImportError:
                    pass
    for s in job['specs']:
        importlib.import_module('specs.' + s)
    STATE = State()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGVTALRM, _alarm)
    if argv[0] == '--replay':
        lem = {x.name: x for x in LEMMAS}[job['lemma']]
        p = lemma_params(lem)[job['param']]
        verdict, label, case = run_once(lem, p, job.get('seed', '0'),
                                        job['inputs'], 1.0)
        print('replay of %s: %s %s' % (job['lemma'], verdict, label or ''))
        for n, k, v in case.used:
            print('   %s = %r' % (n, v))
        for n in case.notes:
            print('   note: %s' % n)
        return 1 if verdict == 'fail' else 0
    with open(argv[1], 'w') as res:
        def emit(o):
            res.write(json.dumps(o) + '\n')
            res.flush()
        for t in job['tasks']:
            try:
                do_task(t, emit)
            except Exception:
                emit({'id': t['id'], 'verdict': 'error',
                      'error': traceback.format_exc()[-1500:]})
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
