"""Run-time of the instrumented code: what `__vc__` refers to."""
import builtins
import collections
import collections.abc
import copy
import enum
import functools
import inspect
import math
import operator
import random
import types

import z3

from . import ropes, seqs
from .ropes import SBytes, SStr
from .seqs import SDict, SList, SSet, SymGen
from .sym import (BOOL, BYT, DICT, E, FLT, INT, Internal, LIST, NONE, OBJ,
                  Num, Opaque, PathEnd, Rope, SAny, SBool, SFloat, SInt, STRK,
                  Sym, Unsupported, assumption, bounded, concrete_int, conj,
                  disj, imprecise, issym, narrow, neg, num_t, tb, truth,
                  wrapb, wrapn)

MODELS = {}          # callable -> handler(*args, **kwargs), on symbolic args
ALWAYS = {}          # callable -> handler, always
METHODS = {}         # (type, name) -> handler(self, *args, **kwargs)
CONTRACTS = {}       # function object -> Contract (in use mode)
TRACE = set()        # names of functions executed (for the evidence)
IN_CONTRACT = []


def model(*fns):
    def deco(h):
        for f in fns:
            MODELS[f] = h
        return h
    return deco


def always(*fns):
    def deco(h):
        for f in fns:
            ALWAYS[f] = h
        return h
    return deco


def method(tp, *names):
    def deco(h):
        for n in names:
            METHODS[(tp, n)] = h
        return h
    return deco


def has_sym(x, depth=3):
    if issym(x):
        return True
    t = type(x)
    if depth > 0:
        if t in (list, tuple, set, frozenset):
            return any(has_sym(y, depth - 1) for y in x)
        if isinstance(x, dict):
            return any(issym(k) or has_sym(v, depth - 1)
                       for k, v in dict.items(x))
        if t in (str, bytes, int, float, bool, type(None), type):
            return False
    if t is types.GeneratorType or hasattr(t, 'vc_symbolic'):
        return True
    return False


# ------------------------------------------------------------------- calls
WIDE = (list, tuple, dict)


def wide_eq(a, b):
    """a == b; lists, tuples and dicts element by element without deciding
    the outcome of each"""
    if a is b and not isinstance(a, float):
        return a == b
    t, u = type(a), type(b)
    for base in WIDE:
        if issubclass(t, base) and issubclass(u, base) \
                and t.__eq__ is base.__eq__ and u.__eq__ is base.__eq__:
            t = base
            break
    else:
        return a == b
    if len(a) != len(b):
        return False
    if t is dict:
        ka, kb = list(dict.keys(a)), list(dict.keys(b))
        if not all(type(k) is str for k in ka + kb):
            return a == b
        if set(ka) != set(kb):
            return False
        pairs = [(dict.__getitem__(a, k), dict.__getitem__(b, k))
                 for k in ka]
    else:
        pairs = list(zip(tuple(a), tuple(b)))
    so_far = True
    for x, y in pairs:
        if x is y:
            continue
        try:
            r = truth(wide_eq(x, y))
        except Internal:
            raise
        except Exception:
            if E.pm.fork(tb(so_far)):
                raise
            return False
        so_far = conj(so_far, r)
        if so_far is False:
            return False
    return so_far


class Runtime:
    Internal = Internal

    @staticmethod
    def unsupported(msg):
        raise Unsupported(msg)

    @staticmethod
    def and_test(*fs):
        for i, (f, _) in enumerate(fs):
            t = truth(f())
            if issym(t) and E.pm.lookup(E.pm.simplify(t.t)) is None:
                for g, plain in fs[i + 1:]:
                    if plain:
                        try:
                            if g() is False:
                                return False
                        except Exception:
                            pass
            if not t:
                return False
        return True

    @staticmethod
    def call(f, /, *args, **kwargs):
        while type(f) is functools.partial:
            args = f.args + args
            if f.keywords:
                kwargs = {**f.keywords, **kwargs}
            f = f.func
        if type(f) is SAny or type(f) is Opaque:
            raise TypeError('object is not callable')
        fn = f
        self_ = None
        if type(f) is types.MethodType:
            fn = f.__func__
            self_ = f
            if type(f.__self__) is random.Random:
                h = ALWAYS.get(f)
                if h is not None:
                    return h(*args, **kwargs)
        if CONTRACTS:
            c = None
            try:
                c = CONTRACTS.get(fn)
            except TypeError:
                pass
            if c is not None:
                if self_ is not None:
                    return c.use(f.__self__, *args, **kwargs)
                return c.use(*args, **kwargs)
        tf = type(fn)
        if tf is types.FunctionType:
            if '__vc__' in fn.__globals__:
                TRACE.add(fn)
                return f(*args, **kwargs)
            h = ALWAYS.get(fn)
            if h is not None:
                if self_ is not None:
                    return h(f.__self__, *args, **kwargs)
                return h(*args, **kwargs)
            h = MODELS.get(fn)
            if h is not None and (has_sym(args) or has_sym(kwargs)):
                if self_ is not None:
                    return h(f.__self__, *args, **kwargs)
                return h(*args, **kwargs)
            return f(*args, **kwargs)
        if tf is types.BuiltinFunctionType or \
                tf is types.MethodWrapperType or \
                tf is types.MethodDescriptorType or \
                tf is types.WrapperDescriptorType or \
                tf is types.ClassMethodDescriptorType:
            return call_builtin(f, args, kwargs)
        try:
            h = ALWAYS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*args, **kwargs)
        if isinstance(f, type):
            return call_class(f, args, kwargs)
        try:
            h = MODELS.get(f)
        except TypeError:
            h = None
        if h is not None and (has_sym(args) or has_sym(kwargs)):
            return h(*args, **kwargs)
        return f(*args, **kwargs)

    @staticmethod
    def star(x, f=None):
        x = narrow(x)
        if x is None or isinstance(x, (int, float)):
            raise TypeError('argument after * must be an iterable, not %s'
                            % type(x).__name__)
        if issym(x) and isinstance(f, type) and issubclass(f, tuple) \
                and hasattr(f, '_fields'):
            # more than the function takes is an error, however many
            return seqs.first(x, len(f._fields) + 1)
        return x

    @staticmethod
    def dstar(f, x):
        x = narrow(x)
        if type(x) is SDict:
            if f is not None and takes_kwargs(f):
                return {'__vc_sdict__': x}
            return {_kwname(k): v for k, v in x.items()}
        if not isinstance(x, dict):
            if not hasattr(x, 'keys'):
                raise TypeError('argument after ** must be a mapping, '
                                'not %s' % type(x).__name__)
        for k in x:
            if not isinstance(k, str):
                raise TypeError('keywords must be strings')
            if issym(k):
                if f is not None and takes_kwargs(f):
                    return {'__vc_sdict__': x}
                raise Unsupported('symbolic keyword')
        return x

    @staticmethod
    def kwargs_in(kw):
        if '__vc_sdict__' in kw:
            d = kw['__vc_sdict__'].copy()
            for k, v in kw.items():
                if k != '__vc_sdict__':
                    d[k] = v
            return d
        return kw

    # -------------------------------------------------------- comparisons
    @staticmethod
    def is_(a, b):
        return is_op(a, b)

    @staticmethod
    def eq(a, b):
        return wide_eq(a, b)

    @staticmethod
    def ne(a, b):
        if type(a) in WIDE and type(b) in WIDE:
            return neg(wide_eq(a, b))
        return a != b

    @staticmethod
    def is_not(a, b):
        return neg(is_op(a, b))

    @staticmethod
    def in_(x, c):
        return contains(c, x)

    @staticmethod
    def not_in(x, c):
        return neg(contains(c, x))

    # ------------------------------------------------------- subscripting
    @staticmethod
    def slice(a, b, c):
        return builtins.slice(a, b, c)

    @staticmethod
    def getitem(o, k):
        if type(o) is SAny:
            o = o.narrow()
        if type(k) is SAny:
            k = k.narrow()
        if isinstance(k, builtins.slice) and not issym(o):
            if issym(k.start) or issym(k.stop) or issym(k.step):
                k = builtins.slice(*[
                    None if v is None else concrete_int(v)
                    for v in (k.start, k.stop, k.step)])
            return o[k]
        if isinstance(o, dict) and not issym(o) and not issym(k) \
                and symkeys(o) and type(o).__getitem__ is dict.__getitem__:
            return dict_lookup(o, k)
        if issym(k) and not issym(o):
            if isinstance(o, dict):
                g = type(o).__getitem__
                if g is dict.__getitem__:
                    return dict_lookup(o, k)
                return o[k]
            if isinstance(o, (list, tuple)):
                if isinstance(k, int):
                    return seq_index(o, k)
            if isinstance(o, enum.EnumMeta):
                for n, m in o.__members__.items():
                    if k == n:
                        return m
                raise KeyError(k)
        return o[k]

    @staticmethod
    def setitem(o, k, v):
        if type(o) is SAny:
            o = o.narrow()
        if type(k) is SAny:
            k = k.narrow()
        if isinstance(o, dict) and not issym(o) \
                and (issym(k) or symkeys(o)) \
                and type(o).__setitem__ is dict.__setitem__:
            dict_store(o, k, v)
            return
        o[k] = v

    @staticmethod
    def delitem(o, k):
        if type(o) is SAny:
            o = o.narrow()
        k = narrow(k)
        if isinstance(o, dict) and not issym(o) \
                and (issym(k) or symkeys(o)):
            q = find_key(o, k)
            if q is NOKEY:
                raise KeyError(k)
            E.hash_ok += 1
            try:
                del o[q]
            finally:
                E.hash_ok -= 1
            return
        del o[k]

    # ---------------------------------------------------------- strings
    @staticmethod
    def mod(a, b):
        if type(a) is str:
            return percent(a, b)
        if isinstance(a, str):
            raise Unsupported('symbolic format string')
        return a % b

    @staticmethod
    def fstr(*parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            v, conv, spec = p
            if conv in (114, 97):
                v = py_repr(v)
            elif conv == 115:
                v = py_str(v)
            out.append(py_format(v, spec))
        return ropes.join('', out)

    # ------------------------------------------------------ iteration
    @staticmethod
    def loop(it):
        if type(it) is SAny:
            it = it.narrow()
        return it

    @staticmethod
    def unpack(v, n):
        return tuple(v)

    @staticmethod
    def listcomp(it, f, cond):
        it = narrow(it)
        if type(it) is SList and cond is None:
            return seqs.map_list(it, f, E.pm.fresh('map'))
        if cond is None:
            return [f(x) for x in it]
        return [f(x) for x in it if cond(x)]

    @staticmethod
    def mkdict(*pairs):
        d = {}
        for p in pairs:
            if len(p) == 1:
                x = narrow(p[0])
                if issym(x):
                    raise Unsupported('** of a symbolic dict in a display')
                for q in x.keys():
                    _put(d, q, Runtime.getitem(x, q))
            else:
                _put(d, narrow(p[0]), p[1])
        return d

    @staticmethod
    def dictcomp(it, f, cond):
        d = {}
        for x in narrow(it):
            if cond is None or cond(x):
                k, v = f(x)
                _put(d, narrow(k), v)
        return d

    @staticmethod
    def setcomp(it, f, cond):
        it = narrow(it)
        if type(it) is SSet:
            pairs = list(it.m.items())
        elif type(it) is SymGen:
            pairs = [(x, c) for c, x in it.items]
        else:
            pairs = [(x, True) for x in it]
        m = {}
        symbolic = False
        for x, c in pairs:
            if cond is not None:
                c2 = truth(cond(x))
                c = conj(wrapb(tb(c)), c2)
            if c is False:
                continue
            if c is not True:
                symbolic = True
                c = tb(c)
            y = f(x)
            if issym(y):
                raise Unsupported('set of symbolic elements')
            m[y] = seqs._or(m[y], c) if y in m else c
        if not symbolic:
            return set(m)
        return SSet(m)

    @staticmethod
    def foldable(it):
        return type(it) in (SSet, SymGen) or type(it) in (
            range, set, frozenset) and guardable(it) and len(it) > 8

    @staticmethod
    def mappable(it, acc):
        return type(it) is SList and type(acc) is list and not acc

    @staticmethod
    def map_loop(it, f):
        return seqs.map_list(it, f, E.pm.fresh('map'))

    @staticmethod
    def fold(it, acc, cond, f):
        """for x in it: (if cond:) acc = f(acc, x)"""
        items = list(it.m.items()) if type(it) is SSet else \
            it.items if type(it) is SymGen else [(x, True) for x in it]
        if type(it) is SymGen:
            items = [(x, c) for c, x in items]
        for x, c in items:
            c = wrapb(tb(c))
            if cond is not None:
                c = conj(c, truth(cond(acc, x)))
            if c is False:
                continue
            new = f(acc, x)
            acc = new if c is True else ite(tb(c), new, acc)
        return acc

    @staticmethod
    def genexp(it, f, cond):
        it = narrow(it)
        if type(it) is SSet:
            items = []
            for x, c in it.m.items():
                if cond is not None:
                    c = tb(conj(wrapb(tb(c)), truth(cond(x))))
                items.append((c, f(x)))
            return SymGen(items)
        if type(it) is SymGen:
            items = []
            for c, x in it.items:
                if cond is not None:
                    c = tb(conj(wrapb(tb(c)), truth(cond(x))))
                items.append((c, f(x)))
            return SymGen(items)
        if type(it) is SList and cond is None:
            return LazyMap(it, f)
        if cond is None:
            return (f(x) for x in it)
        if guardable(it):
            items = [(truth(cond(x)), x) for x in it]
            if any(issym(c) for c, _ in items):
                return SymGen([(True if c is True else tb(c), f(x))
                               for c, x in items if c is not False])
            return (f(x) for c, x in items if c is True)
        return (f(x) for x in it if cond(x))


class LazyMap:
    """(f(x) for x in a list of unknown length)"""

    def __init__(self, src, f):
        self.src, self.f = src, f
        self.it = None

    def __iter__(self):
        return self

    def __next__(self):
        if self.it is None:
            self.it = iter(self.src)
        return self.f(next(self.it))


def guardable(it):
    """Of numbers known beforehand: members are decided one by one"""
    return type(it) in (SSet, SymGen, range) or (
        type(it) in (set, frozenset) and not any(issym(x) for x in it))


NOKEY = object()


def symkeys(o):
    """Does the dict hold symbolic keys?  (Then no native lookup.)"""
    for q in dict.keys(o):
        if issym(q):
            return True
    return False


def _kwname(k):
    if issym(k):
        raise Unsupported('symbolic keyword name')
    if not isinstance(k, str):
        raise TypeError('keywords must be strings')
    return k


def takes_kwargs(f):
    if isinstance(f, type):
        init = f.__init__
        if not isinstance(init, types.FunctionType):
            return False
        if f.__new__ is not object.__new__ and \
                f.__new__ is not dict.__new__:
            return False
        f = init
    f = getattr(f, '__func__', f)
    if getattr(f, 'vc_kwargs', False):
        return True
    return isinstance(f, types.FunctionType) and '__vc__' in f.__globals__ \
        and bool(f.__code__.co_flags & inspect.CO_VARKEYWORDS) and \
        f.__code__.co_argcount <= 1


def find_key(o, k):
    for q in list(dict.keys(o)):
        if q is k:
            return q
        r = (q == k)
        if r is NotImplemented:
            continue
        if r:
            return q
    return NOKEY


def _put(d, k, v):
    if issym(k) or symkeys(d):
        if isinstance(k, (list, dict)):
            raise TypeError('unhashable type')
        dict_store(d, k, v)
    else:
        d[k] = v


def dict_lookup(o, k):
    q = find_key(o, k)
    if q is NOKEY:
        m = getattr(type(o), '__missing__', None)
        if m is not None:
            return m(o, k)
        raise KeyError(k)
    E.hash_ok += 1
    try:
        return dict.__getitem__(o, q)
    finally:
        E.hash_ok -= 1


def dict_store(o, k, v):
    q = find_key(o, k)
    E.hash_ok += 1
    try:
        dict.__setitem__(o, k if q is NOKEY else q, v)
    finally:
        E.hash_ok -= 1


def seq_index(o, k):
    n = len(o)
    for i in range(n):
        if k == i or k == i - n:
            return o[i]
    raise IndexError('index out of range')


def is_op(a, b):
    if a is b:
        return True
    if type(a) is SAny:
        if a.resolved is not None:
            return is_op(a.resolved[1], b)
        if b is None:
            return a.is_kind(NONE)
        if b is True or b is False:
            return conj(a.is_kind(BOOL), a.payload(BOOL) == b)
        if type(b) is SAny:
            return is_op(a.narrow(), b)
        if not issym(b) and isinstance(b, (enum.Enum, type)):
            return False
        return is_op(a.narrow(), b)
    if type(b) is SAny:
        return is_op(b, a)
    if type(a) is SBool or type(b) is SBool:
        if type(a) in (SBool, bool) and type(b) in (SBool, bool):
            return wrapb(tb(a) == tb(b))
        return False
    return False


def contains(c, x):
    c = narrow(c)
    if type(c) in (SDict, SSet):
        return c.vc_contains(narrow(x) if type(c) is SDict else x)
    if issym(c):
        return truth(c.__contains__(x))
    if isinstance(c, enum.EnumMeta):
        # Python 3.9: TypeError for anything that is not an enum member
        if issym(x) or not isinstance(x, enum.Enum):
            raise TypeError(
                "unsupported operand type(s) for 'in': '%s' and 'EnumMeta'"
                % type(x).__name__)
        return isinstance(x, c)
    tc = type(c)
    if not issym(x) and isinstance(c, dict) and symkeys(c) \
            and tc.__contains__ is dict.__contains__:
        return disj(*[_eqb(y, x) for y in dict.keys(c)])
    if hasattr(tc, 'vc_in'):
        return c.vc_in(x)
    if not issym(x):
        if tc in (list, tuple):
            r = []
            for y in c:
                if y is x:
                    return True
                q = (y == x)
                if q is True:
                    return True
                if q is not False:
                    r.append(truth(q))
            return disj(*r)
        return x in c
    # symbolic x
    if tc.__contains__ in (dict.__contains__, set.__contains__,
                           frozenset.__contains__) or tc in (
            type({}.keys()), type({}.values())):
        if type(x) is SAny:
            if E.pm.fork(z3.Or(x.kind == LIST, x.kind == DICT)) \
                    and tc is not type({}.values()):
                raise TypeError('unhashable type')
        return disj(*[_eqb(y, x) for y in c])
    if tc in (list, tuple):
        return disj(*[True if y is x else _eqb(y, x) for y in c])
    if tc is str:
        x = narrow(x)
        if isinstance(x, str):
            return wrapb(z3.Contains(ropes.term(c), ropes.term(x)))
        raise TypeError('in <string> requires string as left operand')
    if tc is bytes:
        x = narrow(x)
        if isinstance(x, bytes):
            return wrapb(z3.Contains(ropes.term(c), ropes.term(x)))
        if isinstance(x, int):
            return disj(*[x == b for b in set(c)])
        raise TypeError('a bytes-like object is required')
    if tc is range:
        x = narrow(x)
        if isinstance(x, int):
            a, b, s = c.start, c.stop, c.step
            if s > 0:
                return conj(x >= a, x < b, (x - a) % s == 0)
            return conj(x <= a, x > b, (a - x) % (-s) == 0)
        return False
    return x in c


def _eqb(a, b):
    r = a == b
    if r is NotImplemented:
        return False
    return truth(r)


# ------------------------------------------------------------- builtins
def call_builtin(f, args, kwargs):
    h = ALWAYS.get(f) if _hashable(f) else None
    if h is not None:
        return h(*args, **kwargs)
    self_ = getattr(f, '__self__', None)
    name = f.__name__
    if self_ is not None and not isinstance(self_, types.ModuleType):
        ts = type(self_)
        for base in ts.__mro__ if not isinstance(self_, type) else ():
            h = METHODS.get((base, name))
            if h is not None:
                return h(f, self_, *args, **kwargs)
        if isinstance(self_, type):
            h = METHODS.get((self_, name))
            if h is not None and (has_sym(args) or has_sym(kwargs)):
                return h(*args, **kwargs)
        return f(*args, **kwargs)
    if has_sym(args) or has_sym(kwargs):
        h = MODELS.get(f) if _hashable(f) else None
        if h is not None:
            return h(*args, **kwargs)
        oc = getattr(f, '__objclass__', None)
        if oc is not None:
            # unbound builtin method: str.upper(x), dict.__setitem__(d, k, v)
            if args and issym(args[0]):
                recv = narrow(args[0])
                if issym(recv):
                    if not isinstance(recv, oc):
                        raise TypeError('descriptor requires a %r object'
                                        % oc.__name__)
                    return getattr(recv, name)(*args[1:], **kwargs)
            h = METHODS.get((oc, name))
            if h is not None:
                return h(f.__get__(args[0], type(args[0])), *args, **kwargs)
        mod = getattr(self_, '__name__', '?')
        if f in NATIVE_OK:
            return f(*args, **kwargs)
        raise Unsupported('builtin %s.%s on symbolic arguments'
                          % (mod, name))
    return f(*args, **kwargs)


def _hashable(f):
    try:
        hash(f)
        return True
    except BaseException:
        return False


NATIVE_OK = {
    any, all, sorted, min, max, sum, iter, next, getattr, setattr,
    hasattr, delattr, callable, id, print, issubclass, operator.eq,
    operator.ne, operator.lt, operator.le, operator.gt, operator.ge,
    operator.and_, operator.or_, operator.xor, operator.add, operator.sub,
    operator.mul, operator.not_, operator.ior, operator.iand,
    operator.ixor, operator.lshift, operator.rshift, operator.neg,
    object.__setattr__, divmod,
}


def call_class(f, args, kwargs):
    h = MODELS.get(f)
    if h is not None and (has_sym(args) or has_sym(kwargs)):
        return h(*args, **kwargs)
    if isinstance(f, enum.EnumMeta) and len(args) == 1 and issym(args[0]):
        return enum_call(f, args[0])
    return f(*args, **kwargs)


def enum_call(cls, v):
    for m in cls:
        if truth(_eqb(m.value, v)):
            return m
    miss = cls._missing_
    raise ValueError('not a valid %s' % cls.__qualname__)


# ------------------------------------------------------------ isinstance
_KIND_OF = {int: (INT, BOOL), bool: (BOOL,), float: (FLT,), str: (STRK,),
            bytes: (BYT,), list: (LIST,), dict: (DICT,),
            type(None): (NONE,), object: tuple(range(9)), tuple: (),
            set: (), frozenset: (), bytearray: (), complex: (),
            type: ()}
import numbers  # noqa: E402
_KIND_OF[numbers.Number] = (INT, BOOL, FLT)
_KIND_OF[numbers.Real] = (INT, BOOL, FLT)
_KIND_OF[numbers.Integral] = (INT, BOOL)
_KIND_OF[collections.abc.Mapping] = (DICT,)
_KIND_OF[collections.abc.MutableMapping] = (DICT,)
_KIND_OF[collections.abc.Sequence] = (LIST, STRK, BYT)
_KIND_OF[collections.abc.Iterable] = (LIST, STRK, BYT, DICT)
_KIND_OF[collections.abc.Sized] = (LIST, STRK, BYT, DICT)
_KIND_OF[collections.abc.Container] = (LIST, STRK, BYT, DICT)
_KIND_OF[collections.abc.Collection] = (LIST, STRK, BYT, DICT)
_KIND_OF[collections.abc.Hashable] = (NONE, BOOL, INT, FLT, STRK, BYT, OBJ)
_KIND_OF[collections.abc.Callable] = ()


@always(isinstance)
def m_isinstance(x, c):
    if type(x) is SAny:
        if x.resolved is not None:
            return m_isinstance(x.resolved[1], c)
        cs = c if isinstance(c, tuple) else (c,)
        ks = set()
        for q in cs:
            if isinstance(q, tuple):
                r = m_isinstance(x, q)
                if truth(r):
                    return True
                continue
            if q in _KIND_OF:
                ks.update(_KIND_OF[q])
            elif not isinstance(q, type):
                raise Unsupported('isinstance with %r' % (q,))
            elif 'obj' in x.hint and issubclass(type(x.hint['obj']), q):
                ks.add(OBJ)
        if not ks:
            return False
        return x.is_kind(*ks)
    return isinstance(x, c)


@always(type)
def m_type(x, *a):
    if a:
        return type(x, *a)
    if type(x) is SAny:
        x = x.narrow()
    if issym(x):
        return x.__class__
    return type(x)


@always(len)
def m_len(x):
    x = narrow(x)
    if isinstance(x, Rope):
        return ropes.rlen(x)
    if type(x) is SList:
        return wrapn(x.n, False)
    if hasattr(type(x), 'vc_len'):
        return x.vc_len()
    if issym(x):
        raise TypeError('object has no len()')
    f = type(x).__dict__.get('__len__')
    if isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


@model(bool)
def m_bool(x=False):
    return truth(x)


@model(int)
def m_int(x=0, *a):
    x = narrow(x)
    if a:
        if isinstance(x, Rope) or issym(a[0]):
            return parse_int(x, *a)
        return int(x, *a)
    t = type(x)
    if t is SInt:
        return x
    if t is SBool:
        return wrapn(num_t(x)[0], False)
    if t is SFloat:
        return x.__trunc__()
    if isinstance(x, Rope):
        return parse_int(x)
    if issym(x):
        raise TypeError('int() argument must be a string or a number')
    return int(x)


def parse_int(x, base=10):
    if not isinstance(x, (str, bytes)):
        raise TypeError("int() can't convert non-string with explicit base")
    t = ropes.term(x)
    if isinstance(x, bytes):
        raise Unsupported('int() of symbolic bytes')
    ps = ropes.pieces_of(x)
    if len(ps) == 1 and isinstance(ps[0], ropes.Atom) and ps[0].tag:
        tag = ps[0].tag
        if tag[0] == 'intstr' and base == 10:
            return tag[1]
        if tag[0] == 'hex' and base == 16:
            return ropes.int_from_bytes(tag[1])
        if tag[0] == 'binstr' and base == 2:
            return tag[2]
    f = ropes.fun('py_int_%s' % base, ropes.STR, z3.IntSort())
    ok = ropes.fun('py_isint_%s' % base, ropes.STR, z3.BoolSort())
    if not E.pm.fork(ok(t)):
        raise ValueError('invalid literal for int()')
    return SInt(f(t))


@model(float)
def m_float(x=0.0):
    x = narrow(x)
    t = type(x)
    if t is SFloat:
        return x
    if t in (SInt, SBool):
        return wrapn(z3.ToReal(num_t(x)[0]), True)
    if issym(x):
        raise Unsupported('float() of a symbolic string')
    return float(x)


@model(abs)
def m_abs(x):
    return abs(narrow(x))


@model(round)
def m_round(x, n=None):
    x = narrow(x)
    return x.__round__(n) if n is not None else x.__round__()


@model(math.ceil)
def m_ceil(x):
    x = narrow(x)
    if isinstance(x, Num):
        return as_num(x).__ceil__()
    return math.ceil(x)


@model(math.floor)
def m_floor(x):
    x = narrow(x)
    if isinstance(x, Num):
        return as_num(x).__floor__()
    return math.floor(x)


@model(math.trunc)
def m_trunc(x):
    x = narrow(x)
    if isinstance(x, Num):
        return as_num(x).__trunc__()
    return math.trunc(x)


def as_num(x):
    if type(x) is SBool:
        return SInt(num_t(x)[0])
    return x


@model(math.log2)
def m_log2(x):
    """log2 as an uninterpreted real function pinned at powers of two: its
    floor is the only thing exact here."""
    x = narrow(x)
    t, real = num_t(x)
    if not real:
        t = z3.ToReal(t)
    if E.pm.fork(t <= 0):
        raise ValueError('math domain error')
    f = ropes.fun('log2', z3.RealSort(), z3.RealSort())
    r = f(t)
    for k in range(-70, 71):
        v = z3.Q(2 ** k, 1) if k >= 0 else z3.Q(1, 2 ** -k)
        E.pm.add((t >= v) == (r >= k))
    assumption('math.log2 is monotone and exact at powers of two')
    return SFloat(r)


@model(range)
def m_range(*a):
    return range(*[concrete_int(x) for x in a])


@model(list)
def m_list(x=()):
    x = narrow(x)
    if type(x) is SList:
        return x
    if type(x) is LazyMap and x.it is None:
        return seqs.map_list(x.src, x.f, E.pm.fresh('map'))
    return list(x)


@model(tuple)
def m_tuple(x=()):
    x = narrow(x)
    return tuple(x)


@model(set)
def m_set(x=()):
    x = narrow(x)
    if type(x) is SSet:
        return x.copy()
    if type(x) is SymGen:
        return Runtime.setcomp(x, lambda v: v, None)
    out = []
    for y in x:
        y = narrow(y)
        if issym(y):
            raise Unsupported('set of symbolic elements')
        out.append(y)
    return set(out)


@model(sum)
def m_sum(it, start=0):
    it = narrow(it)
    if type(it) is not SymGen:
        return sum(it, start)
    for c, v in it.items:
        new = start + v
        start = new if c is True else ite(c, new, start)
    return start


@model(any)
def m_any(it):
    it = narrow(it)
    if type(it) is not SymGen:
        return any(it)
    return disj(*[conj(wrapb(tb(c)), truth(v)) for c, v in it.items])


@model(all)
def m_all(it):
    it = narrow(it)
    if type(it) is not SymGen:
        return all(it)
    return conj(*[disj(neg(wrapb(tb(c))), truth(v)) for c, v in it.items])


@model(frozenset)
def m_frozenset(x=()):
    r = m_set(x)
    return r if issym(r) else frozenset(r)


@model(dict)
def m_dict(*a, **k):
    if a:
        x = narrow(a[0])
        if type(x) is SDict:
            d = x.copy()
            for q, v in k.items():
                d[q] = v
            return d
        if x is None or isinstance(x, (int, float)):
            raise TypeError("'%s' object is not iterable" % m_type(x))
        if isinstance(x, Rope):
            if not E.pm.fork(tb(truth(x))):
                return dict(**k)
            if isinstance(x, str):
                raise ValueError('dictionary update sequence element #0 has '
                                 'length 1; 2 is required')
            raise TypeError('cannot convert dictionary update sequence '
                            'element #0 to a sequence')
        if type(x) is SList:
            return dict_of_slist(x, k)
        if isinstance(x, dict):
            d = {}
            for q, v in dict.items(x):
                dict_store(d, q, v)
        else:
            d = {}
            for pair in x:
                try:
                    q, v = pair
                except TypeError:
                    raise TypeError('cannot convert dictionary update '
                                    'sequence element to a sequence')
                q = narrow(q)
                if isinstance(q, (list, dict)):
                    raise TypeError('unhashable type')
                dict_store(d, q, v)
        d.update(k)
        return d
    return dict(**k)


def dict_of_slist(x, k):
    """dict(list of unknown length and content): either an error or some
    dict (over-approximation: the correlation with the list is dropped)."""
    c = E.pm.choose([True, True, True])
    if c == 0:
        raise TypeError('cannot convert dictionary update sequence element')
    if c == 1:
        raise ValueError('dictionary update sequence element has wrong '
                         'length')
    imprecise('dict(<list of unknown content>) over-approximated')
    n = E.pm.fresh(x.name + '.asdict')
    return SDict(n, {}, default=lambda kk: SAny('%s{%s}' % (n, kk), depth=1))


@always(str)
def m_str(x='', *a):
    if a:
        x = narrow(x)
        if issym(x):
            return ropes.decode(x, *a)
        return str(x, *a)
    return py_str(x)


@model(bytes)
def m_bytes(x=b'', *a):
    x = narrow(x)
    if a:
        return x.encode(*a)
    if isinstance(x, bytes):
        return x
    if isinstance(x, str):
        raise TypeError('string argument without an encoding')
    if isinstance(x, int):
        return bytes(concrete_int(x))
    if isinstance(x, Num):
        raise TypeError("cannot convert 'float' object to bytes")
    out = []
    for b in x:
        b = narrow(b)
        if issym(b):
            if not isinstance(b, int):
                raise TypeError('an integer is required')
            out.append(ropes.int_to_bytes(as_num(b), 1, 'big', False)
                       if E.pm.fork(z3.And(num_t(b)[0] >= 0,
                                           num_t(b)[0] < 256))
                       else _raise(ValueError('bytes must be in range')))
        else:
            out.append(bytes([b]))
    return ropes.join(b'', out)


def _raise(e):
    raise e


@always(repr)
def m_repr(x):
    x = narrow(x)
    if not issym(x) and not safe_native(x):
        f = _user(type(x), '__repr__')
        if f is not None:
            return f(x)
    return py_repr(x)


@model(hash)
def m_hash(x):
    x = narrow(x)
    if isinstance(x, (list, dict)):
        raise TypeError('unhashable type')
    if isinstance(x, Rope):
        f = ropes.fun('py_hash', ropes.term(x).sort(), z3.IntSort())
        return SInt(f(ropes.term(x)))
    return hash(x)


@model(enumerate)
def m_enumerate(x, start=0):
    return enumerate(narrow(x), start)


@model(reversed)
def m_reversed(x):
    return reversed(list(narrow(x)))


@model(zip)
def m_zip(*a, **k):
    return zip(*[narrow(x) for x in a], **k)


@model(map)
def m_map(f, *its):
    its = [narrow(i) for i in its]
    if len(its) == 1 and type(its[0]) is SList:
        return seqs.map_list(its[0], lambda x: Runtime.call(f, x),
                             E.pm.fresh('map'))
    return (Runtime.call(f, *xs) for xs in zip(*its))


@always(filter)
def m_filter(f, it):
    it = narrow(it)
    if guardable(it):
        return Runtime.genexp(it, lambda x: x, (
            lambda x: x) if f is None else lambda x: Runtime.call(f, x))
    return (x for x in it if (x if f is None else Runtime.call(f, x)))


@always(functools.reduce)
def m_reduce(f, it, *init):
    it = narrow(it)
    if type(it) is SymGen:
        if not init:
            raise Unsupported('reduce without initial value')
        acc = init[0]
        for c, v in it.items:
            new = Runtime.call(f, acc, v)
            acc = ite(c, new, acc)
        return acc
    return functools.reduce(lambda a, b: Runtime.call(f, a, b), it, *init)


def ite(c, a, b):
    """Merge of two numbers."""
    if c is True:
        return a
    if a is b:
        return a
    from .sym import bits_of
    x, y = bits_of(a), bits_of(b)
    if x is not None and y is not None:
        out = {}
        for k in set(x) | set(y):
            p, q = x.get(k, False), y.get(k, False)
            if p is q or issym(p) and issym(q) and p.eq(q):
                out[k] = p
            elif p is True and q is False:
                out[k] = z3.simplify(c)
            else:
                out[k] = z3.simplify(z3.If(c, tb(p), tb(q)))
        return SInt(bits=out)
    abv = _bv(a)
    bbv = _bv(b)
    if abv is not None and bbv is not None:
        w = max(abv.size(), bbv.size())
        from .sym import widen
        return SInt(bv=z3.simplify(
            z3.If(c, widen(abv, w), widen(bbv, w))))
    x, y = num_t(a), num_t(b)
    if x is None or y is None or x[1] != y[1]:
        raise Unsupported('merge of different kinds')
    return wrapn(z3.If(c, x[0], y[0]), x[1])


def _bv(x):
    if type(x) is int and x >= 0:
        return z3.BitVecVal(x, max(256, x.bit_length()))
    if type(x) is SInt and x.bv is not None:
        return x.bv
    return None


@model(max)
def m_max(*a, **k):
    return _minmax(a, k, lambda x, y: x > y, max)


@model(min)
def m_min(*a, **k):
    return _minmax(a, k, lambda x, y: x < y, min)


def _minmax(a, k, better, native):
    if k:
        return native(*a, **k)
    xs = [narrow(x) for x in (a if len(a) > 1 else list(narrow(a[0])))]
    if not xs:
        raise ValueError('arg is an empty sequence')
    best = xs[0]
    for x in xs[1:]:
        p, q = num_t(x), num_t(best)
        if p is not None and q is not None and p[1] == q[1]:
            best = wrapn(z3.If(tb(better(x, best)), p[0], q[0]), p[1])
        elif better(x, best):
            best = x
    return best


# ---------------------------------------------------------------- strings
def py_str(x):
    x = narrow(x)
    if hasattr(type(x), 'vc_str'):
        return x.vc_str()
    if not issym(x):
        if safe_native(x):
            return str(x)
        if not isinstance(x, BaseException):
            f = _user(type(x), '__str__') or _user(type(x), '__repr__')
            if f is not None:
                return f(x)
        return ropes.opaque_str('str')
    if isinstance(x, str):
        return x
    if type(x) is SInt:
        return int_str(x)
    return ropes.opaque_str('str')


def int_str(x):
    f = ropes.fun('int_str', z3.IntSort(), ropes.STR)
    t = f(x.t)
    g = ropes.fun('py_int_10', ropes.STR, z3.IntSort())
    E.pm.add(g(t) == x.t)
    E.pm.add(z3.Length(t) >= 1)
    return ropes.SStr([ropes.Atom(t, None, ('intstr', x), False)])


def _user(t, name):
    for c in t.__mro__:
        if name in c.__dict__:
            f = c.__dict__[name]
            return f if isinstance(f, types.FunctionType) and \
                '__vc__' in f.__globals__ else None
    return None


def safe_native(x, depth=4):
    """str()/repr()/format() of x involves no symbolic value."""
    t = type(x)
    if issubclass(t, Sym):
        return False
    if t in (str, bytes, int, float, bool, type(None), complex) or \
            isinstance(x, (type, types.FunctionType, types.ModuleType,
                           enum.Enum, types.BuiltinFunctionType)):
        return True
    if t in (list, tuple, set, frozenset):
        return depth > 0 and all(safe_native(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return depth > 0 and all(
            safe_native(k, depth - 1) and safe_native(v, depth - 1)
            for k, v in dict.items(x)) and (
                t is dict or t.__repr__ is dict.__repr__)
    if isinstance(x, BaseException):
        return depth > 0 and all(safe_native(y, depth - 1) for y in x.args) \
            and all(safe_native(y, depth - 1)
                    for y in getattr(x, '__dict__', {}).values()) \
            and _user(t, '__str__') is None
    import datetime
    import uuid
    if t in (datetime.timedelta, datetime.datetime, datetime.date,
             uuid.UUID):
        return True
    return hasattr(t, 'vc_safe_str')


def py_repr(x):
    x = narrow(x)
    if not issym(x) and safe_native(x):
        return repr(x)
    return ropes.opaque_str('repr')


@model(format)
def py_format(x, spec=''):
    x = narrow(x)
    if issym(spec):
        raise Unsupported('symbolic format spec')
    if not issym(x) and safe_native(x):
        return format(x, spec)
    if spec == '':
        return py_str(x)
    if isinstance(x, int) and issym(x):
        return format_int(x, spec)
    if hasattr(type(x), 'vc_format'):
        return x.vc_format(spec)
    return ropes.opaque_str('format')


def format_int(x, spec):
    import re
    m = re.fullmatch(r'0(\d+)([xb])', spec)
    if m:
        w, base = int(m.group(1)), m.group(2)
        if base == 'x' and w % 2 == 0 and E.pm.entailed(
                z3.And(x.t >= 0, x.t < 16 ** w)):
            b = ropes.int_to_bytes(x, w // 2, 'big', False)
            return b.hex()
        f = ropes.fun('fmt_%s' % spec, z3.IntSort(), ropes.STR)
        if x.bv is not None and x.bv.size() <= w and base == 'b':
            n = x.bv.size()
            g = ropes.fun('fmtbv_%s' % spec, z3.BitVecSort(n), ropes.STR)
            return ropes.term_atom(g(x.bv), w, ('binstr', w, x), False)
        return ropes.term_atom(f(x.t), None, None, False)
    f = ropes.fun('fmt_%s' % spec, z3.IntSort(), ropes.STR)
    return ropes.term_atom(f(x.t), None, None, False)


def percent(fmt, args):
    if safe_native(args):
        return fmt % args
    import re
    toks = re.split(r'(%(?:\([^)]*\))?[#0\- +]*\d*(?:\.\d+)?[a-zA-Z%])', fmt)
    vals = args if isinstance(args, tuple) else (args,)
    if isinstance(args, dict):
        return ropes.opaque_str('fmt')
    vals = list(vals)
    out = []
    for t in toks:
        if not t.startswith('%') or len(t) < 2:
            out.append(t)
            continue
        if t == '%%':
            out.append('%')
            continue
        if not vals:
            raise TypeError('not enough arguments for format string')
        v = vals.pop(0)
        if safe_native(v):
            out.append(t % (v,))
        elif t == '%s':
            out.append(py_str(v))
        elif t == '%d':
            v = narrow(v)
            if isinstance(v, int):
                out.append(int_str(as_num(v)))
            else:
                out.append(ropes.opaque_str('fmt'))
        else:
            out.append(ropes.opaque_str('fmt'))
    if vals:
        raise TypeError('not all arguments converted')
    return ropes.join('', out)


@method(str, 'format')
def m_str_format(f, fmt, *a, **k):
    if safe_native(a) and safe_native(k):
        return f(*a, **k)
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        import re
        m = re.match(r'[^.\[]*', field)
        head, rest = m.group(0), field[m.end():]
        if head == '':
            v = a[auto]
            auto += 1
        elif head.isdigit():
            v = a[int(head)]
        else:
            v = k[head]
        for acc in re.findall(r'\.[A-Za-z_0-9]+|\[[^\]]*\]', rest):
            if acc[0] == '.':
                v = getattr(v, acc[1:])
            else:
                key = acc[1:-1]
                v = Runtime.getitem(v, int(key) if key.isdigit() else key)
        if conv in ('r', 'a'):
            v = py_repr(v)
        elif conv == 's':
            v = py_str(v)
        out.append(py_format(v, spec))
    return ropes.join('', out)


@method(str, 'join')
@method(bytes, 'join')
def m_join(f, sep, parts):
    if not isinstance(parts, (list, tuple)):
        parts = list(narrow(parts))
    if any(issym(p) for p in parts):
        return ropes.join(sep, parts)
    return f(parts)


@method(str, 'startswith', 'endswith', 'find', 'index', 'count', 'split',
        'rsplit', 'replace', 'strip', 'lstrip', 'rstrip', 'encode')
@method(bytes, 'startswith', 'endswith', 'find', 'index', 'count', 'split',
        'rsplit', 'replace', 'strip', 'lstrip', 'rstrip', 'decode')
def m_strmeth(f, s, *a, **k):
    if not has_sym(a):
        return f(*a, **k)
    a = [narrow(x) for x in a]
    if not any(issym(x) for x in a):
        return f(*a, **k)
    cls = SBytes if isinstance(s, bytes) else SStr
    if f.__name__ in ('startswith', 'endswith'):
        return getattr(cls([s]), f.__name__)(*a)
    raise Unsupported('str.%s with symbolic arguments' % f.__name__)


@method(str, '__eq__', '__ne__', '__add__', '__contains__')
@method(bytes, '__eq__', '__ne__', '__add__', '__contains__')
def m_strop(f, s, *a):
    if not has_sym(a):
        return f(*a)
    return getattr(operator, f.__name__.strip('_').replace(
        'add', 'add'))(s, *a)


# ----------------------------------------------------------- dict methods
@method(dict, 'get')
def m_dict_get(f, d, k, default=None):
    k = narrow(k)
    if not issym(k) and not any(issym(q) for q in dict.keys(d)):
        return f(k, default)
    if isinstance(k, (list, dict)):
        raise TypeError('unhashable type')
    q = find_key(d, k)
    if q is NOKEY:
        return default
    E.hash_ok += 1
    try:
        return dict.__getitem__(d, q)
    finally:
        E.hash_ok -= 1


@method(dict, '__getitem__')
def m_dict_getitem(f, d, k):
    k = narrow(k)
    if not issym(k) and not symkeys(d):
        return f(k)
    return dict_lookup(d, k)


@method(dict, '__contains__')
def m_dict_contains(f, d, k):
    if not issym(k) and not symkeys(d):
        return f(k)
    return disj(*[_eqb(y, k) for y in dict.keys(d)])


@method(dict, '__setitem__')
def m_dict_setitem(f, d, k, v):
    k = narrow(k)
    if not issym(k) and not symkeys(d):
        return f(k, v)
    dict_store(d, k, v)


@method(dict, 'pop')
def m_dict_pop(f, d, k, *default):
    k = narrow(k)
    if not issym(k) and not symkeys(d):
        return f(k, *default)
    q = find_key(d, k)
    if q is NOKEY:
        if default:
            return default[0]
        raise KeyError(k)
    E.hash_ok += 1
    try:
        return dict.pop(d, q)
    finally:
        E.hash_ok -= 1


@method(dict, 'setdefault')
def m_dict_setdefault(f, d, k, v=None):
    k = narrow(k)
    if not issym(k) and not symkeys(d):
        return f(k, v)
    q = find_key(d, k)
    if q is NOKEY:
        dict_store(d, k, v)
        return v
    E.hash_ok += 1
    try:
        return dict.__getitem__(d, q)
    finally:
        E.hash_ok -= 1


@method(dict, 'update')
def m_dict_update(f, d, *a, **k):
    x = narrow(a[0]) if a else {}
    if not has_sym(a, 2) and not symkeys(d):
        return f(*a, **k)
    if isinstance(x, dict):
        for q in (x if issym(x) else dict.keys(x)):
            dict_store(d, q, x[q] if issym(x) else dict_lookup(x, q))
    else:
        for q, v in x:
            dict_store(d, narrow(q), v)
    for q, v in k.items():
        dict_store(d, q, v)


@method(dict, '__init__')
def m_dict_init(f, d, *a, **k):
    if not a:
        return f(**k)
    if has_sym(a, 1):
        m_dict_update(None, d, *a, **k)
        return
    return f(*a, **k)


@method(dict, 'keys', 'values', 'items', 'copy', 'clear', 'popitem',
        '__len__', '__iter__', '__eq__', '__delitem__')
@method(list, 'append', 'extend', 'insert', 'pop', 'remove', 'index',
        'count', 'sort', 'reverse', 'copy', 'clear', '__contains__',
        '__getitem__', '__len__', '__iter__', '__eq__', '__setitem__')
@method(tuple, 'index', 'count', '__new__', '__eq__', '__contains__')
def m_passthrough(f, s, *a, **k):
    return f(*a, **k)


@method(set, 'add', 'discard', 'remove')
def m_set_add(f, s, x):
    x = narrow(x)
    if issym(x):
        raise Unsupported('symbolic element of a set')
    return f(x)


@method(set, 'update', 'union', 'difference', 'intersection',
        'difference_update', 'issubset', 'issuperset', 'isdisjoint',
        'symmetric_difference')
@method(frozenset, 'union', 'difference', 'intersection', 'issubset',
        'issuperset', 'isdisjoint')
def m_set_ops(f, s, *a):
    if not has_sym(a):
        return f(*a)
    n = f.__name__
    if n in ('update', 'difference_update'):
        raise Unsupported('in-place set update with a symbolic set')
    if len(a) == 1 and type(a[0]) is SSet:
        return getattr(seqs.as_sset(s), n)(a[0])
    raise Unsupported('set.%s with symbolic argument' % n)


@method(int, 'to_bytes')
def m_int_to_bytes(f, s, *a, **k):
    a = [narrow(x) for x in a]
    return f(*a, **k)


@method(int, 'from_bytes')
def m_int_from_bytes(b, byteorder='big', *, signed=False):
    b = narrow(b)
    if not isinstance(b, bytes):
        if isinstance(b, (list, tuple)):
            b = m_bytes(b)
        else:
            raise TypeError("cannot convert object to bytes")
    return ropes.int_from_bytes(b, byteorder, signed)


@method(bytes, 'fromhex')
def m_fromhex(s):
    try:
        return ropes.unhexlify(s)
    except ValueError:
        raise ValueError('non-hexadecimal number found in fromhex()')


@method(object, '__setattr__')
def m_object_setattr(f, s, *a):
    return f(*a)


@always(copy.deepcopy)
def m_deepcopy(x, memo=None):
    if issym(x):
        return x if not isinstance(x, (SDict, SSet)) else x.copy()
    return copy.deepcopy(x, memo) if memo is not None else copy.deepcopy(x)


def attr_named(o, name):
    """The attribute of o whose name the symbolic string denotes, if any"""
    if not isinstance(name, str):
        raise TypeError('attribute name must be string')
    if issym(o) or '__getattr__' in dir(type(o)):
        raise Unsupported('getattr with a symbolic name')
    for n in dir(o):
        if name == n:
            return n
    return None


@always(getattr)
def m_getattr(o, name, *d):
    name = narrow(name)
    if issym(name):
        n = attr_named(o, name)
        if n is None:
            if d:
                return d[0]
            raise AttributeError('object has no such attribute')
        name = n
    return getattr(o, name, *d)


@always(hasattr)
def m_hasattr(o, name):
    name = narrow(name)
    if issym(name):
        return attr_named(o, name) is not None
    return hasattr(o, name)


@always(setattr)
def m_setattr(o, name, v):
    name = narrow(name)
    if issym(name):
        raise Unsupported('setattr with a symbolic name')
    return setattr(o, name, v)


@always(callable)
def m_callable(x):
    if issym(x):
        return False
    return callable(x)
