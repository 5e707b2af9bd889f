"""Assumed contract of the semantic_version package (Version, Spec with the
comparison operators), following its documented precedence rules."""
import re
import types

import z3

from .. import ropes
from ..ops import int_str, truth
from ..ropes import Atom, fun, pieces_of, term
from ..sym import (E, Rope, SInt, STR, Unsupported, assumption, conj, disj,
                   issym, narrow, neg, num_t, tb, wrapb)

I, B = z3.IntSort(), z3.BoolSort()
RE = re.compile(r'^(\d+)\.(\d+)\.(\d+)(?:-([0-9a-zA-Z.-]+))?'
                r'(?:\+([0-9a-zA-Z.-]+))?$')


REST = re.compile(r'^(?:-([0-9a-zA-Z.-]+))?(?:\+([0-9a-zA-Z.-]+))?$')


def idents(s, zeros):
    out = tuple(s.split('.'))
    for i in out:
        if not i:
            raise ValueError('Invalid empty identifier')
        if not zeros and i[0] == '0' and i.isdigit() and i != '0':
            raise ValueError('Invalid leading zero in identifier')
    return out


def parse(s):
    s = narrow(s)
    if not truth(s):
        raise ValueError('Invalid empty version string: %r')
    if not isinstance(s, str):
        raise TypeError('expected string or bytes-like object')
    if not issym(s):
        m = RE.match(s)
        if not m:
            raise ValueError('Invalid version string: %r' % s)
        for p in m.groups()[:3]:
            if len(p) > 1 and p[0] == '0':
                raise ValueError('Invalid leading zero')
        return (int(m.group(1)), int(m.group(2)), int(m.group(3)),
                idents(m.group(4), False) if m.group(4) else (),
                idents(m.group(5), True) if m.group(5) else ())
    ps = pieces_of(s)
    got = parse_pieces(ps)
    if got is not None:
        return got
    t = term(s)
    ok = fun('sv_ok', STR, B)(t)
    E.pm.add(z3.Implies(ok, z3.Length(t) >= 5))
    if not E.pm.fork(ok):
        raise ValueError('Invalid version string')
    nums = []
    for n in ('major', 'minor', 'patch'):
        v = fun('sv_' + n, STR, I)(t)
        E.pm.add(v >= 0)
        nums.append(SInt(v))

    def pre():
        if E.pm.fork(fun('sv_haspre', STR, B)(t)):
            return (ident(fun('sv_pre', STR, STR)(t)),)
        return ()

    def build():
        if E.pm.fork(fun('sv_hasbuild', STR, B)(t)):
            return (ident(fun('sv_build', STR, STR)(t)),)
        return ()
    assumption('semantic_version parses and orders versions as documented')
    return nums[0], nums[1], nums[2], pre, build


def ident(t):
    E.pm.add(z3.Length(t) >= 1)
    return ropes.term_atom(t, None, ('semid',), False)


def parse_pieces(ps):
    """A version spelled with symbolic numbers, or None."""
    toks = []
    for p in ps:
        if isinstance(p, Atom):
            if p.tag and p.tag[0] in ('intstr', 'semid'):
                toks.append(p)
            else:
                return None
        else:
            toks.extend(re.findall(r'\d+|[.+-]|[0-9A-Za-z-]+|.', p))
    nums = []
    i = 0
    for k in range(3):
        if i >= len(toks):
            return None
        x = toks[i]
        if isinstance(x, Atom):
            if x.tag[0] != 'intstr':
                return None
            v = x.tag[1]
            if not E.pm.entailed(v.t >= 0):
                return None
            nums.append(v)
        elif x.isdigit():
            if len(x) > 1 and x[0] == '0':
                return None
            nums.append(int(x))
        else:
            return None
        i += 1
        if k < 2:
            if i >= len(toks) or toks[i] != '.':
                return None
            i += 1
    if not any(isinstance(x, Atom) for x in toks[i:]):
        m = REST.match(''.join(toks[i:]))
        if not m:
            raise ValueError('Invalid version string')
        return (nums[0], nums[1], nums[2],
                idents(m.group(1), False) if m.group(1) else (),
                idents(m.group(2), True) if m.group(2) else ())
    pre = build = ()
    for sep in '-+':
        if i < len(toks) and toks[i] == sep:
            j = i + 1
            if j < len(toks) and isinstance(toks[j], Atom) and \
                    toks[j].tag[0] == 'semid':
                v = (ropes.SStr([toks[j]]),)
                i = j + 1
            else:
                return None
            if sep == '-':
                pre = v
            else:
                build = v
    if i != len(toks):
        return None
    return nums[0], nums[1], nums[2], pre, build


class Version:
    def __init__(self, version_string=None, major=None, minor=None,
                 patch=None, prerelease=None, build=None, partial=False):
        if partial:
            raise Unsupported('partial version')
        version_string = narrow(version_string)
        parts = not (major is minor is patch is prerelease is build is None)
        if (version_string is not None) == parts:
            raise ValueError('Call either Version("1.2.3") or '
                             'Version(major=1, ...).')
        if version_string is not None:
            (self.major, self.minor, self.patch, self.prerelease,
             self.build) = parse(version_string)
        else:
            self.major, self.minor, self.patch = major, minor, patch
            self.prerelease = tuple(prerelease or ())
            self.build = tuple(build or ())
        self.partial = False

    # decided when first asked for
    @property
    def prerelease(self):
        if callable(self._pre):
            self._pre = self._pre()
        return self._pre

    @prerelease.setter
    def prerelease(self, v):
        self._pre = v

    @property
    def build(self):
        if callable(self._build):
            self._build = self._build()
        return self._build

    @build.setter
    def build(self, v):
        self._build = v

    def next_major(self):
        if self.prerelease and truth(conj(truth(self.minor == 0),
                                          truth(self.patch == 0))):
            return Version(major=self.major, minor=0, patch=0)
        return Version(major=self.major + 1, minor=0, patch=0)

    def next_minor(self):
        if self.prerelease and truth(self.patch == 0):
            return Version(major=self.major, minor=self.minor, patch=0)
        return Version(major=self.major, minor=self.minor + 1, patch=0)

    def next_patch(self):
        if self.prerelease:
            return Version(major=self.major, minor=self.minor,
                           patch=self.patch)
        return Version(major=self.major, minor=self.minor,
                       patch=self.patch + 1)

    def truncate(self, level='patch'):
        if level == 'build':
            return self
        v = Version(major=self.major, minor=self.minor, patch=self.patch)
        if level == 'prerelease':
            v.prerelease = self.prerelease
        elif level in ('minor', 'major'):
            v.patch = 0
            if level == 'major':
                v.minor = 0
        return v

    def vc_str(self):
        def num(n):
            return int_str(n) if issym(n) else str(n)
        out = num(self.major) + '.' + num(self.minor) + '.' + num(self.patch)
        for sep, ids in (('-', self.prerelease), ('+', self.build)):
            if ids:
                out = out + sep + ropes.join('.', list(ids))
        return out

    def __str__(self):
        r = self.vc_str()
        if issym(r):
            raise Unsupported('native str of a symbolic version')
        return r

    def vc_format(self, spec):
        return self.vc_str()

    def _triple(self):
        return self.major, self.minor, self.patch

    def __eq__(self, o):
        if not isinstance(o, Version):
            return NotImplemented
        return conj(*[truth(a == b) for a, b in
                      zip(self._triple(), o._triple())],
                    ids_eq(self.prerelease, o.prerelease),
                    ids_eq(self.build, o.build))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    __hash__ = None

    def __lt__(self, o):
        if not isinstance(o, Version):
            return NotImplemented
        eqs, out = [], []
        for a, b in zip(self._triple(), o._triple()):
            out.append(conj(*eqs, truth(a < b)))
            eqs.append(truth(a == b))
        out.append(conj(*eqs, pre_lt(self.prerelease, o.prerelease)))
        return disj(*out)

    def __gt__(self, o):
        return o.__lt__(self)

    def __le__(self, o):
        return neg(truth(o < self))

    def __ge__(self, o):
        return neg(truth(self < o))


def ids_eq(a, b):
    if len(a) != len(b):
        if any(issym(x) for x in a + b) and a and b:
            raise Unsupported('comparison of version identifiers')
        return False
    return conj(*[truth(x == y) for x, y in zip(a, b)])


def pre_lt(a, b):
    if not b:
        return bool(a)
    if not a:
        return False
    if any(issym(x) for x in a + b):
        if a is b or truth(ids_eq(a, b)) is True:
            return False
        raise Unsupported('ordering of symbolic version identifiers')

    def key(i):
        return (0, int(i), '') if i.isdigit() else (1, 0, i)
    return [key(i) for i in a] < [key(i) for i in b]


class Spec:
    def __init__(self, *expressions):
        expr = ropes.join(',', list(expressions)) if len(expressions) != 1 \
            else narrow(expressions[0])
        if not isinstance(expr, str):
            raise AttributeError('split')
        self.clauses = []
        block = []
        for p in pieces_of(expr):
            if isinstance(p, Atom):
                block.append(p)
                continue
            parts = p.split(',')
            for i, q in enumerate(parts):
                if i:
                    self._block(block)
                    block = []
                if q:
                    block.append(q)
        self._block(block)

    def _block(self, ps):
        op = ''
        if ps and not isinstance(ps[0], Atom):
            m = re.match(r'<=|>=|!=|==|\^|~=|<|>|=|~', ps[0])
            if m:
                op = m.group(0)
                ps = [ps[0][len(op):]] + list(ps[1:])
        s = ropes.mk(ropes.SStr, ps)
        op = {'': '==', '=': '=='}.get(op, op)
        if op not in ('==', '!=', '<', '<=', '>', '>='):
            if op in ('~', '~='):
                v = Version(s)
                self.clauses += [('>=', v), ('<', v.next_minor())]
                return
            if op == '^':
                v = Version(s)
                if truth(v.major):
                    hi = v.next_major()
                elif truth(v.minor):
                    hi = v.next_minor()
                else:
                    hi = v.next_patch()
                self.clauses += [('>=', v), ('<', hi)]
                return
            raise Unsupported('version spec operator %r' % op)
        try:
            v = Version(s)
        except ValueError:
            if issym(s) or (isinstance(s, str) and re.match(
                    r'^(\*|\d+(\.(\*|\d+))?(\.\*)?)$', s)):
                raise Unsupported('partial version in a spec')
            raise
        if v.build and op not in ('==', '!='):
            raise ValueError('build numbers have no ordering')
        self.clauses.append((op, v))

    def match(self, version):
        return conj(*[self._one(op, t, version) for op, t in self.clauses])

    def _one(self, op, target, v):
        if not target.build:
            v = v.truncate('prerelease')
        if op == '==':
            return v == target
        if op == '>':
            return v > target
        if op == '>=':
            return v >= target
        if op == '<=':
            return v <= target
        nat = conj(bool(v.prerelease), not target.prerelease,
                   v.truncate() == target.truncate()) \
            if v.prerelease and not target.prerelease else False
        if op == '<':
            return conj(neg(nat), v < target)
        return conj(neg(nat), v != target)

    def vc_in(self, version):
        if isinstance(version, Version):
            return self.match(version)
        return False

    def __contains__(self, version):
        return bool(self.vc_in(version))

    def filter(self, versions):
        return [v for v in versions if self.match(v)]


def module():
    m = types.ModuleType('semantic_version')
    m.Version = Version
    m.Spec = m.SimpleSpec = Spec
    m.validate = validate
    return m


def validate(s):
    try:
        Version(s)
        return True
    except ValueError:
        return False
