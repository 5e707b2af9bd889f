"""Path exploration and verification-condition discharge.

The interpreter is deterministic between decisions, so paths are explored by
re-execution: a path is the list of decisions taken, and each unexplored
feasible alternative is queued as a decision prefix.
"""
import linecache
import os
import re
import time

import z3

from .sym import (E, Internal, PathEnd, Timeout, Unsupported,
                  imprecise)

HERE = os.path.dirname(os.path.abspath(__file__))
FEAS_MS = int(os.environ.get("VC_FEAS") or 1500)
COVER_MS = 600
SLOW = float(os.environ.get('VC_SLOW') or 0)
VC_MS = 20000


class Obligation:
    """One named obligation; `vcs` verification conditions were generated for
    it (one per path that reaches it)."""

    def __init__(self, label):
        self.label = label
        self.vcs = 0
        self.by = {}             # back end -> number of VCs it discharged
        self.failed = []         # counterexamples
        self.unknown = []
        self.solver_s = 0.0

    def as_dict(self):
        return {'label': self.label, 'vcs': self.vcs, 'by': self.by,
                'failed': self.failed, 'unknown': self.unknown,
                'solver_s': round(self.solver_s, 3)}


class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = {}
        self.paths = 0
        self.pruned = 0
        self.covers = {}
        self.unsupported = []    # (message) -> exploration incomplete
        self.bounded = set()     # reasons why the proof is only bounded
        self.imprecise = set()   # reasons why a counterexample may be spurious
        self.assumptions = set()
        self.used_contracts = set()
        self.inlined = set()
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.timeout = False
        self.checks = 0
        self.escaped = 0
        self.alive = None        # can a path to the end be taken at all?

    def ob(self, label):
        if label not in self.obligations:
            self.obligations[label] = Obligation(label)
        return self.obligations[label]

    @property
    def failed(self):
        return [o for o in self.obligations.values() if o.failed]

    @property
    def undecided(self):
        out = []
        for o in self.obligations.values():
            if o.unknown:
                out.append('solver unknown: ' + o.label)
        out.extend(sorted(set(self.unsupported)))
        if self.timeout:
            out.append('time budget exhausted')
        return out

    def as_dict(self):
        return {
            'name': self.name,
            'obligations': {k: o.as_dict()
                            for k, o in self.obligations.items()},
            'paths': self.paths, 'pruned': self.pruned,
            'covers': self.covers,
            'unsupported': sorted(set(self.unsupported)),
            'bounded': sorted(self.bounded),
            'imprecise': sorted(self.imprecise),
            'assumptions': sorted(self.assumptions),
            'used_contracts': sorted(self.used_contracts),
            'inlined': sorted(self.inlined),
            'solver_s': round(self.solver_s, 3),
            'wall_s': round(self.wall_s, 3),
            'timeout': self.timeout,
            'checks': self.checks,
            'escaped': self.escaped,
            'alive': self.alive,
        }


class NotBits(Exception):
    pass


class NotAbstract(Exception):
    pass


class Abstraction:
    """Formulas with strings, sequences and bit-vectors replaced by values of
    unknown sorts and every operation on them by an unknown function.  That
    only loses facts, so what is unsatisfiable here is unsatisfiable."""
    KEEP = (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT, z3.Z3_REAL_SORT,
            z3.Z3_UNINTERPRETED_SORT)

    def __init__(self):
        self.memo = {}
        self.sorts = {}
        self.funcs = {}
        self.lits = {}
        self.keep = []
        self.lens = {}           # abstract term -> its length facts

    def sort(self, s):
        if s.kind() in self.KEEP:
            return s
        n = s.sexpr()
        if n not in self.sorts:
            self.sorts[n] = z3.DeclareSort('abs ' + n)
        return self.sorts[n]

    def term(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.make(t)
            self.keep.append(t)
        return r

    def make(self, t):
        if not z3.is_app(t):
            raise NotAbstract()
        d, ch, srt = t.decl(), t.children(), t.sort()
        dk = d.kind()
        out = self.sort(srt)
        if not ch:
            if srt.kind() in self.KEEP:
                return t
            n = t.sexpr()
            c = z3.Const('abs ' + n, out)
            if dk != z3.Z3_OP_UNINTERPRETED:
                self.lits.setdefault(out.name(), {})[n] = c
            return c
        args = [self.term(c) for c in ch]
        if dk == z3.Z3_OP_EQ:
            return args[0] == args[1]
        if dk == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*args)
        if dk == z3.Z3_OP_ITE:
            return z3.If(*args)
        if dk == z3.Z3_OP_AND:
            return z3.And(*args)
        if dk == z3.Z3_OP_OR:
            return z3.Or(*args)
        kept = srt.kind() in self.KEEP and all(
            c.sort().kind() in self.KEEP for c in ch)
        if kept:
            return d(*args)
        n = '%s %s/%s' % (d.name(), d.params(),
                          ' '.join(c.sort().sexpr() for c in ch))
        f = self.funcs.get(n)
        if f is None:
            f = self.funcs[n] = z3.Function(
                'abs ' + n, *([a.sort() for a in args] + [out]))
        r = f(*args)
        if dk == z3.Z3_OP_SEQ_LENGTH:
            self.lens[t.get_id()] = r >= 0
        return r

    def unsat(self, conds, ms):
        s = z3.SimpleSolver()
        s.set('timeout', ms)
        fs = []
        for c in conds:
            try:
                fs.append(self.term(c))
            except (NotAbstract, z3.Z3Exception):
                pass
        s.add(*fs)
        s.add(*self.lens.values())
        for cs in self.lits.values():
            if len(cs) > 1:
                s.add(z3.Distinct(*cs.values()))
        try:
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False


class PathMgr:
    """Decision and solver state of the path being executed."""

    def __init__(self, result, deadline=None, cvc5_all=False,
                 max_paths=100000):
        self.res = result
        self.deadline = deadline
        self.work = [[]]
        self.cvc5_all = cvc5_all
        self.max_paths = max_paths
        self.max_cex = 3
        self.alive = {}          # z3 terms of all paths (ids stay unique)
        self.consts = {}         # term id -> ids of its free constants
        self.crypto = {}         # term id -> uses cryptographic functions
        self.answers = {}        # (slice, condition) -> solver answer
        self.abstract = Abstraction()
        self.start_path([])

    # ------------------------------------------------------------- a path
    def start_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.pc_ids = set()
        self.groups = {}         # constant id -> group of linked constraints
        self.pending = 0
        self.known = {}
        self.nfresh = 0
        self.inputs = []         # (name, kind, payload) in creation order
        self.notes = []
        self.imprecise = set()
        self.signatures = []     # made so far
        self.cards = {}          # known cardinalities of sets
        self.linked = set()      # byte strings tied to a bit-vector
        self.keep = []           # keep z3 terms alive (ids stay unique)
        self.lemma_terms = []

    def fresh(self, base):
        self.nfresh += 1
        return '%s!%d' % (base, self.nfresh)

    def add(self, cond):
        """Assume cond on this path (no feasibility check)."""
        if cond is True:
            return
        cond = self.simplify(cond)
        if z3.is_true(cond):
            return
        if cond.get_id() in self.pc_ids:
            return
        self.pc.append(cond)
        self.pc_ids.add(cond.get_id())
        self.link(cond)
        self.learn(cond)

    def simplify(self, cond):
        """Simplified; both forms are kept alive, so that re-executions see
        the same term numbers (and z3 orders arguments the same way)."""
        self.alive[cond.get_id()] = cond
        c = z3.simplify(cond)
        self.alive[c.get_id()] = c
        return c

    # ------------------------------------- constraints that bear on another
    def consts_of(self, t):
        """The ids of the free constants of a term"""
        memo = self.consts
        k = t.get_id()
        if k in memo:
            return memo[k]
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            i = x.get_id()
            if i in memo:
                continue
            if z3.is_quantifier(x):
                ch = [x.body()]
            else:
                ch = x.children()
            if done or not ch:
                self.alive[i] = x
                if not ch:
                    memo[i] = frozenset((i,)) if z3.is_const(x) and \
                        x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                        else frozenset()
                else:
                    memo[i] = frozenset().union(
                        *[memo[c.get_id()] for c in ch])
            else:
                stack.append((x, True))
                stack.extend((c, False) for c in ch)
        return memo[k]

    def has_crypto(self, t):
        """Does the term use the ideal cryptographic functions?  (Models of
        those are hard to find and seldom worth it.)"""
        memo = self.crypto
        k = t.get_id()
        if k not in memo:
            memo[k] = False
            if z3.is_app(t) and not z3.is_const(t):
                memo[k] = t.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    t.decl().name()[:3] in ('ec_', 'H_s', 'H_k') or \
                    any(self.has_crypto(c) for c in t.children())
        return memo[k]

    def link(self, cond):
        vs = self.consts_of(cond)
        gs = {}
        for v in vs:
            g = self.groups.get(v)
            if g is not None:
                gs[id(g)] = g
        if gs:
            gs = sorted(gs.values(), key=lambda g: -len(g[0]))
            big = gs[0]
            for g in gs[1:]:
                big[0].extend(g[0])
                big[1].update(g[1])
                for v in g[1]:
                    self.groups[v] = big
        else:
            big = ([], set())
        big[0].append(cond)
        for v in vs:
            if self.groups.get(v) is not big:
                self.groups[v] = big
                big[1].add(v)
        if not vs:
            # a ground constraint bears on everything
            self.groups.setdefault(None, ([], set()))[0].append(cond)

    def slice(self, cond):
        """The constraints connected to cond through shared constants.  (When
        the path is feasible the others cannot matter; leaving them out is
        sound for unsatisfiability anyway.)"""
        gs = {}
        for v in self.consts_of(cond):
            g = self.groups.get(v)
            if g is not None:
                gs[id(g)] = g
        if None in self.groups:
            gs[0] = self.groups[None]
        out = []
        for g in gs.values():
            out.extend(g[0])
        return out

    def sliced(self, cond, ms=None):
        """Satisfiability of cond with what bears on it"""
        sl = self.slice(cond)
        key = (frozenset(c.get_id() for c in sl), cond.get_id())
        r = self.answers.get(key)
        if r is None:
            self.tick()
            self.alive[cond.get_id()] = cond
            t0 = time.time()
            crypto = any(self.has_crypto(c) for c in sl)
            hard = crypto and ms is None
            if ms is None:
                ms = FEAS_MS
            r = z3.unknown
            if crypto and self.abstract.unsat(sl + [cond], ms):
                r = z3.unsat
                hard = True
            near = self.consts_of(cond)
            tight = [c for c in sl if self.consts_of(c) <= near]
            # the constraints on the same constants alone, then all
            for cs in ((tight, sl) if len(tight) < len(sl) else (sl, )):
                if hard:
                    break
                s = z3.Solver()
                s.set('timeout', ms)
                s.add(*cs)
                s.add(cond)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
                if r == z3.unsat:
                    break
            self.res.solver_s += time.time() - t0
            self.res.checks += 1
            self.answers[key] = r
            if SLOW and time.time() - t0 > SLOW:
                print('SLOW %.1f s' % (time.time() - t0), r, len(sl),
                      cond.sexpr()[:300], flush=True)
                if os.environ.get('VC_DUMP') and not hard:
                    with open(os.environ['VC_DUMP'], 'w') as f:
                        f.write(s.to_smt2())
        return r

    def learn(self, cond, val=True):
        if z3.is_not(cond):
            self.learn(cond.arg(0), not val)
            return
        self.known[cond.get_id()] = val
        self.keep.append(cond)
        if val and z3.is_and(cond):
            for c in cond.children():
                self.learn(c, True)
        if not val and z3.is_or(cond):
            for c in cond.children():
                self.learn(c, False)

    def lookup(self, cond):
        """Syntactic consequence of what was decided, or None."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        v = self.known.get(cond.get_id())
        if v is not None:
            return v
        if z3.is_not(cond):
            v = self.lookup(cond.arg(0))
            return None if v is None else not v
        if z3.is_and(cond):
            vs = [self.lookup(c) for c in cond.children()]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        if z3.is_or(cond):
            vs = [self.lookup(c) for c in cond.children()]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
        return None

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Timeout()

    def check(self, *extra, ms=None, crypto=True):
        """Is the path condition (with extra) satisfiable?"""
        if len(extra) == 1 and extra[0] is not True:
            return self.sliced(self.simplify(extra[0]), ms)
        out = z3.sat
        seen = set()
        for g in self.groups.values():
            if id(g) in seen or not g[0]:
                continue
            seen.add(id(g))
            key = frozenset(c.get_id() for c in g[0])
            r = self.answers.get(key)
            if r is None and not crypto and \
                    any(self.has_crypto(c) for c in g[0]):
                r = self.answers[key] = z3.unknown
            if r is None:
                self.tick()
                t0 = time.time()
                s = z3.Solver()
                s.set('timeout', ms or FEAS_MS)
                s.add(*g[0])
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
                self.res.solver_s += time.time() - t0
                self.res.checks += 1
                self.answers[key] = r
            if r == z3.unsat:
                return r
            if r == z3.unknown:
                out = r
        return out

    def some_value(self, t):
        """A value the term can have"""
        s = z3.Solver()
        s.set('timeout', FEAS_MS)
        s.add(*self.slice(t))
        if s.check() != z3.sat:
            return None
        return s.model().eval(t, model_completion=True)

    def fork(self, cond):
        """Decide a z3 Bool; returns a host bool, exploring both sides."""
        if cond is True or cond is False:
            return cond
        cond = self.simplify(cond)
        v = self.lookup(cond)
        if v is not None:
            return v
        d = self.replayed('f', cond)
        if d is None:
            self.tick()
            if self.check(cond) == z3.unsat:
                # then the negation holds on this path
                d = 2
            elif self.check(z3.Not(cond)) == z3.unsat:
                d = 3
            else:
                d = 1
                self.work.append(self.trace + [('f', 0, cond.hash())])
                if FORKS:
                    show_fork(cond)
        self.trace.append(('f', d, cond.hash()))
        if d >= 2:
            # a consequence of the path: not a decision
            self.known[cond.get_id()] = d == 3
            self.keep.append(cond)
            return d == 3
        if d:
            self.add(cond)
            self.known[cond.get_id()] = True
        else:
            self.add(z3.Not(cond))
            self.known[cond.get_id()] = False
        self.keep.append(cond)
        return bool(d)

    def entailed(self, cond):
        """Is cond a consequence of the path condition?  (No forking.)"""
        if cond is True or cond is False:
            return cond
        cond = self.simplify(cond)
        v = self.lookup(cond)
        if v is not None:
            return v
        d = self.replayed('e', cond)
        if d is None:
            d = int(self.check(z3.Not(cond)) == z3.unsat)
        self.trace.append(('e', d, cond.hash()))
        if d:
            self.known[cond.get_id()] = True
            self.keep.append(cond)
            return True
        return False

    def replayed(self, what, cond):
        """The decision recorded for this point on the way to this path."""
        pos = len(self.trace)
        if pos >= len(self.prefix):
            return None
        w, d, h = self.prefix[pos]
        if w != what or h != (cond if isinstance(cond, int)
                              else cond.hash()):
            raise Unsupported('the re-execution of a path diverged')
        return d

    def choose(self, conds):
        """Pick one of several alternatives (z3 conditions or True)."""
        d = self.replayed('c', len(conds))
        if d is None:
            self.tick()
            live = []
            for i, c in enumerate(conds):
                if c is False:
                    continue
                if c is True or self.check(c) != z3.unsat:
                    live.append(i)
            if not live:
                raise PathEnd()
            d = live[0]
            for i in live[:0:-1]:
                self.work.append(self.trace + [('c', i, len(conds))])
        self.trace.append(('c', d, len(conds)))
        if conds[d] is not True:
            self.add(conds[d])
        return d

    # -------------------------------------------------------- obligations
    def ensure(self, cond, label, context=None):
        ob = self.res.ob(label)
        ob.vcs += 1
        if cond is True:
            ob.by['simplifier'] = ob.by.get('simplifier', 0) + 1
            return True
        if cond is False:
            goal = z3.BoolVal(False)
        else:
            goal = self.simplify(cond)
            v = self.lookup(goal)
            if v is True:
                ob.by['simplifier'] = ob.by.get('simplifier', 0) + 1
                return True
        t0 = time.time()
        r, backend, model = self.discharge(goal)
        ob.solver_s += time.time() - t0
        if r == z3.unsat:
            ob.by[backend] = ob.by.get(backend, 0) + 1
            return True
        if r == z3.unknown:
            ob.unknown.append({'path': [x[1] for x in self.trace if x[1] < 2 or x[0] == 'c'],
                               'goal': str(goal)[:400]})
            return False
        if len(ob.failed) < self.max_cex:
            ob.failed.append({
                'label': label,
                'backend': backend,
                'inputs': self.concretise(model),
                'path': [x[1] for x in self.trace if x[1] < 2 or x[0] == 'c'],
                'imprecise': sorted(self.imprecise),
                'notes': self.notes[-12:],
                'goal': str(goal)[:400],
                'context': context,
            })
        else:
            ob.failed.append({'label': label})
        return False

    def discharge(self, goal):
        """unsat: VC holds.  Tries z3 incrementally, z3 afresh, cvc5."""
        neg = z3.Not(goal)
        t0 = time.time()
        if self.bits_only(goal):
            self.res.solver_s += time.time() - t0
            self.res.checks += 1
            if not self.cvc5_all:
                return z3.unsat, 'z3-%s-bv' % z3.get_version_string(), None
        backend = 'z3-' + z3.get_version_string()
        sl = self.slice(neg)
        if len(sl) < len(self.pc) and not self.cvc5_all and \
                self.sliced(neg, VC_MS // 4) == z3.unsat:
            return z3.unsat, backend, None
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', VC_MS)
        s.add(*self.pc)
        s.add(neg)
        try:
            r = s.check()
            model = s.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, model = z3.unknown, None
        if r == z3.sat and self.cards:
            # the sizes of sets are facts the path condition leaves out
            for card, guards in self.cards.values():
                s.add(card_fact(card, guards))
            try:
                r = s.check()
                model = s.model() if r == z3.sat else None
            except z3.Z3Exception:
                r, model = z3.unknown, None
            if r == z3.unknown:
                self.res.solver_s += time.time() - t0
                return r, backend, None
        self.res.solver_s += time.time() - t0
        self.res.checks += 1
        if r == z3.unknown or (self.cvc5_all and r == z3.unsat):
            t0 = time.time()
            r2 = cvc5_check(self.pc + [neg])
            self.res.solver_s += time.time() - t0
            if r == z3.unknown:
                if r2 == 'unsat':
                    return z3.unsat, 'cvc5', None
                return z3.unknown, 'cvc5', None
            if r2 == 'unsat':
                return r, backend + '+cvc5', None
            if r2 == 'sat':
                # the two back ends disagree: not a proof
                return z3.unknown, 'z3/cvc5 disagree', None
        return r, backend, model

    def bits_only(self, goal):
        """Is the goal valid by bit-vector reasoning alone (everything else
        abstracted, which only loses facts)?"""
        memo = {}

        def ab(t):
            k = t.get_id()
            if k in memo:
                return memo[k]
            srt = t.sort().kind()
            if srt not in (z3.Z3_BOOL_SORT, z3.Z3_BV_SORT):
                raise NotBits()
            dk = t.decl().kind()
            if z3.is_quantifier(t) or z3.is_var(t):
                raise NotBits()
            ch = t.children()
            if ch and dk != z3.Z3_OP_UNINTERPRETED:
                r = t.decl()(*[ab(c) for c in ch]) if dk not in (
                    z3.Z3_OP_AND, z3.Z3_OP_OR) else (
                    z3.And if dk == z3.Z3_OP_AND else z3.Or)(
                    [ab(c) for c in ch])
            elif ch:
                r = z3.Const('abs!%d' % k, t.sort())
            else:
                r = t
            memo[k] = r
            return r
        try:
            g = ab(goal)
        except (NotBits, z3.Z3Exception):
            return False
        if not any(x.sort().kind() == z3.Z3_BV_SORT for x in memo.values()):
            return False
        s = z3.SolverFor('QF_BV')
        s.set('timeout', VC_MS)
        for c in self.pc:
            try:
                s.add(ab(c))
            except (NotBits, z3.Z3Exception):
                pass
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    def cover(self, label):
        """The path reaching this point must be feasible for some input."""
        c = self.res.covers
        if c.get(label) == 'reached':
            return
        r = self.check(ms=COVER_MS, crypto=False)
        if r == z3.sat:
            c[label] = 'reached'
        elif r == z3.unknown:
            c.setdefault(label, 'unknown')
        else:
            c.setdefault(label, 'unreachable')

    def witness_premises(self):
        """Not every path may contradict itself: anything would hold."""
        if self.res.alive == 'sat' or self.res.paths > 20 and self.res.alive:
            return
        r = self.check(ms=COVER_MS)
        if r != z3.unsat:
            self.res.alive = 'sat' if r == z3.sat else 'unknown'

    def concretise(self, model):
        from .concretise import input_value
        out = []
        for name, kind, payload in self.inputs:
            try:
                out.append([name, kind, input_value(model, kind, payload)])
            except Exception as e:  # pragma: no cover
                out.append([name, kind, None])
                self.notes.append('concretise %s: %r' % (name, e))
        return out


FORKS = os.environ.get('VC_FORKS')


def card_fact(card, guards):
    from .sym import num_t
    n = sum(1 for g in guards if g is True)
    g = [z3.If(x, 1, 0) for x in guards if x is not True]
    return z3.Sum(g + [z3.IntVal(n)]) == num_t(card)[0]


def show_fork(cond):
    import traceback
    st = [f for f in traceback.extract_stack() if '/pyvc/' not in f.filename]
    print('FORK', str(cond)[:150].replace('\n', ' '), '|',
          ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                     for f in st[:-5:-1]))


def cvc5_check(assertions, ms=20000):
    """Independent check of the same formulas with cvc5 (SMT-LIB text)."""
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    s = z3.Solver()
    s.add(*assertions)
    text = s.to_smt2()
    text = '(set-logic ALL)\n' + text
    # z3 spellings cvc5 does not know
    text = text.replace('(str.from-int', '(str.from_int') \
               .replace('int.to.str', 'str.from_int') \
               .replace('(_ bv2nat)', 'bv2nat') \
               .replace('bv2int', 'bv2nat').replace('ubv_to_int', 'bv2nat')
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(ms))
        slv.setOption('strings-exp', 'true')
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'vc')
        sm = parser.getSymbolManager()
        res = 'unknown'
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm).strip()
            if out in ('sat', 'unsat', 'unknown'):
                res = out
        return res
    except Exception as e:
        if os.environ.get('VC_DEBUG'):
            print('cvc5:', str(e)[:300])
        return 'unknown'


PROXY = re.compile(r"'(S(Int|Str|Bytes|Bool|Float|Any|List|Dict|Set|Gm)|"
                   r"Opaque|Rope|Atom|SymGen)\\b")


def suspicious(e):
    """An exception that the engine itself may have caused: a refutation
    depending on it needs a concrete witness."""
    tb = e.__traceback__
    if tb is None:
        return
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    if f.startswith(HERE):
        line = linecache.getline(f, tb.tb_lineno).strip()
        if not line.startswith('raise') and '_raise(' not in line:
            imprecise('exception inside the engine: %s' % short_tb(e))
    elif PROXY.search(" ".join(a for a in e.args if type(a) is str)):
        imprecise('exception about a proxy: %s' % short_tb(e))


def short_tb(e):
    tb = e.__traceback__
    out = []
    while tb is not None:
        out.append('%s:%d' % (os.path.basename(
            tb.tb_frame.f_code.co_filename), tb.tb_lineno))
        tb = tb.tb_next
    return '%s at %s' % (type(e).__name__, ' '.join(out[-4:]))


def explore(eng, body, name, budget_s=120, cvc5_all=False, max_paths=20000):
    """Run body() over every path; returns a Result."""
    res = Result(name)
    t0 = time.time()
    pm = PathMgr(res, deadline=t0 + budget_s, cvc5_all=cvc5_all)
    E.pm = pm
    eng.pm = pm
    try:
        while pm.work:
            prefix = pm.work.pop()
            pm.start_path(prefix)
            eng.begin_path()
            try:
                body()
                res.paths += 1
                pm.witness_premises()
            except PathEnd:
                res.pruned += 1
            except Unsupported as e:
                res.unsupported.append(str(e))
                res.paths += 1
                if os.environ.get('VC_TRACE'):
                    raise
            except RecursionError:
                res.unsupported.append('recursion limit')
            except Internal:
                raise
            except Exception as e:
                # nothing may escape a lemma; only a concrete replay can
                # turn this into a violation
                res.paths += 1
                res.escaped += 1
                if os.environ.get('VC_TRACE'):
                    raise
                suspicious(e)
                imprecise('escaped')
                pm.notes.append(short_tb(e))
                pm.ensure(False, 'no unexpected exception (%s)'
                          % type(e).__name__)
            finally:
                eng.end_path()
            if res.paths + res.pruned > max_paths:
                res.unsupported.append('path limit')
                break
            if len(res.unsupported) > 40:
                break
            nf = sum(len(o.failed) for o in res.obligations.values())
            if nf > 40 or (time.time() - t0 > 15 and sum(
                    'inputs' in c and not c['imprecise']
                    for o in res.obligations.values()
                    for c in o.failed) >= 6):
                break
    except Timeout:
        eng.end_path()
        res.timeout = True
    res.wall_s = time.time() - t0
    return res
