"""Running one lemma instance in the engine."""
import importlib
import os
import sys

from . import loader, solver, vcsym
from .ops import TRACE
from .sym import E, Internal


class Engine:
    def __init__(self, prop=None):
        self.pm = None
        E.begin_path()
        sys.modules['vc'] = vcsym
        loader.setup()
        for f in sorted(os.listdir(os.path.join(loader.VERIF, 'specs'))):
            if f.endswith('.py') and f[0] == 'c' and f[1].isdigit() and (
                    prop is None or f.startswith(prop.lower() + '_')):
                importlib.import_module('specs.' + f[:-3])
        self.state = loader.State()

    def begin_path(self):
        E.begin_path()

    def end_path(self):
        self.state.restore()


def lemmas():
    return vcsym.LEMMAS


def instances(prop=None):
    out = []
    for lem in vcsym.LEMMAS:
        if prop is not None and prop not in lem.prop:
            continue
        params = lem.params() if callable(lem.params) else lem.params
        for i, p in enumerate(params):
            out.append((lem, i, p if isinstance(p, tuple) else (p,)))
    return out


def pname(lem, p):
    if not p:
        return lem.name
    return '%s[%s]' % (lem.name, ','.join(
        getattr(x, '__qualname__', None) or str(x) for x in p))


def run_instance(eng, lem, p, budget=60, cvc5_all=False):
    TRACE.clear()
    name = pname(lem, p)

    def body():
        lem.fn(*p)
    res = solver.explore(eng, body, name, budget_s=lem.budget or budget,
                         cvc5_all=cvc5_all)
    res.functions = sorted({
        '%s:%s' % (os.path.relpath(f.__code__.co_filename, loader.REPO),
                   f.__qualname__)
        for f in TRACE if f.__code__.co_filename.startswith(loader.REPO)})
    return res
