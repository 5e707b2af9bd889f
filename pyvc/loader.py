"""Loading of the code under verification.

golem_messages.* is read from the repository on every run, instrumented
(instrument.py) and executed; nothing is cached.  Third-party packages are
replaced by their assumed contracts (models/), the standard library is the
real one."""
import copy
import enum
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OURS_VERSION = '3.14.2'
SOURCES = {}        # module name -> file


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name == 'golem_messages' or name.startswith('golem_messages.'):
            base = REPO
        elif name == 'specs' or name.startswith('specs.'):
            base = VERIF
        else:
            return None
        rel = os.path.join(base, *name.split('.'))
        if os.path.isdir(rel):
            f = os.path.join(rel, '__init__.py')
            spec = importlib.machinery.ModuleSpec(
                name, self, origin=f, is_package=True)
            spec.submodule_search_locations = [rel]
            if not os.path.exists(f):
                spec.origin = None
            return spec
        if os.path.exists(rel + '.py'):
            return importlib.machinery.ModuleSpec(
                name, self, origin=rel + '.py')
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from .instrument import compile_source
        from .ops import Runtime
        spec = module.__spec__
        if spec.origin is None:
            return
        module.__file__ = spec.origin
        with open(spec.origin, encoding='utf-8') as f:
            src = f.read()
        code = compile_source(src, spec.origin)
        module.__dict__['__vc__'] = Runtime
        SOURCES[module.__name__] = spec.origin
        exec(code, module.__dict__)


def make_package():
    """golem_messages/__init__.py itself is not run (it reads a file that
    only release builds have)."""
    spec = importlib.machinery.ModuleSpec('golem_messages', None,
                                          is_package=True)
    spec.submodule_search_locations = [REPO + '/golem_messages']
    m = importlib.util.module_from_spec(spec)
    m.__file__ = REPO + '/golem_messages/__init__.py'
    m.__version__ = OURS_VERSION

    def lazy(name):
        if name in ('dump', 'load'):
            from golem_messages import shortcuts
            return getattr(shortcuts, name)
        if name == 'ECCx':
            from golem_messages import cryptography
            return cryptography.ECCx
        raise AttributeError(name)
    m.__getattr__ = lazy
    sys.modules['golem_messages'] = m
    return m


def import_module(name):
    return importlib.import_module(name)


def setup():
    sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    from .models import cborlib, crypto, ethlib, semver, stdlib  # noqa: F401
    mods = {}
    mods.update(crypto.modules())
    mods.update(ethlib.modules())
    mods['cbor'] = cborlib.module()
    mods['semantic_version'] = semver.module()
    sys.modules.update(mods)
    make_package()
    importlib.import_module('golem_messages.cryptography')
    importlib.import_module('golem_messages.shortcuts')
    for sub in sorted(os.listdir(REPO + '/golem_messages')):
        if sub.endswith('.py') and sub != '__init__.py':
            importlib.import_module('golem_messages.' + sub[:-3])
    for sub in sorted(os.listdir(REPO + '/golem_messages/datastructures')):
        if sub.endswith('.py') and sub != '__init__.py':
            importlib.import_module('golem_messages.datastructures.'
                                    + sub[:-3])


# --------------------------------------------------------- state isolation
def ours(name):
    return isinstance(name, str) and (
        name == 'golem_messages' or name.startswith('golem_messages.')
        or name.startswith('specs.'))


class State:
    """Module- and class-level mutable state, restored between paths."""

    def __init__(self):
        self.saved = []
        self.seen = set()
        for name, m in list(sys.modules.items()):
            if not isinstance(m, types.ModuleType) or not ours(name):
                continue
            self.saved.append((m.__dict__, dict(m.__dict__)))
            for v in list(m.__dict__.values()):
                self.take(v)

    def take(self, v):
        """Everything mutable that can be reached through containers, classes
        and instances of the repository"""
        if id(v) in self.seen:
            return
        t = type(v)
        if t in (dict, list, set):
            self.seen.add(id(v))
            self.saved.append((v, copy.copy(v)))
            for x in list(v.values()) if t is dict else list(v):
                self.take(x)
        elif t is tuple:
            self.seen.add(id(v))
            for x in v:
                self.take(x)
        elif isinstance(v, type):
            if ours(v.__module__):
                self.seen.add(id(v))
                self.saved.append((v, dict(v.__dict__)))
                for x in list(v.__dict__.values()):
                    self.take(x)
        elif ours(t.__module__) and not isinstance(v, enum.Enum):
            self.seen.add(id(v))
            d = getattr(v, '__dict__', None)
            if type(d) is dict:
                self.saved.append((d, dict(d)))
                for x in list(d.values()):
                    self.take(x)
            if isinstance(v, dict):
                for x in list(v.values()):
                    self.take(x)
            for c in t.__mro__:
                sl = c.__dict__.get('__slots__', ())
                for n in ([sl] if isinstance(sl, str) else list(sl)):
                    self.take(getattr(v, n, None))

    def restore(self):
        for target, old in self.saved:
            if isinstance(target, type):
                cur = target.__dict__
                for k in list(cur):
                    if k not in old:
                        try:
                            type.__delattr__(target, k)
                        except (AttributeError, TypeError):
                            pass
                for k, v in old.items():
                    if cur.get(k) is not v:
                        try:
                            type.__setattr__(target, k, v)
                        except (AttributeError, TypeError):
                            pass
            elif isinstance(target, dict):
                if len(target) != len(old) or any(
                        target.get(k) is not v for k, v in old.items()):
                    target.clear()
                    target.update(old)
            elif isinstance(target, list):
                if target != old:
                    target[:] = old
            else:
                if target != old:
                    target.clear()
                    target.update(old)
