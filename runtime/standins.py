"""Run-time environment for executing the REAL golem_messages code on the
PyPy interpreter of /opt/venv-pypy.

What is replaced, and by what:
  * golem_messages/__init__.py is not run (it needs RELEASE-VERSION, which no
    sandbox has); the package is registered as a namespace and given a
    __version__.  All submodules are the real files of /repo.
  * pyelliptic (not installable here) -> an equivalent built on coincurve
    (secp256k1), pycryptodome (AES-128-CTR) and hmac/hashlib.
  * bitcoin (installed, but wants CPython's _functools) -> _functools aliased.
  * eth_utils.toolz (missing in the pinned eth-utils) -> cytoolz.
Nothing of /repo is faked.
"""
import functools
import hashlib
import hmac
import importlib.util
import os
import sys
import types
from importlib.machinery import ModuleSpec

REPO = os.environ.get('VC_REPO', '/repo')
OURS_VERSION = '3.14.2'


def _pyelliptic():
    from coincurve import PrivateKey, PublicKey
    from Crypto.Cipher import AES
    from Crypto.Util import Counter
    mod = types.ModuleType('pyelliptic')

    class ECC:
        def __init__(self, pubkey=None, privkey=None, pubkey_x=None,
                     pubkey_y=None, raw_privkey=None, curve='sect283r1'):
            self.curve = curve
            if raw_privkey is not None:
                self.pubkey_x, self.pubkey_y = pubkey_x, pubkey_y
                self.privkey = raw_privkey
                if pubkey_x is None:
                    raw = PrivateKey(raw_privkey).public_key.format(
                        compressed=False)[1:]
                    self.pubkey_x, self.pubkey_y = raw[:32], raw[32:]
            elif pubkey_x is not None and pubkey_y is not None:
                self.pubkey_x, self.pubkey_y = pubkey_x, pubkey_y
                self.privkey = None
            else:
                key = PrivateKey()
                raw = key.public_key.format(compressed=False)[1:]
                self.privkey = key.secret
                self.pubkey_x, self.pubkey_y = raw[:32], raw[32:]

        def raw_check_key(self, privkey, pubkey_x, pubkey_y, curve=None):
            try:
                pub = PublicKey(b'\x04' + pubkey_x + pubkey_y)
                if privkey is not None:
                    mine = PrivateKey(privkey).public_key
                    if mine.format() != pub.format():
                        return -1
            except Exception:  # as OpenSSL: invalid key
                return -1
            return 0

    class _CipherName:
        def __init__(self, name):
            self._name = name

        def get_blocksize(self):
            return 16

        def get_keysize(self):
            return 16

    class OpenSSL:
        @staticmethod
        def get_cipher(name):
            if name != 'aes-128-ctr':
                raise Exception('Unknown cipher')
            return _CipherName(name)

    class Cipher:
        def __init__(self, key, iv, do, ciphername='aes-256-cbc'):
            if ciphername != 'aes-128-ctr':
                raise Exception('Unknown cipher')
            self._aes = AES.new(key, AES.MODE_CTR, counter=Counter.new(
                128, initial_value=int.from_bytes(iv, 'big')))

        @staticmethod
        def get_all_cipher():
            return ['aes-128-ctr']

        @staticmethod
        def get_blocksize(ciphername):
            return 16

        @staticmethod
        def gen_IV(ciphername):
            return os.urandom(16)

        def ciphering(self, data):
            return self._aes.encrypt(bytes(data))

    mod.ECC = ECC
    mod.OpenSSL = OpenSSL
    mod.Cipher = Cipher
    mod.hmac_sha256 = \
        lambda k, m: hmac.new(k, m, digestmod=hashlib.sha256).digest()
    mod.equals = hmac.compare_digest
    return mod


def install(version=OURS_VERSION):
    spec = ModuleSpec('golem_messages', None, is_package=True)
    spec.submodule_search_locations = [REPO + '/golem_messages']
    module = importlib.util.module_from_spec(spec)
    module.__file__ = REPO + '/golem_messages/__init__.py'
    module.__version__ = version

    def lazy(name):
        # what __init__.py would re-export
        if name in ('dump', 'load'):
            from golem_messages import shortcuts
            return getattr(shortcuts, name)
        if name == 'ECCx':
            from golem_messages import cryptography
            return cryptography.ECCx
        raise AttributeError(name)
    module.__getattr__ = lazy
    sys.modules['golem_messages'] = module
    sys.path.insert(0, REPO)

    fun = types.ModuleType('_functools')
    fun.reduce = functools.reduce
    fun.partial = functools.partial
    sys.modules.setdefault('_functools', fun)
    import cytoolz
    import cytoolz.curried
    import eth_utils
    sys.modules['eth_utils.toolz'] = cytoolz
    eth_utils.toolz = cytoolz
    sys.modules['pyelliptic'] = _pyelliptic()
    # the import order of the real __init__.py (it resolves the package's
    # import cycles)
    import golem_messages.cryptography  # noqa: F401
    import golem_messages.shortcuts  # noqa: F401
    return module
