"""Assumed contracts of the cryptographic libraries (coincurve, pyelliptic,
bitcoin, rlp, pysha3, pycryptodome), as idealised functions with the
algebraic laws the protocol relies on."""
import types

import z3

from .. import ropes
from ..ops import truth
from ..ropes import Atom, fun, pieces_of, rlen, term
from ..sym import (BYTES, E, PathEnd, Rope, SInt, Unsupported, assumption,
                   conj, disj, issym, narrow, neg, tb, wrapb)
from .stdlib import SHash

B = z3.BoolSort()

# functions of the ideal scheme
PUB = z3.Function('ec_pub', BYTES, BYTES)            # secret -> 64
UNPUB = z3.Function('ec_unpub', BYTES, BYTES)
ISSEC = z3.Function('ec_is_secret', BYTES, B)
ISPUB = z3.Function('ec_is_pub', BYTES, B)
PAD = z3.Function('ec_pad', BYTES, BYTES)
SIG = z3.Function('ec_sig', BYTES, BYTES, BYTES)     # secret, hash -> 65
REC = z3.Function('ec_rec', BYTES, BYTES, BYTES)     # sig, hash -> 64
UNREC = z3.Function('ec_unrec', BYTES, BYTES, BYTES)
RECOK = z3.Function('ec_recok', BYTES, BYTES, B)
COMPR = z3.Function('ec_compress', BYTES, BYTES)
UNCOMPR = z3.Function('ec_uncompress', BYTES, BYTES)
ISCOMPR = z3.Function('ec_is_compressed', BYTES, B)
DH = z3.Function('ec_dh', BYTES, BYTES, BYTES)
UNDH = z3.Function('ec_undh', BYTES, BYTES, BYTES)
ZSIG = b'\0' * 65


def zsig():
    return ropes.lit_term(ZSIG)


def atom(t, n, tag=None):
    E.pm.add(z3.Length(t) == n)
    return ropes.term_atom(t, n, tag)


def need_bytes(x, what='data'):
    x = narrow(x)
    if not isinstance(x, (bytes, bytearray)):
        raise TypeError('%s must be bytes' % what)
    return x


def pub_of(secret):
    """64-byte public point of a valid 32-byte secret"""
    t = PUB(term(secret))
    E.pm.add(UNPUB(t) == term(secret))
    E.pm.add(ISPUB(t))
    E.pm.add(ISSEC(term(secret)))
    E.pm.add(z3.Length(term(secret)) == 32)
    assumption('secp256k1: distinct private keys have distinct public keys')
    return atom(t, 64, ('pub', secret))


def validate_secret(s):
    s = narrow(s)
    if not isinstance(s, (bytes, bytearray)):
        if isinstance(s, (list, tuple)):
            raise Unsupported('private key given as a list')
        raise TypeError('cannot convert to bytes')
    if not issym(s):
        n = int.from_bytes(s, 'big')
        if not 0 < n < 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141:  # noqa
            raise ValueError('Secret scalar must be greater than 0 and less '
                             'than the group order')
        return b'\0' * (32 - len(s)) + s
    t = term(s)
    if not E.pm.fork(ISSEC(t)):
        raise ValueError('Secret scalar must be greater than 0 and less than '
                         'the group order')
    if truth(rlen(s) == 32):
        return s
    p = PAD(t)
    E.pm.add(ISSEC(p))
    return atom(p, 32)


class PublicKey:
    def __init__(self, data, context=None):
        data = narrow(data)
        if isinstance(data, _Point):
            self._p = data.p
            return
        if not isinstance(data, bytes):
            # the real class keeps any other object and fails later
            raise TypeError('public key must be bytes')
        n = rlen(data)
        if truth(n == 65):
            head, rest = ropes._cut(data, 1)
            if truth(head == b'\x04'):
                if known_pub(rest) or E.pm.fork(ISPUB(term(rest))):
                    self._p = rest
                    return
            raise ValueError(
                'The public key could not be parsed or is invalid.')
        if truth(n == 33):
            ps = pieces_of(data)
            if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].tag and \
                    ps[0].tag[0] == 'compr':
                self._p = ps[0].tag[1]
                return
            if E.pm.fork(ISCOMPR(term(data))):
                t = UNCOMPR(term(data))
                E.pm.add(ISPUB(t))
                E.pm.add(COMPR(t) == term(data))
                self._p = atom(t, 64)
                return
        raise ValueError('The public key could not be parsed or is invalid.')

    @classmethod
    def from_signature_and_message(cls, serialized_sig, message,
                                   hasher='sha256', context=None):
        if hasher is not None:
            raise Unsupported('from_signature_and_message with a hasher')
        sig = narrow(serialized_sig)
        message = narrow(message)
        if not isinstance(message, bytes):
            raise TypeError('message must be bytes')
        if truth(rlen(message) != 32):
            raise ValueError('Message hash must be 32 bytes long.')
        if not isinstance(sig, (bytes, bytearray)):
            raise TypeError('signature must be bytes')
        if truth(rlen(sig) != 65):
            raise ValueError('Serialized signature must be 65 bytes long.')
        ts, tm = term(sig), term(message)
        E.pm.add(z3.Not(RECOK(zsig(), tm)))
        if not E.pm.fork(RECOK(ts, tm)):
            raise ValueError('failed to recover ECDSA public key')
        p = REC(ts, tm)
        E.pm.add(UNREC(ts, p) == tm)
        E.pm.add(ISPUB(p))
        made = [x for x in signatures() if x[0].eq(ts)]
        for s, key, h in made or signatures():
            # a signature recovers its signer from nothing but its message
            same = tb(ropes.req(message, h))
            E.pm.add(z3.Implies(ts == s, (p == PUB(term(key))) == same))
        assumption('ECDSA: for a fixed signature, different message hashes '
                   'recover different public keys')
        return cls(_Point(atom(p, 64)))

    @classmethod
    def from_secret(cls, secret, context=None):
        return cls(_Point(pub_of(validate_secret(secret))))

    def format(self, compressed=True):
        if truth(compressed):
            t = COMPR(term(self._p))
            E.pm.add(UNCOMPR(t) == term(self._p))
            E.pm.add(ISCOMPR(t))
            return atom(t, 33, ('compr', self._p))
        return b'\x04' + self._p

    def __eq__(self, other):
        return isinstance(other, PublicKey) and self._p == other._p

    __hash__ = None


class _Point:
    def __init__(self, p):
        self.p = p


def known_pub(x):
    ps = pieces_of(x)
    return len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].tag is not None \
        and ps[0].tag[0] == 'pub'


class PrivateKey:
    def __init__(self, secret=None, context=None):
        secret = narrow(secret)
        if secret is None:
            s = ropes.bytes_atom(E.pm.fresh('ephem'), 32)
            E.pm.add(ISSEC(term(s)))
            self.secret = s
        else:
            self.secret = validate_secret(secret)
        self.context = context
        self.public_key = PublicKey(_Point(pub_of(self.secret)))

    def sign_recoverable(self, message, hasher='sha256', custom_nonce=None):
        if hasher is not None:
            raise Unsupported('sign_recoverable with a hasher')
        message = narrow(message)
        if not isinstance(message, bytes):
            raise TypeError('message must be bytes')
        if truth(rlen(message) != 32):
            raise ValueError('Message hash must be 32 bytes long.')
        return raw_sign(self.secret, message)

    def sign(self, *a, **k):
        raise Unsupported('PrivateKey.sign (DER)')

    def ecdh(self, public_key):
        p = PublicKey(public_key)._p
        q = self.public_key._p
        tp, tq = term(p), term(q)
        t = DH(tp, tq)
        E.pm.add(t == DH(tq, tp))
        E.pm.add(UNDH(t, tp) == tq)
        E.pm.add(UNDH(t, tq) == tp)
        assumption('ECDH: the shared secret depends on the two public keys '
                   'only, symmetrically, and determines one from the other')
        return atom(t, 32)

    def __eq__(self, other):
        return self.secret == other.secret

    __hash__ = None


def signatures():
    """The signatures made on this path: (term, key, hash)"""
    pm = E.pm
    if getattr(pm, 'signatures', None) is None:
        pm.signatures = []
    return pm.signatures


def raw_sign(secret, h):
    ts, th = term(secret), term(h)
    t = SIG(ts, th)
    r = atom(t, 65, None)
    if not any(t.eq(s) for s, _, _ in signatures()):
        signatures().append((t, secret, h))
    E.pm.add(RECOK(t, th))
    pub = pub_of(secret)
    E.pm.add(REC(t, th) == term(pub))
    E.pm.add(t != zsig())
    assumption('ECDSA: signing is deterministic and the signature recovers '
               'the signer\'s public key')
    return r


# -------------------------------------------------------------- pyelliptic
class ECC:
    def __init__(self, pubkey=None, privkey=None, pubkey_x=None,
                 pubkey_y=None, raw_privkey=None, curve='sect283r1'):
        self.curve = curve
        if raw_privkey is not None:
            self.pubkey_x, self.pubkey_y = pubkey_x, pubkey_y
            self.privkey = raw_privkey
            if pubkey_x is None:
                p = pub_of(validate_secret(raw_privkey))
                self.pubkey_x, self.pubkey_y = ropes._cut(p, 32)
        elif pubkey_x is not None and pubkey_y is not None:
            self.pubkey_x, self.pubkey_y = pubkey_x, pubkey_y
            self.privkey = None
        else:
            # a random key; OpenSSL may hand out a shorter private key
            E.ecc_gen = getattr(E, 'ecc_gen', 0)
            k = ropes.bytes_atom(E.pm.fresh('eccpriv'), 32)
            E.pm.add(ISSEC(term(k)))
            self.privkey = k
            p = pub_of(k)
            self.pubkey_x, self.pubkey_y = ropes._cut(p, 32)

    def raw_check_key(self, privkey, pubkey_x, pubkey_y, curve=None):
        try:
            pub = PublicKey(b'\x04' + pubkey_x + pubkey_y)
            if privkey is not None:
                if truth(neg(truth(PrivateKey(privkey).public_key._p
                                   == pub._p))):
                    return -1
        except Exception:
            return -1
        return 0


class _CipherName:
    def get_blocksize(self):
        return 16

    def get_keysize(self):
        return 16


class OpenSSL:
    @staticmethod
    def get_cipher(name):
        if name != 'aes-128-ctr':
            raise Exception('Unknown cipher')
        return _CipherName()


CTR = z3.Function('aes_ctr', BYTES, BYTES, BYTES, BYTES)


class Cipher:
    def __init__(self, key, iv, do, ciphername='aes-256-cbc'):
        if ciphername != 'aes-128-ctr':
            raise Exception('Unknown cipher')
        self.key, self.iv = need_bytes(key, 'key'), need_bytes(iv, 'iv')
        if not truth(conj(rlen(self.key) == 16, rlen(self.iv) == 16)):
            raise ValueError('Incorrect AES key or IV length')
        self.used = False

    @staticmethod
    def get_all_cipher():
        return ['aes-128-ctr']

    @staticmethod
    def get_blocksize(ciphername):
        return 16

    @staticmethod
    def gen_IV(ciphername):
        iv = ropes.bytes_atom(E.pm.fresh('iv'), 16)
        for q in E.ivs:
            E.pm.add(tb(neg(iv == q)))
        E.ivs.append(iv)
        assumption('gen_IV() does not repeat itself')
        return iv

    def ciphering(self, data):
        data = need_bytes(data)
        if self.used:
            raise Unsupported('Cipher object used twice')
        self.used = True
        if not issym(data) and data == b'':
            return b''
        k, iv, d = term(self.key), term(self.iv), term(data)
        ps = pieces_of(data)
        if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].tag and \
                ps[0].tag[0] == 'ctr':
            _, k0, iv0, d0 = ps[0].tag
            if E.pm.entailed(z3.And(term(k0) == k, term(iv0) == iv)):
                return d0
        t = CTR(k, iv, d)
        E.pm.add(CTR(k, iv, t) == d)
        E.pm.add(z3.Length(t) == z3.Length(d))
        assumption('AES-CTR: same length, and its own inverse under the '
                   'same key and IV')
        n = rlen(data)
        return ropes.term_atom(t, None if issym(n) else n,
                               ('ctr', self.key, self.iv, data))


def hmac_sha256(k, m):
    k, m = need_bytes(k), need_bytes(m)
    f = fun('hmac_sha256', BYTES, BYTES, BYTES)
    t = f(term(k), term(m))
    return atom(t, 32, ('mac', 'sha256', k, m))


def equals(a, b):
    a, b = narrow(a), narrow(b)
    r = a == b
    return False if r is NotImplemented else r


# ------------------------------------------------------------------ others
def get_privkey_format(priv):
    priv = narrow(priv)
    if isinstance(priv, int):
        return 'decimal'
    if priv is None:
        raise TypeError('object of type NoneType has no len()')
    n = rlen(priv) if isinstance(priv, (str, bytes)) else len(priv)
    for k, v in ((32, 'bin'), (33, 'bin_compressed'), (64, 'hex'),
                 (66, 'hex_compressed')):
        if truth(n == k):
            return v
    raise Exception('WIF does not represent privkey')


def str_to_bytes(value):
    value = narrow(value)
    if isinstance(value, bytearray) and not issym(value):
        value = bytes(value)
    if isinstance(value, bytes):
        return value
    if isinstance(value, str):
        return value.encode('utf-8')
    raise TypeError('str_to_bytes: encoding without a string argument')


def sha3_256(data=b''):
    h = SHash('sha3_256')
    h.update(data)
    return h


class _Keccak:
    @staticmethod
    def new(digest_bits=None, data=b'', **k):
        if digest_bits != 256:
            raise Unsupported('keccak with %r bits' % digest_bits)
        h = SHash('keccak')
        h.update(data)
        return h


def modules():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        return m
    coincurve = mod('coincurve', PrivateKey=PrivateKey, PublicKey=PublicKey)
    coincurve.keys = mod('coincurve.keys', PrivateKey=PrivateKey,
                         PublicKey=PublicKey)
    pye = mod('pyelliptic', ECC=ECC, OpenSSL=OpenSSL, Cipher=Cipher,
              hmac_sha256=hmac_sha256, equals=equals)
    btc = mod('bitcoin', get_privkey_format=get_privkey_format)
    utils = mod('rlp.utils', str_to_bytes=str_to_bytes)
    rlp = mod('rlp', utils=utils)
    pysha3 = mod('_pysha3', sha3_256=sha3_256)
    kec = mod('Crypto.Hash.keccak', new=_Keccak.new)
    chash = mod('Crypto.Hash', keccak=kec)
    crypto = mod('Crypto', Hash=chash)
    return {'coincurve': coincurve, 'coincurve.keys': coincurve.keys,
            'pyelliptic': pye, 'bitcoin': btc, 'rlp': rlp,
            'rlp.utils': utils, '_pysha3': pysha3, 'Crypto': crypto,
            'Crypto.Hash': chash, 'Crypto.Hash.keccak': kec}
