"""Assumed contracts of eth_utils and eth_account."""
import re
import types

import z3

from .. import ropes
from ..ops import truth
from ..ropes import Atom, fun, pieces_of, rlen, term
from ..sym import (BYTES, E, Rope, SBool, SInt, STR, Unsupported, assumption,
                   concrete_int, conj, disj, issym, narrow, neg, num_t, tb,
                   wrapb)
from .crypto import ISPUB, PUB, atom, known_pub, pub_of, validate_secret
from .keccak import keccak256
from .stdlib import digest

I, B = z3.IntSort(), z3.BoolSort()
HEXES = ('hex', 'chex')     # ... with checksum
HEX = re.compile(r'(0[xX])?[0-9a-fA-F]*\Z')
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


class ValidationError(Exception):
    """eth_utils.exceptions.ValidationError"""


class BadSignature(Exception):
    """eth_keys.exceptions.BadSignature"""


class HexBytes:
    """stands for hexbytes.HexBytes: see hexbytes()"""


def strip0x(s):
    """(digits, ) of a 0x-prefixed or plain string, symbolic or not"""
    if not issym(s):
        return s[2:] if s[:2] in ('0x', '0X') else s
    ps = pieces_of(s)
    if not isinstance(ps[0], Atom):
        if ps[0][:2] in ('0x', '0X'):
            return ropes.mk(ropes.SStr, [ps[0][2:]] + ps[1:])
        return s
    if ps[0].tag and ps[0].tag[0] in ('hex', 'chex', 'uuidstr'):
        return s
    return None


def hex_to_bytes(s):
    """to_bytes(hexstr=s): ValueError unless hexadecimal; odd length padded"""
    if not issym(s):
        if not HEX.match(s):
            raise ValueError('non-hexadecimal string')
        d = strip0x(s)
        return bytes.fromhex('0' + d if len(d) % 2 else d)
    d = strip0x(s)
    if d is not None:
        if not issym(d):
            return hex_to_bytes(d)
        ps = pieces_of(d)
        if all((isinstance(p, Atom) and p.tag and p.tag[0] in HEXES)
               or (not isinstance(p, Atom) and len(p) % 2 == 0
                   and HEX.match(p)) for p in ps):
            return ropes.unhexlify(d)
    t = term(s)
    ok = fun('eth_is_hex', STR, B)(t)
    if not E.pm.fork(ok):
        raise ValueError('non-hexadecimal string')
    r = fun('eth_unhex', STR, BYTES)(t)
    E.pm.add(2 * z3.Length(r) <= z3.Length(t) + 1)
    return ropes.term_atom(r)


def to_bytes(primitive=None, hexstr=None, text=None):
    if hexstr is not None:
        hexstr = narrow(hexstr)
        if not isinstance(hexstr, str):
            raise TypeError('expected a str')
        return hex_to_bytes(hexstr)
    if text is not None:
        return text.encode('utf-8')
    p = narrow(primitive)
    if isinstance(p, bool):
        return b'\x01' if truth(p) else b'\x00'
    if isinstance(p, (bytes, bytearray)):
        return p
    if isinstance(p, int):
        if not issym(p):
            if p < 0:
                raise OverflowError('negative')
            return p.to_bytes(max(1, (p.bit_length() + 7) // 8), 'big')
        if truth(p < 0):
            raise OverflowError('negative')
        r = fun('int_min_bytes', I, BYTES)(p.t)
        E.pm.add(z3.Length(r) >= 1)
        return ropes.term_atom(r)
    raise TypeError('expected a bool, int, byte or bytearray')


def keccak(primitive=None, hexstr=None, text=None):
    return digest('keccak', to_bytes(primitive, hexstr, text))


def is_hex_str(s):
    if not issym(s):
        return bool(HEX.match(s))
    ps = pieces_of(s)
    if all((isinstance(p, Atom) and p.tag and p.tag[0] in HEXES)
           or (not isinstance(p, Atom) and HEX.match(p)) for p in ps):
        return True
    return wrapb(fun('eth_is_hex', STR, B)(term(s)))


def hexstr_if_str(to_type, x):
    x = narrow(x)
    if isinstance(x, str):
        if not truth(is_hex_str(x)):
            raise ValueError('when sending a str, it must be a hex string')
        return to_type(hexstr=x)
    return to_type(x)


def to_int(primitive=None, hexstr=None, text=None):
    if hexstr is not None:
        hexstr = narrow(hexstr)
        if not issym(hexstr):
            return int(hexstr, 16)
        d = strip0x(hexstr)
        if d is not None and issym(d):
            ps = pieces_of(d)
            if len(ps) == 1 and ps[0].tag and ps[0].tag[0] == 'hex':
                return ropes.int_from_bytes(ps[0].tag[1])
        t = term(hexstr)
        if not E.pm.fork(fun('eth_is_hexint', STR, B)(t)):
            raise ValueError('invalid literal for int()')
        r = fun('eth_hexint', STR, I)(t)
        E.pm.add(r >= 0)
        return SInt(r)
    p = narrow(primitive)
    if isinstance(p, (bytes, bytearray)):
        if issym(p):
            return ropes.int_from_bytes(p)
        return int.from_bytes(p, 'big')
    if isinstance(p, int):
        if type(p) is SBool:
            return SInt(num_t(p)[0])
        return p
    if p is None:
        raise TypeError('int() argument must be a string or a number')
    if isinstance(p, float):
        return p.__trunc__() if issym(p) else int(p)
    raise TypeError('int() argument must be a string or a number')


def checksum(raw):
    """checksum address of 20 raw bytes"""
    if not issym(raw):
        d = raw.hex()
        h = keccak256(d.encode()).hex()
        return '0x' + ''.join(c.upper() if int(h[i], 16) > 7 else c
                              for i, c in enumerate(d))
    t = fun('addr_of', BYTES, STR)(term(raw))
    E.pm.add(fun('addr_raw', STR, BYTES)(t) == term(raw))
    assumption('a checksum address is 0x and 40 hexadecimal digits of its 20 '
               'bytes, in an own mixture of cases')
    return ropes.mk(ropes.SStr, [
        '0x'] + pieces_of(ropes.term_atom(t, 40, ('chex', raw), False)))


def to_checksum_address(value):
    value = narrow(value)
    if isinstance(value, str):
        if not issym(value):
            d = strip0x(value)
            if not HEX.match(value) or len(d) != 40:
                raise ValueError('Unrecognized hex address')
            return checksum(bytes.fromhex(d))
        d = strip0x(value)
        if d is not None and issym(d):
            q = pieces_of(d)
            if len(q) == 1 and isinstance(q[0], Atom) and q[0].tag and \
                    q[0].tag[0] in HEXES:
                raw = q[0].tag[1]
                if truth(rlen(raw) == 20):
                    return checksum(raw)
                raise ValueError('Unrecognized hex address')
        t = term(value)
        ok = fun('is_hex_address', STR, B)(t)
        E.pm.add(z3.Implies(ok, z3.Or(z3.Length(t) == 40,
                                      z3.Length(t) == 42)))
        if not E.pm.fork(ok):
            raise ValueError('Unrecognized hex address')
        r = fun('addr_raw', STR, BYTES)(t)
        return checksum(ropes.term_atom(r, 20))
    if isinstance(value, (bytes, bytearray)):
        if not truth(rlen(value) == 20):
            raise ValueError('Unrecognized bytes address')
        return checksum(value)
    if isinstance(value, int):
        raise Unsupported('address given as an int')
    raise TypeError('Unsupported type: must be a string')


def encode_hex(v):
    v = narrow(v)
    if isinstance(v, str):
        v = v.encode('ascii')
    elif not isinstance(v, (bytes, bytearray)):
        raise TypeError('Value must be an instance of str or bytes')
    return '0x' + v.hex()


def decode_hex(v):
    v = narrow(v)
    if not isinstance(v, str):
        raise TypeError('Value must be an instance of str')
    return ropes.unhexlify(strip0x(v))


# ------------------------------------------------------------- eth_account
ESIG_V = z3.Function('esig_v', BYTES, BYTES, I)
ESIG_R = z3.Function('esig_r', BYTES, BYTES, I)
ESIG_S = z3.Function('esig_s', BYTES, BYTES, I)
EREC = z3.Function('erec', I, I, I, BYTES, BYTES)   # v r s hash -> pub
EUNREC = z3.Function('eunrec', I, I, I, BYTES, BYTES)
ERECOK = z3.Function('erecok', I, I, I, BYTES, B)


def address(pub):
    return checksum(digest('keccak', pub)[12:])


def defunct_hash_message(primitive=None, *, hexstr=None, text=None):
    msg = to_bytes(primitive, hexstr, text)
    n = rlen(msg)
    if issym(n):
        from ..ops import int_str
        n = int_str(n).encode('ascii')
    else:
        n = str(n).encode()
    return digest('keccak', b'\x19Ethereum Signed Message:\n' + n + msg)


def hexbytes(x):
    x = narrow(x)
    if isinstance(x, bool):
        return b'\x01' if truth(x) else b'\x00'
    if isinstance(x, (bytes, bytearray)):
        return x
    if isinstance(x, str):
        return hex_to_bytes(x)
    if isinstance(x, int):
        return to_bytes(x)
    raise TypeError('Cannot convert to bytes')


class SignedMessage(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)


def signed():
    """The signatures made on this path: (r, s, v, key, hash)"""
    pm = E.pm
    if getattr(pm, 'esigned', None) is None:
        pm.esigned = []
    return pm.esigned


class Account:
    @staticmethod
    def signHash(message_hash, private_key):
        h = hexbytes(message_hash)
        if not truth(rlen(h) == 32):
            raise ValueError('The message hash must be exactly 32-bytes')
        key = narrow(private_key)
        if not isinstance(key, (bytes, bytearray, str, int)):
            raise TypeError('private key')
        key = hexbytes(key)
        if not truth(rlen(key) == 32):
            raise ValueError('The private key must be exactly 32 bytes long')
        key = validate_secret(key)
        ts, th = term(key), term(h)
        v, r, s = ESIG_V(ts, th), ESIG_R(ts, th), ESIG_S(ts, th)
        E.pm.add(z3.Or(v == 27, v == 28))
        for x in (r, s):
            E.pm.add(z3.And(x >= 1, x < N))
        pub = pub_of(key)
        E.pm.add(ERECOK(v - 27, r, s, th))
        E.pm.add(EREC(v - 27, r, s, th) == term(pub))
        E.pm.add(EUNREC(v - 27, r, s, term(pub)) == th)
        assumption('ECDSA: signing is deterministic and the signature '
                   'recovers the signer\'s public key')
        made = signed()
        if not any(x[0].eq(r) for x in made):
            made.append((r, s, v - 27, pub, h))
        return SignedMessage(messageHash=h, r=SInt(r), s=SInt(s), v=SInt(v))

    @staticmethod
    def recoverHash(message_hash, vrs=None, signature=None):
        h = hexbytes(message_hash)
        if not truth(rlen(h) == 32):
            raise ValueError('The message hash must be exactly 32-bytes')
        if vrs is None:
            raise Unsupported('recoverHash(signature=)')
        v, r, s = [hexstr_if_str(to_int, x) for x in star(vrs)]
        if truth(disj(v == 0, v == 1)):
            sv = v
        elif truth(disj(v == 27, v == 28)):
            sv = v - 27
        elif truth(v >= 35):
            sv = (v - 35) % 2
        else:
            raise ValueError('v was invalid')
        for x in (r, s):
            if not truth(conj(x >= 0, x < N)):
                raise ValidationError('out of range')
        tv, tr, ts, th = num_t(sv)[0], num_t(r)[0], num_t(s)[0], term(h)
        if not E.pm.fork(ERECOK(tv, tr, ts, th)):
            raise BadSignature('Invalid signature')
        p = EREC(tv, tr, ts, th)
        E.pm.add(EUNREC(tv, tr, ts, p) == th)
        E.pm.add(ISPUB(p))
        for r0, s0, v0, pub, h0 in signed():
            if r0.eq(tr) and s0.eq(ts):
                same = tb(ropes.req(h, h0))
                E.pm.add(z3.Implies(tv == v0, (p == term(pub)) == same))
        assumption('ECDSA: for a fixed signature, different message hashes '
                   'recover different public keys')
        return address(atom(p, 64))


def star(x):
    x = narrow(x)
    out = tuple(x)
    if len(out) != 3:
        raise ValueError('not enough values to unpack')
    return out


def modules():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        return m
    eu = mod('eth_utils', to_checksum_address=to_checksum_address,
             keccak=keccak, hexstr_if_str=hexstr_if_str, to_int=to_int,
             to_bytes=to_bytes, encode_hex=encode_hex, decode_hex=decode_hex)
    eu.exceptions = mod('eth_utils.exceptions',
                        ValidationError=ValidationError)
    acc = mod('eth_account.account', Account=Account)
    msg = mod('eth_account.messages',
              defunct_hash_message=defunct_hash_message)
    ea = mod('eth_account', Account=Account, account=acc, messages=msg)
    return {'eth_utils': eu, 'eth_utils.exceptions': eu.exceptions,
            'eth_account': ea, 'eth_account.account': acc,
            'eth_account.messages': msg}
