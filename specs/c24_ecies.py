"""C24: encryption for a public key (ECIES)."""
import hashlib

import coincurve
import pyelliptic

from vc import *  # noqa
from golem_messages import cryptography, exceptions, shortcuts

C = 'golem_messages.cryptography.'
ENC, DEC = C + 'ECIES.encrypt', C + 'ECIES.decrypt'
MANAGER = [C + 'ECIESKeyManager.get_ephem_key', C + 'ECIESKeyManager.ecdh',
           C + 'ECIESKeyManager.get_derived_keys', C + 'ECIESKeyManager._ckdf']


def ecies():
    """One with caches of its own, or the one everybody uses"""
    if choice('scheme', ('new', 'shared')) == 'new':
        return cryptography.ECIES()
    return shortcuts.ecies


def keys_of(secret, point):
    """What both derive from the secret they share"""
    shared = coincurve.PrivateKey(secret).ecdh(
        coincurve.PublicKey(b'\4' + point).format())
    k = hashlib.sha256(b'\0\0\0\1' + shared).digest()
    return k[:16], hashlib.sha256(k[16:]).digest()


@lemma('C24', targets=[ENC, DEC] + MANAGER)
def round_trip():
    """The recipient gets what was encrypted"""
    key = any_privkey('key')
    data, extra = any_bytes('data'), any_bytes('shared data')
    e = ecies()
    c = e.encrypt(data, pub(key), extra)
    ensure(length(c) == length(data) + 113, 'length')
    ensure(length(c) == length(data) + cryptography.ECIES.OVERHEAD,
           'the overhead told')
    ensure(same(e.decrypt(c, key, extra), data), 'same data')
    ensure(same(cryptography.ECIES().decrypt(c, key, extra), data),
           'by whoever has the key')


@lemma('C24', targets=[ENC, DEC] + MANAGER)
def plain_arguments():
    """Without shared data, as messages are encrypted"""
    key = any_privkey('key')
    data = any_bytes('data')
    e = ecies()
    c = e.encrypt(data, raw_pubkey=pub(key))
    ensure(same(e.decrypt(c, key), data), 'same data')
    ensure(same(e.decrypt(c, key, b''), data), 'no shared data')


@lemma('C24', targets=[ENC, DEC] + MANAGER)
def several():
    """Whatever was encrypted before, for whom, and how long ago"""
    k1, k2 = any_privkey('key'), any_privkey('other key')
    d1, d2, d3 = any_bytes('1'), any_bytes('2'), any_bytes('3')
    e = cryptography.ECIES()
    c1 = e.encrypt(d1, pub(k1))
    advance_clock(any_int('seconds', 0, 2 ** 20))
    c2 = e.encrypt(d2, pub(k2))
    c3 = e.encrypt(d3, pub(k1))
    ensure(same(e.decrypt(c1, k1), d1), 'first')
    ensure(same(e.decrypt(c2, k2), d2), 'second')
    ensure(same(e.decrypt(c3, k1), d3), 'third')


@lemma('C24', targets=[ENC] + MANAGER)
def never_twice():
    """No initialisation vector is used again, whoever it is for"""
    k1, k2 = any_privkey('key'), any_privkey('other key')
    data = any_bytes('data')
    e = ecies()
    c = [e.encrypt(data, pub(k)) for k in (k1, k2, k1)]
    for a, b in ((0, 1), (0, 2), (1, 2)):
        ensure(not_(eq(c[a][65:81], c[b][65:81])), 'another one')


@lemma('C24', targets=[ENC] + MANAGER)
def form():
    """The form others expect"""
    key = any_privkey('key')
    data, extra = any_bytes('data'), any_bytes('shared data')
    c = ecies().encrypt(data, pub(key), extra)
    ensure(eq(c[:1], b'\4'), 'header')
    enc, mac = keys_of(key, c[1:65])
    ensure(same(pyelliptic.Cipher(enc, c[65:81], 0, 'aes-128-ctr').ciphering(
        c[81:-32]), data), 'encrypted by AES in counter mode')
    ensure(eq(c[-32:], pyelliptic.hmac_sha256(
        mac, c[65:-32] + extra)), 'authenticated')


@lemma('C24', targets=[DEC] + MANAGER)
def of_others():
    """What others encrypted in this form is decrypted"""
    key, theirs = any_privkey('key'), any_privkey('ephemeral')
    data, iv = any_bytes('data'), any_bytes('iv', n=16)
    extra = any_bytes('shared data')
    enc, mac = keys_of(theirs, pub(key))
    body = iv + pyelliptic.Cipher(enc, iv, 1, 'aes-128-ctr').ciphering(data)
    tag = pyelliptic.hmac_sha256(mac, body + extra)
    ensure(same(ecies().decrypt(b'\4' + pub(theirs) + body + tag, key, extra),
                data), 'same data')


@lemma('C24', targets=[ENC, DEC] + MANAGER)
def not_for_others():
    """Nobody but the recipient"""
    key, other = any_privkey('key'), any_privkey('other')
    assume(not_(eq(pub(key), pub(other))))
    e = ecies()
    c = e.encrypt(any_bytes('data'), pub(key))
    ensure(attempt(e.decrypt, c, other).raised(exceptions.DecryptionError),
           'decryption error')


@lemma('C24', targets=[ENC, DEC] + MANAGER)
def other_shared_data():
    """Not with other shared data"""
    key = any_privkey('key')
    data, extra, other = any_bytes('data'), any_bytes('1'), any_bytes('2')
    e = ecies()
    c = e.encrypt(data, pub(key), extra)
    out = attempt(e.decrypt, c, key, other)
    ensure(iff(out.ok, eq(extra, other)), 'decrypted with the same only')
    ensure(or_(out.ok, out.raised(exceptions.DecryptionError)),
           'decryption error')


PARTS = {'header': (0, 1), 'public key': (1, 65), 'iv': (65, 81),
         'data': (81, -32), 'tag': (-32, None)}


@lemma('C24', params=list(PARTS), targets=[ENC, DEC] + MANAGER)
def altered(part):
    """No alteration of any part goes unnoticed"""
    key = any_privkey('key')
    e = ecies()
    c = e.encrypt(any_bytes('data'), pub(key))
    a, b = PARTS[part]
    new = any_bytes('new') if part == 'data' else \
        any_bytes('new', n=len(c[a:b]) if part == 'tag' else b - a)
    assume(not_(eq(new, c[a:b])))
    tail = b'' if b is None else c[b:]
    out = attempt(e.decrypt, c[:a] + new + tail, key)
    ensure(not_(out.ok), 'refused')
    if part != 'public key':
        ensure(out.raised(exceptions.DecryptionError), 'decryption error')


@lemma('C24', targets=[DEC])
def header():
    """What does not begin as it has to is refused"""
    c = any_bytes('encrypted')
    assume(not_(eq(c[:1], b'\4')))
    out = attempt(ecies().decrypt, c, any_privkey('key'), any_bytes('shared'))
    ensure(out.raised(exceptions.DecryptionError), 'decryption error')


@lemma('C24', params=list(range(112)), targets=[DEC] + MANAGER)
def short(length_of):
    """What is too short is refused"""
    c = any_bytes('encrypted', n=length_of)
    out = attempt(cryptography.ECIES().decrypt, b'\4' + c,
                  any_privkey('key'), any_bytes('shared'))
    ensure(not_(out.ok), 'refused')


@lemma('C24', targets=[DEC] + MANAGER)
def authentic():
    """Of all the rest, only what is authentic is decrypted"""
    key, extra = any_privkey('key'), any_bytes('shared data')
    point, iv = any_bytes('public key', n=64), any_bytes('iv', n=16)
    data, tag = any_bytes('data'), any_bytes('tag', n=32)
    out = attempt(ecies().decrypt, b'\4' + point + iv + data + tag, key,
                  extra)
    if out.ok:
        enc, mac = keys_of(key, point)
        ensure(eq(tag, pyelliptic.hmac_sha256(mac, iv + data + extra)),
               'authentic')
        ensure(length(out.value) == length(data), 'length')
