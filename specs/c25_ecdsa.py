"""C25: signatures and keys."""
from vc import *  # noqa
from golem_messages import cryptography, exceptions

C = 'golem_messages.cryptography.'
SIGN, VERIFY = C + 'ecdsa_sign', C + 'ecdsa_verify'
KEY = [C + 'ECCx.__init__', C + 'ECCx.has_valid_keys', C + 'privtopub',
       C + 'verify_pubkey']
BAD = exceptions.InvalidSignature


@lemma('C25', targets=[SIGN, VERIFY])
def own():
    """A signature verifies for the maker's public key and its data only"""
    key, other = any_privkey('key'), any_privkey('other')
    data, data2 = any_bytes('data'), any_bytes('other data')
    s = cryptography.ecdsa_sign(key, data)
    ensure(length(s) == 65, 'length')
    ensure(cryptography.ecdsa_verify(pub(key), s, data) is True, 'verifies')
    out = attempt(cryptography.ecdsa_verify, pub(other), s, data)
    ensure(iff(out.ok, eq(pub(key), pub(other))), 'for no other key')
    ensure(or_(out.ok, out.raised(BAD)), 'invalid signature')
    out = attempt(cryptography.ecdsa_verify, pub(key), s, data2)
    ensure(iff(out.ok, eq(data, data2)), 'for no other data')
    ensure(or_(out.ok, out.raised(BAD)), 'invalid signature')


@lemma('C25', targets=[SIGN, VERIFY])
def of_the_hash():
    """What is signed is the SHA3-256 hash of the data, text as UTF-8"""
    key, data = any_privkey('key'), any_bytes('data')
    text = any_str('text', maxlen=40)
    ensure(same(cryptography.ecdsa_sign(key, data),
                sign(key, sha('sha3_256', data))), 'of bytes')
    s = cryptography.ecdsa_sign(key, text)
    ensure(same(s, sign(key, sha('sha3_256', text.encode('utf-8')))),
           'of text')
    ensure(cryptography.ecdsa_verify(pub(key), s, text) is True, 'verifies')


@lemma('C25', targets=[VERIFY])
def anything():
    """Any signature either verifies or is reported as invalid"""
    key = any_privkey('key')
    data = any_bytes('data')
    s = any_sig('signature', [lambda: sign(key, sha('sha3_256', data))])
    point = any_bytes('public key', n=64)
    out = attempt(cryptography.ecdsa_verify, point, s, data)
    ensure(or_(and_(out.ok, out.value is True), out.raised(BAD)),
           'true or invalid signature')
    ensure(implies(out.ok, length(s) == 65), 'of 65 bytes')
    out2 = attempt(cryptography.ecdsa_verify, pub(key), s, data)
    ensure(implies(and_(out.ok, out2.ok), eq(point, pub(key))),
           'for one key at most')


@lemma('C25', targets=[VERIFY])
def no_signature():
    """What is no bytes is no signature"""
    value = choice('value', (None, 0, 65, [], [0] * 65, '', 'a' * 65))
    data = any_bytes('data')
    out = attempt(cryptography.ecdsa_verify, pub(any_privkey('key')), value,
                  data)
    ensure(out.raised(BAD), 'invalid signature')


@lemma('C25', targets=[VERIFY, C + 'verify_pubkey'])
def no_public_key():
    """Public keys have 64 bytes"""
    point = any_bytes('public key')
    assume(length(point) != 64)
    out = attempt(cryptography.ecdsa_verify, point, any_bytes('s', n=65),
                  any_bytes('data'))
    ensure(out.raised(exceptions.InvalidKeys), 'invalid keys')
    ensure(attempt(cryptography.verify_pubkey, point).raised(
        exceptions.InvalidKeys), 'invalid keys')


@lemma('C25', targets=KEY + [C + 'ECCx.sign', C + 'ECCx.verify',
                             C + 'ECCx.raw_pubkey', C + 'ECCx.raw_privkey'])
def objects():
    """A key object has the public key of its private key and signs and
    verifies the same"""
    key, other = any_privkey('key'), any_privkey('other')
    data = any_bytes('data')
    ensure(same(cryptography.privtopub(key), pub(key)), 'public key')
    k = cryptography.ECCx(key)
    ensure(same(k.raw_privkey, key), 'private key')
    ensure(same(k.raw_pubkey, pub(key)), 'public key of it')
    s = k.sign(data)
    ensure(same(s, cryptography.ecdsa_sign(key, data)), 'same signature')
    ensure(k.verify(s, data) is True, 'verifies')
    out = attempt(cryptography.ECCx(raw_privkey=other).verify, s, data)
    ensure(iff(out.ok, eq(pub(key), pub(other))), 'for no other key')
    ensure(or_(out.ok, out.raised(BAD)), 'invalid signature')


@lemma('C25', targets=[C + 'ECCx.verify'])
def object_verifies():
    """... whatever it is given"""
    key, data = any_privkey('key'), any_bytes('data')
    s = any_bytes('signature')
    out = attempt(cryptography.ECCx(key).verify, s, data)
    out2 = attempt(cryptography.ecdsa_verify, pub(key), s, data)
    ensure(iff(out.ok, out2.ok), 'the same')
    ensure(or_(out.ok, out.raised(BAD)), 'or invalid signature')
    ensure(implies(length(s) != 65, out.raised(BAD)), 'wrong length')


@lemma('C25', targets=[VERIFY, C + 'ECCx.verify'])
def signatures_with_more():
    """A signature with anything added, or with an end missing, is none"""
    key, data = any_privkey('key'), any_bytes('data')
    s = cryptography.ecdsa_sign(key, data)
    more = any_bytes('more', minlen=1)
    for t in (s + more, more + s, s[:64], s[1:], s[:32] + s[33:]):
        ensure(attempt(cryptography.ecdsa_verify, pub(key), t,
                       data).raised(BAD), 'invalid signature')
        ensure(attempt(cryptography.ECCx(key).verify, t, data).raised(BAD),
               'for key objects too')


@lemma('C25', targets=KEY)
def generated():
    """A key object without a given key has a new and valid one"""
    k, k2 = cryptography.ECCx(None), cryptography.ECCx(None)
    ensure(length(k.raw_privkey) == 32, 'private key')
    ensure(same(k.raw_pubkey, cryptography.privtopub(k.raw_privkey)),
           'public key')
    data = any_bytes('data')
    ensure(cryptography.ecdsa_verify(k.raw_pubkey, k.sign(data), data)
           is True, 'signs')
    del k2


@lemma('C25', targets=KEY)
def no_private_key():
    """What is no private key is refused"""
    raw = choice('raw', (b'', b'\0' * 32, b'\xff' * 32, b'\1' * 33,
                         b'\1' * 31, b'\1', b'\0' * 31))
    ensure(not_(attempt(cryptography.ECCx, raw).ok), 'refused')


@lemma('C25', params=[0, 1, 20, 31, 33, 64], targets=KEY)
def private_key_length(n):
    """Private keys have 32 bytes"""
    raw = any_bytes('raw', n=n)
    ensure(not_(attempt(cryptography.ECCx, raw).ok), 'refused')


@lemma('C25', targets=[C + 'mk_privkey', C + 'sha3'])
def derived():
    """Private keys are derived with Keccak-256, hashes are SHA3-256"""
    data = any_bytes('data')
    ensure(same(cryptography.mk_privkey(data), keccak(data)), 'derived')
    ensure(same(cryptography.sha3(data), sha('sha3_256', data)), 'hash')
    text = any_str('text', maxlen=40)
    ensure(same(cryptography.mk_privkey(text), keccak(text.encode('utf-8'))),
           'derived from text')
    ensure(same(cryptography.sha3(text), sha('sha3_256', text.encode())),
           'hash of text')
