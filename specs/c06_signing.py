"""C06: signing on serialization."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import cryptography, exceptions

SERIALIZE = 'golem_messages.message.base.Message.serialize'
SIGN = 'golem_messages.message.base.Message.sign_message'
NOSIG = b'\0' * 65


def digest(m):
    """What is signed: type, time and contents (and the version, for the
    greeting)"""
    h = sha('sha1', cbor([NUMBER[type(m).__name__], m.timestamp])
            + cbor(m.slots()))
    if type(m) is base.Hello:
        h = h + m._version.encode('ascii', 'replace')
    return h


def wire_sig(d):
    return d[11:76]


@lemma('C06', params=NAMES, targets=[SERIALIZE, SIGN])
def signed_by_the_sender(name):
    m = any_message(name, sig=False)
    key = any_privkey('key')
    enc = choice('encrypted', (False, True))
    ts, before = m.timestamp, cbor(m.slots())
    want = sign(key, sha('sha3_256', digest(m)))
    d = m.serialize(sign_as=key,
                    encrypt_func=(lambda x: b'secret') if enc else None)
    if name in UNSIGNED:
        want = NOSIG
    ensure(eq(wire_sig(d), want), 'signature on the wire')
    ensure(eq(m.sig, want), 'kept by the message')
    ensure(eq(m.timestamp, ts), 'same timestamp')
    ensure(eq(cbor(m.slots()), before), 'same contents')
    if name not in UNSIGNED:
        out = attempt(m.verify_signature, pub(key))
        ensure(out.ok and out.value is True, 'verifies')


@lemma('C06', params=NAMES, targets=[SERIALIZE])
def not_signed(name):
    """Without a key the place of the signature is filled with zeros"""
    m = any_message(name, sig=False)
    none = choice('key', (None, b''))
    d = m.serialize(sign_as=none)
    ensure(eq(wire_sig(d), NOSIG), 'zeros on the wire')
    ensure(eq(m.sig, NOSIG), 'zeros in the message')


@lemma('C06', params=NAMES, targets=[SERIALIZE])
def signature_is_kept(name):
    m = any_message(name)
    sig = m.sig
    d = m.serialize()
    ensure(eq(wire_sig(d), sig), 'on the wire')
    ensure(eq(m.sig, sig), 'in the message')


@lemma('C06', params=NAMES, targets=[SERIALIZE])
def signature_is_never_replaced(name):
    m = any_message(name)
    sig, key = m.sig, any_privkey('key')
    flag = m.encrypted
    out = attempt(m.serialize, sign_as=key)
    ensure(out.raised(exceptions.SignatureAlreadyExists), 'refused')
    ensure(eq(m.sig, sig), 'kept')
    ensure(m.encrypted == flag, 'nothing changed')
    m.sig = None
    out = attempt(m.serialize, sign_as=key)
    ensure(out.ok, 'unless it is taken away first')


@lemma('C06', params=NAMES, targets=[SIGN])
def signing_by_hand(name):
    m = any_message(name)
    key, other = any_privkey('key'), any_privkey('other')
    m.sign_message(key)
    ensure(eq(m.sig, sign(key, sha('sha3_256', digest(m)))), 'signature')
    out = attempt(m.verify_signature, pub(other))
    ensure(iff(out.ok, pub(other) == pub(key)), 'verifies for the signer')
    if not out.ok:
        ensure(out.raised(exceptions.InvalidSignature), 'and no one else')
    given = any_bytes('hash', 20)
    m.sign_message(key, given)
    ensure(eq(m.sig, sign(key, sha('sha3_256', given))),
           'of the hash that is given')
    ensure(attempt(m.verify_signature, pub(key), given).ok,
           'which is to be given to verify it')
