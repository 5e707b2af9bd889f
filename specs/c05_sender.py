"""C05: a received message is from who it is said to be."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import cryptography, exceptions

DESERIALIZE = 'golem_messages.message.base.Message.deserialize'
WITH_HEADER = 'golem_messages.message.base.Message.deserialize_with_header'
VERIFY = 'golem_messages.message.base.Message.verify_signature'


def in_range(m):
    assume(and_(m.timestamp > 1262304000, m.timestamp < 32819212800))


@lemma('C05', params=NAMES, targets=[DESERIALIZE, WITH_HEADER, VERIFY])
def sender_is_verified(name):
    """A message signed by one key is accepted for that key and no other"""
    m = valid_message(name)
    m.sig = None
    in_range(m)
    key, other = any_privkey('key'), any_privkey('other')
    enc = choice('encrypted', (False, True))
    clear = []

    def encrypt(data):
        clear.append(data)
        return b'secret'
    d = m.serialize(sign_as=key, encrypt_func=encrypt if enc else None)
    out = attempt(base.Message.deserialize, d, lambda x: clear[0],
                  check_time=False, sender_public_key=pub(other))
    if name in UNSIGNED:
        cover('not signed')
        ensure(out.ok, 'unsigned classes are not verified')
    else:
        ensure(iff(out.ok, pub(other) == pub(key)),
               'accepted iff from the sender')
        if out.ok:
            cover('accepted')
        else:
            cover('refused')
            ensure(out.raised(exceptions.InvalidSignature),
                   'as badly signed')


@lemma('C05', params=NAMES, targets=[DESERIALIZE, WITH_HEADER])
def sender_is_not_verified(name):
    """Without a key any signature will do"""
    m = valid_message(name)
    in_range(m)
    d = m.serialize()
    key = choice('key', (None, b''))
    out = attempt(base.Message.deserialize, d, None, check_time=False,
                  sender_public_key=key)
    ensure(out.ok, 'accepted')


@lemma('C05', params=[n for n in NAMES if n not in UNSIGNED],
       targets=[DESERIALIZE, WITH_HEADER, VERIFY])
def any_signature(name):
    """Whatever the signature, what is accepted for a key verifies for that
    key, and what is refused does not"""
    m = valid_message(name)
    in_range(m)
    key = any_privkey('key')
    good = cryptography.ecdsa_sign(key, m.get_short_hash())
    m.sig = any_sig('signature', [good])
    d = m.serialize()
    out = attempt(base.Message.deserialize, d, None, check_time=False,
                  sender_public_key=pub(key))
    again = attempt(m.verify_signature, pub(key))
    ensure(iff(out.ok, again.ok), 'accepted iff it verifies')
    ensure(implies(eq(m.sig, good), out.ok), 'the right one is accepted')
    if out.ok:
        cover('accepted')
        ensure(attempt(out.value.verify_signature, pub(key)).ok,
               'and verifies later')
    else:
        cover('refused')
        ensure(out.raised(exceptions.InvalidSignature), 'as badly signed')


@lemma('C05', params=('RandVal', 'Hello', 'Disconnect', 'CannotAssignTask',
                      'PullAnswer', 'ClientAuthorization',
                      'WantToComputeTask'),
       targets=[DESERIALIZE, WITH_HEADER, VERIFY])
def signature_is_not_transferable(name):
    """The signature of a message is accepted with the same contents and
    time only"""
    m = any_message(name, 'm/', sig=False)
    key = any_privkey('key')
    m.serialize(sign_as=key)
    f = any_message(name, 'f/', sig=False)
    in_range(f)
    f.sig = m.sig
    out = attempt(base.Message.deserialize, f.serialize(), None,
                  check_time=False, sender_public_key=pub(key))
    if out.ok:
        cover('the same')
        same_message(m, f)
    else:
        cover('another')
        ensure(out.raised(exceptions.InvalidSignature), 'as badly signed')


@lemma('C05', params=('RandVal', 'Hello', 'TaskFailure'),
       targets=[DESERIALIZE, WITH_HEADER, VERIFY])
def bad_keys(name):
    """Keys of a wrong length never verify anything"""
    m = any_message(name)
    in_range(m)
    k = any_bytes('key', minlen=1)
    assume(len(k) != 64)
    out = attempt(base.Message.deserialize, m.serialize(), None,
                  check_time=False, sender_public_key=k)
    ensure(out.raised(exceptions.InvalidKeys), 'refused as a bad key')
    ensure(attempt(m.verify_signature, k).raised(exceptions.InvalidKeys),
           'by hand as well')
