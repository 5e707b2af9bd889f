"""C01: what is sent is what is received."""
from vc import *  # noqa
from specs.msgs import *  # noqa


TARGETS = ['golem_messages.message.base.Message.serialize',
           'golem_messages.message.base.Message.deserialize',
           'golem_messages.message.base.Message.load_slots']


@lemma('C01', params=[n for n in NAMES if n not in LISTS], targets=TARGETS)
def received_as_sent(name):
    round_trip(name)


@lemma('C01', params=LISTS, targets=TARGETS)
def lists_received_as_sent(name):
    any_length(round_trip, name)


def round_trip(name):
    m = valid_message(name)
    assume(and_(m.timestamp > 1262304000, m.timestamp < 32819212800))
    enc = choice('encryption', (False, True))
    secret = any_bytes('ciphertext', minlen=1)
    clear = []

    def encrypt(data):
        clear.append(data)
        return secret

    def decrypt(data):
        ensure(same(data, secret), 'the same is decrypted')
        return clear[0]
    d = m.serialize(encrypt_func=encrypt if enc else None)
    out = attempt(base.Message.deserialize, d, decrypt, check_time=False)
    ensure(out.ok, 'accepted')
    if out.ok:
        cover('accepted')
        ensure(out.value.encrypted == (enc and name not in UNENCRYPTED),
               'encryption is known')
        same_message(m, out.value)
        again = attempt(out.value.serialize,
                        encrypt_func=encrypt if enc else None)
        ensure(again.ok, 'can be passed on')
        if again.ok:
            ensure(same(again.value, d), 'in exactly the same form')
