"""C29: the exchange of messages between two key holders."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions, shortcuts

DUMP = 'golem_messages.shortcuts.dump'
LOAD = 'golem_messages.shortcuts.load'
ENCRYPTED = [n for n in NAMES if n not in UNENCRYPTED]
SIGNED = [n for n in NAMES if n not in UNSIGNED]
# the others are the same down to here: contents are C01
SOME = ['Hello', 'RandVal', 'Disconnect', 'WantToComputeTask',
        'TaskToCompute', 'SubtaskResultsAccepted', 'ForcePayment',
        'PullResource', 'ResourceHandshakeStart', 'FileTransferToken']


def message(name, small=False):
    m = valid_message(name)
    m.sig = None
    assume(and_(m.timestamp > 1262304000, m.timestamp < 32819212800))
    return m


@lemma('C29', params=NAMES, targets=[DUMP, LOAD])
def to_its_recipient(name):
    """Signed by one and encrypted for the other"""
    m = message(name)
    sender, recipient = any_privkey('sender'), any_privkey('recipient')
    d = shortcuts.dump(m, sender, pub(recipient))
    out = attempt(shortcuts.load, d, recipient, pub(sender),
                  check_time=False)
    ensure(out.ok, 'received')
    if out.ok:
        same_message(m, out.value)
        ensure(out.value.encrypted == (name not in UNENCRYPTED),
               'encryption is known')
        if name in SIGNED:
            ensure(m.verify_signature(pub(sender)), 'signed')
            ensure(out.value.verify_signature(pub(sender)),
                   'the signature can be shown to others')


@lemma('C29', params=NAMES, targets=[DUMP, LOAD])
def to_nobody_else(name):
    """Those with other keys don't get what is encrypted, and don't take it
    for somebody else's"""
    m = message(name)
    sender, recipient = any_privkey('sender'), any_privkey('recipient')
    other = any_privkey('other')
    d = shortcuts.dump(m, sender, pub(recipient))
    out = attempt(shortcuts.load, d, other, pub(sender), check_time=False)
    if name in UNENCRYPTED:
        ensure(out.ok, 'in clear')
    else:
        ensure(iff(out.ok, pub(other) == pub(recipient)),
               'readable iff for them')
        ensure(or_(out.ok, out.raised(exceptions.DecryptionError)),
               'a decryption error')
    out = attempt(shortcuts.load, d, recipient, pub(other), check_time=False)
    if name in UNSIGNED:
        ensure(out.ok, 'not signed')
    else:
        ensure(iff(out.ok, pub(other) == pub(sender)),
               'accepted iff from the sender')
        ensure(or_(out.ok, out.raised(exceptions.InvalidSignature)),
               'an invalid signature')


@lemma('C29', params=NAMES, targets=[DUMP])
def form(name):
    """What is sent, with and without keys"""
    m = message(name)
    clear = cbor(m.slots())
    sender, recipient = any_privkey('sender'), any_privkey('recipient')
    key = choice('sender key', (sender, None))
    to = choice('recipient key', (pub(recipient), None, b''))
    d = shortcuts.dump(m, key, to)
    tail = 32 if name == 'Hello' else 0
    secret = bool(to) and name not in UNENCRYPTED
    ensure(length(d) == 76 + length(clear) + tail + (113 if secret else 0),
           'length')
    ensure(d[:11] == be(NUMBER[name], 2) + be(m.timestamp, 8)
           + (b'\1' if secret else b'\0'), 'header')
    ensure(d[11:76] == m.sig, 'signature')
    if not secret:
        ensure(d[76:76 + length(clear)] == clear, 'in clear')
    if key is None or name in UNSIGNED:
        ensure(m.sig == bytes(65), 'no signature')
    else:
        ensure(m.verify_signature(pub(key)), 'signature by the sender')


@lemma('C29', params=NAMES, targets=[DUMP, LOAD])
def without_keys(name):
    """Neither signed nor encrypted, or not verified"""
    m = message(name)
    sender, recipient = any_privkey('sender'), any_privkey('recipient')
    key = choice('sender key', (sender, None))
    d = shortcuts.dump(m, key, None)
    who = choice('private key', (recipient, None))
    by = choice('public key', (pub(sender) if key else None, None, b''))
    out = attempt(shortcuts.load, d, who, by, False)
    ensure(out.ok, 'received')
    if out.ok:
        same_message(m, out.value)
        ensure(not out.value.encrypted, 'in clear')


@lemma('C29', params=SOME, targets=[DUMP, LOAD])
def several_recipients(name):
    """The same message for one and then for another"""
    m = message(name)
    sender = any_privkey('sender')
    first, second = any_privkey('first'), any_privkey('second')
    d1 = shortcuts.dump(m, sender, pub(first))
    again = attempt(shortcuts.dump, m, sender, pub(second))
    if name in UNSIGNED:
        ensure(again.ok or again.raised(exceptions.SignatureAlreadyExists),
               'need not be signed')
    else:
        ensure(again.raised(exceptions.SignatureAlreadyExists),
               'signed once only')
    d2 = shortcuts.dump(m, None, pub(second))
    d3 = shortcuts.dump(m, None, None)
    for d, key in ((d1, first), (d2, second), (d3, None), (d1, first)):
        out = attempt(shortcuts.load, d, key, pub(sender), check_time=False)
        ensure(out.ok, 'received')
        if out.ok:
            ensure(out.value.sig == m.sig, 'same signature')
            ensure(out.value.get_short_hash() == m.get_short_hash(),
                   'same contents')


@lemma('C29', params=SOME, targets=[DUMP, LOAD])
def another_time(name):
    """Nobody can make a signed message look older or younger"""
    m = message(name)
    sender, recipient = any_privkey('sender'), any_privkey('recipient')
    to = choice('recipient key', (pub(recipient), None))
    d = shortcuts.dump(m, sender, to)
    new = any_int('new timestamp', 0, 2 ** 64 - 1)
    assume(new != m.timestamp)
    e = d[:2] + be(new, 8) + d[10:]
    out = attempt(shortcuts.load, e, recipient, pub(sender),
                  check_time=False)
    if name not in UNSIGNED:
        ensure(out.raised(exceptions.MessageError), 'noticed')


@lemma('C29', params=[n for n in SOME if n not in NESTED and n != 'Hello'
                      and n not in UNSIGNED and n not in (
                          'WantToComputeTask', 'FileTransferToken')],
       targets=[DUMP, LOAD])
def other_contents(name):
    """Nobody can give a signed message other contents"""
    m = message(name)
    sender = any_privkey('sender')
    d = shortcuts.dump(m, sender, None)
    n = 76 + length(cbor(m.slots()))
    new = any_bytes('new contents', minlen=1)
    assume(new != d[76:n])
    e = d[:76] + new
    out = attempt(shortcuts.load, e, None, pub(sender), check_time=False)
    ensure(out.raised(exceptions.MessageError), 'noticed')


def said_to_be_encrypted(name, contents):
    ts = any_int('timestamp', 1262304001, 32819212799)
    sig = any_bytes('signature', n=65)
    e = be(NUMBER[name], 2) + be(ts, 8) + b'\1' + sig + contents
    by = choice('public key', (pub(any_privkey('sender')), None))
    return attempt(shortcuts.load, e, any_privkey('recipient'), by,
                   check_time=False)


@lemma('C29', params=[n for n in SOME if n in ENCRYPTED and n != 'Hello'],
       targets=[LOAD])
def not_encrypted(name):
    """What is said to be encrypted but is not, is no message"""
    contents = any_bytes('contents', minlen=1)
    assume(contents[:1] != b'\4')
    out = said_to_be_encrypted(name, contents)
    ensure(out.raised(exceptions.DecryptionError), 'not decrypted')


@lemma('C29', params=[1, 2, 65, 81, 97, 111, 112], targets=[LOAD])
def too_short(n):
    """What is too short to be encrypted is no message"""
    out = said_to_be_encrypted('Ping', any_bytes('contents', n=n))
    ensure(out.raised(exceptions.MessageError), 'refused')


@lemma('C29', params=SOME, targets=[LOAD])
def fresh(name):
    """Only new messages, unless told otherwise"""
    m = message(name)
    sender, recipient = any_privkey('sender'), any_privkey('recipient')
    d = shortcuts.dump(m, sender, pub(recipient))
    now = now_s()
    out = attempt(shortcuts.load, d, recipient, pub(sender))
    again = attempt(shortcuts.load, d, recipient, pub(sender), True)
    ensure(out.ok == again.ok, 'checked unless told')
    if out.ok:
        ensure(m.timestamp <= now + 301, 'not from the future')
    else:
        ensure(out.raised(exceptions.TimestampError), 'for its time')
    out = attempt(shortcuts.load, d, recipient, pub(sender), False)
    ensure(out.ok, 'not checked')
