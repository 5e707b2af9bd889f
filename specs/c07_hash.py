"""C07: what the signature of a message covers."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions

HASH = 'golem_messages.message.base.Message.get_short_hash'


@lemma('C07', params=NAMES, targets=[HASH])
def definition(name):
    """The hash of a message is the SHA-1 of its type and time, encoded, and
    then its contents, encoded; followed by the version for the greeting"""
    m = any_message(name)
    body = cbor(m.slots())
    want = sha('sha1', cbor([NUMBER[name], m.timestamp]) + body)
    given = any_bytes('given', minlen=1)
    other = sha('sha1', cbor([NUMBER[name], m.timestamp]) + given)
    if name == 'Hello':
        want = want + m._version.encode('ascii', 'replace')
        other = other + m._version.encode('ascii', 'replace')
    ensure(eq(m.get_short_hash(), want), 'of its own contents')
    ensure(eq(m.get_short_hash(given), other), 'or of those given')
    flag = m.encrypted
    m.encrypted = not flag
    ensure(m.encrypted == (not flag), 'flag')
    ensure(m.header.type_ == NUMBER[name], 'type')
    ensure(eq(m.get_short_hash(), want), 'encrypted or not')
    m.sig = None
    ensure(eq(m.get_short_hash(), want), 'signed or not')


@lemma('C07', params=[n for n in NAMES if n not in LISTS], targets=[HASH])
def covers_everything(name):
    """Messages of the same hash have the same type, time and contents"""
    covers(name)


def covers(name):
    a, b = any_message(name, 'a/'), any_message(name, 'b/')
    assume(eq(a.get_short_hash(), b.get_short_hash()))
    b.sig = a.sig
    cover('equal hashes')
    same_message(a, b)


@lemma('C07', params=LISTS, targets=[HASH],
       bounded='lists of at most two elements')
def lists_cover_everything(name):
    covers(name)


@lemma('C07', params=LISTS, targets=[HASH])
def any_lists_cover_everything(name):
    any_length(covers, name)


@lemma('C07', targets=[HASH])
def covers_the_type():
    """Messages of different types never have the same hash"""
    x = choice('one', ('RandVal', 'ChallengeSolution', 'Disconnect', 'Ping'))
    y = choice('other', ('Pong', 'GetPeers', 'Degree', 'Gossip',
                         'SubtaskPaymentRequest'))
    a, b = any_message(x, 'a/'), any_message(y, 'b/')
    ensure(not_(eq(a.get_short_hash(), b.get_short_hash())), 'different')


@lemma('C07', params=('Ping', 'RandVal', 'GetTasks'), targets=[HASH])
def follows_the_contents(name):
    """The hash is of what the message holds at the moment"""
    m = any_message(name)
    for f in FIELDS[name]:
        old = cbor(getattr(m, f))
        h = m.get_short_hash()
        setattr(m, f, any_wire('new ' + f))
        ensure(iff(eq(cbor(getattr(m, f)), old), eq(m.get_short_hash(), h)),
               'changes iff the field does')
    ts = m.timestamp
    h = m.get_short_hash()
    m.header = header(name, 'new ')
    ensure(iff(m.timestamp == ts, eq(m.get_short_hash(), h)),
           'changes iff the time does')
