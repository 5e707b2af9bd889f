"""C03: what is let in, and what the receiver learns about it."""
import struct

from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions, settings

EARLIEST, LATEST = 1262304000, 32819212800
DESERIALIZE = 'golem_messages.message.base.Message.deserialize'


def never(data):
    raise AssertionError('decryption of what is not encrypted')


@lemma('C03', targets=[DESERIALIZE])
def too_short():
    d = any_bytes('data', maxlen=76)
    out = attempt(base.Message.deserialize, d, never,
                  choice('check_time', (True, False)))
    ensure(out.raised(exceptions.MessageError), 'refused')
    ensure(attempt(base.Message.deserialize, None, never)
           .raised(exceptions.MessageError), 'nothing is refused')


@lemma('C03', targets=[
    DESERIALIZE, 'golem_messages.message.base.Message.deserialize_header'])
def gate():
    """Any bytes at all: the type must be known and the timestamp within
    the range"""
    number = any_int('type', 0, 65535)
    ts = any_int('timestamp', 0, 2 ** 64 - 1)
    assume(not_(and_(or_(*[number == n for n in sorted(WIRE)]),
                     ts > EARLIEST, ts < LATEST)))
    d = be(number, 2) + be(ts, 8) + any_bytes('rest', minlen=67)
    out = attempt(base.Message.deserialize, d, never,
                  choice('check_time', (True, False)))
    ensure(out.raised(exceptions.HeaderError), 'refused')
    ensure(not_(out.raised(exceptions.TimestampError)), 'as a bad header')


@lemma('C03', params=NAMES, targets=[
    DESERIALIZE, 'golem_messages.message.base.Message.deserialize_header'])
def header_range(name):
    """The header of every class is accepted exactly within the range"""
    ts = any_int('timestamp', 0, 2 ** 64 - 1)
    flag = any_bytes('flag', 1)
    raw = be(NUMBER[name], 2) + be(ts, 8) + flag
    out = attempt(base.Message.deserialize_header, raw)
    ensure(iff(out.ok, and_(ts > EARLIEST, ts < LATEST)),
           'accepted iff in the range')
    if out.ok:
        cover('accepted')
        ensure(out.value.type_ == NUMBER[name], 'type')
        ensure(eq(out.value.timestamp, ts), 'timestamp')
        ensure(iff(out.value.encrypted, flag != b'\0'), 'encrypted')
        ensure(type(out.value.encrypted) is bool, 'flag is a boolean')
    else:
        ensure(out.raised(exceptions.HeaderError), 'header error')


@lemma('C03', targets=[
    'golem_messages.message.base.Message.unpack_header',
    'golem_messages.message.base.Message.deserialize_header'])
def header_of_any_bytes():
    raw = any_val('raw', kinds='none bool int float str bytes list'.split())
    out = attempt(base.Message.deserialize_header, raw)
    if out.ok:
        ensure(kind(raw, 'bytes') and len(as_bytes(raw)) == 11,
               'only eleven bytes')
    else:
        ensure(out.raised(exceptions.HeaderError), 'or a header error')


class Broken(Exception):
    pass


@lemma('C03', params=('RandVal', 'Hello', 'Degree', 'WantToComputeTask',
                      'ReportComputedTask', 'ServiceRefused',
                      'ResourceHandshakeStart'),
       targets=[
    DESERIALIZE,
    'golem_messages.message.base.Message.deserialize_with_header'])
def decryption(name):
    """Exactly what follows the signature is decrypted, once, if and only if
    the flag says so; its failures are reported"""
    m = any_message(name)
    assume(and_(m.timestamp > EARLIEST, m.timestamp < LATEST))
    flag = choice('encrypted', (False, True))
    secret = any_bytes('ciphertext', minlen=1)
    clear = cbor(m.slots())
    tail = b''
    if name == 'Hello':
        tail = struct.pack('!32p', m._version.encode('ascii', 'replace'))
    how = choice('decryption', ('works', 'DecryptionError', 'MessageError',
                                'FieldError', 'ValueError', 'Broken'))
    calls = []

    def decrypt(*args, **kw):
        calls.append((args, kw))
        if how == 'works':
            return clear
        if how == 'ValueError':
            raise ValueError('no')
        if how == 'Broken':
            raise Broken()
        raise getattr(exceptions, how)('no')
    d = be(NUMBER[name], 2) + be(m.timestamp, 8) + \
        (b'\1' if flag else b'\0') + m.sig + (secret if flag else clear) + tail
    out = attempt(base.Message.deserialize, d, decrypt, check_time=False)
    if not flag:
        cover('in clear')
        ensure(not calls, 'not decrypted')
        ensure(out.ok, 'accepted')
    else:
        cover('encrypted')
        ensure(len(calls) == 1 and len(calls[0][0]) == 1
               and not calls[0][1], 'decrypted once')
        ensure(same(calls[0][0][0], secret), 'what follows the signature')
        if how == 'works':
            ensure(out.ok, 'accepted')
        elif how in ('ValueError', 'Broken'):
            ensure(out.raised(exceptions.DecryptionError),
                   'unexpected failures are decryption errors')
        else:
            ensure(out.raised(getattr(exceptions, how)),
                   'message errors come through')
            ensure(type(out.exc) is getattr(exceptions, how),
                   'as they are')
    if out.ok:
        v = out.value
        ensure(type(v) is by_name(name), 'class of its number')
        ensure(v.header.type_ == NUMBER[name], 'type')
        ensure(eq(v.timestamp, m.timestamp), 'timestamp')
        ensure(v.encrypted == flag, 'encrypted')
        ensure(same(v.sig, m.sig), 'signature')


@lemma('C03', params=('RandVal', 'Disconnect', 'PullAnswer'),
       targets=['golem_messages.message.base.Message.load_slots'])
def contents_which_are_no_fields(name):
    """Undecodable contents are refused"""
    body = any_bytes('body', minlen=1)
    ts = any_int('timestamp', EARLIEST + 1, LATEST - 1)
    d = be(NUMBER[name], 2) + be(ts, 8) + b'\0' + any_bytes('sig', 65) + body
    out = attempt(base.Message.deserialize, d, never, check_time=False)
    if out.ok:
        ensure(type(out.value) is by_name(name), 'class')
