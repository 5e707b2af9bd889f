"""C02: how a message looks on the wire."""
import struct

from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions



def pascal32(v):
    return struct.pack('!32p', v.encode('ascii', 'replace'))


@lemma('C02', params=[n for n in NAMES if n not in LISTS],
       targets=['golem_messages.message.base.Message.serialize',
                'golem_messages.message.base.Message.serialize_header'])
def layout(name):
    check_layout(name)


@lemma('C02', params=LISTS,
       targets=['golem_messages.message.base.Message.serialize',
                'golem_messages.message.base.Message.serialize_header'])
def lists_layout(name):
    any_length(check_layout, name)


def check_layout(name):
    m = any_message(name)
    enc = choice('encryption', (False, True))
    secret = any_bytes('ciphertext')
    calls = []

    def encrypt(data):
        calls.append(data)
        return secret
    ts, sig = m.timestamp, m.sig
    want = cbor(m.slots())
    d = m.serialize(encrypt_func=encrypt if enc else None)
    hidden = enc and name not in UNENCRYPTED
    body = secret if hidden else want
    tail = b''
    if name == 'Hello':
        tail = pascal32(m._version)
    ensure(eq(d[:2], be(NUMBER[name], 2)), 'starts with the type number')
    ensure(eq(d[2:10], be(ts, 8)), 'then the timestamp')
    ensure(eq(d[10:11], b'\1' if hidden else b'\0'),
           'then whether it is encrypted')
    ensure(eq(d[11:76], sig), 'then the signature, in clear')
    ensure(eq(d[76:], body + tail), 'then the contents')
    if hidden:
        cover('encrypted')
        ensure(len(calls) == 1, 'encrypted once')
        ensure(eq(calls[0], want), 'the contents and nothing else')
    else:
        ensure(not calls, 'not encrypted')


def raw_form(name, f, v):
    """The wire form of a field's value"""
    if (name, f) in (('Peers', 'peers'), ):
        return each(v, lambda p: dict(
            address=p['address'], port=p['port'], node=p['node'].to_dict()))
    if (name, f) in (('Tasks', 'tasks'), ):
        return each(v, lambda h: h.to_dict())
    if f in NODES.get(name, ()) or f in ('task_header', 'stats'):
        return None if v is None else v.to_dict()
    if name == 'FileTransferToken' and f == 'files':
        return each(v, lambda i: dict(
            path=i['path'], checksum=i['checksum'], size=i['size'],
            category=i['category']))
    if f in NESTED.get(name, {}):
        if v is None:
            return (False, None)
        if NESTED[name][f][-1] == '*':
            return (True, each(v, lambda x: (x.header, x.sig, x.slots())))
        return (False, (v.header, v.sig, v.slots()))
    if f in ENUMS.get(name, {}):
        return None if v is None else ENUMS[name][f][v.name]
    return v


@lemma('C02', params=[n for n in NAMES if n not in LISTS],
       targets=['golem_messages.message.base.Message.slots',
                'golem_messages.message.base.Message.serialize_slot',
                'golem_messages.message.base.Message.serialize_message',
                'golem_messages.message.base.Message.'
                'serialize_message_single'])
def contents(name):
    check_contents(name)


@lemma('C02', params=LISTS,
       targets=['golem_messages.message.base.Message.slots',
                'golem_messages.message.base.Message.serialize_slot',
                'golem_messages.message.base.Message.serialize_message',
                'golem_messages.message.base.Message.'
                'serialize_message_single'])
def lists_contents(name):
    any_length(check_contents, name)


def check_contents(name):
    """The contents are the fields in the published order, with their names,
    in wire form"""
    m = any_message(name)
    got = m.slots()
    ensure(len(got) == len(FIELDS[name]), 'all fields and nothing else')
    for i in range(len(got)):
        f = FIELDS[name][i]
        ensure(got[i][0] == f, 'field %s at its place' % f)
        ensure(wire_same(got[i][1], raw_form(name, f, getattr(m, f))),
               'value of ' + f)


@lemma('C02', targets=['golem_messages.message.base.Message'])
def flags():
    """Which messages are neither signed nor encrypted"""
    for name in NAMES:
        c = by_name(name)
        ensure(c.SIGN == (name not in UNSIGNED), 'signed: ' + name)
        ensure(c.ENCRYPT == (name not in UNENCRYPTED), 'encrypted: ' + name)
    ensure(base.Message.HDR_LEN == 11, 'length of the header')
    ensure(base.Message.SIG_LEN == 65, 'length of the signature')
    ensure(base.Hello.VERSION_LENGTH == 32, 'length of the version')


@lemma('C02', params=('RandVal', 'Hello', 'Disconnect', 'Ping'),
       targets=['golem_messages.message.base.Message.__init__'])
def timestamp_of_a_new_message(name):
    """A message made without a header carries its type number and the
    current time in whole seconds"""
    m = by_name(name)()
    ensure(m.header.type_ == NUMBER[name], 'type')
    ensure(eq(m.timestamp, now_s()), 'time')
    ensure(m.encrypted is False, 'not encrypted')
    ensure(m.sig is None, 'not signed')


@lemma('C02', params=sorted(ENUMS),
       targets=['golem_messages.message.base.AbstractReasonMessage'])
def enumerations(name):
    """The wire texts of the enumerations are the published ones"""
    for f in ENUMS[name]:
        e = enum_of(name, f)
        got = dict((k, x.value) for k, x in e.__members__.items())
        ensure(got == ENUMS[name][f], f)
