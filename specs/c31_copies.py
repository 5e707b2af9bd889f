"""C31: signed copies, and forms of keys and identifiers."""
import uuid

from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import utils

U = 'golem_messages.utils.'


@lemma('C31', params=NAMES, targets=[U + 'copy_and_sign'])
def signed_copy(name):
    """A copy of an unsigned message is signed, and nothing else differs"""
    m = any_message(name, sig=False)
    key, other = any_privkey('key'), any_privkey('other')
    fields = {f: getattr(m, f) for f in FIELDS[name]}
    header_ = m.header
    s = utils.copy_and_sign(m, key)
    ensure(s is not m and type(s) is type(m), 'a copy')
    ensure(m.sig is None, 'the message is not signed')
    ensure(m.header is header_ or m.header == header_, 'header is kept')
    for f in FIELDS[name]:
        ensure(getattr(m, f) is fields[f], f + ' is kept')
        ensure(getattr(s, f) is fields[f] or
               same(getattr(s, f), fields[f]), f + ' is copied')
    ensure(s.header == header_, 'same header')
    ensure(s.verify_signature(pub(key)), 'signed with the key')
    ensure(same(s.get_short_hash(), m.get_short_hash()), 'same hash')
    t = utils.copy_and_sign(s, other)
    ensure(t is s, 'what is signed is not copied')
    ensure(s.verify_signature(pub(key)), 'and keeps its signature')
    if name != 'Hello':
        m.sig = s.sig
        ensure(same(s.serialize(), m.serialize()), 'same wire form')


@lemma('C31', params=NAMES, targets=[U + 'copy_and_sign'])
def signed_already(name):
    """A signed message stays as it is, whoever has signed it"""
    m = any_message(name, sig=False)
    sig = any_bytes('sig', maxlen=65)
    m.sig = sig
    fields = {f: getattr(m, f) for f in FIELDS[name]}
    s = utils.copy_and_sign(m, any_privkey('key'))
    ensure(s is m, 'the message itself')
    ensure(same(m.sig, sig), 'signature is kept')
    for f in FIELDS[name]:
        ensure(getattr(m, f) is fields[f], f + ' is kept')


@lemma('C31', params=('RandVal', 'Disconnect', 'WantToComputeTask',
                      'TaskToCompute', 'ForcePayment'),
       targets=[U + 'copy_and_sign'])
def independent(name):
    """What is changed in the copy is not changed in the original"""
    m = any_message(name, sig=False)
    s = utils.copy_and_sign(m, any_privkey('key'))
    f = choice('field', FIELDS[name])
    x, v = getattr(m, f), any_wire('value')
    before, sig = m.slots(), s.sig
    setattr(s, f, v)
    s.header = header(name, 'other')
    ensure(getattr(m, f) is x, 'field')
    m.sig = b''
    ensure(same(s.sig, sig), 'signature')
    ensure(same(m.slots(), before), 'contents')


@lemma('C31', targets=[U + 'encode_hex', U + 'decode_hex'])
def hexadecimal():
    """Any bytes and any text have a hexadecimal form"""
    b, t = any_bytes('bytes'), any_str('text')
    h = utils.encode_hex(b)
    ensure(length(h) == 2 * length(b), 'two digits each')
    ensure(same(h, b.hex()), 'form')
    ensure(same(utils.decode_hex(h), b), 'same bytes')
    ensure(same(utils.decode_hex(utils.encode_hex(t)), t.encode()),
           'text in UTF-8')


@lemma('C31', targets=[U + 'encode_hex'])
def no_bytes():
    """Nothing else has one"""
    v = any_val('value', kinds='none bool int float list dict'.split())
    ensure(attempt(utils.encode_hex, v).raised(TypeError), 'refused')


@lemma('C31', targets=[U + 'uuid_to_bytes32', U + 'bytes32_to_uuid'])
def uuids():
    """A UUID and its form as 32 bytes"""
    i = uuid.UUID(any_uuid('id'))
    b = utils.uuid_to_bytes32(i)
    ensure(same(b, i.bytes + bytes(16)), '32 bytes')
    ensure(utils.bytes32_to_uuid(b) == i, 'same UUID')
    ensure(utils.uuid_to_bytes32(utils.bytes32_to_uuid(b)) == b, 'and back')
    raw = any_bytes('raw', n=16)
    ensure(same(utils.bytes32_to_uuid(raw + bytes(16)).bytes, raw),
           'any bytes are one')


@lemma('C31', targets=[U + 'pubkey_to_address'])
def addresses():
    """The address of a public key, in whatever form it is given"""
    k = any_bytes('key', n=64)
    a = utils.pubkey_to_address(k)
    ensure(same(a, address_of(k)), 'its address')
    ensure(same(utils.pubkey_to_address(k.hex()), a), 'in hexadecimal form')
    ensure(same(utils.pubkey_to_address('0x' + k.hex()), a), 'with a prefix')
    ensure(same(utils.pubkey_to_address(utils.encode_hex(k)), a), 'encoded')
    ensure(and_(length(a) == 42, a[:2] == '0x'), 'form')
