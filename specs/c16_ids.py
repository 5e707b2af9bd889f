"""C16: identifiers carry the mark of who they were generated for."""
import uuid

from vc import *  # noqa
from golem_messages import idgenerator

G = 'golem_messages.idgenerator.'
UTILS = 'golem_messages.utils.'


def hexed(b):
    return b.hex()


def mark(seed):
    return seed[:6]


@lemma('C16', targets=[G + 'generate_id', G + 'check_id_seed',
                       G + 'seed_to_node'])
def own_seed():
    """An identifier passes the check for the seed it was generated for, and
    for another seed exactly when they begin alike"""
    seed = any_bytes('seed', minlen=6)
    other = any_bytes('other', minlen=6)
    i = idgenerator.generate_id(seed)
    ensure(is_uuid(i), 'a UUID')
    ensure(length(i) == 36, 'in its usual form')
    ensure(eq(uuid.UUID(i).bytes[10:], mark(seed)), 'marked with the seed')
    ensure(idgenerator.check_id_seed(i, seed) is True, 'passes')
    ensure(iff(idgenerator.check_id_seed(i, other),
               eq(mark(seed), mark(other))), 'for no other seed')


@lemma('C16', targets=[G + 'generate_id_from_hex', G + 'check_id_hex_seed',
                       G + 'hex_seed_to_node', UTILS + 'decode_hex'])
def hex_seed():
    """The same with the seed in hexadecimal form"""
    seed = any_bytes('seed', minlen=6)
    other = any_bytes('other', minlen=6)
    i = idgenerator.generate_id_from_hex(hexed(seed))
    ensure(is_uuid(i), 'a UUID')
    ensure(eq(uuid.UUID(i).bytes[10:], mark(seed)), 'marked with the seed')
    ensure(idgenerator.check_id_hex_seed(i, hexed(seed)) is True, 'passes')
    ensure(idgenerator.check_id_seed(i, seed) is True, 'passes in bytes')
    ensure(iff(idgenerator.check_id_hex_seed(i, hexed(other)),
               eq(mark(seed), mark(other))), 'for no other seed')
    ensure(eq(idgenerator.hex_seed_to_node(hexed(seed)),
              idgenerator.seed_to_node(seed)), 'same node')


@lemma('C16', targets=[G + 'generate_new_id_from_id', G + 'check_id_seed'])
def from_another():
    """An identifier generated from another one is for the same seed"""
    old = any_uuid('old')
    seed = any_bytes('seed', minlen=6)
    new = idgenerator.generate_new_id_from_id(old)
    ensure(is_uuid(new), 'a UUID')
    ensure(eq(uuid.UUID(new).bytes[10:], uuid.UUID(old).bytes[10:]),
           'same mark')
    ensure(iff(idgenerator.check_id_seed(new, seed),
               idgenerator.check_id_seed(old, seed)),
           'passes for the same seeds')


@lemma('C16', targets=[G + 'check_id_seed', G + 'check_id_hex_seed'])
def any_text():
    """Any text passes exactly when it is a UUID with the mark"""
    text = any_str('text', hint='uuid')
    seed = any_bytes('seed', minlen=6)
    how = choice('seed', ('bytes', 'hex'))
    if how == 'bytes':
        out = idgenerator.check_id_seed(text, seed)
    else:
        out = idgenerator.check_id_hex_seed(text, hexed(seed))
    if not is_uuid(text):
        cover('no UUID')
        ensure(out is False, 'no UUID does not pass')
        return
    cover('a UUID')
    ensure(iff(out, eq(uuid.UUID(text).bytes[10:], mark(seed))),
           'passes iff marked')


@lemma('C16', targets=[G + 'seed_to_node', G + 'generate_id'])
def short_seed():
    """Seeds shorter than the mark are padded in front"""
    n = choice('length', (0, 1, 2, 3, 4, 5))
    seed = any_bytes('seed', n=n)
    i = idgenerator.generate_id(seed)
    ensure(eq(uuid.UUID(i).bytes[10:], b'\0' * (6 - n) + seed), 'padded')
    ensure(idgenerator.check_id_seed(i, seed) is True, 'passes')


@lemma('C16', targets=[G + 'generate_id', G + 'generate_new_id_from_id'])
def unique():
    """No two generated identifiers are equal"""
    seed, other = any_bytes('seed', minlen=6), any_bytes('other', minlen=6)
    a = idgenerator.generate_id(seed)
    b = idgenerator.generate_id(other)
    c = idgenerator.generate_new_id_from_id(a)
    ensure(a != b and a != c and b != c, 'different')
