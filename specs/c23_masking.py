"""C23: masks behave as sets of 256 bits and match by digest."""
from vc import *  # noqa
from golem_messages.datastructures.masking import Mask

ALL = 256


def any_mask(name='mask'):
    return Mask(any_bytes(name, 32, number=True))


def value(b):
    """The number a byte string denotes, most significant byte first"""
    return int.from_bytes(b, 'big')


def bit(b, i):
    """Is bit i (counted from the least significant) of the bytes set?"""
    return (b[31 - i // 8] >> (i % 8)) & 1 == 1


@lemma('C23', targets=['golem_messages.datastructures.masking.Mask.to_bits'])
def bits_are_the_ones():
    raw = any_bytes('mask', 32, number=True)
    m = Mask(raw)
    bits = m.to_bits()
    for i in range(0, ALL):
        ensure(iff(i in bits, bit(raw, i)), 'bit is reported iff set')
    ensure(m.to_bytes() == raw, 'the bytes are kept')
    ensure(m.to_int() == value(raw), 'the number is the bytes, big endian')
    ensure(m.num_bits == len(bits), 'the count is the size')
    ensure(all_([0 <= x for x in (len(bits),)]), 'never negative')


@lemma('C23', targets=['golem_messages.datastructures.masking.Mask.to_bits'])
def bits_are_in_range():
    m = any_mask()
    bits = m.to_bits()
    n = any_int('n')
    assume(or_(n < 0, n >= ALL))
    ensure(not_(n in bits), 'only positions 0..255')


@lemma('C23', targets=['golem_messages.datastructures.masking.Mask.to_bin'])
def binary_text():
    raw = any_bytes('mask', 32, number=True)
    t = Mask(raw).to_bin()
    ensure(len(t) == ALL, '256 digits')
    ensure(int(t, 2) == value(raw), 'of the same number')


@lemma('C23',
       targets=['golem_messages.datastructures.masking.Mask.from_bits'])
def from_bits_round_trip():
    m = any_mask()
    back = Mask.from_bits(m.to_bits())
    ensure(same(back.to_bytes(), m.to_bytes()), 'from bits to bits')
    again = Mask.from_dict({'byte_repr': m.to_bytes()})
    ensure(same(again.to_bytes(), m.to_bytes()), 'from its dictionary form')


@lemma('C23',
       targets=['golem_messages.datastructures.masking.Mask.from_bits'])
def from_bits_few():
    a = choice('a', range(0, 256, 51))
    b = choice('b', range(0, 256, 15))
    m = Mask.from_bits({a, b})
    ensure(m.to_bits() == {a, b}, 'exactly these bits')
    ensure(value(m.to_bytes()) == (1 << a) | (1 << b), 'at their weights')


@lemma('C23',
       targets=['golem_messages.datastructures.masking.Mask.__init__'])
def default_is_empty():
    ensure(Mask().to_bytes() == bytes(32), 'all clear')
    ensure(len(Mask().to_bits()) == 0, 'no bits')
    addr = any_bytes('address')
    ensure(Mask().matches(addr), 'the empty mask matches everyone')
    ensure(implies(Mask(b'\xff' * 32).matches(addr),
                   sha('sha256', addr) == bytes(32)),
           'the full mask matches only the zero digest')


@lemma('C23', targets=['golem_messages.datastructures.masking.Mask.matches'])
def matches_by_digest():
    raw, addr = any_bytes('mask', 32, number=True), any_bytes('address')
    digest = sha('sha256', addr)
    clash = or_(*[(raw[i] & digest[i]) != 0 for i in range(32)])
    ensure(iff(Mask(raw).matches(addr), not_(clash)),
           'matches iff no set bit is set in the digest of the address')


@lemma('C23', targets=['golem_messages.datastructures.masking.Mask.matches'])
def more_bits_match_fewer():
    """Narrowing: a mask with more bits never matches anyone the smaller
    one does not."""
    a, b, addr = any_mask('a'), any_mask('b'), any_bytes('address')
    u = Mask.from_bits(a.to_bits() | b.to_bits())
    ensure(iff(u.matches(addr), and_(a.matches(addr), b.matches(addr))),
           'the union matches iff both do')


@lemma('C23', targets=['golem_messages.datastructures.masking.Mask.increase'])
def increase_adds_bits():
    m = any_mask()
    n = any_int('n', -3, 300)
    raw = m.to_bytes()
    old = m.to_bits()
    out = attempt(m.increase, n)
    ensure(iff(out.ok, n >= 0), 'accepted iff not negative')
    new = m.to_bits()
    if out.ok:
        cover('increases')
        room = ALL - len(old)
        ensure(len(new) == len(old) + ite(n < room, n, room),
               'that many bits more, up to all')
        ensure(old <= new, 'no bit is lost')
    else:
        cover('rejects')
        ensure(out.raised(ValueError), 'value error')
        ensure(same(m.to_bytes(), raw), 'nothing changes')
    ensure(len(m.to_bytes()) == 32, 'still 32 bytes')


@lemma('C23', targets=['golem_messages.datastructures.masking.Mask.decrease'])
def decrease_removes_bits():
    m = any_mask()
    n = any_int('n', -3, 300)
    raw = m.to_bytes()
    old = m.to_bits()
    out = attempt(m.decrease, n)
    ensure(iff(out.ok, n >= 0), 'accepted iff not negative')
    new = m.to_bits()
    if out.ok:
        cover('decreases')
        ensure(len(new) == len(old) - ite(n < len(old), n, len(old)),
               'that many bits fewer, down to none')
        ensure(new <= old, 'no bit is added')
    else:
        cover('rejects')
        ensure(out.raised(ValueError), 'value error')
        ensure(same(m.to_bytes(), raw), 'nothing changes')
    ensure(len(m.to_bytes()) == 32, 'still 32 bytes')


@lemma('C23', targets=['golem_messages.datastructures.masking.Mask.increase'])
def defaults_are_one_bit():
    m = any_mask()
    n = m.num_bits
    m.increase()
    ensure(m.num_bits == ite(n < ALL, n + 1, ALL), 'one more')
    m.decrease()
    ensure(m.num_bits == ite(n < ALL, n, ALL - 1), 'one less')


@lemma('C23', targets=['golem_messages.datastructures.masking.Mask.generate'])
def generate_has_the_requested_bits():
    n = any_int('n', -5, 400)
    out = attempt(Mask.generate, n)
    ensure(iff(out.ok, n >= 0), 'accepted iff not negative')
    if out.ok:
        cover('generates')
        ensure(out.value.num_bits == ite(n < ALL, n, ALL),
               'exactly that many bits, up to all')
        ensure(len(out.value.to_bytes()) == 32, '32 bytes')
    else:
        ensure(out.raised(ValueError), 'value error')
    ensure(Mask.generate().num_bits == 0, 'none by default')


@lemma('C23', targets=[
    'golem_messages.datastructures.masking.Mask.get_mask_for_task'])
def mask_for_task():
    want = any_int('desired', 1, 2 ** 40)
    pot = any_int('potential', -3, 2 ** 40)
    m = Mask.get_mask_for_task(want, pot)
    n = m.num_bits
    if pot < 1:
        cover('no workers')
        ensure(n == 0, 'no potential workers: empty mask')
    else:
        cover('workers')
        for k in range(0, 41):
            ensure(iff(n == 0, want >= pot), 'no bits iff enough are wanted')
            ensure(implies(n == k, and_(
                want * 2 ** k >= pot,
                or_(k == 0, want * 2 ** (k - 1) < pot))),
                'the fewest bits that bring the expected number down to at '
                'most the desired one')
        ensure(n <= 40, 'bounded')
