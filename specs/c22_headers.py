"""C22: signatures of task headers."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import cryptography, exceptions, serializer
from golem_messages.datastructures.tasks import TaskHeader

H = 'golem_messages.datastructures.tasks.TaskHeader.'
SLOTS = ('mask', 'timestamp', 'task_id', 'task_owner', 'deadline',
         'subtask_timeout', 'market_type', 'environment',
         'environment_prerequisites', 'min_version', 'estimated_memory',
         'max_price', 'subtask_budget', 'subtasks_count',
         'concent_enabled')


def value(slot, tag):
    """Any good value, in the form given by users"""
    t = tag + slot
    if slot == 'mask':
        return masking.Mask(byte_repr=any_bytes(t, n=masking.Mask.MASK_BYTES))
    if slot in ('timestamp', 'deadline', 'estimated_memory', 'max_price',
                'subtask_budget'):
        return any_int(t)
    if slot == 'subtask_timeout':
        return any_int(t, 0)
    if slot == 'subtasks_count':
        return any_int(t, 1)
    if slot in ('task_id', 'environment'):
        return any_str(t, maxlen=128)
    if slot == 'task_owner':
        return node(t)
    if slot == 'market_type':
        return choice(t, list(TaskHeader.MARKET_TYPE))
    if slot == 'environment_prerequisites':
        return any_dict(t)
    if slot == 'min_version':
        return version_text(t)
    if slot == 'concent_enabled':
        return any_bool(t)


def any_header(tag='', **fixed):
    h = TaskHeader(task_id='', task_owner={}, subtasks_count=1,
                   min_version='0.0.0', timestamp=0)
    for s in SLOTS:
        setattr(h, s, fixed[s] if s in fixed else value(s, tag))
    return h


def hash_of(h):
    """Of everything but the signature, as sent"""
    d = h.to_dict()
    return sha('sha1', serializer.dumps(
        {k: d[k] for k in d if k != 'signature'}))


@lemma('C22', targets=[H + 'sign', H + 'verify', H + 'get_hash'])
def signed_by():
    """Signed by any key: verifies for that key and no other"""
    h = any_header()
    key, other = any_privkey('key'), any_privkey('other')
    h.signature = choice('before', (None, b'other'))
    ensure(h.sign(key) is None, 'signed')
    ensure(eq(h.signature, cryptography.ecdsa_sign(key, hash_of(h))),
           'the signature of the contents')
    ensure(h.verify(pub(key)) is True, 'verifies')
    out = attempt(h.verify, pub(other))
    ensure(iff(out.ok, pub(other) == pub(key)), 'for no other key')
    if not out.ok:
        cover('refused')
        ensure(out.raised(exceptions.InvalidSignature), 'badly signed')


@lemma('C22', params=SLOTS, targets=[H + 'sign', H + 'verify',
                                     H + 'get_hash'])
def altered(slot):
    """A header altered in any part after signing does not verify"""
    h = any_header()
    key = any_privkey('key')
    h.sign(key)
    before = h.to_dict()[slot]
    setattr(h, slot, value(slot, 'other '))
    after = h.to_dict()[slot]
    out = attempt(h.verify, pub(key))
    ensure(iff(out.ok, same(before, after)), 'verifies iff unaltered')
    if not out.ok:
        cover('refused')
        ensure(out.raised(exceptions.InvalidSignature), 'badly signed')
    else:
        cover('unaltered')


@lemma('C22', targets=[H + 'verify', H + 'get_hash'])
def any_signature():
    """Any signature at all"""
    h = any_header()
    key = any_privkey('key')
    h.signature = any_bytes('signature')
    good = attempt(cryptography.ecdsa_verify, pub(key), h.signature,
                   hash_of(h)).ok
    out = attempt(h.verify, pub(key))
    ensure(iff(out.ok, good), 'verifies iff a signature of the contents')
    if not out.ok:
        ensure(out.raised(exceptions.InvalidSignature), 'badly signed')
    h.signature = None
    out = attempt(h.verify, pub(key))
    ensure(out.raised(exceptions.InvalidSignature), 'none is no signature')


@lemma('C22', targets=[H + 'to_dict', H + 'sign', H + 'verify',
                       H + 'deserialize_task_owner', H + 'deserialize_mask',
                       H + 'deserialize_market_type'])
def passed_on():
    """A signed header verifies with whoever gets it from whomever"""
    h = any_header()
    key, other = any_privkey('key'), any_privkey('other')
    h.sign(key)
    got = TaskHeader(**serializer.loads(serializer.dumps(h.to_dict())))
    ensure(eq(got.get_hash(), h.get_hash()), 'same hash')
    ensure(eq(got.get_hash(), hash_of(h)), 'of the contents')
    ensure(eq(got.signature, h.signature), 'same signature')
    out = attempt(got.verify, pub(other))
    ensure(iff(out.ok, pub(other) == pub(key)), 'verifies for the signer')
    again = TaskHeader(**got.to_dict())
    ensure(again.verify(pub(key)) is True, 'and further on')
