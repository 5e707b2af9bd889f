"""C15: a received TaskToCompute is from who it says."""
import uuid

from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import cryptography, exceptions
from golem_messages.message.tasks import TaskToCompute

TTC = 'golem_messages.message.tasks.TaskToCompute.'
RECEIVE = TTC + 'deserialize_with_header'


def in_range(m):
    assume(and_(m.timestamp > 1262304000, m.timestamp < 32819212800))


def received(m):
    d = m.serialize()
    return attempt(base.Message.deserialize, d, None, check_time=False)


@lemma('C15', targets=[RECEIVE, TTC + 'verify_ethsig'])
def control_of_the_address():
    """Accepted exactly when the signature of the offer is by the owner of
    the Ethereum key"""
    m = valid_task_to_compute('')
    in_range(m)
    key = any_privkey('key')
    m.requestor_ethereum_public_key = hexed(pub(key))
    how = choice('signature', ('any key', 'any signature', 'none'))
    if how == 'any key':
        other = any_privkey('other')
        m.generate_ethsig(other)
        good = pub(other) == pub(key)
    elif how == 'any signature':
        m.ethsig = any_sig('ethsig')
        good = attempt(cryptography.ecdsa_verify, pub(key), m.ethsig,
                       m.want_to_compute_task.get_short_hash()).ok
    else:
        m.ethsig = None
        good = False
    out = received(m)
    ensure(iff(out.ok, good), 'accepted iff signed by the owner')
    if out.ok:
        cover('accepted')
    else:
        cover('refused')
        ensure(out.raised(exceptions.InvalidSignature), 'as badly signed')


@lemma('C15', params=FIELDS['WantToComputeTask'] + ['timestamp', 'sig'],
       targets=[RECEIVE, TTC + 'verify_ethsig'])
def for_this_offer(field):
    """The signature is of this very offer, whoever signed the offer"""
    m = valid_task_to_compute('')
    in_range(m)
    w = m.want_to_compute_task
    if field == 'timestamp':
        old, w.header = w.header, header('WantToComputeTask', 'other')
        unchanged = w.timestamp == old.timestamp
    elif field == 'sig':
        w.sig = any_bytes('other sig', n=65)
        unchanged = True
    else:
        old = getattr(w, field)
        setattr(w, field, field_value('WantToComputeTask', field, 'other '))
        if field == 'task_header':
            unchanged = same(old.to_dict(), w.task_header.to_dict())
        else:
            unchanged = same(old, getattr(w, field))
    out = received(m)
    ensure(iff(out.ok, unchanged), 'accepted iff unchanged')
    if not out.ok:
        cover('refused')
        ensure(out.raised(exceptions.InvalidSignature), 'as badly signed')


@lemma('C15', params=('task_id', 'subtask_id'),
       targets=[RECEIVE, TTC + 'validate_taskid'])
def identifiers(which):
    """Accepted exactly when the identifiers are marked for the requestor"""
    m = valid_task_to_compute('')
    in_range(m)
    ids = {k: m.compute_task_def[k] for k in ('task_id', 'subtask_id')}
    seed = bytes.fromhex(m.requestor_id)
    text = any_str('identifier', maxlen=128, hint=[
        'x', '', ids[which], str(uuid.UUID(int=1))])
    ids[which] = text
    m.compute_task_def = tasks.ComputeTaskDef(ids)
    out = received(m)
    if is_uuid(text):
        cover('a UUID')
        ensure(iff(out.ok, eq(uuid.UUID(text).bytes[10:], seed[:6])),
               'accepted iff marked')
    else:
        cover('no UUID')
        ensure(not out.ok, 'not accepted')
    if not out.ok:
        ensure(out.raised(exceptions.FieldError), 'field error')
        ensure(out.exc.field == which, 'names the field')
        ensure(same(out.exc.value, text), 'carries the value')


@lemma('C15', targets=[TTC + 'generate_ethsig', TTC + 'verify_ethsig'])
def signing():
    """Needs the public key; what was signed verifies"""
    m = any_message('TaskToCompute')
    key = any_privkey('key')
    m.requestor_ethereum_public_key = choice('no key', (None, '', b''))
    old = m.ethsig
    out = attempt(m.generate_ethsig, key)
    ensure(out.raised(exceptions.FieldError), 'field error')
    ensure(out.exc.field == 'requestor_ethereum_public_key', 'names it')
    ensure(same(m.ethsig, old), 'nothing signed')
    m.requestor_ethereum_public_key = hexed(pub(key))
    m.generate_ethsig(key)
    ensure(eq(m.ethsig, cryptography.ecdsa_sign(
        key, m.want_to_compute_task.get_short_hash())),
        'signature of the offer')
    ensure(m.verify_ethsig() is True, 'verifies')


@lemma('C15', targets=[TTC + 'generate_ethsig', TTC + 'verify_ethsig'])
def with_hash():
    """A hash may be given instead of being calculated"""
    m = any_message('TaskToCompute')
    key = any_privkey('key')
    m.requestor_ethereum_public_key = hexed(pub(key))
    h, g = any_bytes('hash', n=20), any_bytes('other hash', n=20)
    m.generate_ethsig(key, h)
    ensure(eq(m.ethsig, cryptography.ecdsa_sign(key, h)), 'of the hash')
    out = attempt(m.verify_ethsig, g)
    ensure(iff(out.ok, g == h), 'verifies for the hash only')
    if not out.ok:
        ensure(out.raised(exceptions.InvalidSignature), 'badly signed')
