"""C17: promissory notes."""
import uuid

from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions
from golem_messages.datastructures.promissory import PromissoryNote, \
    PromissoryNoteSig

P = 'golem_messages.datastructures.promissory.'
N = P + 'PromissoryNote.'
MIX = P + 'PromissorySlotMixin.'
TTC = 'golem_messages.message.tasks.TaskToCompute.'
SRV = 'golem_messages.message.concents.SubtaskResultsVerify.'
FIELDS_OF = ('address_from', 'address_to', 'amount', 'subtask_id',
             'contract_address')


def part(f, tag=''):
    if f == 'amount':
        return any_int(tag + f, 0, 2 ** 256 - 1)
    if f == 'subtask_id':
        return any_uuid(tag + f)
    return any_address(tag + f)


def any_note(tag='', **fixed):
    return PromissoryNote(**{f: fixed[f] if f in fixed else part(f, tag)
                             for f in FIELDS_OF})


def raw(address):
    return bytes.fromhex(address[2:])


def content(n):
    """What is signed, as the deposit contract expects it"""
    return (raw(n.contract_address) + raw(n.address_from)
            + raw(n.address_to) + be(n.amount, 32)
            + uuid.UUID(n.subtask_id).bytes + b'\0' * 16)


def valid(check, *args):
    """Of a signature from which nobody can be recovered at all, an error
    may tell"""
    out = attempt(check, *args)
    if out.ok:
        ensure(or_(out.value is True, out.value is False), 'true or false')
    return and_(out.ok, out.value)


@lemma('C17', targets=[N + 'hexmsg', N + 'hash', N + 'subtask_id_bytes'])
def contents():
    """The signed contents: contract, from, to, amount, subtask"""
    n = any_note()
    ensure(eq(bytes.fromhex(n.hexmsg[2:]), content(n)), 'contents')
    ensure(eq(n.hexmsg[:2], '0x'), 'in hexadecimal form')
    ensure(eq(n.hash, keccak(b'\x19Ethereum Signed Message:\n124'
                             + content(n))), 'hash')


@lemma('C17', targets=[N + 'sign', N + 'sig_valid'])
def signed_by():
    """A signature is valid exactly when its maker is who the note is from"""
    key = any_privkey('key')
    n = any_note()
    s = n.sign(key)
    ensure(isinstance(s, PromissoryNoteSig), 'a signature')
    ensure(or_(s.v == 27, s.v == 28), 'v')
    ensure(and_(length(s.r) == 32, length(s.s) == 32), 'r and s')
    out = n.sig_valid(s)
    ensure(iff(out, eq(n.address_from, address_of(pub(key)))),
           'valid iff by the one it is from')
    ensure(eq(n.sig_valid(tuple(s)), out), 'as plain tuple')
    ensure(eq(n.sig_valid(list(s)), out), 'as list')


@lemma('C17', params=FIELDS_OF[1:], targets=[N + 'sign', N + 'sig_valid'])
def altered(field):
    """An altered note is not the one that was signed"""
    key = any_privkey('key')
    n = any_note(address_from=address_of(pub(key)))
    s = n.sign(key)
    ensure(n.sig_valid(s) is True, 'valid')
    old = getattr(n, field)
    new = part(field, 'other ')
    setattr(n, field, new)
    ensure(iff(valid(n.sig_valid, s), eq(old, new)), 'valid iff unaltered')


@lemma('C17', targets=[N + 'sig_valid'])
def no_signature():
    """Nothing is no valid signature; no triple is an error"""
    n = any_note()
    ensure(n.sig_valid(choice('nothing', (None, (), [], b'', 0)))
           is False, 'not valid')
    bad = choice('malformed', ((1, ), (1, 2), (1, 2, 3, 4), 5, b'12',
                               'abcd', {'v': 1}, True, 1.5))
    out = attempt(n.sig_valid, bad)
    ensure(out.raised(TypeError), 'type error')


def a_task(tag, who=None, **kw):
    """By a provider of some address, or of the one given"""
    if who is None:
        who = any_address(tag + 'provider')
    return any_message(
        'TaskToCompute', tag, price=any_int(tag + 'price', 0, 2 ** 256 - 1),
        compute_task_def=tasks.ComputeTaskDef({
            'task_id': any_uuid(tag + 'task'),
            'subtask_id': any_uuid(tag + 'subtask')}),
        want_to_compute_task=any_message(
            'WantToComputeTask', tag + 'w',
            provider_ethereum_address=who), **kw)


def same_note(a, b):
    return and_(*[eq(getattr(a, f), getattr(b, f)) for f in FIELDS_OF])


@lemma('C17', targets=[TTC + '_get_promissory_note',
                       TTC + '_get_concent_promissory_note',
                       TTC + 'sign_promissory_note',
                       TTC + 'verify_promissory_note',
                       MIX + 'sign_concent_promissory_note',
                       MIX + 'verify_concent_promissory_note'])
def notes_of_a_task():
    """Those of a task are from the requestor, to the provider and to the
    deposit contract, of its price, for its subtask"""
    key, other = any_privkey('key'), any_privkey('other')
    contract = any_address('contract')
    m = a_task('', requestor_ethereum_public_key=hexed(pub(key)),
               promissory_note_sig=None, concent_promissory_note_sig=None)
    args = dict(address_from=address_of(pub(key)), amount=m.price,
                subtask_id=m.compute_task_def['subtask_id'],
                contract_address=contract)
    to_provider = PromissoryNote(
        address_to=m.want_to_compute_task.provider_ethereum_address, **args)
    to_concent = PromissoryNote(address_to=contract, **args)
    ensure(m.verify_promissory_note(contract) is False, 'none yet')
    ensure(m.verify_concent_promissory_note(contract) is False,
           'none for Concent yet')
    m.sign_promissory_note(contract, other)
    ensure(m.concent_promissory_note_sig is None, 'this one only')
    ensure(same(tuple(m.promissory_note_sig), tuple(to_provider.sign(other))),
           'to the provider')
    mine = address_of(pub(other)) == address_of(pub(key))
    ensure(iff(m.verify_promissory_note(contract), mine),
           'valid iff by the requestor')
    m.promissory_note_sig = None
    m.sign_concent_promissory_note(contract, other)
    ensure(m.promissory_note_sig is None, 'that one only')
    ensure(same(tuple(m.concent_promissory_note_sig),
                tuple(to_concent.sign(other))), 'to Concent')
    ensure(iff(m.verify_concent_promissory_note(contract), mine),
           'for Concent valid iff by the requestor')


@lemma('C17', targets=[TTC + 'sign_all_promissory_notes',
                       TTC + 'verify_all_promissory_notes'])
def all_of_a_task():
    """All notes are valid exactly when both are"""
    key = any_privkey('key')
    contract, other = any_address('contract'), any_address('other contract')
    m = a_task('', requestor_ethereum_public_key=hexed(pub(key)))
    m.sign_all_promissory_notes(contract, key)
    ensure(m.verify_promissory_note(contract) is True, 'one')
    ensure(m.verify_concent_promissory_note(contract) is True, 'the other')
    ensure(m.verify_all_promissory_notes(contract) is True, 'both')
    ensure(iff(valid(m.verify_all_promissory_notes, other), other == contract),
           'for this contract only')
    which = choice('broken', ('promissory_note_sig',
                              'concent_promissory_note_sig'))
    how = choice('by', ('another key', 'removal', 'exchange'))
    good = False
    if how == 'another key':
        k2 = any_privkey('another')
        if which == 'promissory_note_sig':
            m.sign_promissory_note(contract, k2)
        else:
            m.sign_concent_promissory_note(contract, k2)
        good = address_of(pub(k2)) == address_of(pub(key))
    elif how == 'removal':
        setattr(m, which, None)
    else:
        m.promissory_note_sig, m.concent_promissory_note_sig = \
            m.concent_promissory_note_sig, m.promissory_note_sig
        good = m.want_to_compute_task.provider_ethereum_address == contract
    ensure(iff(valid(m.verify_all_promissory_notes, contract), good),
           'valid iff both are')


@lemma('C17', targets=[TTC + 'sign_all_promissory_notes',
                       TTC + 'verify_all_promissory_notes'])
def sent():
    """Notes stay valid when the task is sent"""
    key = any_privkey('key')
    contract = any_address('contract')
    seed = any_bytes('requestor', n=64)
    m = a_task('', requestor_ethereum_public_key=hexed(pub(key)),
               requestor_id=hexed(seed))
    m.compute_task_def = tasks.ComputeTaskDef({
        'task_id': seeded_id('task id', seed),
        'subtask_id': seeded_id('subtask id', seed)})
    assume(and_(m.timestamp > 1262304000, m.timestamp < 32819212800))
    m.generate_ethsig(key)
    m.sign_all_promissory_notes(contract, key)
    got = base.Message.deserialize(m.serialize(), None, check_time=False)
    ensure(got.verify_all_promissory_notes(contract) is True, 'valid')


@lemma('C17', targets=[SRV + '_get_concent_promissory_note',
                       MIX + 'sign_concent_promissory_note',
                       MIX + 'verify_concent_promissory_note'])
def note_of_a_verification():
    """That of a request for verification is from the provider, to the
    deposit contract, of the price of the task, for its subtask"""
    key = any_privkey('key')
    contract, other = any_address('contract'), any_address('other contract')
    t = a_task('t')
    m = any_message(
        'SubtaskResultsVerify', concent_promissory_note_sig=None,
        subtask_results_rejected=any_message(
            'SubtaskResultsRejected', 'srr', force_get_task_result_failed=None,
            report_computed_task=any_message(
                'ReportComputedTask', 'rct', task_to_compute=t)))
    who = t.want_to_compute_task.provider_ethereum_address
    note = PromissoryNote(
        address_from=who, address_to=contract, amount=t.price,
        subtask_id=t.compute_task_def['subtask_id'],
        contract_address=contract)
    ensure(m.verify_concent_promissory_note(contract) is False, 'none yet')
    m.sign_concent_promissory_note(contract, key)
    ensure(same(tuple(m.concent_promissory_note_sig), tuple(note.sign(key))),
           'signature of the note')
    ensure(iff(m.verify_concent_promissory_note(contract),
               who == address_of(pub(key))), 'valid iff by the provider')


@lemma('C17', targets=[SRV + '_get_concent_promissory_note',
                       MIX + 'sign_concent_promissory_note',
                       MIX + 'verify_concent_promissory_note'])
def note_of_a_verification_elsewhere():
    """That of a request for verification is for one deposit contract"""
    key = any_privkey('key')
    contract, other = any_address('contract'), any_address('other contract')
    m = any_message(
        'SubtaskResultsVerify', concent_promissory_note_sig=None,
        subtask_results_rejected=any_message(
            'SubtaskResultsRejected', 'srr', force_get_task_result_failed=None,
            report_computed_task=any_message(
                'ReportComputedTask', 'rct', task_to_compute=a_task(
                    't', who=address_of(pub(key))))))
    m.sign_concent_promissory_note(contract, key)
    ensure(m.verify_concent_promissory_note(contract) is True, 'valid')
    ensure(iff(valid(m.verify_concent_promissory_note, other),
               other == contract), 'valid for this contract only')
