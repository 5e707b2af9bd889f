"""C18: what makes a task message sensible."""
import uuid  # noqa

from vc import *  # noqa
from specs.msgs import *  # noqa
from specs.c12_ownership import TASK_MESSAGES
from golem_messages import exceptions

M = 'golem_messages.message.'
RECEIVE = M + 'tasks.TaskMessage.deserialize_with_header'
SRA = M + 'tasks.SubtaskResultsAccepted.is_valid'
SRR = M + 'tasks.SubtaskResultsRejected.is_valid'
FOR_R = M + 'tasks.SubtaskResultsRejected.is_valid_for_requestor'
VRCT = M + 'concents.VerdictReportComputedTask.is_valid'
CHECKED = ('SubtaskResultsAccepted', 'SubtaskResultsRejected',
           'VerdictReportComputedTask')


def received(m):
    d = m.serialize()
    return attempt(base.Message.deserialize, d, None, check_time=False)


def in_range(m):
    assume(and_(m.timestamp > 1262304000, m.timestamp < 32819212800))


def check(m, how, good):
    """When told to and on reception alike"""
    if how == 'asked':
        out = attempt(m.is_valid)
        if out.ok:
            ensure(out.value is True, 'said so')
    else:
        in_range(m)
        out = received(m)
    ensure(iff(out.ok, good), 'sensible iff the rules are kept')
    if out.ok:
        cover('sensible')
    else:
        cover('not sensible')
        ensure(out.raised(exceptions.ValidationError), 'validation error')


@lemma('C18', params=('asked', 'received'), targets=[SRA, RECEIVE])
def acceptance(how):
    """An acceptance is of a payment made in the 15 minutes before it"""
    ts = any_int('payment_ts', -2 ** 40, 2 ** 40)
    m = any_message('SubtaskResultsAccepted', payment_ts=ts)
    assume(m.timestamp < 2 ** 40)
    check(m, how, and_(ts <= m.timestamp, m.timestamp <= ts + 15 * 60))


@lemma('C18', params=('asked', 'received'), targets=[SRA, RECEIVE])
def acceptance_in_parts_of_a_second(how):
    """The time of the payment may be a fraction"""
    ts = any_float('payment_ts', -1e12, 1e12)
    m = any_message('SubtaskResultsAccepted', payment_ts=ts)
    assume(m.timestamp < 2 ** 40)
    check(m, how, and_(ts <= m.timestamp, m.timestamp <= ts + 15 * 60))


def rejection(reason, concent):
    """A rejection for the reason, with the failure or without"""
    w = any_message('WantToComputeTask', 'w')
    rct = any_message(
        'ReportComputedTask', 'rct/', task_to_compute=any_message(
            'TaskToCompute', 'ttc/', want_to_compute_task=w,
            concent_enabled=concent))
    failure = None
    same_task = True
    if choice('failure', ('not included', 'included')) == 'included':
        t = any_message('TaskToCompute', 'ttc2/', want_to_compute_task=w)
        failure = any_message('ForceGetTaskResultFailed', 'fgtrf/',
                              task_to_compute=t)
        a = rct.task_to_compute.compute_task_def
        b = t.compute_task_def
        # (an empty identifier counts as none)
        for k in ('task_id', 'subtask_id'):
            assume(length(a[k]) > 0)
            assume(length(b[k]) > 0)
        same_task = and_(a['task_id'] == b['task_id'],
                         a['subtask_id'] == b['subtask_id'])
    m = any_message('SubtaskResultsRejected', report_computed_task=rct,
                    force_get_task_result_failed=failure, reason=reason)
    good = same_task
    if reason is None or (
            reason.name == 'ForcedResourcesFailure' and failure is None):
        good = False
    return m, good


REASONS = (None, ) + tuple(ENUMS['SubtaskResultsRejected']['reason'])


def reason_of(name):
    return name and getattr(tasks.SubtaskResultsRejected.REASON, name)


@lemma('C18', params=[(h, r) for h in ('asked', 'received')
                      for r in REASONS], targets=[SRR, RECEIVE])
def rejections(how, reason):
    """A rejection needs a reason; a failure to get the results needs the
    proof of it; and the proof is for the same subtask"""
    m, good = rejection(reason_of(reason), any_bool('concent'))
    check(m, how, good)


ALLOWED = {True: ('VerificationNegative', 'ForcedResourcesFailure'),
           False: ('VerificationNegative', 'ResourcesFailure')}


@lemma('C18', params=REASONS[1:], targets=[FOR_R, SRR])
def rejections_by_requestor(reason):
    """A requestor may only give some of the reasons, depending on Concent
    taking part"""
    concent = choice('concent', (True, False))
    m, good = rejection(reason_of(reason), concent)
    out = attempt(m.is_valid_for_requestor)
    if reason in ALLOWED[concent]:
        cover('may be given')
        ensure(iff(out.ok, good), 'sensible iff so for anyone')
    else:
        cover('may not be given')
        ensure(not out.ok, 'refused')
    if out.ok:
        ensure(out.value is True, 'said so')
    else:
        ensure(out.raised(exceptions.ValidationError), 'validation error')


@lemma('C18', params=('asked', 'received'), targets=[VRCT, RECEIVE])
def verdict_about_one_task(how):
    """A verdict is about one task, given twice"""
    m = valid_message('VerdictReportComputedTask')
    check(m, how, True)


@lemma('C18', params=[f for f in FIELDS['TaskToCompute']
                      if f not in ('concent_enabled', )]
       + ['timestamp', 'sig'], targets=[VRCT, RECEIVE])
def verdict_about_two(field):
    """A verdict with two tasks that differ in anything is not sensible"""
    m = valid_message('VerdictReportComputedTask')
    one = m.ack_report_computed_task.report_computed_task
    other = m.force_report_computed_task.report_computed_task
    t = one.task_to_compute
    kw = {f: getattr(t, f) for f in FIELDS['TaskToCompute']}
    h, sig = t.header, t.sig
    if field == 'timestamp':
        h = header('TaskToCompute', 'other')
        alike = h.timestamp == t.timestamp
    elif field == 'sig':
        sig = any_bytes('other sig', n=65)
        alike = sig == t.sig
    else:
        kw[field] = field_value('TaskToCompute', field, 'other ')
        alike = kw[field] == getattr(t, field)
    other.task_to_compute = tasks.TaskToCompute(header=h, sig=sig, **kw)
    check(m, 'asked', alike)


@lemma('C18', params=[n for n in TASK_MESSAGES if n not in CHECKED],
       targets=[M + 'tasks.TaskMessage.is_valid'])
def others(name):
    """No rules for the other messages"""
    m = any_message(name)
    ensure(m.is_valid() is True, 'sensible')
