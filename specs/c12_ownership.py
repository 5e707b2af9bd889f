"""C12: who may have signed a message about a task."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import cryptography, exceptions

OWN = 'golem_messages.message.tasks.TaskMessage.validate_ownership'
TTC = 'golem_messages.message.tasks.TaskToCompute.validate_ownership'

# the documented signers
OWNERS = {
    'TaskToCompute': 'requestor',
    'ReportComputedTask': 'provider',
    'SubtaskResultsAccepted': 'requestor',
    'SubtaskResultsRejected': 'requestor concent',
    'TaskFailure': 'provider',
    'CannotComputeTask': 'provider',
    'AckReportComputedTask': 'requestor concent',
    'RejectReportComputedTask': 'requestor concent',
    'ServiceRefused': 'concent',
    'ForceReportComputedTask': 'provider concent',
    'VerdictReportComputedTask': 'concent',
    'SubtaskResultsVerify': 'provider',
    'AckSubtaskResultsVerify': 'concent',
    'SubtaskResultsSettled': 'concent',
    'ForceGetTaskResult': 'requestor',
    'AckForceGetTaskResult': 'concent',
    'ForceGetTaskResultFailed': 'concent',
    'ForceGetTaskResultRejected': 'concent',
    'ForceGetTaskResultUpload': 'concent',
    'ForceGetTaskResultDownload': 'concent',
    'ForceSubtaskResults': 'provider concent',
    'ForceSubtaskResultsResponse': 'concent',
    'ForceSubtaskResultsRejected': 'concent',
    'ForceReportComputedTaskResponse': 'concent',
}
TASK_MESSAGES = tuple(n for n in NAMES if n in OWNERS)


def parties():
    return {who: any_privkey(who)
            for who in ('provider', 'requestor', 'concent')}


def the_task(keys, tag=''):
    """A TaskToCompute between the parties, with a signed task header"""
    h = task_header(tag + 'header')
    h.sign(keys['requestor'])
    w = any_message('WantToComputeTask', tag + 'w/', task_header=h,
                    provider_public_key=hexed(pub(keys['provider'])))
    return any_message('TaskToCompute', tag + 'ttc/',
                       want_to_compute_task=w,
                       requestor_public_key=hexed(pub(keys['requestor'])))


PATHS = {   # the shortest way to the TaskToCompute
    'ReportComputedTask': ('task_to_compute', ),
    'RejectReportComputedTask': ('attached_task_to_compute', ),
    'ForceReportComputedTask': ('report_computed_task', ),
}


def about(name, ttc, tag=''):
    """A message of the class that is about the task, whatever it says"""
    if name == 'TaskToCompute':
        return ttc
    kw = {}
    for f in FIELDS[name]:
        if f in NESTED.get(name, {}):
            k = NESTED[name][f]
            if k.strip('?') not in OWNERS:
                continue
            if kw.get('done'):
                if k[-1] == '?':
                    kw[f] = None
                    continue
            kw[f] = about(k.strip('?'), ttc, tag + f + '/')
            kw['done'] = True
    kw.pop('done', None)
    return any_message(name, tag, **kw)


@lemma('C12', params=TASK_MESSAGES, targets=[OWN, TTC])
def signer(name):
    """Signed by any key: accepted iff it is that of a documented party"""
    keys = parties()
    m = about(name, the_task(keys))
    key = any_privkey('signer')
    m.sign_message(key)
    out = attempt(m.validate_ownership, pub(keys['concent']))
    good = or_(*[pub(key) == pub(keys[who])
                 for who in OWNERS[name].split()])
    ensure(iff(out.ok, good), 'accepted iff from a documented party')
    if out.ok:
        cover('accepted')
        ensure(out.value is True, 'said so')
    else:
        cover('refused')
        ensure(out.raised(exceptions.InvalidSignature), 'as badly signed')
        ensure(out.exc.message is m, 'with the message')


@lemma('C12', params=TASK_MESSAGES, targets=[OWN, TTC])
def signature(name):
    """Any signature at all: accepted iff it verifies for a documented
    party"""
    keys = parties()
    m = about(name, the_task(keys))
    m.sig = any_sig('signature')
    out = attempt(m.validate_ownership, pub(keys['concent']))
    good = or_(*[attempt(m.verify_signature, pub(keys[who])).ok
                 for who in OWNERS[name].split()])
    ensure(iff(out.ok, good), 'accepted iff it verifies')


@lemma('C12', params=[n for n in TASK_MESSAGES
                      if 'concent' not in OWNERS[n]], targets=[OWN, TTC])
def concent_key_is_not_needed(name):
    """Where Concent is none of the parties its key plays no part"""
    keys = parties()
    m = about(name, the_task(keys))
    m.sign_message(any_privkey('signer'))
    one = attempt(m.validate_ownership)
    other = attempt(m.validate_ownership, pub(keys['concent']))
    third = attempt(m.validate_ownership, any_bytes('key'))
    ensure(one.ok == other.ok and other.ok == third.ok, 'no difference')
    ensure(one.ok or one.raised(exceptions.InvalidSignature), 'badly signed')


@lemma('C12', targets=[TTC, 'golem_messages.datastructures.tasks.TaskHeader'
                       '.verify'])
def demand_is_signed_too():
    """A TaskToCompute needs the requestor's signature of the demand"""
    keys = parties()
    ttc = the_task(keys)
    ttc.sign_message(keys['requestor'])
    h = ttc.want_to_compute_task.task_header
    how = choice('header', ('signed by someone', 'any signature',
                            'not signed', 'altered'))
    if how == 'signed by someone':
        key = any_privkey('someone')
        h.sign(key)
        good = pub(key) == pub(keys['requestor'])
    elif how == 'any signature':
        h.signature = any_sig('signature')
        good = attempt(h.verify, pub(keys['requestor'])).ok
    elif how == 'not signed':
        h.signature = None
        good = False
    else:
        old = h.deadline
        h.deadline = any_int('deadline')
        good = h.deadline == old
    ttc.sign_message(keys['requestor'])
    out = attempt(ttc.validate_ownership)
    ensure(iff(out.ok, good), 'accepted iff the demand is signed')
    if not out.ok:
        ensure(out.raised(exceptions.InvalidSignature), 'as badly signed')


@lemma('C12', targets=[OWN])
def refusal_without_task():
    """A refusal that is about no task can be verified as well"""
    key = any_privkey('signer')
    concent = any_privkey('concent')
    m = any_message('ServiceRefused', task_to_compute=None)
    m.sign_message(key)
    out = attempt(m.validate_ownership, pub(concent))
    ensure(iff(out.ok, pub(key) == pub(concent)), 'accepted iff Concent\'s')
    if not out.ok:
        ensure(out.raised(exceptions.InvalidSignature), 'as badly signed')


@lemma('C12', params=TASK_MESSAGES, targets=[OWN, TTC])
def altered(name):
    """A message altered after it was signed is not accepted"""
    keys = parties()
    m = about(name, the_task(keys))
    who = OWNERS[name].split()[-1]
    m.sign_message(keys[who])
    ts = m.timestamp
    m.header = header(name, 'other ')
    # that it is, by chance, a signature of another party is not excluded
    others = [attempt(m.verify_signature, pub(keys[w])).ok
              for w in OWNERS[name].split() if w != who]
    out = attempt(m.validate_ownership, pub(keys['concent']))
    ensure(iff(out.ok, or_(m.timestamp == ts, *others)),
           'accepted iff unaltered')


@lemma('C12', params=[n for n in TASK_MESSAGES if 'concent' in OWNERS[n]],
       targets=[OWN, TTC])
def concent_key_not_given(name):
    """Without its key nothing is taken for Concent's"""
    keys = parties()
    m = about(name, the_task(keys))
    key = any_privkey('signer')
    m.sign_message(key)
    out = attempt(m.validate_ownership)
    good = or_(*[pub(key) == pub(keys[who])
                 for who in OWNERS[name].split() if who != 'concent'])
    ensure(iff(out.ok, good), 'accepted iff from another documented party')
