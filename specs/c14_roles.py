"""C14: which task and which parties a message is about."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from specs.c12_ownership import OWNERS, TASK_MESSAGES

T = 'golem_messages.message.tasks.TaskMessage.'
TTC = 'golem_messages.message.tasks.TaskToCompute.'
VALUES = ('task_id', 'subtask_id', 'provider_id', 'requestor_id')
# included, but not what the message is about
ASIDE = ('force_get_task_result_failed', )
ALL = [T + v for v in VALUES] + [T + 'task_to_compute', T + '_get_task_value',
                                 TTC + 'task_id', TTC + 'subtask_id']


def leads(name):
    """The included messages that tell what it is about, in order"""
    return [f for f in FIELDS[name]
            if NESTED.get(name, {}).get(f, '').strip('?') in OWNERS
            and f not in ASIDE]


def made(name, tag):
    """A message with all or some of what it may include, each with a task
    of its own"""
    if name == 'TaskToCompute':
        m = any_message('TaskToCompute', tag,
                        requestor_id=any_str(tag + 'r'),
                        provider_id=any_str(tag + 'p'))
        for v in VALUES:
            assume(length(getattr(m, v)) > 0)
        return m
    kw = {}
    for f in FIELDS[name]:
        k = NESTED.get(name, {}).get(f, '')
        if k.strip('?') in OWNERS:
            if k[-1] == '?' and not choice(tag + f + ' is there',
                                           (True, False)):
                kw[f] = None
            else:
                kw[f] = made(k.strip('?'), tag + f + '/')
    return any_message(name, tag, **kw)


def the_task(m):
    """The task it is about: that of the first included message which is
    about one"""
    name = type(m).__name__
    if name == 'TaskToCompute':
        return m
    for f in leads(name):
        v = getattr(m, f)
        if v is not None:
            t = the_task(v)
            if t is not None:
                return t
    return None


@lemma('C14', params=TASK_MESSAGES, targets=ALL)
def about(name):
    """The task, its identifiers and parties are those of the task included
    first"""
    m = made(name, '')
    t = the_task(m)
    ensure(m.task_to_compute is t, 'the task')
    if t is None:
        cover('about no task')
        for v in VALUES:
            ensure(getattr(m, v) is None, 'no ' + v)
        return
    cover('about a task')
    ensure(same(m.task_id, t.compute_task_def['task_id']), 'task_id')
    ensure(same(m.subtask_id, t.compute_task_def['subtask_id']),
           'subtask_id')
    ensure(same(m.provider_id, t.provider_id), 'provider_id')
    ensure(same(m.requestor_id, t.requestor_id), 'requestor_id')


@lemma('C14', targets=[TTC + 'task_id', TTC + 'subtask_id'])
def of_the_task():
    """A task without definition has no identifiers"""
    m = any_message('TaskToCompute', compute_task_def=None)
    ensure(m.task_id is None and m.subtask_id is None, 'none')
    ensure(m.task_to_compute is m, 'about itself')
    n = any_message('TaskToCompute', 'n')
    ensure(same(n.task_id, n.compute_task_def['task_id']), 'task_id')
    ensure(same(n.subtask_id, n.compute_task_def['subtask_id']),
           'subtask_id')


@lemma('C14', targets=[TTC + 'provider_public_key',
                       TTC + 'provider_ethereum_address',
                       TTC + 'requestor_ethereum_address',
                       'golem_messages.message.tasks.WantToComputeTask'
                       '.task_id'])
def of_the_offer():
    """The provider's key and address are those of the offer, the task
    identifier of an offer that of the demand"""
    w = any_message('WantToComputeTask', 'w')
    m = any_message('TaskToCompute', want_to_compute_task=w)
    ensure(same(m.provider_public_key, w.provider_public_key), 'key')
    ensure(same(m.provider_ethereum_address, w.provider_ethereum_address),
           'address')
    ensure(same(w.task_id, w.task_header.task_id), 'task_id')
    key = any_bytes('key', n=64)
    m.requestor_ethereum_public_key = choice(
        'form', (hexed(key), '0x' + hexed(key)))
    ensure(eq(m.requestor_ethereum_address, address_of(key)),
           'requestor\'s address')
