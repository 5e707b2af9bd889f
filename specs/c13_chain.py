"""C13: who signed what in a chain of messages, and for whom it was."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from specs.c12_ownership import OWNERS, TASK_MESSAGES, about, parties, \
    the_task
from golem_messages import exceptions

CHAIN = 'golem_messages.message.tasks.TaskMessage.validate_ownership_chain'
OWNED = 'golem_messages.message.tasks.TaskMessage.verify_owners'


def included(m):
    """The messages about tasks included in a message, itself first"""
    out = [m]
    name = type(m).__name__
    for f in FIELDS[name]:
        v = getattr(m, f)
        if f in NESTED.get(name, {}) and type(v).__name__ in OWNERS:
            out.extend(included(v))
    return out


def sign_all(m, keys, but=None):
    """Each message signed by a documented party, the innermost first"""
    for x in reversed(included(m)):
        if x is not but:
            x.sign_message(keys[OWNERS[type(x).__name__].split()[-1]])


def complete(name, keys):
    """A message of the class with all that may be included in it, all of it
    about one task"""
    return whole(name, the_task(keys), '')


def whole(name, ttc, tag):
    if name == 'TaskToCompute':
        return ttc
    kw = {}
    for f in FIELDS[name]:
        k = NESTED.get(name, {}).get(f, '').strip('?')
        if k in OWNERS:
            kw[f] = whole(k, ttc, tag + f + '/')
    return any_message(name, tag, **kw)


def size(name):
    return 1 + sum(size(NESTED[name][f].strip('?'))
                   for f in NESTED.get(name, {})
                   if NESTED[name][f].strip('?') in OWNERS)


PLACES = [(n, i) for n in TASK_MESSAGES for i in range(size(n))]


@lemma('C13', params=TASK_MESSAGES, targets=[CHAIN])
def all_signed(name):
    """A chain signed throughout by the documented parties"""
    keys = parties()
    m = complete(name, keys)
    sign_all(m, keys)
    out = attempt(m.validate_ownership_chain, pub(keys['concent']))
    ensure(out.ok, 'accepted')
    ensure(out.value is True, 'said so')


@lemma('C13', params=PLACES, targets=[CHAIN])
def one_by_another(name, i):
    """If any one of the included messages is signed by someone else, the
    chain is refused"""
    keys = parties()
    m = complete(name, keys)
    bad = included(m)[i]
    sign_all(m, keys)
    key = any_privkey('signer')
    bad.sign_message(key)
    # what it is included in is signed again
    for x in reversed(included(m)):
        if x is not bad and bad in [y for y in included(x)]:
            x.sign_message(keys[OWNERS[type(x).__name__].split()[-1]])
    out = attempt(m.validate_ownership_chain, pub(keys['concent']))
    good = or_(*[pub(key) == pub(keys[who])
                 for who in OWNERS[type(bad).__name__].split()])
    ensure(iff(out.ok, good), 'accepted iff by a documented party')
    if not out.ok:
        cover('refused')
        ensure(out.raised(exceptions.InvalidSignature), 'as badly signed')


@lemma('C13', params=PLACES, targets=[CHAIN])
def one_with_any_signature(name, i):
    """Whatever is in the place of one of the signatures, or if nothing is"""
    keys = parties()
    m = complete(name, keys)
    bad = included(m)[i]
    sign_all(m, keys)
    bad.sig = any_sig('signature') if choice('signed', (False, True)) \
        else None
    for x in reversed(included(m)):
        if x is not bad and bad in [y for y in included(x)]:
            x.sign_message(keys[OWNERS[type(x).__name__].split()[-1]])
    out = attempt(m.validate_ownership_chain, pub(keys['concent']))
    if bad.sig is None:
        good = False
    else:
        good = or_(*[attempt(bad.verify_signature, pub(keys[who])).ok
                     for who in OWNERS[type(bad).__name__].split()])
    ensure(iff(out.ok, good), 'accepted iff it is that of a party')
    if not out.ok:
        cover('refused')
        ensure(out.raised(exceptions.InvalidSignature), 'as badly signed')


@lemma('C13', params=TASK_MESSAGES, targets=[OWNED])
def roles(name):
    """The keys of the roles are compared with those in the task"""
    keys = parties()
    m = complete(name, keys)
    sign_all(m, keys)
    kw = {}
    good = []
    for who in ('provider', 'requestor'):
        if choice(who + ' is given', (True, False)):
            k = any_bytes(who + ' key', n=64)
            kw[who + '_public_key'] = k
            good.append(eq(k, pub(keys[who])))
    out = attempt(m.verify_owners, concent_public_key=pub(keys['concent']),
                  **kw)
    ensure(iff(out.ok, and_(*good)), 'accepted iff they are in the roles')
    if out.ok:
        cover('accepted')
        ensure(out.value is True, 'said so')
    else:
        cover('refused')
        ensure(out.raised(exceptions.OwnershipMismatch), 'as a mismatch')


@lemma('C13', params=TASK_MESSAGES, targets=[OWNED])
def roles_and_signatures(name):
    """Good roles do not make up for bad signatures"""
    keys = parties()
    m = complete(name, keys)
    sign_all(m, keys)
    key = any_privkey('signer')
    m.sign_message(key)
    out = attempt(m.verify_owners,
                  provider_public_key=pub(keys['provider']),
                  requestor_public_key=pub(keys['requestor']),
                  concent_public_key=pub(keys['concent']))
    good = or_(*[pub(key) == pub(keys[who])
                 for who in OWNERS[name].split()])
    ensure(iff(out.ok, good), 'accepted iff signed by a documented party')
    if not out.ok:
        ensure(out.raised(exceptions.InvalidSignature), 'as badly signed')
