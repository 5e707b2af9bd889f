"""C04: only fresh messages are accepted, when freshness is asked for."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions, settings

M = 1000000
OLD, FUTURE = 600, 300


@lemma('C04', targets=['golem_messages.message.base.verify_time'])
def freshness():
    ts = any_int('timestamp', -2 ** 64, 2 ** 64)
    now = now_us()
    out = attempt(base.verify_time, ts)
    sane = and_(ts >= -62135596800, ts <= 253402300799)
    old = now - ts * M > OLD * M
    future = ts * M - now > FUTURE * M
    ensure(iff(out.ok, and_(sane, not_(old), not_(future))),
           'accepted iff fresh')
    if out.ok:
        cover('fresh')
    else:
        ensure(out.raised(exceptions.TimestampError), 'timestamp error')
        if out.raised(exceptions.MessageTooOldError):
            cover('too old')
            ensure(old, 'too old')
        elif out.raised(exceptions.MessageFromFutureError):
            cover('from the future')
            ensure(future, 'from the future')
        else:
            cover('no time at all')
            ensure(not_(sane), 'not a time')


@lemma('C04', targets=['golem_messages.message.base.verify_time'])
def not_a_timestamp():
    ts = any_val('timestamp', kinds=['none', 'str', 'bytes', 'list', 'dict'])
    out = attempt(base.verify_time, ts)
    ensure(out.raised(exceptions.TimestampError), 'timestamp error')


@lemma('C04', params=NAMES, targets=[
    'golem_messages.message.base.Message.deserialize'])
def on_reception(name):
    """The header decides, before anything else is looked at, and only when
    it is asked for"""
    ts = any_int('timestamp', 0, 2 ** 64 - 1)
    now = now_us()
    flag = choice('flag', (b'\0', b'\1'))
    d = be(NUMBER[name], 2) + be(ts, 8) + flag + any_bytes('rest', minlen=66)
    called = []

    def decrypt(data):
        called.append(data)
        raise exceptions.DecryptionError('stop')
    fresh = and_(now - ts * M <= OLD * M, ts * M - now <= FUTURE * M)
    ranged = and_(ts > 1262304000, ts < 32819212800)
    assume(not_(and_(fresh, ranged)))
    default = choice('asked for', ('by default', 'explicitly'))
    if default == 'by default':
        out = attempt(base.Message.deserialize, d, decrypt)
    else:
        out = attempt(base.Message.deserialize, d, decrypt, check_time=True)
    ensure(not out.ok, 'refused')
    ensure(out.raised(exceptions.HeaderError), 'for its header')
    ensure(iff(out.raised(exceptions.TimestampError), ranged),
           'for its age if the timestamp is one at all')
    ensure(not called, 'before decryption')


@lemma('C04', params=('RandVal', 'Hello', 'Degree', 'CannotAssignTask',
                      'ClientAuthorization', 'TaskToCompute'),
       targets=['golem_messages.message.base.Message.deserialize'])
def fresh_messages(name):
    """A good message is accepted exactly when it is fresh, or whatever its
    age if the age does not matter"""
    m = valid_message(name)
    ts = m.timestamp
    assume(and_(ts > 1262304000, ts < 32819212800))
    check = choice('check_time', (True, False))
    now = now_us()
    d = m.serialize()
    out = attempt(base.Message.deserialize, d, None, check_time=check)
    old = now - ts * M > OLD * M
    future = ts * M - now > FUTURE * M
    if check:
        cover('checked')
        ensure(iff(out.ok, and_(not_(old), not_(future))),
               'accepted iff fresh')
        if not out.ok:
            ensure(iff(out.raised(exceptions.MessageTooOldError), old),
                   'too old')
            ensure(iff(out.raised(exceptions.MessageFromFutureError), future),
                   'from the future')
    else:
        cover('not checked')
        ensure(out.ok, 'accepted')


@lemma('C04', targets=['golem_messages.message.base.verify_time'])
def time_passes():
    """A message which is fresh now is refused once it is too old"""
    ts = any_int('timestamp', 1262304001, 32819212799)
    wait = any_int('wait', 0, 10 ** 12)
    now = now_us()
    first = attempt(base.verify_time, ts)
    advance_clock(wait)
    second = attempt(base.verify_time, ts)
    ensure(iff(second.ok, and_(now + wait - ts * M <= OLD * M,
                               ts * M - now - wait <= FUTURE * M)),
           'judged by the clock of the moment')
    ensure(implies(and_(first.ok, wait > (OLD + FUTURE) * M),
                   not second.ok), 'no message is fresh for ever')
