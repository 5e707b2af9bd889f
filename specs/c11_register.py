"""C11: the message type register is a bijection and covers every message."""
from vc import *  # noqa
from golem_messages import register
from golem_messages.message import base, concents, p2p, resources, tasks

MODULES = (base, concents, p2p, resources, tasks)


class M1:
    pass


class M2:
    pass


class M3:
    pass


def fresh():
    return register.MessageRegister()


@lemma('C11', targets=['golem_messages.register.MessageRegister.register'])
def register_then_find():
    """From any register state reached by two registrations: what was
    registered is found both ways, nothing else is."""
    reg = fresh()
    a, b, probe = any_int('a'), any_int('b'), any_int('probe')
    ensure(not_(probe in reg), 'an empty register knows no type')
    o = attempt(reg.register(a), M1)
    ensure(o.ok, 'first registration')
    ensure(o.value is M1, 'the class is returned unchanged')
    o = attempt(reg.register(b), M2)
    ensure(iff(o.ok, a != b), 'registered iff the number is free')
    if o.ok:
        cover('two types')
        ensure(o.value is M2, 'the class is returned unchanged')
        ensure(reg[a] is M1, 'lookup of the first')
        ensure(reg[b] is M2, 'lookup of the second')
        ensure(reg.get_type(M1) == a, 'number of the first')
        ensure(reg.get_type(M2) == b, 'number of the second')
        ensure(iff(probe in reg, or_(probe == a, probe == b)),
               'knows exactly the registered numbers')
        g = attempt(lambda: reg[probe])
        ensure(iff(g.ok, or_(probe == a, probe == b)), 'finds exactly these')
        if not g.ok:
            cover('unknown')
            ensure(g.raised(KeyError), 'unknown number: KeyError')
        else:
            ensure(iff(probe == a, g.value is M1), 'the right class')
    else:
        cover('duplicate')
        ensure(o.raised(RuntimeError), 'a duplicate is refused')
        ensure(reg[a] is M1, 'and changes nothing: number')
        ensure(reg.get_type(M1) == a, 'and changes nothing: class')
        u = attempt(reg.get_type, M2)
        ensure(u.raised(KeyError), 'the refused class is not registered')


@lemma('C11', targets=['golem_messages.register.MessageRegister.register'])
def taken_numbers():
    """However often and by whichever class a number is claimed again, it
    stays with the first"""
    reg = fresh()
    a, b = any_int('a'), any_int('b')
    assume(a != b)
    ensure(attempt(reg.register(a), M1).ok, 'the first')
    late = reg.register(a)
    ensure(attempt(reg.register(b), M2).ok, 'the second')
    for c in (M1, M2, M3):
        for n, how in ((a, reg.register(a)), (a, late),
                       (b, reg.register(b))):
            ensure(attempt(how, c).raised(RuntimeError), 'refused')
            ensure(reg[a] is M1 and reg[b] is M2, 'the classes stay')
            ensure(reg.get_type(M1) == a, 'the number stays')
            ensure(reg.get_type(M2) == b, 'the other number stays')
            ensure(attempt(reg.get_type, M3).raised(KeyError), 'not known')
    n = any_int('n')
    out = attempt(reg.register(n), M3)
    ensure(iff(out.ok, and_(n != a, n != b)), 'others are free')
    ensure(iff(out.ok, attempt(reg.get_type, M3).ok), 'known if registered')


@lemma('C11', targets=['golem_messages.register.MessageRegister.get_type'])
def unknown_class():
    reg = fresh()
    a = any_int('a')
    reg.register(a)(M1)
    ensure(attempt(reg.get_type, M2).raised(KeyError),
           'an unregistered class has no number')
    ensure(attempt(reg.get_type, M1).value == a, 'a registered one has')


@lemma('C11', targets=['golem_messages.register.MessageRegister'])
def registers_are_independent():
    r, s = fresh(), fresh()
    a, b = any_int('a'), any_int('b')
    r.register(a)(M1)
    ensure(not_(b in s), 'a second register does not see it')
    ensure(attempt(s.get_type, M1).raised(KeyError), 'by class either')
    ensure(attempt(s.register(a), M3).ok, 'the number is free there')
    ensure(r[a] is M1, 'the first is unchanged')


def message_classes():
    out = []
    for m in MODULES:
        for n in sorted(m.__dict__):
            c = m.__dict__[n]
            if isinstance(c, type) and issubclass(c, base.Message) and \
                    c not in out:
                out.append(c)
    return out


def registered():
    lib = register.library
    return [(n, lib[n]) for n in range(0, 12000) if n in lib]


@lemma('C11', targets=['golem_messages.register.library'])
def library_is_a_bijection():
    lib = register.library
    reg = registered()
    ensure(len(reg) > 0, 'the register is filled')
    seen = []
    for n, c in reg:
        ensure(c not in seen, 'one number per class: %s' % c.__name__)
        seen.append(c)
        ensure(lib.get_type(c) == n, 'both directions agree: %s'
               % c.__name__)
        ensure(isinstance(c, type) and issubclass(c, base.Message),
               'only messages: %s' % c.__name__)


# The protocol's wire numbers: peers running other releases rely on them.
NUMBERS = {
    0: 'Hello',
    1: 'RandVal',
    2: 'Disconnect',
    3: 'ChallengeSolution',
    1001: 'Ping',
    1002: 'Pong',
    1003: 'GetPeers',
    1004: 'Peers',
    1005: 'GetTasks',
    1006: 'Tasks',
    1007: 'RemoveTask',
    1008: 'GetResourcePeers',
    1009: 'ResourcePeers',
    1010: 'Degree',
    1011: 'Gossip',
    1012: 'StopGossip',
    1013: 'LocRank',
    1014: 'FindNode',
    1015: 'WantToStartTaskSession',
    1016: 'SetTaskSession',
    1017: 'RemoveTaskContainer',
    2001: 'WantToComputeTask',
    2002: 'TaskToCompute',
    2003: 'CannotAssignTask',
    2004: 'ReportComputedTask',
    2010: 'SubtaskResultsAccepted',
    2011: 'SubtaskResultsRejected',
    2015: 'TaskFailure',
    2016: 'StartSessionResponse',
    2026: 'CannotComputeTask',
    2027: 'SubtaskPayment',
    2028: 'SubtaskPaymentRequest',
    2029: 'AckReportComputedTask',
    2030: 'RejectReportComputedTask',
    3001: 'PushResource',
    3002: 'HasResource',
    3003: 'WantsResource',
    3004: 'PullResource',
    3005: 'PullAnswer',
    3008: 'ResourceHandshakeStart',
    3009: 'ResourceHandshakeNonce',
    3010: 'ResourceHandshakeVerdict',
    4000: 'ServiceRefused',
    4001: 'ForceReportComputedTask',
    4004: 'VerdictReportComputedTask',
    4005: 'FileTransferToken',
    4006: 'SubtaskResultsVerify',
    4007: 'AckSubtaskResultsVerify',
    4008: 'SubtaskResultsSettled',
    4009: 'ForceGetTaskResult',
    4010: 'AckForceGetTaskResult',
    4011: 'ForceGetTaskResultFailed',
    4012: 'ForceGetTaskResultRejected',
    4013: 'ForceGetTaskResultUpload',
    4014: 'ForceGetTaskResultDownload',
    4015: 'ForceSubtaskResults',
    4016: 'ForceSubtaskResultsResponse',
    4017: 'ForceSubtaskResultsRejected',
    4018: 'ForcePayment',
    4019: 'ForcePaymentCommitted',
    4020: 'ForcePaymentRejected',
    4021: 'ForceReportComputedTaskResponse',
    4022: 'ClientAuthorization',
}


@lemma('C11', targets=['golem_messages.register.library'])
def library_has_the_protocol_numbers():
    got = dict((n, c.__name__) for n, c in registered())
    for n in NUMBERS:
        ensure(got.get(n) == NUMBERS[n], 'number %d' % n)
    for c in message_classes():
        try:
            n = register.library.get_type(c)
        except KeyError:
            continue
        ensure(n in NUMBERS and NUMBERS[n] == c.__name__, c.__name__)
