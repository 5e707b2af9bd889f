"""The protocol's messages: their fields, as published, and how to make one
of each (every field being any value of its kind)."""
import uuid

from vc import *  # noqa
from golem_messages import datastructures, idgenerator
from golem_messages.datastructures import masking, p2p as dt_p2p, stats
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.message import base, concents, p2p, resources, tasks

MODULES = (base, p2p, tasks, resources, concents)

# number: (name, fields in wire order, nested messages, enumerations)
# nested: field -> class, '?' when nothing is allowed, '*' for lists
WIRE = {
    0: ('Hello', 'rand_val proto_id node_info port client_ver '
        'solve_challenge challenge difficulty metadata'),
    1: ('RandVal', 'rand_val'),
    2: ('Disconnect', 'reason'),
    3: ('ChallengeSolution', 'solution'),
    1001: ('Ping', ''),
    1002: ('Pong', ''),
    1003: ('GetPeers', ''),
    1004: ('Peers', 'peers'),
    1005: ('GetTasks', ''),
    1006: ('Tasks', 'tasks'),
    1007: ('RemoveTask', 'task_id'),
    1008: ('GetResourcePeers', ''),
    1009: ('ResourcePeers', 'resource_peers'),
    1010: ('Degree', 'degree'),
    1011: ('Gossip', 'gossip'),
    1012: ('StopGossip', ''),
    1013: ('LocRank', 'node_id loc_rank'),
    1014: ('FindNode', 'node_key_id'),
    1015: ('WantToStartTaskSession', 'node_info conn_id super_node_info'),
    1016: ('SetTaskSession', 'key_id node_info conn_id super_node_info'),
    1017: ('RemoveTaskContainer', 'remove_tasks'),
    2001: ('WantToComputeTask', 'perf_index cpu_usage max_resource_size '
           'max_memory_size price num_subtasks concent_enabled extra_data '
           'provider_public_key provider_ethereum_address task_header'),
    2002: ('TaskToCompute', 'requestor_id requestor_public_key '
           'requestor_ethereum_public_key provider_id compute_task_def '
           'want_to_compute_task package_hash size concent_enabled price '
           'resources_options ethsig promissory_note_sig '
           'concent_promissory_note_sig'),
    2003: ('CannotAssignTask', 'task_id reason'),
    2004: ('ReportComputedTask', 'address node_info port key_id extra_data '
           'task_to_compute size package_hash multihash secret options '
           'stats'),
    2010: ('SubtaskResultsAccepted', 'payment_ts report_computed_task'),
    2011: ('SubtaskResultsRejected', 'report_computed_task '
           'force_get_task_result_failed reason'),
    2015: ('TaskFailure', 'task_to_compute err reason'),
    2016: ('StartSessionResponse', 'conn_id'),
    2026: ('CannotComputeTask', 'task_to_compute reason'),
    2027: ('SubtaskPayment', 'subtask_id reward transaction_id '
           'block_number'),
    2028: ('SubtaskPaymentRequest', 'subtask_id'),
    2029: ('AckReportComputedTask', 'report_computed_task'),
    2030: ('RejectReportComputedTask', 'attached_task_to_compute '
           'task_failure cannot_compute_task reason'),
    3001: ('PushResource', 'copies resource'),
    3002: ('HasResource', 'resource'),
    3003: ('WantsResource', 'resource'),
    3004: ('PullResource', 'resource'),
    3005: ('PullAnswer', 'resource has_resource'),
    3008: ('ResourceHandshakeStart', 'resource options'),
    3009: ('ResourceHandshakeNonce', 'nonce'),
    3010: ('ResourceHandshakeVerdict', 'accepted nonce'),
    4000: ('ServiceRefused', 'task_to_compute reason'),
    4001: ('ForceReportComputedTask', 'report_computed_task result_hash'),
    4004: ('VerdictReportComputedTask', 'force_report_computed_task '
           'ack_report_computed_task'),
    4005: ('FileTransferToken', 'subtask_id token_expiration_deadline '
           'storage_cluster_address authorized_client_public_key operation '
           'files'),
    4006: ('SubtaskResultsVerify', 'subtask_results_rejected '
           'concent_promissory_note_sig'),
    4007: ('AckSubtaskResultsVerify', 'subtask_results_verify '
           'file_transfer_token'),
    4008: ('SubtaskResultsSettled', 'origin task_to_compute'),
    4009: ('ForceGetTaskResult', 'report_computed_task'),
    4010: ('AckForceGetTaskResult', 'force_get_task_result'),
    4011: ('ForceGetTaskResultFailed', 'task_to_compute'),
    4012: ('ForceGetTaskResultRejected', 'force_get_task_result reason'),
    4013: ('ForceGetTaskResultUpload', 'force_get_task_result '
           'file_transfer_token'),
    4014: ('ForceGetTaskResultDownload', 'force_get_task_result '
           'file_transfer_token'),
    4015: ('ForceSubtaskResults', 'ack_report_computed_task'),
    4016: ('ForceSubtaskResultsResponse', 'subtask_results_accepted '
           'subtask_results_rejected'),
    4017: ('ForceSubtaskResultsRejected', 'force_subtask_results reason'),
    4018: ('ForcePayment', 'subtask_results_accepted_list'),
    4019: ('ForcePaymentCommitted', 'payment_ts task_owner_key '
           'provider_eth_account amount_paid recipient_type '
           'amount_pending'),
    4020: ('ForcePaymentRejected', 'force_payment reason'),
    4021: ('ForceReportComputedTaskResponse', 'reason '
           'ack_report_computed_task reject_report_computed_task'),
    4022: ('ClientAuthorization', 'client_public_key'),
}
NUMBER = {WIRE[n][0]: n for n in WIRE}
FIELDS = {WIRE[n][0]: WIRE[n][1].split() for n in WIRE}
NAMES = tuple(WIRE[n][0] for n in sorted(WIRE))

NESTED = {
    'RemoveTaskContainer': {'remove_tasks': 'RemoveTask*'},
    'TaskToCompute': {'want_to_compute_task': 'WantToComputeTask'},
    'ReportComputedTask': {'task_to_compute': 'TaskToCompute'},
    'SubtaskResultsAccepted': {'report_computed_task': 'ReportComputedTask'},
    'SubtaskResultsRejected': {
        'report_computed_task': 'ReportComputedTask',
        'force_get_task_result_failed': 'ForceGetTaskResultFailed?'},
    'TaskFailure': {'task_to_compute': 'TaskToCompute'},
    'CannotComputeTask': {'task_to_compute': 'TaskToCompute'},
    'AckReportComputedTask': {'report_computed_task': 'ReportComputedTask'},
    'RejectReportComputedTask': {
        'attached_task_to_compute': 'TaskToCompute?',
        'task_failure': 'TaskFailure?',
        'cannot_compute_task': 'CannotComputeTask?'},
    'ServiceRefused': {'task_to_compute': 'TaskToCompute?'},
    'ForceReportComputedTask': {'report_computed_task': 'ReportComputedTask'},
    'VerdictReportComputedTask': {
        'force_report_computed_task': 'ForceReportComputedTask',
        'ack_report_computed_task': 'AckReportComputedTask'},
    'SubtaskResultsVerify': {
        'subtask_results_rejected': 'SubtaskResultsRejected'},
    'AckSubtaskResultsVerify': {
        'subtask_results_verify': 'SubtaskResultsVerify',
        'file_transfer_token': 'FileTransferToken'},
    'SubtaskResultsSettled': {'task_to_compute': 'TaskToCompute'},
    'ForceGetTaskResult': {'report_computed_task': 'ReportComputedTask'},
    'AckForceGetTaskResult': {'force_get_task_result': 'ForceGetTaskResult'},
    'ForceGetTaskResultFailed': {'task_to_compute': 'TaskToCompute'},
    'ForceGetTaskResultRejected': {
        'force_get_task_result': 'ForceGetTaskResult'},
    'ForceGetTaskResultUpload': {
        'force_get_task_result': 'ForceGetTaskResult',
        'file_transfer_token': 'FileTransferToken'},
    'ForceGetTaskResultDownload': {
        'force_get_task_result': 'ForceGetTaskResult',
        'file_transfer_token': 'FileTransferToken'},
    'ForceSubtaskResults': {
        'ack_report_computed_task': 'AckReportComputedTask'},
    'ForceSubtaskResultsResponse': {
        'subtask_results_accepted': 'SubtaskResultsAccepted?',
        'subtask_results_rejected': 'SubtaskResultsRejected?'},
    'ForceSubtaskResultsRejected': {
        'force_subtask_results': 'ForceSubtaskResults'},
    'ForcePayment': {
        'subtask_results_accepted_list': 'SubtaskResultsAccepted*'},
    'ForcePaymentRejected': {'force_payment': 'ForcePayment'},
    'ForceReportComputedTaskResponse': {
        'ack_report_computed_task': 'AckReportComputedTask?',
        'reject_report_computed_task': 'RejectReportComputedTask?'},
}

ENUMS = {
    'Disconnect': {'reason': {
        'DuplicatePeers': 'duplicate_peers',
        'TooManyPeers': 'too_many_peers', 'Refresh': 'refresh',
        'Unverified': 'unverified', 'ProtocolVersion': 'protocol_version',
        'BadProtocol': 'bad_protocol', 'Timeout': 'timeout',
        'NoMoreMessages': 'no_more_messages',
        'WrongEncryption': 'wrong_encryption',
        'ResourceHandshakeFailure': 'resource_handshake',
        'KeyNotDifficult': 'key_not_difficult', 'Bootstrap': 'bootstrap'}},
    'CannotAssignTask': {'reason': {k: k for k in (
        'NotMyTask', 'NoMoreSubtasks', 'TaskFinished', 'ConcentDisabled')}},
    'SubtaskResultsRejected': {'reason': {
        'VerificationNegative': 'Results verification negative',
        'ConcentResourcesFailure':
            'Concent could not retrieve resources to verify',
        'ConcentVerificationNegative':
            'Concent results verification negative',
        'ForcedResourcesFailure':
            'Concent reported failure to retrieve the resources to verify',
        'ResourcesFailure': 'Could not retrieve resources'}},
    'TaskFailure': {'reason': {k: k for k in (
        'ComputationError', 'BudgetExceeded', 'TimeExceeded')}},
    'CannotComputeTask': {'reason': {k: k for k in (
        'CannotTakeWork', 'WrongCTD', 'WrongKey', 'WrongAddress',
        'WrongEnvironment', 'NoSourceCode', 'WrongDockerImages',
        'ConcentRequired', 'ConcentDisabled', 'InsufficientBalance',
        'InsufficientDeposit', 'TooShortDeposit', 'PromissoryNoteMissing',
        'OfferCancelled', 'ResourcesTooBig')}},
    'RejectReportComputedTask': {'reason': {k: k for k in (
        'SubtaskTimeLimitExceeded', 'GotMessageCannotComputeTask',
        'GotMessageTaskFailure')}},
    'ServiceRefused': {'reason': {
        'TooSmallCommunicationPayment': 'TOO_SMALL_COMMUNICATION_PAYMENT',
        'TooSmallRequestorDeposit': 'TOO_SMALL_REQUESTOR_DEPOSIT',
        'TooSmallProviderDeposit': 'TOO_SMALL_PROVIDER_DEPOSIT',
        'SystemOverloaded': 'SYSTEM_OVERLOADED',
        'DuplicateRequest': 'DUPLICATE_REQUEST',
        'InvalidRequest': 'REQUEST_FORMAT_OR_CONTENT_INVALID',
        'ConcentDisabled': 'CONCENT_SERVICE_IS_NOT_ENABLED_FOR_THIS_SUBTASK',
        'UnsupportedProtocolVersion': 'UNSUPPORTED_PROTOCOL_VERSION',
        'PriceNotPositive': 'PRICE_NOT_POSITIVE'}},
    'FileTransferToken': {'operation': {k: k for k in (
        'upload', 'download')}},
    'SubtaskResultsSettled': {'origin': {
        'ResultsAcceptedTimeout': 'results_accepted_timeout',
        'ResultsRejected': 'results_rejected'}},
    'ForceGetTaskResultRejected': {'reason': {
        'AcceptanceTimeLimitExceeded': 'acceptance_time_limit_exceeded'}},
    'ForceSubtaskResultsRejected': {'reason': {
        'RequestPremature':
            'premature: still within the verification timeout',
        'RequestTooLate': 'too late: past the forced communication timeout'}},
    'ForcePaymentCommitted': {'recipient_type': {
        'Requestor': 'requestor', 'Provider': 'provider'}},
    'ForcePaymentRejected': {'reason': {
        'NoUnsettledTasksFound': 'no unsettled tasks found',
        'TimestampError':
            'timestamp error - subtasks are not overdue yet'}},
    'ForceReportComputedTaskResponse': {'reason': {
        'AckFromRequestor': 'ack_from_requestor',
        'RejectFromRequestor': 'reject_from_requestor',
        'SubtaskTimeout': 'subtask_timeout',
        'ConcentAck': 'concent_ack'}},
}
UNSIGNED = ('Ping', 'Pong', 'GetPeers', 'Peers', 'GetTasks',
            'GetResourcePeers', 'ResourcePeers', 'Degree', 'Gossip',
            'StopGossip', 'LocRank', 'FindNode')
# those which hold a list of structured parts, directly or nested
LISTS = ('Peers', 'Tasks', 'RemoveTaskContainer', 'FileTransferToken',
         'AckSubtaskResultsVerify', 'ForceGetTaskResultUpload',
         'ForceGetTaskResultDownload', 'ForcePayment',
         'ForcePaymentRejected')
UNENCRYPTED = ('Hello', 'Disconnect')
NODES = {'Hello': ('node_info', ),
         'WantToStartTaskSession': ('node_info', 'super_node_info'),
         'SetTaskSession': ('node_info', 'super_node_info')}


def by_name(name):
    for m in MODULES:
        if name in m.__dict__:
            return m.__dict__[name]
    return None


def enum_of(name, field):
    c = by_name(name)
    if field == 'reason':
        return c.REASON
    return c.ENUM_SLOTS[field]


def header(name, tag='', encrypted=False):
    return datastructures.MessageHeader(
        NUMBER[name], any_int('%s%s.timestamp' % (tag, name), 0, 2 ** 64 - 1,
                              hint=[1262304001, 1262304000, 1700000000,
                                    1600000001, 32819212799]),
        encrypted)


def version_text(tag):
    v = any_str(tag, hint='version')
    assume(is_version(v))
    return v


def node(tag):
    return dt_p2p.Node(node_name=any_str(tag + '.node_name'),
                       key=any_str(tag + '.key', maxlen=128),
                       prv_port=any_int(tag + '.prv_port', 1, 65534))


def task_header(tag):
    return dt_tasks.TaskHeader(
        task_id=any_str(tag + '.task_id', maxlen=128),
        task_owner={'node_name': any_str(tag + '.owner')},
        subtasks_count=any_int(tag + '.count', 1),
        min_version=version_text(tag + '.min_version'),
        timestamp=any_int(tag + '.ts'),
        deadline=any_int(tag + '.deadline'),
        environment_prerequisites={'k': any_wire(tag + '.prereq')},
        signature=any_bytes(tag + '.sig'))


def peer(tag):
    return dt_p2p.Peer(address=any_ip(tag + '.address'),
                       port=any_int(tag + '.port', 1, 65534),
                       node=node(tag + '.node'))


def any_ip(tag):
    v = any_str(tag, hint='ip')
    assume(is_ip(v))
    return v


def file_info(tag, which):
    c = concents.FileTransferToken.FileInfo.Category
    return concents.FileTransferToken.FileInfo({
        'path': any_str(tag + '.path'), 'checksum': any_str(tag + '.sum'),
        'size': any_int(tag + '.size', 0),
        'category': c.results if which else c.resources})


def task_def(tag):
    return tasks.ComputeTaskDef({
        'task_id': any_str(tag + '.task_id', maxlen=128),
        'subtask_id': any_str(tag + '.subtask_id', maxlen=128),
        'deadline': any_int(tag + '.deadline', 0, 2 ** 33),
        'extra_data': any_wire(tag + '.extra_data'),
        'resources': any_wire(tag + '.resources')})


ANY_LENGTH = []


def any_length(f, *args):
    """Run f with lists of structured parts of any length"""
    ANY_LENGTH.append(1)
    try:
        return f(*args)
    finally:
        ANY_LENGTH.pop()


def few(tag, elem):
    """A list of none, one or two; of any length where that is asked for"""
    if ANY_LENGTH:
        return any_list(tag, elem)
    n = choice(tag + ' length', (0, 1, 2))
    return [elem('%s%d' % (tag, i)) for i in range(n)]


SPECIAL = {
    ('Peers', 'peers'): lambda t: few(t, peer),
    ('Tasks', 'tasks'): lambda t: few(t, task_header),
    ('WantToComputeTask', 'concent_enabled'): any_bool,
    ('WantToComputeTask', 'num_subtasks'): lambda t: any_int(t, 1),
    ('WantToComputeTask', 'cpu_usage'): lambda t: any_int(t, 0),
    ('WantToComputeTask', 'task_header'): task_header,
    ('TaskToCompute', 'concent_enabled'): any_bool,
    ('TaskToCompute', 'price'): any_int,
    ('TaskToCompute', 'size'): any_int,
    ('TaskToCompute', 'compute_task_def'): task_def,
    ('ReportComputedTask', 'stats'): lambda t: stats.ProviderStats(
        pids_stats={'limit': any_int(t + '.limit')},
        memory_stats={'cache': any_int(t + '.cache')},
        cpu_stats={'cpu_usage': {
            'usage_in_usermode': any_wire(t + '.user')}}),
    ('FileTransferToken', 'files'): lambda t: few(
        t, lambda u: file_info(u, u[-1] == '0')),
}


def field_value(name, field, tag, depth=9):
    """Any good value of a field (nothing included where that is one)"""
    t = '%s%s.%s' % (tag, name, field)
    if (name, field) in SPECIAL:
        return SPECIAL[name, field](t)
    if name in ENUMS and field in ENUMS[name]:
        return list(enum_of(name, field))[-1]
    if name in NODES and field in NODES[name]:
        return node(t)
    if name in NESTED and field in NESTED[name]:
        k = NESTED[name][field]
        if k[-1] == '?':
            return any_message(k[:-1], t + '/', depth - 1) if depth else None
        if k[-1] == '*':
            return few(t, lambda u: any_message(k[:-1], u + '/', depth - 1))
        return any_message(k, t + '/', depth - 1)
    return any_wire(t)


def any_message(name, tag='', depth=9, sig=True, **fixed):
    """A message of the class with any contents."""
    kw = {}
    for f in FIELDS[name]:
        kw[f] = fixed[f] if f in fixed else field_value(name, f, tag, depth)
    m = by_name(name)(header=header(name, tag), **kw)
    if sig:
        m.sig = any_bytes('%s%s.sig' % (tag, name), n=65)
    return m


def hexed(b):
    return b.hex()


def seeded_id(tag, seed):
    """An identifier made for the owner of the seed"""
    return str(uuid.UUID(bytes=any_bytes(tag, n=10) + seed[:6]))


def valid_task_to_compute(tag, depth=9, **fixed):
    """A TaskToCompute that passes the checks made on reception"""
    seed = any_bytes(tag + 'requestor', n=64)
    key = any_privkey(tag + 'ethkey')
    ctd = tasks.ComputeTaskDef({
        'task_id': seeded_id(tag + 'task', seed),
        'subtask_id': seeded_id(tag + 'subtask', seed),
        'deadline': any_int(tag + 'deadline', 0, 2 ** 33),
        'extra_data': any_wire(tag + 'extra_data')})
    fixed.setdefault('compute_task_def', ctd)
    m = any_message('TaskToCompute', tag, depth,
                    requestor_id=hexed(seed),
                    requestor_ethereum_public_key=hexed(pub(key)),
                    **fixed)
    m.generate_ethsig(key)
    return m


def valid_message(name, tag='', **fixed):
    """A message that passes the checks made on reception"""
    if name == 'TaskToCompute':
        return valid_task_to_compute(tag, **fixed)
    if name == 'SubtaskResultsAccepted':
        m = any_message(name, tag, payment_ts=any_int(tag + 'payment_ts'),
                        **fixed)
        assume(m.payment_ts <= m.timestamp)
        assume(m.payment_ts + 900 >= m.timestamp)
        return m
    if name == 'SubtaskResultsRejected':
        rct = any_message('ReportComputedTask', tag + 'rct/')
        ids = rct.task_to_compute.compute_task_def
        fgtrf = None
        if choice(tag + 'with the failure', (False, True)):
            fgtrf = any_message(
                'ForceGetTaskResultFailed', tag + 'fgtrf/',
                task_to_compute=any_message(
                    'TaskToCompute', tag + 'ttc2/', 9,
                    compute_task_def=tasks.ComputeTaskDef({
                        'task_id': ids['task_id'],
                        'subtask_id': ids['subtask_id']})))
        reasons = list(tasks.SubtaskResultsRejected.REASON)
        if fgtrf is None:
            reasons = [r for r in reasons
                       if r.name != 'ForcedResourcesFailure']
        return any_message(
            name, tag, report_computed_task=rct,
            force_get_task_result_failed=fgtrf,
            reason=choice(tag + 'reason', reasons))
    if name == 'VerdictReportComputedTask':
        ttc = any_message('TaskToCompute', tag + 'ttc/')
        return any_message(
            name, tag,
            force_report_computed_task=any_message(
                'ForceReportComputedTask', tag + 'frct/',
                report_computed_task=any_message(
                    'ReportComputedTask', tag + 'rct1/',
                    task_to_compute=ttc)),
            ack_report_computed_task=any_message(
                'AckReportComputedTask', tag + 'arct/',
                report_computed_task=any_message(
                    'ReportComputedTask', tag + 'rct2/',
                    task_to_compute=ttc)))
    return any_message(name, tag, **fixed)


def same_message(a, b, path=''):
    """Same class, header (except the encryption flag), signature and fields;
    every difference fails an obligation of its own."""
    ensure(type(a) is type(b), path + 'same class')
    if type(a) is not type(b):
        return
    name = type(a).__name__
    ensure(type(b.header) is datastructures.MessageHeader, path + 'header')
    ensure(a.header.type_ == b.header.type_, path + 'same type')
    ensure(eq(a.timestamp, b.timestamp), path + 'same timestamp')
    ensure(same(a.sig, b.sig), path + 'same signature')
    for f in FIELDS[name]:
        same_field(name, f, getattr(a, f), getattr(b, f), path + f)
    if name == 'Hello' and not path:
        ensure(same(a._version, b._version), 'same version')


def same_field(name, f, x, y, path):
    if f in NESTED.get(name, {}):
        if x is None or y is None:
            ensure(x is None and y is None, path + ' is nothing')
        elif NESTED[name][f][-1] == '*':
            ensure(isinstance(y, list) and len(x) == len(y), path)
            for i in positions(x):
                same_message(x[i], y[i], path + '[].')
        else:
            same_message(x, y, path + '.')
    elif f in NODES.get(name, ()) or f in ('task_header', 'stats'):
        ensure(type(x) is type(y), path + ': kind')
        if type(x) is type(y) and x is not None:
            ensure(same(x.to_dict(), y.to_dict()), path)
    elif (name, f) == ('Tasks', 'tasks'):
        ensure(isinstance(y, list) and len(x) == len(y), path)
        for i in positions(x):
            ensure(type(y[i]) is dt_tasks.TaskHeader, path + ': kind')
            ensure(same(x[i].to_dict(), y[i].to_dict()), path)
    elif (name, f) == ('Peers', 'peers'):
        ensure(isinstance(y, list) and len(x) == len(y), path)
        for i in positions(x):
            ensure(type(y[i]) is dt_p2p.Peer, path + ': kind')
            ensure(same(x[i].serialize(), y[i].serialize()), path)
    elif (name, f) == ('FileTransferToken', 'files'):
        ensure(isinstance(y, list) and len(x) == len(y), path)
        for i in positions(x):
            ensure(type(y[i]) is concents.FileTransferToken.FileInfo,
                   path + ': kind')
            for k in ('path', 'checksum', 'size'):
                ensure(same(x[i][k], y[i][k]), path + ': ' + k)
            ensure(x[i]['category'] is y[i]['category'], path + ': category')
    elif (name, f) == ('TaskToCompute', 'compute_task_def'):
        ensure(type(y) is tasks.ComputeTaskDef, path + ': kind')
        ensure(same(dict(x), dict(y)), path)
    elif f in ENUMS.get(name, {}):
        ensure(x is y, path)
    elif name in ('ResourcePeers', 'Gossip'):
        # an empty list stands for anything empty
        ensure(same(x, y), path)
    else:
        ensure(same(x, y), path)
