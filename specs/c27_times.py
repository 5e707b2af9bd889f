"""C27: times and amounts both sides have to agree on."""
import datetime
import math

from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import constants, helpers

H = 'golem_messages.helpers.'
SECOND = datetime.timedelta(seconds=1)
US = datetime.timedelta(microseconds=1)


def seconds(delta):
    """... which has no fractions"""
    us = delta // US
    ensure(us % 10 ** 6 == 0, 'whole seconds')
    return us // 10 ** 6


def download(size, rate):
    """One minute and whatever the transfer takes, begun seconds counted"""
    return 60 + (size + rate * 1024 - 1) // (rate * 1024)


@lemma('C27', targets=[H + 'maximum_download_time'])
def download_time():
    """The time for a download: a minute, and a second for all that is
    transferred in a second"""
    size = any_int('size', 0, 2 ** 50, hint=[
        lambda: 49152 * any_small(), lambda: 49152 * any_small() + 1])
    rate = any_int('rate', 1, 2 ** 20)
    ensure(seconds(helpers.maximum_download_time(size))
           == download(size, 48), 'at the usual rate')
    ensure(seconds(helpers.maximum_download_time(size=size, rate=rate))
           == download(size, rate), 'at any rate')


def any_small():
    import random
    return random.randrange(2 ** 30)


@lemma('C27', targets=[H + 'maximum_download_time'])
def more_takes_longer():
    """More never takes less time, and a higher rate never more"""
    a, b = any_int('size', 0, 2 ** 50), any_int('size 2', 0, 2 ** 50)
    r, s = any_int('rate', 1, 2 ** 20), any_int('rate 2', 1, 2 ** 20)
    f = helpers.maximum_download_time
    ensure(implies(a <= b, f(a) <= f(b)), 'more data')
    ensure(f(a) >= datetime.timedelta(minutes=1), 'a minute at least')
    ensure(implies(r <= s, seconds(f(a, r)) >= seconds(f(a, s))), 'rate')


@lemma('C27', targets=[H + 'subtask_verification_time',
                       H + 'maximum_download_time'])
def verification_time():
    """The time for verification: sixteen minutes, three downloads and half
    of the time the subtask had"""
    size = any_int('size', 0, 2 ** 50)
    start = any_int('start', 1262304001, 2 ** 34)
    deadline = any_int('deadline', 0, 2 ** 34)
    ttc = tasks.TaskToCompute(
        header=datastructures.MessageHeader(
            NUMBER['TaskToCompute'], start, False),
        compute_task_def=tasks.ComputeTaskDef({'deadline': deadline}))
    rct = tasks.ReportComputedTask(task_to_compute=ttc, size=size)
    out = helpers.subtask_verification_time(rct)
    ensure(2 * (out // US) == 10 ** 6 * (
        2 * (16 * 60 + 3 * download(size, 48)) + deadline - start),
        'verification time')


@lemma('C27', targets=[H + 'requestor_deposit_amount',
                       H + 'provider_deposit_amount'])
def deposits():
    """The deposits required and suggested"""
    price = any_int('price')
    a, b = helpers.requestor_deposit_amount(price)
    ensure(and_(same(a, 2 * price), same(b, 4 * price)), 'by requestors')
    a, b = helpers.provider_deposit_amount(price)
    ensure(and_(same(a, price), same(b, 4 * price)), 'by providers')


MINUTES = {'MMTT': 5 / 60, 'MTD': 10 / 60, 'MAT': 2.25,
           'MAX_CONCENT_PING_INTERVAL': 1, 'CMT': 4, 'FAT': 16, 'AVCT': 28,
           'PDT': 720, 'DOWNLOAD_LEADIN_TIME': 1}


@lemma('C27', targets=[])
def constant_times():
    """The agreed times"""
    for name, n in MINUTES.items():
        ensure(getattr(constants, name) == datetime.timedelta(minutes=n),
               name)
    ensure(constants.DEFAULT_UPLOAD_RATE == 48, 'rate')


@lemma('C27', params=sorted(NUMBER), targets=[])
def delays(name):
    """Only one message is not sent at once"""
    want = datetime.timedelta(0)
    if name == 'ForceReportComputedTask':
        want = datetime.timedelta(minutes=2, seconds=25)
    ensure(constants.MSG_DELAYS[by_name(name)] == want, 'delay')
