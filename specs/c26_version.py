"""C26: only compatible protocol versions talk to each other."""
import struct

from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions

VERIFY = 'golem_messages.message.base.verify_version'
HELLO = 'golem_messages.message.base.Hello.'
BAD = exceptions.VersionMismatchError
SUFFIXES = ('', '-rc1', '-alpha.2', '+dev5.gabc', '-rc1+dev5.gabc')


def number(name):
    return any_int(name, 0, 10 ** 6)


def spelled(tag, suffix, *same_as):
    """Text and numbers of a version; beginning with given numbers"""
    ns = list(same_as)
    for n in ('major', 'minor', 'patch')[len(ns):]:
        ns.append(number(tag + n))
    return '%d.%d.%d%s' % (ns[0], ns[1], ns[2], suffix), ns


@lemma('C26', params=[(a, b) for a in SUFFIXES for b in SUFFIXES],
       targets=[VERIFY])
def compatible(ours, theirs):
    """Of one minor version, except what came before its first release"""
    mine, m = spelled('our ', ours)
    text, t = spelled('their ', theirs, *m[:choice('alike', (0, 1, 2, 3))])
    set_version(mine)
    out = attempt(base.verify_version, text)
    early = and_('-' in theirs, t[2] == 0)
    ok = and_(t[0] == m[0], t[1] == m[1],
              or_(not_(early), and_(ours == theirs, t[2] == m[2])))
    ensure(iff(out.ok, ok), 'compatible')
    ensure(or_(out.ok, out.raised(BAD)), 'or a mismatch')


@lemma('C26', targets=[VERIFY])
def no_version():
    """What is no version at all is a mismatch"""
    text = any_str('text', hint='version')
    out = attempt(base.verify_version, text)
    ensure(or_(out.ok, out.raised(BAD)), 'accepted or a mismatch')
    ensure(implies(out.ok, is_version(text)), 'versions only')


@lemma('C26', params=['', '-rc1', '+dev5'],
       targets=[HELLO + '__init__', HELLO + 'serialize',
                HELLO + 'deserialize_with_header'])
def announced(suffix):
    """A greeting announces the version it was made with, the receiver knows
    it, and accepts it if and only if it is compatible"""
    ours, m = spelled('our ', '')
    theirs, t = spelled('their ', suffix)
    assume(length(theirs) < 31)
    set_version(theirs)
    key = any_privkey('key')
    hello = base.Hello(rand_val=any_int('rand', 0, 2 ** 32))
    ensure(same(hello._version, theirs), 'version of the program')
    assume(and_(hello.timestamp > 1262304000, hello.timestamp < 32819212800))
    hello.sign_message(key)
    data = hello.serialize()
    set_version(ours)
    ensure(same(hello.serialize(), data), 'however it changes later')
    ensure(same(data[-32:], struct.pack('!32p', theirs.encode())),
           'last in the message')
    out = attempt(base.Message.deserialize, data, None, check_time=False)
    ok = attempt(base.verify_version, theirs).ok
    ensure(iff(out.ok, ok), 'compatible only')
    ensure(or_(out.ok, out.raised(BAD)), 'or a mismatch')
    if out.ok:
        ensure(same(out.value._version, theirs), 'theirs')
        ensure(same(out.value.serialize(), data), 'as sent')
    del m, t


@lemma('C26', targets=[HELLO + 'deserialize_with_header'])
def first_of_all():
    """The version is looked at before the contents of a greeting, which an
    incompatible version may encode in ways nobody knows here"""
    set_version('3.14.2')
    version = any_str('version', hint='version', maxlen=31)
    body = any_bytes('contents')
    ts = any_int('time', 1262304001, 32819212799)
    data = be(0, 2) + be(ts, 8) + b'\0' + any_bytes('sig', n=65) + body + \
        struct.pack('!32p', version.encode('ascii', 'replace'))
    ok = attempt(base.verify_version,
                 version.encode('ascii', 'replace').decode('ascii', 'replace')).ok
    if not ok:
        out = attempt(base.Message.deserialize, data, None, check_time=False)
        ensure(out.raised(BAD), 'a mismatch')


@lemma('C26', params=['RandVal', 'Ping', 'WantToComputeTask', 'ServiceRefused',
                      'Disconnect'],
       targets=['golem_messages.message.base.Message.deserialize'])
def only_greetings(name):
    """Other messages do not depend on versions"""
    m = any_message(name)
    assume(and_(m.timestamp > 1262304000, m.timestamp < 32819212800))
    data = m.serialize()
    set_version(spelled('our ', '')[0])
    ensure(same(m.serialize(), data), 'same bytes')
    out = attempt(base.Message.deserialize, data, None, check_time=False)
    ensure(out.ok, 'accepted')
