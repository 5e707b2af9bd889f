"""C33: the serializer reports every failure as a serialization error."""
from vc import *  # noqa
from golem_messages import exceptions, serializer


class Odd(Exception):
    pass


@lemma('C33', targets=['golem_messages.serializer.wrap_error'])
def wrapping_any_function():
    """For any function: its result is passed through; whatever exception
    it raises becomes the given one, with the original as its cause."""
    fails = any_bool('fails')
    value = any_val('result')
    arg = any_val('argument')
    kw = any_val('keyword')
    exc = choice('exception', (Odd('boo'), ValueError('x'), KeyError('k'),
                               exceptions.FieldError('f', field='g'),
                               exceptions.SerializationError('s'),
                               TypeError('{} %s'), RecursionError('r'),
                               UnicodeDecodeError('utf-8', b'x', 0, 1, 'y')))
    seen = []

    def f(x, *, k):
        seen.append((x, k))
        if fails:
            raise exc
        return value
    wrapped = serializer.wrap_error(exceptions.CryptoError)(f)
    out = attempt(wrapped, arg, k=kw)
    ensure(iff(out.ok, not_(fails)), 'fails iff the function fails')
    ensure(len(seen) == 1, 'called once')
    ensure(and_(same(seen[0][0], arg), same(seen[0][1], kw)),
           'the arguments are passed through')
    if out.ok:
        cover('result')
        ensure(same(out.value, value), 'the result is passed through')
    else:
        cover('failure')
        ensure(type(out.exc) is exceptions.CryptoError, 'wrapped')
        ensure(out.exc.__cause__ is exc, 'with the cause')
    ensure(wrapped.__name__ == 'f', 'keeps its name')


@lemma('C33', targets=['golem_messages.serializer.loads'])
def loads_errors():
    data = any_val('data', hint=[b'\xff', b'', b'\x01', b'\x82\x01',
                                 b'\xa1\x81\x01\x02'])
    out = attempt(serializer.loads, data)
    if not out.ok:
        cover('rejects')
        ensure(type(out.exc) is exceptions.SerializationError,
               'only serialization errors')
        ensure(out.exc.__cause__ is not None, 'with a cause')
        ensure(isinstance(out.exc, exceptions.MessageError),
               'which are message errors')
    else:
        cover('accepts')


@lemma('C33', targets=['golem_messages.serializer.dumps'])
def dumps_errors():
    v = any_val('value')
    out = attempt(serializer.dumps, v)
    if out.ok:
        cover('accepts')
        ensure(kind(out.value, 'bytes'), 'bytes')
        if kind(v, 'none', 'bool', 'int', 'str', 'bytes'):
            back = attempt(serializer.loads, out.value)
            ensure(back.ok, 'what was dumped can be loaded')
            ensure(same(back.value, v), 'to the same value')
    else:
        cover('rejects')
        ensure(type(out.exc) is exceptions.SerializationError,
               'only serialization errors')
        ensure(not_(kind(v, 'none', 'bool', 'int', 'float', 'str', 'bytes')),
               'plain scalars are always accepted')


@lemma('C33', targets=['golem_messages.serializer.dumps',
                       'golem_messages.serializer.loads'])
def structures_round_trip():
    """Lists and dictionaries of plain values survive a round trip."""
    a, b = any_val('a', ('none', 'bool', 'int', 'str', 'bytes')), any_val(
        'b', ('none', 'bool', 'int', 'str', 'bytes'))
    k = any_str('k')
    v = choice('shape', ('list', 'dict', 'nested'))
    v = {'list': [a, b], 'dict': {'x': a, 'y': b},
         'nested': [{'x': [a]}, [k, {k: b}]]}[v]
    out = serializer.loads(serializer.dumps(v))
    ensure(wire_same(out, v), 'unchanged')


@lemma('C33', targets=['golem_messages.serializer.dumps'])
def dumps_is_injective():
    """Different plain values never have the same encoding."""
    a, b = any_val('a', ('none', 'bool', 'int', 'str', 'bytes')), any_val(
        'b', ('none', 'bool', 'int', 'str', 'bytes'))
    ensure(implies(serializer.dumps([a]) == serializer.dumps([b]),
                   same(a, b)), 'injective')


HIERARCHY = {
    'MessageError': RuntimeError,
    'HeaderError': 'MessageError', 'TimestampError': 'HeaderError',
    'FieldError': 'MessageError', 'MessageTooOldError': 'TimestampError',
    'MessageFromFutureError': 'TimestampError', 'CryptoError': 'MessageError',
    'InvalidSignature': 'CryptoError', 'InvalidKeys': 'CryptoError',
    'DecryptionError': 'CryptoError', 'SerializationError': 'MessageError',
    'SignatureAlreadyExists': 'SerializationError',
    'VersionMismatchError': 'MessageError',
    'OwnershipMismatch': 'MessageError', 'ValidationError': 'MessageError',
}


@lemma('C33', targets=['golem_messages.exceptions'])
def exception_hierarchy():
    for n in HIERARCHY:
        c = getattr(exceptions, n)
        up = HIERARCHY[n]
        up = getattr(exceptions, up) if isinstance(up, str) else up
        ensure(issubclass(c, up), '%s specialises %s' % (n, up.__name__))
        ensure(issubclass(c, exceptions.MessageError), n)
    for a in HIERARCHY:
        for b in HIERARCHY:
            if a != b and HIERARCHY[a] == HIERARCHY[b]:
                ensure(not issubclass(getattr(exceptions, a),
                                      getattr(exceptions, b)),
                       '%s and %s can be told apart' % (a, b))


@lemma('C33', targets=['golem_messages.exceptions.FieldError'])
def field_error_carries_field_and_value():
    v = any_val('value')
    name = any_str('name')
    e = exceptions.FieldError('msg', field=name, value=v)
    ensure(same(e.field, name), 'field')
    ensure(same(e.value, v), 'value')
    ensure(e.args == ('msg',), 'message')
    d = exceptions.FieldError('msg')
    ensure(d.field == '<unknown>', 'default field')
    ensure(d.value == '<unknown>', 'default value')
    ensure(attempt(str, e).ok, 'can always be shown')
