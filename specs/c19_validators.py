"""C19: every field validator accepts exactly the documented values."""
from vc import *  # noqa
from golem_messages import exceptions, validators


def verdict(out, v, accept, label):
    """The validator accepts iff `accept`, otherwise raises the field error
    naming the field and the value; it never returns anything."""
    ensure(or_(out.ok, out.raised(exceptions.FieldError)),
           label + ': only field errors are raised')
    ensure(iff(out.ok, accept), label + ': accepts exactly')
    if out.raised(exceptions.FieldError):
        cover(label + ': rejects')
        ensure(out.exc.field == 'the_field', label + ': names the field')
        ensure(same(out.exc.value, v), label + ': carries the value')
    elif out.ok:
        cover(label + ': accepts')
        ensure(out.value is None, label + ': returns nothing')


@lemma('C19', targets=['golem_messages.validators.validate_integer'])
def integer():
    v = any_val('value')
    out = attempt(validators.validate_integer, 'the_field', v)
    verdict(out, v, is_int(v), 'integer')


@lemma('C19', targets=['golem_messages.validators.validate_positive_integer'])
def positive_integer():
    v = any_val('value')
    out = attempt(validators.validate_positive_integer, 'the_field', v)
    verdict(out, v, and_(is_int(v), as_int(v) >= 1) if kind(v, 'int')
            else False, 'positive integer')


@lemma('C19', targets=['golem_messages.validators.validate_port'])
def port():
    v = any_val('value')
    out = attempt(validators.validate_port, 'the_field', v)
    ok = kind(v, 'int') and and_(as_int(v) >= 1, as_int(v) <= 65534)
    verdict(out, v, ok, 'port')


@lemma('C19', targets=['golem_messages.validators.validate_varchar'])
def varchar():
    v = any_val('value')
    n = any_int('max_length', 0, 4096)
    out = attempt(validators.validate_varchar, 'the_field', v, n)
    ok = kind(v, 'str') and len(as_str(v)) <= n
    verdict(out, v, ok, 'varchar')


@lemma('C19', targets=['golem_messages.validators.validate_varchar'])
def varchar128():
    v = any_val('value')
    out = attempt(validators.validate_varchar128, 'the_field', v)
    ok = kind(v, 'str') and len(as_str(v)) <= 128
    verdict(out, v, ok, 'varchar128')


@lemma('C19', targets=['golem_messages.validators.validate_boolean'])
def boolean():
    v = any_val('value')
    out = attempt(validators.validate_boolean, 'the_field', v)
    verdict(out, v, kind(v, 'bool'), 'boolean')


@lemma('C19', targets=['golem_messages.validators.validate_dict'])
def dictionary():
    v = any_val('value')
    out = attempt(validators.validate_dict, 'the_field', v)
    verdict(out, v, kind(v, 'dict'), 'dict')


@lemma('C19', targets=['golem_messages.validators.validate_version'])
def version():
    v = any_val('value', hint='version')
    out = attempt(validators.validate_version, 'the_field', v)
    ok = kind(v, 'str') and is_version(as_str(v))
    verdict(out, v, ok, 'version')


@lemma('C19', targets=['golem_messages.validators.validate_ipaddress'])
def ipaddress():
    v = any_val('value', hint='ip')
    assume(not_(kind(v, 'int', 'bool', 'bytes')))
    out = attempt(validators.validate_ipaddress, 'the_field', v)
    ok = kind(v, 'str') and is_ip(as_str(v))
    verdict(out, v, ok, 'ip address')


@lemma('C19', targets=['golem_messages.validators.fail_unless'])
def fail_unless():
    v = any_val('value')
    answer = any_bool('answer')
    asked = []

    def check(x):
        asked.append(x)
        return answer
    out = attempt(validators.fail_unless, 'the_field', v, check, 'oops')
    verdict(out, v, answer, 'fail_unless')
    ensure(len(asked) == 1, 'fail_unless: asks once')
    ensure(same(asked[0], v), 'fail_unless: asks about the value')
