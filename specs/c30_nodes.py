"""C30: nodes and peers."""
from vc import *  # noqa
from specs.msgs import *  # noqa
from golem_messages import exceptions

N = 'golem_messages.datastructures.p2p.Node.'
P = 'golem_messages.datastructures.p2p.Peer'
ADDRESSES = ('prv_addr', 'pub_addr')
PORTS = ('prv_port', 'pub_port', 'p2p_prv_port', 'p2p_pub_port')
OTHERS = ('hyperdrive_prv_port', 'hyperdrive_pub_port')
PAIRS = {'pub_addr': 'prv_addr', 'pub_port': 'prv_port',
         'p2p_pub_port': 'p2p_prv_port',
         'hyperdrive_pub_port': 'hyperdrive_prv_port'}
ALL = ('node_name', 'key') + PORTS + ADDRESSES + (
    'prv_addresses', ) + OTHERS + ('port_statuses', 'nat_type')


def value_of(tag, k):
    t = '%s.%s' % (tag, k)
    if k in ADDRESSES:
        return any_ip(t)
    if k in PORTS:
        return any_int(t, 1, 65534)
    if k in OTHERS:
        return any_int(t)
    if k == 'key':
        return any_str(t, maxlen=128)
    if k == 'node_name':
        return any_str(t)
    if k == 'port_statuses':
        return {'40102': any_str(t)}
    return [any_str(t)]


def fields(tag, keys, some=()):
    """A dictionary with the keys, some of which may be missing"""
    d = {}
    for k in keys:
        if k in some:
            how = choice('%s.%s is' % (tag, k), ('given', 'missing', 'None'))
            if how == 'missing':
                continue
            if how == 'None':
                d[k] = None
                continue
        d[k] = value_of(tag, k)
    return d


@lemma('C30', params=sorted(PAIRS), targets=[N + 'update_public_info'])
def completed(k):
    """What is not known about the public side is as on the private one"""
    d = fields('node', ALL, (k, PAIRS[k]))
    n = dt_p2p.Node(**d)
    before = {f: getattr(n, f) for f in ALL}
    ensure(n.update_public_info() is None, 'in place')
    for f in ALL:
        if f == k and before[f] is None:
            ensure(same(getattr(n, f), before[PAIRS[f]]), 'completed')
        else:
            ensure(same(getattr(n, f), before[f]), f + ' is kept')
    again = n.to_dict()
    n.update_public_info()
    ensure(same(n.to_dict(), again), 'once is enough')


@lemma('C30', targets=[N + 'update_public_info'])
def all_completed():
    """Knowing the private side only"""
    d = fields('node', PAIRS.values())
    n = dt_p2p.Node(**d)
    n.update_public_info()
    for f in PAIRS:
        ensure(same(getattr(n, f), d[PAIRS[f]]), f)
    ensure(n.is_super_node(), 'reachable as it sees itself')


@lemma('C30', targets=[N + 'is_super_node'])
def super_node():
    """A super node has the same address on both sides"""
    d = fields('node', ALL, ADDRESSES)
    n = dt_p2p.Node(**d)
    a, b = d.get('prv_addr'), d.get('pub_addr')
    got = n.is_super_node()
    if a is None or b is None:
        cover('unknown')
        ensure(got is False, 'not if one is unknown')
    else:
        cover('known')
        ensure(iff(got, a == b), 'iff they are equal')


@lemma('C30', params=ALL, targets=[N + '__eq__'])
def equality(k):
    """Nodes are equal if all about them is equal"""
    d = fields('node', ALL, (k, ))
    e = dict(d)
    e.update(fields('other', (k, ), (k, )))
    a, b = dt_p2p.Node(**d), dt_p2p.Node(**e)
    ensure(iff(a == b, same(getattr(a, k), getattr(b, k))), 'equal')
    ensure(iff(b == a, a == b), 'both ways')
    ensure(iff(a != b, not_(a == b)), 'or different')
    ensure(a == dt_p2p.Node(**a.to_dict()), 'equal to its wire form')
    ensure(same(a.to_dict(), {f: d.get(f, default(f)) for f in ALL}),
           'which has all fields')


def default(f):
    return {'prv_addresses': [], 'port_statuses': {}, 'nat_type': []}.get(f)


@lemma('C30', targets=[N + '__eq__'])
def not_a_node():
    """Comparing with something else is a mistake"""
    n = dt_p2p.Node(**fields('node', ALL))
    v = choice('else', (None, n.to_dict(), any_wire('value')))
    ensure(attempt(lambda: n == v).raised(TypeError), 'refused')


@lemma('C30', targets=[N + '__init__'])
def nothing_shared():
    """What is not given is nobody else's"""
    a, b = dt_p2p.Node(), dt_p2p.Node()
    x = any_wire('value')
    a.prv_addresses.append(x)
    a.nat_type.append(x)
    a.port_statuses['port'] = x
    ensure(b.prv_addresses == [] and b.nat_type == []
           and b.port_statuses == {}, 'not changed')
    c = dt_p2p.Node()
    ensure(c.prv_addresses == [] and c.nat_type == []
           and c.port_statuses == {}, 'not for new ones')
    ensure(a != b and b == c, 'compared')


@lemma('C30', targets=[P, P + '.serialize'])
def peer_form():
    """A peer is told with all of its node"""
    d = fields('node', ALL, ('pub_addr', 'key'))
    node_ = choice('given as', (dt_p2p.Node(**d), d))
    address, port = any_ip('address'), any_int('port', 1, 65534)
    p = dt_p2p.Peer({'address': address, 'port': port, 'node': node_})
    ensure(type(p['node']) is dt_p2p.Node, 'a node')
    ensure(p['node'] == dt_p2p.Node(**d), 'the same node')
    out = p.serialize()
    ensure(type(out) is dict and sorted(out) == ['address', 'node', 'port'],
           'wire form')
    ensure(same(out['address'], address), 'address')
    ensure(same(out['port'], port), 'port')
    ensure(same(out['node'], dt_p2p.Node(**d).to_dict()), 'node')
    ensure(type(p['node']) is dt_p2p.Node, 'is still what it was')
    ensure(type(p.serialize()['node']) is dict, 'can be told again')
    q = dt_p2p.Peer(out)
    ensure(q == p, 'equal to its wire form')
    ensure(same(q.serialize(), out), 'which is the same')


@lemma('C30', params=('address', 'port', 'node'), targets=[P])
def peer_values(k):
    """What is no peer is refused, when it is made and when it is changed"""
    good = {'address': any_ip('address'), 'port': any_int('port', 1, 65534),
            'node': fields('node', ('node_name', 'prv_port'))}
    v = any_val('value', kinds='none bool int float str bytes list'.split())
    p = dt_p2p.Peer(good)
    if k == 'address':
        # (numbers are another way to write one)
        assume(not_(kind(v, 'int', 'bool', 'bytes')))
        fine = and_(kind(v, 'str'), is_ip(as_str(v)))
    elif k == 'port':
        fine = and_(kind(v, 'int'), as_int(v) >= 1, as_int(v) <= 65534)
    else:
        fine = False
    bad = dict(good)
    bad[k] = v
    out = attempt(dt_p2p.Peer, bad)
    ensure(iff(out.ok, fine), 'made iff good')
    ensure(or_(out.ok, out.raised(exceptions.FieldError)), 'a field error')
    before = p.serialize()

    def change():
        p[k] = v
    change = attempt(change)
    ensure(change.ok == out.ok, 'changed iff good')
    if change.ok:
        cover('good')
        ensure(same(p[k], v), 'changed')
    else:
        cover('bad')
        ensure(change.raised(exceptions.FieldError), 'or a field error')
        ensure(same(p.serialize(), before), 'nothing is changed')


@lemma('C30', params=('address', 'port', 'node', 'more'), targets=[P])
def peer_keys(k):
    """A peer has an address, a port and a node, and nothing else"""
    d = {'address': any_ip('address'), 'port': any_int('port', 1, 65534),
         'node': fields('node', ('node_name', ))}
    if k != 'more':
        del d[k]
        ensure(attempt(dt_p2p.Peer, d).raised(exceptions.FieldError),
               'all needed')
    else:
        key = any_str('key')
        assume(and_(*[key != x for x in d]))
        d[key] = any_wire('value')
        ensure(attempt(dt_p2p.Peer, d).raised(KeyError), 'no others')
