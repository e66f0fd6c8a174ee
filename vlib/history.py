"""More operations (partitions, indexing, extensions, constructors) and pools for histories."""
import algebraixlib.extension as extension
import algebraixlib.mathobjects as mo
import algebraixlib.partition as partition

from . import bridge as b
from . import model as m
from . import ops
from .bridge import clans, couplets, multiclans, relations, sets

LIMIT = 90  # Operands with more nodes than this are not combined any further.


def group(val):
    """The key by which the partition operations below group elements: the kind."""
    return m.A(val[0])


def obj_group(obj):
    return mo.Atom('A' if obj.is_atom else 'C' if obj.is_couplet else 'S' if obj.is_set else 'M')


def size_key(val):
    return m.A(len(val[1])) if val[0] == 'S' else m.A(-1)


def obj_size_key(obj):
    return mo.Atom(len(obj)) if obj.is_set else mo.Atom(-1)


def classes(val, key):
    result = {}
    if val[0] == 'S':
        for elem in val[1]:
            result.setdefault(key(elem), []).append(elem)
        return {label: m.s_of(items) for label, items in result.items()}
    for elem, count in val[1]:
        result.setdefault(key(elem), {})[elem] = count
    return {label: m.m_of(items) for label, items in result.items()}


def _partition(key):
    return lambda val: m.s_of(classes(val, key).values())


def _labeled(key):
    return lambda val: m.s_of(m.C(label, part) for label, part in classes(val, key).items())


def _getitem(val, left):
    if m.is_relation(val):
        return m.s_of(c[2] for c in val[1] if c[1] == left)
    return m.s_of(c[2] for rel in val[1] for c in rel[1] if c[1] == left)


def _m_getitem(val, left):
    if all(elem[0] == 'C' for elem, _ in val[1]):
        return m.m_of({elem[2]: count for elem, count in val[1] if elem[1] == left})
    return ops._rights_for_left(val, left)


def _call(val, left):
    rights = [c[2] for c in val[1] if c[1] == left]
    return rights[0] if rights else m.UNDEF


def _elem(obj, other):
    return relations.transpose(obj) if obj.is_set and relations.is_member(obj) else other


def _op(name, func, domains, model, **kwargs):
    unchecked = name.startswith('extension.')
    return ops.Op(name, func, domains.split(', '), model, unchecked=unchecked, **kwargs)


ops.DOMAINS['msetmap'] = (
    lambda v: v[0] == 'M' and bool(v[1]) and all(e[0] == 'C' for e, _ in v[1]),
    lambda d, u: m.m_of({b.couplet(d, u): b.count(d) for _ in range(d.size(1, 4, 2))}))

MORE = [
    _op('partition.partition(kind)', lambda x: partition.partition(x, obj_group), 'set',
        _partition(group)),
    _op('partition.partition(size)', lambda x: partition.partition(x, obj_size_key), 'clan',
        _partition(size_key)),
    _op('partition.partition(kind, multiset)', lambda x: partition.partition(x, obj_group), 'mset',
        _partition(group)),
    _op('partition.partition(size, multiclan)', lambda x: partition.partition(x, obj_size_key),
        'multiclan', _partition(size_key)),
    _op('partition.make_labeled_partition(kind)',
        lambda x: partition.make_labeled_partition(x, obj_group), 'set', _labeled(group)),
    _op('partition.make_labeled_partition(size)',
        lambda x: partition.make_labeled_partition(x, obj_size_key), 'clan', _labeled(size_key)),
    _op('partition.make_labeled_partition(multiset)',
        lambda x: partition.make_labeled_partition(x, obj_group), 'mset', _labeled(group)),
    _op('partition.make_labeled_partition(multiclan)',
        lambda x: partition.make_labeled_partition(x, obj_size_key), 'multiclan',
        _labeled(size_key)),
    _op('sets.restrict(not empty)',
        lambda x: sets.restrict(x, lambda e: not (e.is_set and e.is_empty)), 'set',
        lambda x: m.s_of(e for e in x[1] if e != m.EMPTY)),
    _op('sets.restrict(functional)',
        lambda x: sets.restrict(x, lambda e: relations.is_functional(e) is True), 'clan',
        lambda x: m.s_of(e for e in x[1] if m.functional(e))),
    _op('sets.restrict(not diagonal)',
        lambda x: sets.restrict(x, lambda e: not couplets.is_reflexive(e)), 'relation',
        lambda x: m.s_of(e for e in x[1] if e[1] != e[2])),
    _op('Set.__getitem__(relation)', lambda x, left: x[left], 'relation, any', _getitem),
    _op('Set.__getitem__(clan)', lambda x, left: x[left], 'clan, any', _getitem),
    _op('Multiset.__getitem__(multiclan)', lambda x, left: x[left], 'multiclan, any', _m_getitem),
    _op('Multiset.__getitem__(multirelation)', lambda x, left: x[left], 'msetmap, any', _m_getitem),
    _op('Set.__call__(function)', lambda x, left: x(left), 'function, any', _call),
    _op('Set.get_left_set', lambda x: x.get_left_set(), 'relation', m.lefts),
    _op('Set.get_right_set(clan)', lambda x: x.get_right_set(), 'clan', m.clan_rights),
    _op('extension.unary_extend(transpose)',
        lambda x, **kw: extension.unary_extend(x, relations.transpose, **kw), 'clan',
        lambda x: m.unary_extend(x, m.r_transpose)),
    _op('extension.unary_extend(transpose couplets)',
        lambda x, **kw: extension.unary_extend(x, couplets.transpose, **kw), 'relation', m.r_transpose),
    _op('extension.unary_multi_extend(transpose)',
        lambda x, **kw: extension.unary_multi_extend(x, relations.transpose, **kw), 'multiclan',
        lambda x: m.unary_multi_extend(x, m.r_transpose)),
    _op('extension.binary_extend(union)',
        lambda x, y, **kw: extension.binary_extend(x, y, sets.union, **kw), 'clan, clan',
        lambda x, y: m.binary_extend(x, y, m.union)),
    _op('extension.binary_extend(compose couplets)',
        lambda x, y, **kw: extension.binary_extend(x, y, couplets.compose, **kw), 'relation, relation',
        m.r_compose),
    _op('Set()', lambda x: mo.Set(x), 'any', lambda x: m.S(x), raw=False),
    _op('Set(2)', lambda x, y: mo.Set(x, y), 'any, any', lambda x, y: m.S(x, y),
        raw=False),
    _op('Set(relations)', lambda x, y: mo.Set(x, y), 'relation, relation', lambda x, y: m.S(x, y)),
    _op('Set([relation])', lambda x: mo.Set([x]), 'relation', lambda x: m.S(x)),
    _op('Set(couplets)', lambda x, y: mo.Set(x, y), 'couplet, couplet', lambda x, y: m.S(x, y)),
    _op('Set(data)', lambda x: mo.Set(x.data, direct_load=True), 'set', lambda x: x),
    _op('Set(clan)', lambda x: mo.Set([x]), 'clan', lambda x: m.S(x)),
    _op('Multiset(relations)', lambda x, y: mo.Multiset([x, y, x]), 'relation, relation',
        lambda x, y: m.m_of({x: 3} if x == y else {x: 2, y: 1})),
    _op('Multiset(data)', lambda x: mo.Multiset(x.data, direct_load=True), 'mset', lambda x: x),
    _op('Multiset(set)', lambda x: mo.Multiset(x.data), 'set',
        lambda x: m.m_of({e: 1 for e in x[1]})),
    _op('Couplet(left, right)', lambda x, y: mo.Couplet(x, y), 'any, any', m.C),
    _op('Couplet(relations)', lambda x, y: mo.Couplet(x, y), 'relation, relation', m.C),
    _op('order_slice', lambda x: multiclans.order_slice(
        x, lambda r, s: mo.Atom(len(r) < len(s)), 0, float('inf')), 'multiclan', lambda x: x),
]
HISTORY = ops.ALL + MORE
KNOWN = ('multiclans.get_lefts', 'multiclans.get_rights')


def operand(d, u, pool, domain):
    """An object from the history where possible, else a new one."""
    member, generate = ops.DOMAINS[domain]
    if d.bool(0.75):
        fits = [item for item in pool if member(item[1]) and m.weight(item[1]) < LIMIT
                and (domain != 'smallset' or len(item[1][1]) <= 4)]
        if fits:
            return d.pick(fits)
    val = generate(d, u)
    item = (b.build_via(d, val, 0.3), val)
    pool.append(item)
    return item
