"""The operations of the algebras, each with its domain and its definition on models."""
import collections
import functools

import algebraixlib.extension as extension
import algebraixlib.mathobjects as mo
import algebraixlib.partition as partition
import algebraixlib.undef as undef

from . import bridge as b
from . import engine
from . import model as m
from .bridge import clans, couplets, multiclans, multisets, relations, sets

# Domains: name -> (predicate on models, generator of models) ---------------------------------------


def _set_of_sets(d, u):
    return d.weighted((3, b.clan), (2, lambda d, u: m.s_of(
        b.setlike(d, u) for _ in range(d.size(0, 3, 1.8)))))(d, u)


def _set_of_msets(d, u):
    return m.s_of(b.msetlike(d, u) for _ in range(d.size(0, 3, 1.8)))


def _small_set(d, u):
    if d.bool(0.03):
        # A power set of hundreds of sets.
        size = d.pick([6, 7, 8, 9, 10])
        return d.weighted(
            (1, lambda: m.s_of(m.C(d.pick(u.lefts), m.A(i)) for i in range(size))),
            (2, lambda: m.s_of([d.pick(u.values)] + [m.A('p%d' % i) for i in range(size - 1)])))()
    val = d.weighted((2, lambda d, u: b.plain_set(d, u, 1, 4, 1.8)),
                     (2, lambda d, u: b.relation(d, u, 4, 1.8)),
                     (1, lambda d, u: b.clan(d, u, 3, 1.8)))(d, u)
    return m.s_of(_order(val)[:5])


def _component(d, u):
    """A left or right: mostly one that occurs."""
    return d.pick(u.lefts) if d.bool(0.85) else d.pick(u.values + [m.A('zz')])


def _functional_relation(d, u):
    return m.s_of({left: m.C(left, d.pick(u.rights)) for left in
                   (d.pick(u.lefts) for _ in range(d.size(0, 4, 1.8)))}.values())


DOMAINS = {
    'set': (m.is_set, b.setlike),
    'smallset': (m.is_set, _small_set),
    'set of sets': (lambda v: m.is_set(v) and all(m.is_set(e) for e in v[1]), _set_of_sets),
    'set of msets': (lambda v: m.is_set(v) and all(m.is_multiset(e) for e in v[1]), _set_of_msets),
    'mset': (m.is_multiset, b.msetlike),
    'couplet': (m.is_couplet, b.couplet),
    'relation': (m.is_relation, b.relation),
    'function': (lambda v: m.is_relation(v) and m.functional(v), _functional_relation),
    'clan': (m.is_clan, b.clan),
    'multiclan': (m.is_multiclan, b.multiclan),
    'any': (lambda v: True, _component),
}


class Op:
    def __init__(self, name, func, domains, model, kind='value', unchecked=True, raw=True):
        self.name, self.func, self.domains, self.model = name, func, domains, model
        self.kind = kind            # 'value', 'bool' or 'choice' (one of several values)
        self.unchecked = unchecked  # Has a `_checked` parameter.
        self.algebra = name.split('.')[0]
        self.raw = raw  # Accepts raw values in place of any math object.

    def __repr__(self):
        return self.name

    def generate(self, d, u):
        return [DOMAINS[domain][1](d, u) for domain in self.domains]

    def expected(self, args):
        return self.model(*args)

    def check(self, got, args, what):
        exp = self.expected(args)
        if self.kind == 'bool':
            b.check_bool(got, exp, what)
        elif self.kind == 'choice':
            val = b.to_model(got, what)
            if exp is m.UNDEF:
                b.check_equal(got, exp, what)
            elif val not in exp:
                raise b.Fail('{}: got {}, which is none of {}'.format(
                    what, m.show(val), [m.show(x) for x in exp]), what)
        else:
            b.check_equal(got, exp, what)


def _op(name, func, domains, model, **kwargs):
    return Op(name, func, domains.split(', '), model, **kwargs)


def _single(items):
    items = list(items)
    return items[0] if len(items) == 1 else m.UNDEF


def _fold(first):
    def fold(val, func):
        items = list(val[1])
        return functools.reduce(func, items) if items else first
    return fold


# Sets ---------------------------------------------------------------------------------------------

SETS = [
    _op('sets.union', sets.union, 'set, set', m.union),
    _op('sets.intersect', sets.intersect, 'set, set', m.intersect),
    _op('sets.minus', sets.minus, 'set, set', m.minus),
    _op('sets.substrict', sets.substrict, 'set, set',
        lambda x, y: x if x[1] <= y[1] else m.UNDEF),
    _op('sets.superstrict', sets.superstrict, 'set, set',
        lambda x, y: x if x[1] >= y[1] else m.UNDEF),
    _op('sets.is_subset_of', sets.is_subset_of, 'set, set',
        lambda x, y: x[1] <= y[1], kind='bool'),
    _op('sets.is_superset_of', sets.is_superset_of, 'set, set',
        lambda x, y: x[1] >= y[1], kind='bool'),
    _op('sets.multify', sets.multify, 'set', lambda x: m.m_of({e: 1 for e in x[1]})),
    _op('sets.big_union', sets.big_union, 'set of sets',
        lambda x: _fold(m.EMPTY)(x, m.union)),
    _op('sets.big_intersect', sets.big_intersect, 'set of sets',
        lambda x: _fold(m.EMPTY)(x, m.intersect)),
    _op('sets.single', sets.single, 'set', lambda x: _single(x[1]), unchecked=False),
    _op('sets.some', sets.some, 'set', lambda x: list(x[1]) or m.UNDEF, kind='choice',
        unchecked=False),
    _op('sets.power_set', sets.power_set, 'smallset', m.power_set, unchecked=False),
    _op('sets.power_up', sets.power_up, 'set', lambda x: m.s_of(m.S(e) for e in x[1]),
        unchecked=False),
]

# Multisets ----------------------------------------------------------------------------------------

MULTISETS = [
    _op('multisets.union', multisets.union, 'mset, mset', m.m_union),
    _op('multisets.intersect', multisets.intersect, 'mset, mset', m.m_intersect),
    _op('multisets.minus', multisets.minus, 'mset, mset', m.m_minus),
    _op('multisets.add', multisets.add, 'mset, mset', m.m_add),
    _op('multisets.substrict', multisets.substrict, 'mset, mset',
        lambda x, y: x if m.m_subset(x, y) else m.UNDEF),
    _op('multisets.superstrict', multisets.superstrict, 'mset, mset',
        lambda x, y: x if m.m_subset(y, x) else m.UNDEF),
    _op('multisets.is_subset_of', multisets.is_subset_of, 'mset, mset', m.m_subset, kind='bool'),
    _op('multisets.is_superset_of', multisets.is_superset_of, 'mset, mset',
        lambda x, y: m.m_subset(y, x), kind='bool'),
    _op('multisets.demultify', multisets.demultify, 'mset', lambda x: m.s_of(m.elems(x))),
    _op('multisets.big_union', multisets.big_union, 'set of msets',
        lambda x: _fold(m.MEMPTY)(x, m.m_union)),
    _op('multisets.big_intersect', multisets.big_intersect, 'set of msets',
        lambda x: _fold(m.MEMPTY)(x, m.m_intersect)),
    _op('multisets.single', multisets.single, 'mset',
        lambda x: next(iter(x[1]))[0] if len(x[1]) == 1 and next(iter(x[1]))[1] == 1 else m.UNDEF,
        unchecked=False),
    _op('multisets.some', multisets.some, 'mset', lambda x: list(m.elems(x)) or m.UNDEF,
        kind='choice', unchecked=False),
]

# Couplets and relations ---------------------------------------------------------------------------


def fill_lefts(rel, renames):
    missing = m.lefts(rel)[1] - m.rights(renames)[1]
    return m.union(renames, m.diag(*missing))


def rename(rel, renames):
    return m.r_compose(rel, fill_lefts(rel, renames))


def functional_add(func, element):
    if not m.functional(func) or element[1] in m.lefts(func)[1]:
        return m.UNDEF
    return m.union(func, m.S(element))


def defined_at(rel, left):
    return rel if left in m.lefts(rel)[1] else m.UNDEF


COUPLETS = [
    _op('couplets.transpose', couplets.transpose, 'couplet', m.c_transpose),
    _op('couplets.compose', couplets.compose, 'couplet, couplet', m.c_compose),
    _op('couplets.is_reflexive', couplets.is_reflexive, 'couplet', lambda c: c[1] == c[2],
        kind='bool'),
]

RELATIONS = [
    _op('relations.transpose', relations.transpose, 'relation', m.r_transpose),
    _op('relations.compose', relations.compose, 'relation, relation', m.r_compose),
    _op('relations.functional_union', relations.functional_union, 'relation, relation',
        m.functional_union),
    _op('relations.right_functional_union', relations.right_functional_union,
        'relation, relation', m.right_functional_union),
    _op('relations.get_lefts', relations.get_lefts, 'relation', m.lefts),
    _op('relations.get_rights', relations.get_rights, 'relation', m.rights),
    _op('relations.get_rights_for_left', relations.get_rights_for_left, 'relation, any',
        lambda r, x: m.s_of(c[2] for c in r[1] if c[1] == x)),
    _op('relations.get_right', relations.get_right, 'relation, any',
        lambda r, x: _single(c[2] for c in r[1] if c[1] == x)),
    _op('relations.get_left', relations.get_left, 'relation, any',
        lambda r, x: _single(c[1] for c in r[1] if c[2] == x)),
    _op('relations.is_functional', relations.is_functional, 'relation', m.functional, kind='bool'),
    _op('relations.is_right_functional', relations.is_right_functional, 'relation',
        m.right_functional, kind='bool'),
    _op('relations.is_reflexive', relations.is_reflexive, 'relation', m.reflexive, kind='bool'),
    _op('relations.is_symmetric', relations.is_symmetric, 'relation', m.symmetric, kind='bool'),
    _op('relations.is_transitive', relations.is_transitive, 'relation', m.transitive, kind='bool'),
    _op('relations.fill_lefts', relations.fill_lefts, 'relation, relation', fill_lefts),
    _op('relations.rename', relations.rename, 'relation, relation', rename),
    _op('relations.rename(function)', relations.rename, 'relation, function', rename),
    _op('relations.swap', relations.swap, 'relation, relation',
        lambda r, s: rename(r, m.union(s, m.r_transpose(s)))),
    _op('relations.swap(function)', relations.swap, 'relation, function',
        lambda r, s: rename(r, m.union(s, m.r_transpose(s)))),
    _op('relations.functional_add', relations.functional_add, 'function, couplet', functional_add,
        unchecked=False),
    _op('relations.functional_add(any)', relations.functional_add, 'relation, couplet',
        functional_add, unchecked=False),
    _op('relations.defined_at', relations.defined_at, 'relation, any', defined_at),
    _op('relations.diag', relations.diag, 'any', m.diag),
    _op('relations.diag(2)', relations.diag, 'any, any', m.diag),
    _op('relations.diag(3)', relations.diag, 'any, any, any', m.diag),
]

# Clans --------------------------------------------------------------------------------------------


def lhs_cross_functional_union(lhs, rhs):
    cfu = m.binary_extend(lhs, rhs, m.functional_union)
    rest = m.s_of(rel for rel in lhs[1]
                  if not m.binary_extend(m.S(rel), rhs, m.functional_union)[1])
    return m.union(cfu, rest)


def _sub(x, y):
    return x if x[1] <= y[1] else m.UNDEF


def _sup(x, y):
    return x if x[1] >= y[1] else m.UNDEF


def project(clan, *names):
    return m.unary_extend(clan, lambda rel: m.restrict_lefts(rel, names)) \
        if clan[0] == 'S' else m.unary_multi_extend(clan, lambda rel: m.restrict_lefts(rel, names))


def _defined_or_undef(result):
    return result if result[1] else m.UNDEF


def _quant(pred):
    return lambda clan: all(pred(rel) for rel in m.elems(clan))


def _clan_queries(module, name, domain):
    return [
        _op(name + '.get_lefts', module.get_lefts, domain, m.clan_lefts),
        _op(name + '.get_rights', module.get_rights, domain, m.clan_rights),
        _op(name + '.is_functional', module.is_functional, domain, _quant(m.functional),
            kind='bool'),
        _op(name + '.is_right_functional', module.is_right_functional, domain,
            _quant(m.right_functional), kind='bool'),
        _op(name + '.is_regular', module.is_regular, domain, m.regular, kind='bool'),
        _op(name + '.is_right_regular', module.is_right_regular, domain, m.right_regular,
            kind='bool'),
        _op(name + '.is_reflexive', module.is_reflexive, domain, _quant(m.reflexive), kind='bool'),
        _op(name + '.is_symmetric', module.is_symmetric, domain, _quant(m.symmetric), kind='bool'),
        _op(name + '.is_transitive', module.is_transitive, domain, _quant(m.transitive),
            kind='bool'),
        _op(name + '.project', module.project, domain + ', any', project, unchecked=False),
        _op(name + '.project(2)', module.project, domain + ', any, any', project,
            unchecked=False),
    ]


CLANS = [
    _op('clans.transpose', clans.transpose, 'clan', lambda k: m.unary_extend(k, m.r_transpose)),
    _op('clans.compose', clans.compose, 'clan, clan',
        lambda x, y: m.binary_extend(x, y, m.r_compose)),
    _op('clans.cross_union', clans.cross_union, 'clan, clan',
        lambda x, y: m.binary_extend(x, y, m.union)),
    _op('clans.cross_functional_union', clans.cross_functional_union, 'clan, clan',
        lambda x, y: m.binary_extend(x, y, m.functional_union)),
    _op('clans.lhs_cross_functional_union', clans.lhs_cross_functional_union, 'clan, clan',
        lhs_cross_functional_union),
    _op('clans.cross_right_functional_union', clans.cross_right_functional_union, 'clan, clan',
        lambda x, y: m.binary_extend(x, y, m.right_functional_union)),
    _op('clans.cross_intersect', clans.cross_intersect, 'clan, clan',
        lambda x, y: m.binary_extend(x, y, m.intersect)),
    _op('clans.substrict', clans.substrict, 'clan, clan',
        lambda x, y: m.binary_extend(x, y, _sub)),
    _op('clans.superstrict', clans.superstrict, 'clan, clan',
        lambda x, y: m.binary_extend(x, y, _sup)),
    _op('clans.defined_at', clans.defined_at, 'clan, any', lambda k, x: _defined_or_undef(
        m.unary_extend(k, lambda r: defined_at(r, x)))),
    _op('clans.from_set', clans.from_set, 'any, any',
        lambda x, *ys: m.s_of(m.S(m.C(x, y)) for y in ys), unchecked=False),
    _op('clans.from_set(3)', clans.from_set, 'any, any, any, any',
        lambda x, *ys: m.s_of(m.S(m.C(x, y)) for y in ys), unchecked=False),
    _op('clans.diag(1)', clans.diag, 'any', lambda *xs: m.S(m.diag(*xs))),
    _op('clans.diag(2)', clans.diag, 'any, any', lambda *xs: m.S(m.diag(*xs))),
    _op('clans.diag(3)', clans.diag, 'any, any, any', lambda *xs: m.S(m.diag(*xs))),
] + _clan_queries(clans, 'clans', 'clan')

# Multiclans ---------------------------------------------------------------------------------------


def m_restrict(x, y, op):
    return m.m_of({rel: count for rel, count in x[1]
                   if any(op(rel, other) is not m.UNDEF for other in m.elems(y))})


MULTICLANS = [
    _op('multiclans.transpose', multiclans.transpose, 'multiclan',
        lambda k: m.unary_multi_extend(k, m.r_transpose)),
    _op('multiclans.compose', multiclans.compose, 'multiclan, multiclan',
        lambda x, y: m.binary_multi_extend(x, y, m.r_compose)),
    _op('multiclans.cross_union', multiclans.cross_union, 'multiclan, multiclan',
        lambda x, y: m.binary_multi_extend(x, y, m.union)),
    _op('multiclans.cross_functional_union', multiclans.cross_functional_union,
        'multiclan, multiclan', lambda x, y: m.binary_multi_extend(x, y, m.functional_union)),
    _op('multiclans.cross_right_functional_union', multiclans.cross_right_functional_union,
        'multiclan, multiclan',
        lambda x, y: m.binary_multi_extend(x, y, m.right_functional_union)),
    _op('multiclans.cross_intersect', multiclans.cross_intersect, 'multiclan, multiclan',
        lambda x, y: m.binary_multi_extend(x, y, m.intersect)),
    _op('multiclans.substrict', multiclans.substrict, 'multiclan, multiclan',
        lambda x, y: m_restrict(x, y, _sub)),
    _op('multiclans.superstrict', multiclans.superstrict, 'multiclan, multiclan',
        lambda x, y: m_restrict(x, y, _sup)),
    _op('multiclans.defined_at', multiclans.defined_at, 'multiclan, any',
        lambda k, x: _defined_or_undef(m.unary_multi_extend(k, lambda r: defined_at(r, x)))),
    _op('multiclans.get_rights_for_left', multiclans.get_rights_for_left, 'multiclan, any',
        lambda k, x: _rights_for_left(k, x)),
    _op('multiclans.diag(1)', multiclans.diag, 'any', lambda *xs: m.m_of({m.diag(*xs): 1})),
    _op('multiclans.diag(2)', multiclans.diag, 'any, any', lambda *xs: m.m_of({m.diag(*xs): 1})),
    _op('multiclans.diag(3)', multiclans.diag, 'any, any, any',
        lambda *xs: m.m_of({m.diag(*xs): 1})),
] + _clan_queries(multiclans, 'multiclans', 'multiclan')


def _rights_for_left(mclan, left):
    result = {}
    for rel, count in mclan[1]:
        for right in {c[2] for c in rel[1] if c[1] == left}:
            result[right] = result.get(right, 0) + count
    return m.m_of(result)


ALL = SETS + MULTISETS + COUPLETS + RELATIONS + CLANS + MULTICLANS
BY_NAME = {op.name: op for op in ALL}
assert len(BY_NAME) == len(ALL)


def _order(val):
    if val[0] == 'S':
        return sorted(val[1], key=m.show)
    return sorted(val[1], key=lambda pair: m.show(pair[0]))


# The standard test of one operation ---------------------------------------------------------------

def related(d, u, models, in_domain):
    """Two operands that may have something to do with each other, made from two generated ones."""
    first, second = models
    kind = first[0]
    how = d.weighted((6, None), (2, 'same'), (2, 'part'), (2, 'more'), (2, 'near'),
                     (4 if kind == 'M' else 1, 'shifted'))
    if how == 'same':
        return [first, first]
    if how == 'part':
        return [first, type(first)((kind, frozenset(e for e in _order(first) if d.bool(0.6))))]
    if how == 'more':
        return [second, m.union(second, first) if kind == 'S' else m.m_add(second, first)]
    if how == 'near':
        changed = first
        for _ in range(d.int(1, 2)):
            changed = b.mutate(d, changed, u)
        if changed[0] == kind and in_domain(changed):
            return d.shuffle([first, changed])
    if how == 'shifted' and kind == 'M':
        # The same elements, the same number of elements, other multiplicities.
        items = _order(first)
        counts = d.shuffle([times for _, times in items])
        if len(counts) > 1 and d.bool(0.6):
            counts[0], counts[1] = d.shuffle([counts[0] + counts[1] - 1, 1])
        changed = m.m_of({elem: times for (elem, _), times in zip(items, counts)})
        if d.bool(0.2):
            changed = m.m_add(changed, second)
        return d.shuffle([first, changed])
    if how == 'shifted':
        # As many elements, some of them replaced.
        items = _order(first)
        changed = m.s_of(items[:len(items) // 2] + _order(second)[:len(items) - len(items) // 2])
        return d.shuffle([first, changed])
    return models


def parts_of(val):
    """Return the elements and components of ``val``, at any depth. Frequent ones occur often."""
    if val[0] == 'A':
        return []
    parts = ([val[1], val[2]] if val[0] == 'C' else
             [pair[0] for pair in val[1]] if val[0] == 'M' else list(val[1]))
    parts = sorted(parts, key=m.show)
    return parts + [item for part in parts for item in parts_of(part)]


def operation_case(d, table, warm=0.35, nested=0.15, known=None, huge=False):
    """Generate, evaluate and check one application of one operation of the table."""
    op = d.pick(table)
    u = b.HugeUniverse(d) if huge else b.Universe(d, nested)
    if d.bool(0.03):
        # Equal values that look different.
        zeros = [m.A(0.0), m.A(-0.0)]
        u.values, u.lefts, u.rights = u.values + zeros, u.lefts + zeros, u.rights + zeros
    models = op.generate(d, u)
    # Related operands are more interesting than independent ones.
    if len(models) == 2 and op.domains[0] == op.domains[1] \
            and models[0][0] == models[1][0] and models[0][0] in 'SM':
        models = related(d, u, models, DOMAINS[op.domains[0]][0])
    if len(models) == 2 and op.domains[1] == 'any' and d.bool(0.6):
        parts = parts_of(models[0])
        if parts:
            models[1] = d.pick(parts)
    finding = known and known(op, models)
    if finding in engine.LISTED:
        d.exclude(finding)
        raise engine.Reject()
    for domain, val in zip(op.domains, models):
        assert DOMAINS[domain][0](val), (domain, val)
    warmth = warm if d.bool(0.6) else 0.0
    objs = [b.build_via(d, val, warmth) for val in models]
    shared = len(models) == 2 and models[0] == models[1] and d.bool(0.4)
    if shared:
        objs[1] = objs[0]
    d.note('{}({})'.format(op.name, ', '.join(m.show(val) for val in models)))
    d.label(op.name)
    d.label('warm', warmth > 0)
    for val in models:
        d.label('has empty operand', val[0] in 'SM' and not val[1])
    d.label('large', u.scale > 1)
    expected = op.expected(models)
    d.label('undefined', expected is m.UNDEF)
    # Where any math object is accepted, a raw value is accepted too (not by unchecked operations).
    often = 0.8 if u.kind is b.CONFUSED else 0.3
    raw = [val[2] if domain == 'any' and op.raw and val[0] == 'A' and d.bool(often) else obj
           for domain, val, obj in zip(op.domains, models, objs)]
    d.label('raw argument', any(x is not y for x, y in zip(raw, objs)))
    got = op.func(*raw)
    op.check(got, models, op.name)
    if op.unchecked and d.bool(0.5):
        d.label('unchecked')
        op.check(op.func(*objs, _checked=False), models, op.name + '(_checked=False)')
    return op, models, objs, got, expected


def mark(d, op, models):
    """Mark the case as non-trivial by the rule `NONTRIVIAL`."""
    if any(val[0] in 'AC' or val[1] for val in models):
        d.nontrivial(op.name, [m.show(val) for val in models])


def members(models):
    """The number of members of the operands."""
    return sum(len(val[1]) for val in models if val[0] in 'SM')


SLOW = ('rename', 'swap', 'is_transitive', 'big_')
PAIRWISE = ('compose', 'cross', 'strict', 'project', 'rename', 'swap')


def giant_case(d, table, known=None, high=4200, watch=None):
    """Generate, evaluate and check one operation on operands with up to thousands of members."""
    op = d.pick([op for op in table if op.domains[0] not in ('any', 'couplet', 'smallset')])
    g = b.Giant(d, 600 if any(name in op.name for name in SLOW) else high)
    models = [g.make(op.domains[0])]
    pairwise = op.domains[0] in ('relation', 'clan', 'multiclan') and any(
        name in op.name for name in PAIRWISE)
    for domain in op.domains[1:]:
        if domain == 'any':
            parts = sorted(models[0][1], key=repr)[:40] if models[0][0] == 'S' else \
                [elem for elem, _ in sorted(models[0][1], key=repr)[:40]]
            parts += [part for elem in parts if elem[0] == 'C' for part in elem[1:]]
            models.append(d.pick(parts + g.names))
            continue
        if domain == 'couplet':
            models.append(g.make(domain))
            continue
        if pairwise:
            how = 'few'
        else:
            how = d.pick(['few', 'few', 'few', 'part', 'part', 'more', 'other', 'shifted', None])
        if d.bool(0.2) and not pairwise:
            g.special = None
        models.append(g.make(domain, how))
    if len(models) == 2 and op.domains[0] == op.domains[1] and d.bool(0.3):
        models.reverse()
    if known and known(op, models) in engine.LISTED \
            or not all(DOMAINS[domain][0](val) for domain, val in zip(op.domains, models)):
        raise engine.Reject()
    objs = [b.build(val) for val in models]
    for val, obj in zip(models, objs):
        for name, question, _ in d.shuffle(b.questions(val))[:d.pick([0, 0, 2])]:
            if 'transitive' not in name:
                question(obj)
    text = '{}({})'.format(op.name, ', '.join(m.show(val) for val in models))
    d.note(text)
    shots = [watch(obj, val) for obj, val in zip(objs, models)] if watch else []
    got = op.func(*objs)
    op.check(got, models, op.name)
    for shot in shots:
        shot.check(op.name)
    d.nontrivial(text)
    return op, models, objs, got


COUNTS = [1, 2, 3, 127, 128, 255, 256, 300, 999, 1000, 1001, 4096, 32767, 32768, 65535, 65536, 70000]


def counts_case(d, table, known=None):
    """Generate, evaluate and check one operation on small multisets with large multiplicities."""
    op = d.pick([op for op in table if '.is_re' not in op.name and 'diag' not in op.name])
    counts = COUNTS[:11] if '.get_' in op.name else COUNTS
    models = [m.m_of({val: d.pick(counts) for val, _ in model[1]}) if model[0] == 'M' else model
              for model in op.generate(d, b.Universe(d))]
    if len(models) == 2 and models[0][0] == models[1][0] == 'M' and d.bool(0.6):
        models[1] = m.m_of({val: d.pick([n, d.pick(counts)]) for val, n in sorted(models[0][1], key=repr)
                            if d.bool(0.7)})
    if known and known(op, models) in engine.LISTED \
            or not all(DOMAINS[domain][0](val) for domain, val in zip(op.domains, models)):
        raise engine.Reject()
    text = '{}({})'.format(op.name, ', '.join(m.show(val) for val in models))
    d.note(text)
    op.check(op.func(*[b.build_via(d, val, 0.3) if not val[0] == 'M' else b.build(val) for val in models]),
             models, op.name)
    if any(n > 100 for model in models if model[0] == 'M' for _, n in model[1]):
        d.nontrivial(text)


MULTIPLE = ('a case is one operation applied to small multisets with multiplicities to 70,000; '
            'non-trivial: one is greater than 100; distinct by operation and operands')


GIANT = ('a case is one operation applied to an operand with 260 to 4200 members and, in case of two '
         'operands, one that has many or few members of it; distinct by operation and operands')

HUGE = ('a case is one operation applied to operands with up to hundreds of members (and '
        'multiplicities up to a thousand); non-trivial: more than 40 members; distinct by operation '
        'and operands')
NONTRIVIAL = ('a case is one operation applied to operands that are not all empty (and that were '
              'built through random construction routes and had random predicates queried before); '
              'distinct by operation and operands')
