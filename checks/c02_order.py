"""C02: a total order and a canonical text that depend on the value only and can be read back."""
import decimal

import algebraixlib.mathobjects as mo

from vlib import bridge as b
from vlib import model as m
from vlib.engine import Fail, prop

ASSUMPTIONS = ['Atoms hold values that are equal to themselves (no NaN). Left out because of the known '
               'findings: values that Python does not order totally (frozensets, tuples whose '
               'components cannot be compared; KF-C02-1) and equal values with different texts '
               '(-0.0, Decimals with trailing zeros, tuples of alike values; KF-C02-2).']


def _not_ordered():
    one, two = mo.Atom(frozenset({1})), mo.Atom(frozenset({2}))
    circle = [mo.Atom((True,)), mo.Atom((2,)), mo.Atom((None,))]
    return not (one < two or two < one) or all(
        circle[i] < circle[(i + 1) % 3] for i in range(3))


def _texts():
    pairs = [(0.0, -0.0), ((1,), (True,)), (decimal.Decimal('1.0'), decimal.Decimal('1.00'))]
    return any(mo.Atom(x) == mo.Atom(y) and repr(mo.Atom(x)) != repr(mo.Atom(y)) for x, y in pairs)


FINDINGS = {'KF-C02-1': _not_ordered, 'KF-C02-2': _texts}
NAMES = {'Atom': mo.Atom, 'Couplet': mo.Couplet, 'Set': mo.Set, 'Multiset': mo.Multiset,
         'inf': float('inf')}
CHARS = 'ab\u00e9\'"\\\n{}[]():, ->1'


def universe(d):
    u = b.universe(d, 0.3, huge=0.004)
    if d.bool(0.3):
        # Values of several types that interleave when compared as text.
        extra = [d.weighted((2, lambda: d.int(-20, 200)), (2, lambda: d.int(-40, 400) / 4),
                            (2, lambda: d.text(CHARS, 0, 5, 2)), (1, lambda: d.bool()),
                            (1, lambda: d.text('ab1', 0, 3, 1).encode()), (1, lambda: None),
                            (1, lambda: (d.int(0, 12), d.int(0, 12))),
                            (1, lambda: complex(d.int(0, 12), 1)))() for _ in range(d.int(3, 9))]
        u.values = [m.A(val) for val in extra]
        u.lefts = u.rights = u.values
    return u


@prop(4000, 200000, 'a case is a pool of up to 7 objects, many of them close to each other; every '
      'pair is compared in both directions and every order of sorting must give the same result; '
      'non-trivial if at least three values are different; distinct by pool')
def order(d):
    u = universe(d)
    vals = b.variations(d, u, d.int(2, 7))
    objs = [b.build_via(d, val, 0.2) for val in vals]
    d.note(' | '.join(m.show(val) for val in vals))
    less = {}
    for x, vx in zip(objs, vals):
        for y, vy in zip(objs, vals):
            what = '{} and {}'.format(m.show(vx), m.show(vy))
            answers = (x < y, x <= y, x > y, x >= y)
            if vx == vy:
                allowed = [(False, True, False, True)]
            else:
                allowed = [(True, True, False, False), (False, False, True, True)]
            if answers not in allowed:
                raise Fail('{}: <, <=, >, >= say {}'.format(what, answers), 'trichotomy')
            if less.setdefault((vx, vy), answers[0]) != answers[0]:
                raise Fail('{}: the order depends on more than the values'.format(what), 'stable')
            if vx != vy and less.get((vy, vx)) is answers[0]:
                raise Fail('{}: < is not antisymmetric'.format(what), 'antisymmetric')
            if vx[0] == 'A' == vy[0] and vx[1] == vy[1] and vx[1] in ('int', 'float', 'str', 'bool',
                                                                      'bytes') \
                    and (vx[2] < vy[2]) is not answers[0]:
                raise Fail('{}: not in the order of their values'.format(what), 'value order')
    for i, vx in enumerate(vals):
        for vy in vals:
            for vz in vals[:i]:
                if less[vx, vy] and less[vy, vz] and not less[vx, vz]:
                    raise Fail('{} < {} < {}, but not {} < {}'.format(
                        m.show(vx), m.show(vy), m.show(vz), m.show(vx), m.show(vz)), 'transitive')
    first = [b.to_model(obj) for obj in sorted(objs)]
    second = [b.to_model(obj) for obj in sorted(d.shuffle(objs))]
    if first != second:
        raise Fail('sorting gives {} or {}'.format(
            [m.show(v) for v in first], [m.show(v) for v in second]), 'sort')
    if len(set(vals)) > 2:
        d.nontrivial([m.show(val) for val in vals])


@prop(5000, 250000, 'a case is one value built twice through different routes (and orders of '
      'insertion); non-trivial if it is a set or multiset with at least two elements or contains '
      'one; distinct by value')
def text(d):
    u = universe(d)
    val = b.value(d, u) if d.bool(0.7) else \
        m.s_of(b.value(d, u) for _ in range(d.size(1, 5, 2.5)))
    if d.bool(0.0025):
        val = b.Giant(d, 600).make(d.pick(['set', 'mset', 'relation', 'clan', 'multiclan']))
    d.note(m.show(val))
    x, y = b.build_via(d, val, 0.3), b.build_via(d, val, 0.0)
    for func in (repr, str):
        if func(x) != func(y):
            raise Fail('two ways to build {} give different texts:\n{}\n{}'.format(
                m.show(val), func(x), func(y)), func.__name__)
    back = eval(repr(x), dict(NAMES))  # pylint: disable=eval-used
    b.check_equal(back, val, 'eval(' + repr(x) + ')')
    if repr(back) != repr(x) or str(back) != str(x):
        raise Fail('the text changes when read back: {} {}'.format(repr(x), repr(back)), 'fixpoint')
    other = b.mutate(d, val, u)
    z = b.build_via(d, other, 0.2)
    if (repr(x) == repr(z)) is not (val == other):
        raise Fail('{} and {} have the texts {} and {}'.format(
            m.show(val), m.show(other), repr(x), repr(z)), 'injective')
    if _rich(val):
        d.nontrivial(m.show(val))


def _rich(val):
    if val[0] == 'A':
        return False
    if val[0] == 'C':
        return _rich(val[1]) or _rich(val[2])
    return len(val[1]) > 1 or any(_rich(e) for e in m.elems(val))


TESTS = [order, text]
