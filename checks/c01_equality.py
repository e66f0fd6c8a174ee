"""C01: equality and hashing are those of the mathematical values, strict about types."""
import datetime
import decimal
import fractions
import pickle

import algebraixlib.mathobjects as mo

from vlib import bridge as b
from vlib import model as m
from vlib.engine import Fail, prop

FOREIGN = [0, 1, True, 'a', None, (), frozenset(), (1, 2), object, 1.5]


def compare(x, y, vx, vy):
    same = vx == vy
    what = '{} and {}'.format(m.show(vx), m.show(vy))
    for left, right in ((x, y), (y, x)):
        equal, unequal = left == right, left != right
        if equal is not same:
            raise Fail('{}: == says {!r}, expected {}'.format(what, equal, same), 'eq')
        if unequal is same:
            raise Fail('{}: != says {!r}, expected {}'.format(what, unequal, not same), 'ne')
    if same and hash(x) != hash(y):
        raise Fail('{}: equal but with different hash values'.format(what), 'hash')


@prop(6000, 300000, 'a case is a pair of objects built independently through random construction '
      'routes, with random predicates queried before; non-trivial if the values are equal, or '
      'differ by one small change; distinct by the two values')
def pairs(d):
    u = b.universe(d, 0.3, huge=0.01)
    vx = b.value(d, u)
    how = d.weighted((3, 'same'), (5, 'mutated'), (1, 'new'))
    vy = vx if how == 'same' else b.mutate(d, vx, u) if how == 'mutated' else b.value(d, u)
    d.note(m.show(vx), '/', m.show(vy))
    x, y = b.build_via(d, vx, 0.3), b.build_via(d, vy, 0.3)
    early = hash(x) if d.bool() else None
    compare(x, y, vx, vy)
    compare(x, x, vx, vx)
    b.warm_up(d, x)
    compare(x, y, vx, vy)
    if early is not None and hash(x) != early:
        raise Fail('{}: the hash value changed'.format(m.show(vx)), 'hash')
    other = d.pick(FOREIGN)
    if (x == other) is not False or (x != other) is not True:
        raise Fail('{} compares equal to {!r}, which is not a math object'.format(
            m.show(vx), other), 'foreign')
    d.label(how)
    d.label('equal', vx == vy)
    if how != 'new' or vx == vy:
        d.nontrivial(m.show(vx), m.show(vy))


@prop(150, 4000, 'a case is a pair of objects with 260 to 4200 members that were built from members in '
      'different sequence and are equal or differ in one member or multiplicity; distinct by values')
def giant(d):
    g = b.Giant(d)
    domain = d.pick(['set', 'mset', 'relation', 'clan', 'multiclan'])
    vx = vy = g.make(domain)
    members = sorted(vx[1], key=repr)
    how = d.pick(['same', 'less', 'other', 'count'])
    pos = d.int(0, len(members) - 1)
    if how == 'less':
        vy = (vx[0], vx[1] - {members[pos]})
    elif how == 'other' or how == 'count' and vx[0] == 'S':
        new = m.A('new') if vx[0] == 'S' else (m.A('new'), 1)
        vy = (vx[0], vx[1] - {members[pos]} | {new})
    elif how == 'count':
        elem, count = members[pos]
        vy = (vx[0], vx[1] - {members[pos]} | {(elem, count + 1)})
    x, y = b.build(vx), b.build(vy)
    elems = list(y.data.items()) if y.is_multiset else list(y.data)
    elems = elems[::-1] if d.bool() else elems[7:] + elems[:7]
    y = mo.Multiset(dict(elems)) if y.is_multiset else mo.Set(elems)
    text = '{} and {}'.format(m.show(vx), m.show(vy))
    d.note(text)
    if d.bool():
        hash(x), hash(y)
    compare(x, y, type(vx)(vx), type(vy)(vy))
    d.nontrivial(text)


@prop(4000, 200000, 'a case is a pool of up to 12 objects with many near-duplicates put into '
      'Python and library collections; non-trivial if some but not all of them are equal; '
      'distinct by pool')
def collections(d):
    u = b.Universe(d, 0.3)
    vals = b.variations(d, u, d.int(2, 12))
    objs = [b.build_via(d, val, 0.2) for val in vals]
    d.note(' | '.join(m.show(val) for val in vals))
    distinct = set(vals)
    counts = {val: vals.count(val) for val in distinct}
    if len(set(objs)) != len(distinct) or len(dict.fromkeys(objs)) != len(distinct):
        raise Fail('a Python set/dict has {} of these elements, expected {}'.format(
            len(set(objs)), len(distinct)), 'set')
    b.check_equal(mo.Set(objs), m.s_of(vals), 'Set')
    mset = mo.Multiset(objs)
    b.check_equal(mset, m.m_of(counts), 'Multiset')
    the_set = mo.Set(objs[:len(objs) // 2 + 1])
    part = set(vals[:len(objs) // 2 + 1])
    for val in vals + [b.mutate(d, d.pick(vals), u)]:
        again = b.build_via(d, val)
        expected = val in part
        if the_set.has_element(again) is not expected or (again in the_set) is not expected:
            raise Fail('{}: has_element/in {}: {!r}, expected {}'.format(
                m.show(m.s_of(part)), m.show(val), the_set.has_element(again), expected), 'in')
        if val[0] == 'A' and (val[2] in the_set) is not expected:
            raise Fail('{!r} in {}: expected {}'.format(
                val[2], m.show(m.s_of(part)), expected), 'in')
        expected = counts.get(val, 0)
        if mset.get_multiplicity(again) != expected or mset.has_element(again) != bool(expected) \
                or (again in mset) != bool(expected):
            raise Fail('multiplicity of {}: {}, expected {}'.format(
                m.show(val), mset.get_multiplicity(again), expected), 'multiplicity')
    sizes = (len(the_set), the_set.cardinality, len(list(the_set)))
    if set(sizes) != {len(part)} or the_set.is_empty:
        raise Fail('sizes {}, expected {}'.format(sizes, len(part)), 'size')
    sizes = (len(mset), mset.cardinality, len(list(mset)))
    if set(sizes) != {len(vals)} or mset.is_empty:
        raise Fail('sizes {}, expected {}'.format(sizes, len(vals)), 'size')
    if sorted(m.show(b.to_model(e)) for e in mset) != sorted(m.show(val) for val in vals):
        raise Fail('iterating over a multiset: {}'.format(list(mset)), 'iter')
    if 1 < len(distinct) < len(vals):
        d.nontrivial([m.show(val) for val in vals])


ATOMS = [0, 1, 2, -1, 255, 10**20, True, False, 0.0, 1.0, 0.5, 1e20, float('inf'), 1j, 1 + 0j, '', '0', '1',
         'True', 'None', 'a', 'A', 'a ', ' a', '\u00e9', 'e\u0301', '\n', '"', "'", b'', b'a', b'1', None,
         (), (1,), (1, 2), ('a',), ('1',), ((),), ((1,), 2), frozenset(), frozenset([1]),
         range(3), range(0), 'long text ' * 30, 2 ** 64]
# Values that are equal although they look different (or were made in another way).
ALIKE = [(0.0, -0.0), (1 + 0j, complex(1, -0.0)), (frozenset([8, 0]), frozenset([0, 8])),
         (frozenset(range(50)), frozenset(range(49, -1, -1))), (range(0), range(5, 5)),
         (range(0, 10, 3), range(0, 11, 3)), ((1, 0.0), (True, -0.0)),
         (decimal.Decimal('1.0'), decimal.Decimal('1.00')),
         (fractions.Fraction(1, 2), fractions.Fraction('0.5')),
         (datetime.timedelta(1), datetime.timedelta(hours=24)),
         (datetime.datetime(2000, 1, 1, 12, tzinfo=datetime.timezone.utc),
          datetime.datetime(2000, 1, 1, 13, tzinfo=datetime.timezone(datetime.timedelta(hours=1))))]


@prop(1500, 40000, 'a case is a pair of raw values turned into atoms; they are equal exactly if '
      'type and value are equal; distinct by the pair')
def atoms(d):
    x, y = d.pick(ATOMS), d.pick(ATOMS)
    if d.bool(0.2):
        x, y = d.shuffle(d.pick(ALIKE))
    elif d.bool(0.1):
        # Another object with the same value.
        y = pickle.loads(pickle.dumps(x))
    same = type(x) is type(y) and x == y
    d.note(repr(x), repr(y))
    for ax, ay in ((mo.Atom(x), mo.Atom(y)), (mo.Atom(mo.Atom(x)), mo.Atom(y, direct_load=True)),
                   (mo.auto_convert(x), mo.auto_convert(mo.Atom(y)))):
        if (ax == ay) is not same or (ax != ay) is same or (ay == ax) is not same:
            raise Fail('{!r} == {!r}: expected {}'.format(ax, ay, same), 'atom')
        if same and hash(ax) != hash(ay):
            raise Fail('{!r} and {!r}: different hash values'.format(ax, ay), 'hash')
        if len(mo.Set([ax, ay])) != 2 - same or len(mo.Multiset([ax, ay]).data) != 2 - same:
            raise Fail('{!r} and {!r} in one set'.format(ax, ay), 'set')
        if type(ax.value) is not type(x) or ax.value != x or ax.type is not type(x):
            raise Fail('the value of Atom({!r}) is {!r}'.format(x, ax.value), 'value')
    d.nontrivial(repr(x), repr(y))


TESTS = [pairs, giant, collections, atoms]
