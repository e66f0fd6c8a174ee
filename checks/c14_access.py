"""C14: looking up by left, membership, sizes, left and right sets agree with the couplets present."""
import algebraixlib.undef as undef

from vlib import bridge as b
from vlib import model as m
from vlib.bridge import clans, multiclans, relations
from vlib.engine import Fail, prop

KF = 'KF-C08-1'


def all_couplets(val):
    """The couplets of a relation, clan, set of clans, ..."""
    if val[0] == 'C':
        return {val}
    return {couplet for elem in m.elems(val) for couplet in all_couplets(elem)}


def by_left(val, left):
    if val[0] == 'S':
        if m.is_relation(val) or m.is_clan(val):
            return m.s_of(c[2] for c in all_couplets(val) if c[1] == left)
        return m.UNDEF
    if val[0] == 'M':
        if all(elem[0] == 'C' for elem, _ in val[1]):
            return m.m_of({elem[2]: count for elem, count in val[1] if elem[1] == left})
        if m.is_multiclan(val):
            result = {}
            for rel, count in val[1]:
                for couplet in rel[1]:
                    if couplet[1] == left:
                        result[couplet[2]] = result.get(couplet[2], 0) + count
            return m.m_of(result)
    return m.UNDEF


def call(val, left):
    if m.is_relation(val) and m.functional(val):
        return ([c[2] for c in val[1] if c[1] == left] or [m.UNDEF])[0]
    return m.UNDEF


def side_set(val, side):
    """The left/right set, or None if that is left open for ``val``."""
    if m.is_relation(val) or m.is_clan(val) or m.is_multiclan(val) or m.set_of_clans(val):
        return m.s_of(c[side] for c in all_couplets(val))
    return m.UNDEF


@prop(9000, 300000, 'a case is an object of any shape (often a relation, clan, multirelation, '
      'multiclan) with several lookups in random order; non-trivial: it contains couplets with at '
      'least two lefts, or two rights for one left; distinct by object and lookups')
def lookups(d):
    u = b.universe(d, 0.25, huge=0.015)
    val = d.weighted(
        (3, b.relation), (3, b.clan), (3, b.multiclan),
        (2, lambda d, u: m.m_of({b.couplet(d, u): b.count(d) for _ in range(d.size(0, 5, 2.5))})),
        (2, b.value), (2, lambda d, u: m.s_of({left: m.C(left, d.pick(u.rights)) for left in (
            d.pick(u.lefts) for _ in range(d.size(0, 5, 2.5)))}.values())))(d, u)
    obj = b.build_via(d, val, 0.3)
    asked = []
    for _ in range(d.int(1, 4)):
        left = d.pick(u.lefts + u.values[:2] + [m.A('zz'), m.EMPTY])
        if left[0] == 'A' and d.bool(0.1):
            left = b.twin(d, left)
        how = d.int(0, 1)
        key = left[2] if left[0] == 'A' and d.bool() else b.build(left)
        what = '{}{}{}{}'.format(m.show(val), '[('[how], m.show(left), '])'[how])
        d.note(what)
        asked.append(what)
        if how:
            b.check_equal(obj(key), call(val, left), what)
        else:
            b.check_equal(obj[key], by_left(val, left), what)
        if m.is_relation(val):
            rights = [c[2] for c in val[1] if c[1] == left]
            lefts = [c[1] for c in val[1] if c[2] == left]
            b.check_equal(relations.get_rights_for_left(obj, key), m.s_of(rights), what)
            b.check_equal(relations.get_right(obj, key),
                          rights[0] if len(rights) == 1 else m.UNDEF, what + ' get_right')
            b.check_equal(relations.get_left(obj, key),
                          lefts[0] if len(lefts) == 1 else m.UNDEF, what + ' get_left')
        b.audit(obj, val)
    couplets = all_couplets(val) if m.is_relation(val) or m.is_clan(val) or m.is_multiclan(val) \
        else []
    if len(couplets) > 1:
        d.nontrivial(asked)


@prop(600, 15000, 'a case is a large relation, clan or multiclan (often a function) with several '
      'lookups by lefts that it has, by lefts that are easily confused with these and by others; '
      'non-trivial: all; distinct by object and lookups')
def large(d):
    kind = d.pick(['relation', 'relation', 'clan', 'multiclan'])
    val = b.Giant(d).make(kind) if d.bool(0.12) else b.large_styled(d, kind)
    obj = b.build_via(d, val, 0.2)
    d.note(m.show(val))
    couplets = sorted(all_couplets(val), key=m.show)
    asked = []
    for _ in range(d.int(2, 5)):
        left = d.pick(couplets)[d.int(1, 2)] if couplets and d.bool(0.9) else m.A('zz')
        if left[0] == 'A' and d.bool(0.4):
            left = b.twin(d, left)
        key = left[2] if left[0] == 'A' and d.bool() else b.build(left)
        how = d.bool(0.4)
        what = '{}{}{}'.format('[('[how], m.show(left), '])'[how])
        d.note(what)
        asked.append(what)
        if how:
            b.check_equal(obj(key), call(val, left), what)
        else:
            b.check_equal(obj[key], by_left(val, left), what)
        if m.is_relation(val):
            rights = [c[2] for c in val[1] if c[1] == left]
            lefts = [c[1] for c in val[1] if c[2] == left]
            b.check_equal(relations.get_rights_for_left(obj, key), m.s_of(rights), what)
            b.check_equal(relations.get_right(obj, key),
                          rights[0] if len(rights) == 1 else m.UNDEF, what + ' get_right')
            b.check_equal(relations.get_left(obj, key),
                          lefts[0] if len(lefts) == 1 else m.UNDEF, what + ' get_left')
    if not (val == m.MEMPTY):
        for side, func in ((1, obj.get_left_set), (2, obj.get_right_set)):
            b.check_equal(func(), side_set(val, side), func.__name__)
    b.audit(obj, val)
    d.nontrivial(m.show(val), asked)


@prop(5000, 200000, 'a case is an object of any shape, including nested sets of clans, asked for '
      'its left and right set; non-trivial if these are defined and not empty; distinct by object')
def sides(d):
    u = b.universe(d, 0.25, huge=0.015)
    val = d.weighted(
        (2, b.value), (2, b.relation), (2, b.clan), (2, b.multiclan),
        (3, lambda d, u: m.s_of(b.clan(d, u, 3, 1.5) for _ in range(d.size(1, 3, 2)))),
        (1, lambda d, u: m.s_of(m.s_of(b.clan(d, u, 2, 1.2) for _ in range(d.size(1, 2, 1.5)))
                                for _ in range(d.size(1, 2, 1.5)))))(d, u)
    d.note(m.show(val))
    obj = b.build_via(d, val, 0.3)
    if val == m.MEMPTY:
        d.exclude(KF)
        return
    for side, func in ((1, obj.get_left_set), (2, obj.get_right_set)):
        what = '{}.{}()'.format(m.show(val), func.__name__)
        expected = side_set(val, side)
        got = func()
        b.check_equal(got, expected, what)
        b.audit(got)
        again = func()
        b.check_equal(again, expected, what)
    if side_set(val, 1) is not m.UNDEF and side_set(val, 1)[1]:
        d.nontrivial(m.show(val))


@prop(1500, 50000, 'a case is an object that is neither set nor multiset; looking up something in '
      'it is undefined; distinct by object')
def others(d):
    u = b.Universe(d, 0.25)
    val = d.weighted((1, b.couplet), (1, lambda d, u: d.pick(u.values)))(d, u)
    if val[0] not in 'AC':
        val = m.C(val, val)
    obj = b.build_via(d, val, 0.3)
    d.note(m.show(val))
    for got in (obj(1), obj['a'], obj.get_left_set(), obj.get_right_set()):
        if got is not undef.Undef():
            raise Fail('looking up something in {}: {!r}'.format(m.show(val), got), 'other')
    if obj.is_empty or (obj.is_atom, obj.is_couplet, obj.is_set, obj.is_multiset) != (
            val[0] == 'A', val[0] == 'C', False, False):
        raise Fail('{}: wrong kind'.format(m.show(val)), 'kind')
    if val[0] == 'C':
        b.check_equal(obj.left, val[1], 'left')
        b.check_equal(obj.right, val[2], 'right')
    d.nontrivial(m.show(val))


TESTS = [lookups, large, sides, others]
