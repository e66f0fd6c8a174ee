"""C13: ground sets describe objects exactly; structures form a partial order with unions."""
import algebraixlib.structure as st

from vlib import bridge as b
from vlib import model as m
from vlib.bridge import clans, couplets, multiclans, multisets, relations, sets
from vlib.engine import Fail, prop

ASSUMPTIONS = [
    'As the structure module documents, the empty (multi)set has the empty structure, which is a '
    'subset of every structure; that is: an empty (multi)set is taken to be a member of every '
    'structure.',
    'A multiset is represented as a set of (element, count) pairs; so its ground set is below the '
    'one of all sets. N (the counts) occurs only on the right of a Cartesian product; an explicit '
    'union with N is left open. So is the power set level of a union (documented to be 0).',
    'A structure is compared member by member: a product of unions is not expanded into a union of '
    'products (no ground set of an object needs this).']

# Structures of the model: ('0',) ('A',) ('M',) ('N',) ('x', left, right) ('P', base)
# ('U', frozenset with at least two members, none of them a union or below another one)
LEAVES = {'0': st.Structure, 'A': st.GenesisSetA, 'M': st.GenesisSetM, 'N': st.GenesisSetN}


def below(x, y):
    if x[0] == '0':
        return True
    if x[0] == 'U':
        return all(below(elem, y) for elem in x[1])
    if y[0] == 'U':
        return any(below(x, elem) for elem in y[1])
    if y[0] == 'M':
        return x[0] != 'N'
    if x[0] != y[0]:
        return False
    return all(below(part, other) for part, other in zip(x[1:], y[1:]))


def union(members):
    flat = set()
    for elem in members:
        flat |= elem[1] if elem[0] == 'U' else {elem}
    tops = {x for x in flat if not any(x != y and below(x, y) for y in flat)}
    return ('U', frozenset(tops)) if len(tops) > 1 else tops.pop()


def ground(val):
    if val[0] == 'A':
        return ('A',)
    if val[0] == 'C':
        return ('x', ground(val[1]), ground(val[2]))
    if not val[1]:
        return ('0',)
    members = union(ground(elem) for elem in m.elems(val))
    return ('P', members if val[0] == 'S' else ('x', members, ('N',)))


def member(val, struct):
    """Whether ``val`` is a member of ``struct`` (independent of `ground` and `below`)."""
    if struct[0] == 'U':
        return any(member(val, elem) for elem in struct[1])
    if val[0] in 'SM' and not val[1]:
        return True
    if struct[0] == 'M':
        return True
    if struct[0] == 'A':
        return val[0] == 'A'
    if struct[0] == 'x':
        return val[0] == 'C' and member(val[1], struct[1]) and member(val[2], struct[2])
    if struct[0] != 'P':
        return False
    if val[0] == 'S':
        return all(member(elem, struct[1]) for elem in val[1])
    return val[0] == 'M' and all(counted(elem, struct[1]) for elem, _ in val[1])


def counted(elem, struct):
    """Whether (elem, count) is a member of ``struct``."""
    if struct[0] == 'U':
        return any(counted(elem, part) for part in struct[1])
    if struct[0] == 'M':
        return True
    return struct[0] == 'x' and member(elem, struct[1]) and below(('N',), struct[2])


def level(x, y):
    """The number of power set levels from x down to y."""
    count = 0
    while x[0] == 'P':
        x = x[1]
        count += 1
        if below(x, y):
            return count
    return 0


def build(d, struct):
    """Build the structure of the code under test, sometimes with redundant unions."""
    if struct == ('N',):
        return st.GenesisSetN()
    if struct[0] in LEAVES:
        result = LEAVES[struct[0]]()
    elif struct[0] == 'x':
        result = st.CartesianProduct(build(d, struct[1]), build(d, struct[2]))
    elif struct[0] == 'P':
        result = st.PowerSet(build(d, struct[1]))
    else:
        parts = [build(d, elem) for elem in sorted(struct[1], key=show)]
        parts = d.shuffle(parts)
        if d.bool(0.2):
            parts.append(st.Structure())
        if d.bool(0.3):
            cut = d.int(1, len(parts) - 1)
            parts = [st.Union(parts[:cut])] + parts[cut - 1:]
        if d.bool(0.2):
            parts.append(parts[0])
        return st.Union(iter(parts) if d.bool() else parts)
    return st.Union([result]) if d.bool(0.1) else result


def plain(struct):
    """Build the structure of the code under test, without redundant unions."""
    if struct[0] in LEAVES:
        return LEAVES[struct[0]]()
    if struct[0] == 'x':
        return st.CartesianProduct(plain(struct[1]), plain(struct[2]))
    if struct[0] == 'P':
        return st.PowerSet(plain(struct[1]))
    return st.Union([plain(elem) for elem in sorted(struct[1], key=show)])


def show(struct):
    if struct[0] in 'AMN':
        return struct[0]
    if struct[0] == '0':
        return '{}'
    if struct[0] == 'x':
        return '({} x {})'.format(show(struct[1]), show(struct[2]))
    if struct[0] == 'U':
        return '({})'.format(' U '.join(sorted(show(elem) for elem in struct[1])))
    base = show(struct[1])
    return 'P' + base if base[0] in 'P(' else 'P({})'.format(base)


def structure(d, depth=3):
    kind = d.weighted((4, 'A'), (2, 'M'), (1, '0'), (3, 'x'), (3, 'P'), (3, 'U')) \
        if depth > 0 else d.weighted((4, 'A'), (2, 'M'), (1, '0'))
    if kind in LEAVES:
        return (kind,)
    if kind == 'x':
        right = ('N',) if d.bool(0.15) else structure(d, depth - 1)
        return ('x', structure(d, depth - 1), right)
    if kind == 'P':
        return ('P', structure(d, depth - 1))
    return union(structure(d, depth - 1) for _ in range(d.int(1, 4)))


def vary(d, struct):
    """A structure near to ``struct``; often one that is above or below it."""
    how = d.weighted((4, 'inside'), (2, 'M'), (1, 'A'), (2, 'widen'), (1, 'P'), (1, '0'),
                     (1, 'new'))
    if how == 'inside':
        if struct[0] == 'x':
            if struct[2] == ('N',) or d.bool():
                return ('x', vary(d, struct[1]), struct[2])
            return ('x', struct[1], vary(d, struct[2]))
        if struct[0] == 'P':
            return ('P', vary(d, struct[1]))
        if struct[0] == 'U':
            elems = sorted(struct[1], key=show)
            pos = d.int(0, len(elems) - 1)
            if d.bool():
                return union(elems[:pos] + [vary(d, elems[pos])] + elems[pos + 1:])
            return union(elems[:pos] + elems[pos + 1:])
        return struct
    if how == 'widen':
        return union([struct, structure(d, 2)])
    if how == 'P':
        return struct[1] if struct[0] == 'P' and d.bool() else ('P', struct)
    if how == 'new':
        return structure(d)
    return (how,)


def expect(got, expected, what):
    if type(got) is not type(expected) or got != expected:
        raise Fail('{}: got {!r}, expected {!r}'.format(what, got, expected), what.split(' ')[0])


ALGEBRAS = [
    (couplets, m.is_couplet, m.absolute_couplet), (relations, m.is_relation, m.absolute_relation),
    (clans, m.is_clan, m.absolute_clan), (multiclans, m.is_multiclan, m.absolute_multiclan),
    (sets, m.is_set, lambda v: v[0] == 'S' and all(e[0] == 'A' for e in v[1])),
    (multisets, m.is_multiset, lambda v: v[0] == 'M' and all(e[0] == 'A' for e, _ in v[1]))]


def has_empty(val):
    if val[0] == 'A':
        return False
    if val[0] == 'C':
        return has_empty(val[1]) or has_empty(val[2])
    return not val[1] or any(has_empty(elem) for elem in m.elems(val))


@prop(7000, 250000, 'a case is a math object and a structure that is often derived from the ground '
      'set of it (or of a similar object) by small changes: being a member (decided without '
      'structures) must be the same as having a ground set below the structure; non-trivial: the '
      'object is nested and the structure is neither M nor its ground set; distinct by both')
def ground_sets(d):
    u = b.universe(d, 0.3, huge=0.02)
    val = b.value(d, u)
    if d.bool(0.004):
        val = b.Giant(d).make(d.pick(['set', 'mset', 'relation', 'clan', 'multiclan']))
    if d.bool(0.3):
        val = m.S(val) if d.bool() else m.S(val, b.value(d, u))
    if d.bool(0.008):
        # Many members of one kind and one of another kind.
        many = b.large_styled(d, 'relation')[1] if d.bool() else [
            m.A(val) for val in range(d.int(50, 500))]
        val = m.s_of(list(many) + [val]) if d.bool(0.6) else m.m_of(
            {elem: d.int(1, 2) for elem in list(many) + [val]})
    obj = b.build_via(d, val, 0.1)
    gs = obj.get_ground_set()
    own = ground(val)
    what = 'ground set of {}'.format(m.show(val))
    expect(str(gs), show(own), what)
    b.to_model(obj)
    if val[0] in 'SM' and val[1]:
        for elem in obj.data:
            base = gs.base_set if val[0] == 'S' else gs.base_set.left
            if not elem.get_ground_set() <= base:
                raise Fail('{}: that of the element {!r} is not below'.format(what, elem), 'elem')
    for _ in range(3):
        struct = d.weighted((1, 'vary'), (1, 'other'), (1, 'new'))
        if struct == 'vary':
            struct = vary(d, own)
        elif struct == 'other':
            struct = ground(b.mutate(d, val, u))
        else:
            struct = vary(d, structure(d))
        obj_struct = build(d, struct)
        text = '{} in {}'.format(m.show(val), show(struct))
        d.note(text)
        expect(gs <= obj_struct, member(val, struct), 'member ' + text)
        expect(gs.is_subset(obj_struct), member(val, struct), 'member ' + text)
        expect(gs == obj_struct, own == struct, 'equal ' + text)
        expect(gs.get_powerset_level(obj_struct), level(own, struct), 'level ' + text)
        if val[0] != 'A' and struct not in (own, ('M',), ('0',)):
            d.nontrivial(text)
    if d.bool(0.3):
        question = d.pick(b.questions(val))
        b.ask(obj, val, question)
        expect(str(obj.get_ground_set()), show(own), what + ' again')
    expect(str(gs), show(own), what + ' afterwards')
    # The algebras.
    for algebra, is_member, is_absolute in ALGEBRAS:
        name = algebra.__name__.split('.')[-1]
        for struct, expected in ((algebra.get_ground_set(), is_member(val)),
                                 (algebra.get_absolute_ground_set(), is_absolute(val))):
            if algebra is sets and val[0] == 'M':
                continue
            if expected or not has_empty(val):
                expect(gs <= struct, expected, '{} {} below {}'.format(name, m.show(val), struct))


@prop(9000, 300000, 'a case is two or three structures (with redundant or nested unions) that are '
      'often above, below or near each other: order, equality, hash, text and code representation '
      'are compared with the reference; non-trivial: two of them differ and contain a union or '
      'are comparable; distinct by the structures')
def order(d):
    pool = [structure(d)]
    while len(pool) < 3:
        pool.append(vary(d, d.pick(pool)))
    objs = [build(d, struct) for struct in pool]
    d.note(', '.join(show(struct) for struct in pool))
    for x, s in zip(objs, pool):
        what = '{!r}'.format(x)
        expect(str(x), show(s), 'text ' + what)
        again = eval(repr(x), dict(vars(st)))
        if not (again == x and x == again and hash(again) == hash(x)):
            raise Fail('the code representation of {} is different'.format(what), 'repr')
        if isinstance(x, st.Union):
            members = list(x.data)
            for elem in members:
                if isinstance(elem, st.Union):
                    raise Fail('a union in a union: ' + what, 'nested')
                for other in members:
                    if elem is not other and elem.is_subset(other):
                        raise Fail('a redundant member in ' + what, 'redundant')
        for y, t in zip(objs, pool):
            what = '{!r} and {!r}'.format(x, y)
            expect(x.is_subset(y), below(s, t), 'is_subset ' + what)
            expect(x <= y, below(s, t), '<= ' + what)
            expect(x == y, s == t, '== ' + what)
            expect(x.is_same(y), s == t, 'is_same ' + what)
            expect(x != y, s != t, '!= ' + what)
            expect(plain(s).get_powerset_level(y), level(s, t), 'level ' + what)
            if s == t and hash(x) != hash(y):
                raise Fail('equal but with different hash: ' + what, 'hash')
            if s != t and ('U' in show(s) + show(t) or below(s, t)):
                d.nontrivial(show(s), show(t))
    total = st.Union(objs)
    expect(str(total), show(union(pool)), 'union')
    # The structures are what they were.
    for x, s in zip(objs, pool):
        expect(str(x), show(s), 'text afterwards {!r}'.format(x))


TESTS = [ground_sets, order]
