"""The reference model: plain immutable Python values and textbook definitions.

Does not import anything of the code under test. A math object is modelled by a tagged tuple:

    ('A', type name, value)                 atom
    ('C', left, right)                      couplet
    ('S', frozenset of models)              set
    ('M', frozenset of (model, count))      multiset, count >= 1

``UNDEF`` models 'undefined'. The definitions follow docs/algebraReference.rst.
"""
import itertools


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


# Constructors -------------------------------------------------------------------------------------

def A(value):
    return ('A', type(value).__name__, value)


def C(left, right):
    return ('C', left, right)


def S(*elems):
    return ('S', frozenset(elems))


def s_of(iterable):
    return ('S', frozenset(iterable))


def m_of(counter):
    """Return a multiset; ``counter`` maps elements to counts (non-positive counts are dropped)."""
    return ('M', frozenset((elem, count) for elem, count in counter.items() if count > 0))


EMPTY = S()
MEMPTY = ('M', frozenset())


def counter(mset):
    return dict(mset[1])


def elems(obj):
    """The distinct elements of a set or multiset."""
    if obj[0] == 'S':
        return obj[1]
    return frozenset(elem for elem, _ in obj[1])


def show(obj):
    """Readable, canonical text (for reports)."""
    if obj is UNDEF:
        return 'Undef()'
    if not isinstance(obj, tuple) or not obj or obj[0] not in ('A', 'C', 'S', 'M'):
        return repr(obj)
    if obj[0] == 'A':
        return repr(obj[2])
    if obj[0] == 'C':
        return '{}->{}'.format(show(obj[1]), show(obj[2]))
    if obj[0] == 'S':
        return '{' + ', '.join(sorted(show(elem) for elem in obj[1])) + '}'
    return '[' + ', '.join(sorted(show(e) + ':' + str(n) for e, n in obj[1])) + ']'


def weight(obj):
    """The number of nodes."""
    if obj[0] == 'A':
        return 1
    if obj[0] == 'C':
        return 1 + weight(obj[1]) + weight(obj[2])
    return 1 + sum(weight(elem) for elem in elems(obj))


# Kinds --------------------------------------------------------------------------------------------

def is_atom(obj):
    return obj[0] == 'A'


def is_couplet(obj):
    return obj[0] == 'C'


def is_set(obj):
    return obj[0] == 'S'


def is_multiset(obj):
    return obj[0] == 'M'


def is_relation(obj):
    return obj[0] == 'S' and all(elem[0] == 'C' for elem in obj[1])


def is_clan(obj):
    return obj[0] == 'S' and all(is_relation(elem) for elem in obj[1])


def is_multiclan(obj):
    return obj[0] == 'M' and all(is_relation(elem) for elem, _ in obj[1])


def _absolute_couplet(obj):
    return obj[1][0] == 'A' and obj[2][0] == 'A'


def _absolute_relation(obj):
    return all(_absolute_couplet(elem) for elem in obj[1])


def absolute_couplet(obj):
    return obj[0] == 'C' and _absolute_couplet(obj)


def absolute_relation(obj):
    return is_relation(obj) and _absolute_relation(obj)


def absolute_clan(obj):
    return is_clan(obj) and all(_absolute_relation(rel) for rel in obj[1])


def absolute_multiclan(obj):
    return is_multiclan(obj) and all(_absolute_relation(rel) for rel, _ in obj[1])


# Set operations -----------------------------------------------------------------------------------

def union(a, b):
    return ('S', a[1] | b[1])


def intersect(a, b):
    return ('S', a[1] & b[1])


def minus(a, b):
    return ('S', a[1] - b[1])


def power_set(a):
    items = list(a[1])
    return s_of(s_of(combo) for size in range(len(items) + 1)
                for combo in itertools.combinations(items, size))


# Multiset operations ------------------------------------------------------------------------------

def _combine(a, b, func):
    a, b = counter(a), counter(b)
    return m_of({e: func(a.get(e, 0), b.get(e, 0)) for e in set(a) | set(b)})


def m_union(a, b):
    return _combine(a, b, max)


def m_intersect(a, b):
    return _combine(a, b, min)


def m_minus(a, b):
    return _combine(a, b, lambda x, y: x - y)


def m_add(a, b):
    return _combine(a, b, lambda x, y: x + y)


def m_subset(a, b):
    b = counter(b)
    return all(count <= b.get(elem, 0) for elem, count in a[1])


# Couplets and relations ---------------------------------------------------------------------------

def c_transpose(c):
    return C(c[2], c[1])


def c_compose(c2, c1):
    """c2 after c1."""
    return C(c1[1], c2[2]) if c1[2] == c2[1] else UNDEF


def r_transpose(r):
    return s_of(c_transpose(c) for c in r[1])


def r_compose(r2, r1):
    return s_of(C(c1[1], c2[2]) for c1 in r1[1] for c2 in r2[1] if c1[2] == c2[1])


def lefts(r):
    return s_of(c[1] for c in r[1])


def rights(r):
    return s_of(c[2] for c in r[1])


def functional(r):
    return len(lefts(r)[1]) == len(r[1])


def right_functional(r):
    return len(rights(r)[1]) == len(r[1])


def reflexive(r):
    return all(C(x, x) in r[1] for x in lefts(r)[1] | rights(r)[1])


def symmetric(r):
    return all(c_transpose(c) in r[1] for c in r[1])


def transitive(r):
    return r_compose(r, r)[1] <= r[1]


def functional_union(a, b):
    result = union(a, b)
    return result if functional(result) else UNDEF


def right_functional_union(a, b):
    result = union(a, b)
    return result if right_functional(result) else UNDEF


def diag(*values):
    return s_of(C(value, value) for value in values)


def restrict_lefts(r, names):
    return s_of(c for c in r[1] if c[1] in names)


# Clans --------------------------------------------------------------------------------------------

def binary_extend(a, b, op):
    return s_of(res for x in a[1] for y in b[1] for res in [op(x, y)] if res is not UNDEF)


def binary_multi_extend(a, b, op):
    result = {}
    for x, xc in a[1]:
        for y, yc in b[1]:
            res = op(x, y)
            if res is not UNDEF:
                result[res] = result.get(res, 0) + xc * yc
    return m_of(result)


def unary_extend(a, op):
    return s_of(res for x in a[1] for res in [op(x)] if res is not UNDEF)


def unary_multi_extend(a, op):
    result = {}
    for x, count in a[1]:
        res = op(x)
        if res is not UNDEF:
            result[res] = result.get(res, 0) + count
    return m_of(result)


def clan_lefts(clan):
    return s_of(c[1] for rel in elems(clan) for c in rel[1])


def clan_rights(clan):
    return s_of(c[2] for rel in elems(clan) for c in rel[1])


def regular(clan):
    rels = list(elems(clan))
    return all(functional(rel) and lefts(rel) == lefts(rels[0]) for rel in rels)


def right_regular(clan):
    rels = list(elems(clan))
    return all(right_functional(rel) and rights(rel) == rights(rels[0]) for rel in rels)


# Properties of objects of any shape ---------------------------------------------------------------
# For relations, clans, multiclans and sets of (sets of ...) clans. Return UNDEF where not defined.

_REL = {'functional': functional, 'right_functional': right_functional, 'reflexive': reflexive,
        'symmetric': symmetric, 'transitive': transitive}


def nesting(obj):
    return 1 + max(nesting(elem) for elem in obj[1]) if obj[0] == 'S' and obj[1] else 0


def set_of_clans(obj):
    """Whether ``obj`` is a set of (sets of ...) clans."""
    def member(val, level):
        if level == 0:
            return is_clan(val)
        return val[0] == 'S' and all(member(elem, level - 1) for elem in val[1])
    return any(member(obj, level) for level in range(1, nesting(obj) + 1))


def truth(obj, name):
    """The value of a property of an object of any shape (True, False or UNDEF)."""
    if name == 'reflexive' and obj[0] == 'C':
        return obj[1] == obj[2]
    if obj[0] not in 'SM':
        return UNDEF
    if name in _REL:
        if is_relation(obj):
            return _REL[name](obj)
        if is_clan(obj) or is_multiclan(obj):
            return all(_REL[name](rel) for rel in elems(obj))
        return all(truth(elem, name) for elem in obj[1]) if set_of_clans(obj) else UNDEF
    if is_clan(obj) or is_multiclan(obj):
        return regular(obj) if name == 'regular' else right_regular(obj)
    if not set_of_clans(obj):
        return UNDEF
    side = 1 if name == 'regular' else 2
    return all(truth(elem, name) for elem in obj[1]) \
        and len({components(elem, side) for elem in obj[1]}) == 1


def components(obj, side):
    """The set of all left (1) or right (2) components in a relation or (set of ...) clan(s)."""
    if obj[0] == 'C':
        return frozenset([obj[side]])
    return frozenset().union(*[components(elem, side) for elem in elems(obj)])
