"""Conversion between model values and objects of the code under test, and their generators."""
import collections
import copy

import algebraixlib.mathobjects as mo
import algebraixlib.undef as undef
from algebraixlib.cache_status import CacheStatus

from . import engine
from . import model as m
from .engine import Fail


def _reset():
    undef.RaiseOnUndef.reset()


engine.RESETS.append(_reset)


# Library object -> model --------------------------------------------------------------------------

def to_model(obj, what='result'):
    """Return the model of ``obj``; fail if it is not a well-formed math object or Undef()."""
    if obj is undef.Undef():
        return m.UNDEF
    if isinstance(obj, mo.Atom):
        return ('A', type(obj.value).__name__, obj.value)
    if isinstance(obj, mo.Couplet):
        return ('C', _member(obj.left, what), _member(obj.right, what))
    if isinstance(obj, mo.Set):
        return ('S', frozenset([_member(elem, what) for elem in obj.data]))
    if isinstance(obj, mo.Multiset):
        pairs = []
        for elem, count in obj.data.items():
            if type(count) is not int or count < 1:
                raise Fail('{}: a multiset has an element with multiplicity {!r}: {!r}'.format(
                    what, count, obj.data), 'multiplicity')
            pairs.append((_member(elem, what), count))
        return ('M', frozenset(pairs))
    raise Fail('{}: not a math object but a {}: {!r}'.format(what, type(obj).__name__, obj), 'type')


def _member(obj, what):
    if obj is undef.Undef():
        raise Fail('{}: contains Undef()'.format(what), 'type')
    return to_model(obj, what)


# Model -> library object --------------------------------------------------------------------------

def build(val):
    """Build a fresh library object in the most straightforward way."""
    if val is m.UNDEF:
        return undef.Undef()
    kind = val[0]
    if kind == 'A':
        return mo.Atom(val[2])
    if kind == 'C':
        return mo.Couplet(build(val[1]), build(val[2]))
    if kind == 'S':
        return mo.Set([build(elem) for elem in val[1]])
    return mo.Multiset({build(elem): count for elem, count in val[1]})


def _ordered(items):
    return sorted(items, key=m.show)


def build_via(d, val, warm=0.0):
    """Build a library object through randomly chosen construction routes.

    With a chance of ``warm``, query predicates on it and its parts afterwards (which caches them).
    """
    kind = val[0]
    if kind == 'A':
        result = mo.Atom(val[2]) if not d.bool(0.1) else mo.Atom(val[2], direct_load=True)
        if d.bool(0.1):
            result = mo.Atom(result)
    elif kind == 'C':
        left, right = build_via(d, val[1], warm), build_via(d, val[2], warm)
        route = d.weighted((6, 0), (2, 1), (2, 2))
        if route == 1:
            result = mo.Couplet(left, right, direct_load=True)
        elif route == 2 and val[1] == val[2]:
            result = mo.Couplet(left)
        elif route == 2:
            # Raw values are converted into atoms.
            result = mo.Couplet(_raw(val[1], left), _raw(val[2], right))
        else:
            result = mo.Couplet(left, right)
    elif kind == 'S':
        items = d.shuffle(_ordered(val[1]))
        objs = [build_via(d, elem, warm) for elem in items]
        if objs and d.bool(0.15):
            # Duplicates collapse.
            objs.append(build_via(d, items[0], warm))
        route = d.weighted((5, 0), (2, 1), (1, 2), (1, 3), (1, 4))
        if route == 1:
            result = mo.Set(objs, direct_load=True)
        elif route == 2 and not (len(objs) == 1 and not _loads_as_single(items[0])):
            result = mo.Set(*objs)
        elif route == 3:
            result = mo.Set(o for o in objs)
        elif route == 4:
            result = mo.Set([_raw(item, o) for item, o in zip(items + items[:1], objs)])
        else:
            result = mo.Set(objs)
    else:
        pairs = d.shuffle(sorted(val[1], key=lambda pair: m.show(pair[0])))
        objs = [(build_via(d, elem, warm), count) for elem, count in pairs]
        route = d.weighted((5, 0), (2, 1), (2, 2), (1, 3))
        if route == 1:
            result = mo.Multiset(collections.Counter(dict(objs)), direct_load=True)
        elif route == 2:
            flat = [obj for obj, count in objs for _ in range(count)]
            result = mo.Multiset(d.shuffle(flat))
        elif route == 3:
            flat = [obj for obj, count in objs for _ in range(count)]
            result = mo.Multiset(flat, direct_load=True)
        else:
            result = mo.Multiset(dict(objs))
    if warm and d.bool(warm):
        warm_up(d, result)
    return result


def _loads_as_single(item):
    return item[0] != 'A' or not isinstance(item[2], collections.Iterable) \
        or isinstance(item[2], str)


def _raw(item, obj):
    return item[2] if item[0] == 'A' else obj


# Cached knowledge ---------------------------------------------------------------------------------

import algebraixlib.algebras.clans as clans  # noqa
import algebraixlib.algebras.couplets as couplets  # noqa
import algebraixlib.algebras.multiclans as multiclans  # noqa
import algebraixlib.algebras.multisets as multisets  # noqa
import algebraixlib.algebras.properties as properties  # noqa
import algebraixlib.algebras.relations as relations  # noqa
import algebraixlib.algebras.sets as sets  # noqa

QUERIES = [
    relations.is_member, clans.is_member, multiclans.is_member,
    relations.is_functional, relations.is_right_functional, relations.is_reflexive,
    relations.is_symmetric, relations.is_transitive, relations.is_absolute_member,
    clans.is_functional, clans.is_right_functional, clans.is_regular, clans.is_right_regular,
    clans.is_reflexive, clans.is_symmetric, clans.is_transitive, clans.is_absolute_member,
    multiclans.is_functional, multiclans.is_right_functional, multiclans.is_regular,
    multiclans.is_right_regular, multiclans.is_reflexive, multiclans.is_symmetric,
    multiclans.is_transitive, multiclans.is_absolute_member,
    sets.is_absolute_member, multisets.is_absolute_member, couplets.is_absolute_member,
    couplets.is_reflexive,
    properties.is_functional, properties.is_right_functional, properties.is_reflexive,
    properties.is_symmetric, properties.is_transitive, properties.is_regular,
    properties.is_right_regular,
    hash, repr,
]


def warm_up(d, obj):
    """Make ``obj`` find out and cache something about itself."""
    mode = d.weighted((2, 0), (2, 1), (1, 2))
    if mode == 0:
        for _ in range(d.int(1, 3)):
            d.pick(QUERIES)(obj)
    elif mode == 1:
        membership(obj)
        for func in (properties.is_functional, properties.is_right_functional,
                     properties.is_regular, properties.is_right_regular):
            func(obj)
    else:
        for func in QUERIES:
            func(obj)


def membership(obj):
    return relations.is_member(obj), clans.is_member(obj), multiclans.is_member(obj)


# Generators of models -----------------------------------------------------------------------------

TINY = [0, 1, 'a', 'b']
SMALL = [0, 1, 2, 'a', 'b', 'c', 'x']
MIXED = [0, 1, True, False, 1.0, 0.0, 1.5, -1, 2, 10, 'a', 'b', '', '1', 'True', None, b'a', (1, 2),
         ('a',), 'x y', '\u00e9', (), 1j, 10**20, "quote'", 'Undef()']
# Python considers many of these equal to each other.
CONFUSED = [0, 1, True, False, 1.0, 0.0, 'a']
LARGE = list(range(24)) + ['k%d' % i for i in range(12)]


class Universe:
    """The alphabet of one case: lefts and values come from small pools so that they collide."""

    def __init__(self, d, nested=0.15, large=2):
        kind = d.weighted((20, TINY), (16, SMALL), (8, MIXED), (3, CONFUSED),
                          (large, LARGE))
        self.kind = kind
        self.scale = 4 if kind is LARGE else 1
        self.values = [m.A(val) for val in kind]
        if kind is MIXED or kind is CONFUSED:
            self.values = d.shuffle(self.values)[:d.int(3, 8)]
        # Sometimes, components are not only atoms.
        if d.bool(nested):
            extra = d.subset([m.EMPTY, m.S(self.values[0]), m.C(self.values[0], self.values[1]),
                              m.S(m.C(self.values[0], self.values[1])), m.MEMPTY,
                              m.m_of({self.values[0]: 2}), m.S(m.EMPTY)], 0.4)
            self.values = self.values + extra
        self.lefts = self.values[:d.int(1, min(4 * self.scale, len(self.values)))] \
            if d.bool(0.7) else self.values
        self.rights = self.values
        # The universe for parts of values.
        self.inner = self

    def atom_values(self):
        return [val for val in self.values if val[0] == 'A']


class HugeUniverse(Universe):
    """Many different values; sets, multisets, relations and clans get up to hundreds of members."""

    def __init__(self, d):
        super().__init__(d, 0.1)
        number = d.pick([60, 150, 400])
        self.kind = 'huge'
        self.values = [m.A(val) for val in range(number)] + [
            m.A('v%d' % val) for val in range(number // 3)] + self.values
        if d.bool(0.3):
            # Few of them are easily confused.
            self.values = [m.A(val) for val in CONFUSED] + self.values
        self.lefts = self.values[:d.pick([len(self.values), 3, number // 2])]
        self.rights = self.values[:d.pick([len(self.values), 3, number // 2])]
        self.scale = d.pick([8, 20, 50])
        self.inner = copy.copy(self)
        self.inner.scale = 1
        self.inner.inner = self.inner
        # Clans have many rows or many columns.
        self.wide = d.bool(0.3)


def universe(d, nested=0.15, huge=0.01):
    return HugeUniverse(d) if d.bool(huge) else Universe(d, nested)


def couplet(d, u):
    return m.C(d.pick(u.lefts), d.pick(u.rights))


def relation(d, u, high=5, mean=2.2, low=0):
    kind = d.weighted((6, 'any'), (3, 'functional'), (1, 'right'), (1, 'diag'), (1, 'square'))
    size = d.size(low, high * u.scale, mean * u.scale)
    if kind == 'functional':
        return m.s_of({left: m.C(left, d.pick(u.rights))
                       for left in (d.pick(u.lefts) for _ in range(size))}.values())
    if kind == 'right':
        return m.s_of({right: m.C(d.pick(u.lefts), right)
                       for right in (d.pick(u.rights) for _ in range(size))}.values())
    if kind == 'diag':
        return m.diag(*[d.pick(u.rights) for _ in range(size)])
    if kind == 'square':
        # Close to being an equivalence relation, an order, ...
        base = [d.pick(u.rights) for _ in range(d.int(1, 3))]
        cells = [m.C(x, y) for x in base for y in base]
        return m.s_of(cell for cell in cells if d.bool(0.75))
    return m.s_of(couplet(d, u) for _ in range(size))


def table(d, u, high=4):
    """A regular clan."""
    rows, cols = _sides(u)
    names = list(dict.fromkeys(d.pick(u.lefts) for _ in range(d.int(1, 3 * cols.scale))))
    return m.s_of(m.s_of(m.C(name, d.pick(u.rights)) for name in names)
                  for _ in range(d.size(1, high * rows.scale, 2.5 * rows.scale)))


def _sides(u):
    if u.inner is u:
        return u, u
    return (u.inner, u) if u.wide else (u, u.inner)


def clan(d, u, high=4, mean=2.0, low=0):
    if d.bool(0.3):
        return table(d, u, high)
    rows, cols = _sides(u)
    return m.s_of(relation(d, cols, 4, 1.7)
                  for _ in range(d.size(low, high * rows.scale, mean * rows.scale)))


def count(d, u=None):
    if u and u.kind == 'huge' and d.bool(0.1):
        return d.pick([10, 99, 100, 1001])
    return d.weighted((5, 1), (3, 2), (2, 3), (1, 5), (1, 12))


def multiclan(d, u, high=4, mean=2.0):
    return m.m_of({rel: count(d) if d.bool(0.8) else min(count(d, u), 100) for rel in clan(d, u, high, mean)[1]})


def deep(d, u, low=5, high=40):
    """A value nested many times, in a short repeated pattern of couplets, sets and multisets."""
    val = d.weighted((4, lambda: d.pick(u.values)), (1, lambda: relation(d, u)),
                     (1, lambda: m.EMPTY))()
    pattern = [d.pick(['S', 'S', 'M', 'L', 'R', 'S+', 'M+']) for _ in range(d.int(1, 3))]
    for level in range(d.int(low, high)):
        kind = pattern[level % len(pattern)]
        if kind[0] == 'S':
            val = m.s_of([val] + [d.pick(u.values)] * (kind == 'S+'))
        elif kind[0] == 'M':
            counts = {val: d.pick([1, 1, 2])}
            if kind == 'M+':
                counts.setdefault(d.pick(u.values), 1)
            val = m.m_of(counts)
        elif kind == 'L':
            val = m.C(val, d.pick(u.rights))
        else:
            val = m.C(d.pick(u.lefts), val)
    return val


def busy(d, func, other):
    """``func`` that, when called, sometimes also calls ``other`` (which uses the library)."""
    when = d.pick(['before', 'after', 'around'])
    every = d.pick([1, 2, 3])
    calls = [0]

    def wrapped(*args):
        calls[0] += 1
        now = calls[0] % every == 0 and calls[0] < 60
        if now and when != 'after':
            other()
        result = func(*args)
        if now and when != 'before':
            other()
        return result
    return wrapped


class Interrupt(Exception):
    """Raised by functions that are given to the code under test."""


def interrupted(d, func, call):
    """Make a call with a function that raises an exception, now or after some answers."""
    left = [d.int(0, 3)]

    def failing(*args):
        if not left[0]:
            raise Interrupt()
        left[0] -= 1
        return func(*args)
    d.label('after an interrupted call')
    try:
        call(failing)
    except Interrupt:
        pass


def any_value(d, u, depth=2):
    """A model of any shape."""
    if depth > 1 and d.bool(0.006):
        return deep(d, u, 4, 12)
    kind = d.weighted((4, 'A'), (3, 'C'), (3, 'S'), (2, 'M'), (2, 'R'), (2, 'K'), (1, 'MK')) \
        if depth > 0 else 'A'
    if kind == 'A':
        return d.pick(u.values)
    if kind == 'C':
        return m.C(any_value(d, u, depth - 1), any_value(d, u, depth - 1))
    if kind == 'S':
        return plain_set(d, u, depth - 1)
    if kind == 'M':
        return plain_multiset(d, u, depth - 1)
    if kind == 'R':
        return relation(d, u)
    if kind == 'K':
        return clan(d, u)
    return multiclan(d, u)


def plain_set(d, u, depth=1, high=5, mean=2.2):
    return m.s_of(any_value(d, u.inner, depth)
                  for _ in range(d.size(0, high * u.scale, mean * u.scale)))


def plain_multiset(d, u, depth=1, high=5, mean=2.2):
    return m.m_of({any_value(d, u.inner, depth): count(d, u)
                   for _ in range(d.size(0, high * u.scale, mean * u.scale))})


def setlike(d, u):
    """A set that is often a relation, a clan or a set of clans."""
    kind = d.weighted((3, 'R'), (3, 'K'), (3, 'S'), (1, 'KK'), (1, 'E'))
    if kind == 'R':
        return relation(d, u)
    if kind == 'K':
        return clan(d, u)
    if kind == 'KK':
        return m.s_of(clan(d, u, 3, 1.5) for _ in range(d.size(0, 3, 1.5)))
    if kind == 'E':
        return m.EMPTY
    return plain_set(d, u)


def msetlike(d, u):
    kind = d.weighted((3, 'MK'), (3, 'M'), (1, 'MC'), (1, 'E'))
    if kind == 'MK':
        return multiclan(d, u)
    if kind == 'MC':
        return m.m_of({couplet(d, u): count(d, u) for _ in range(d.size(0, 4, 2))})
    if kind == 'E':
        return m.MEMPTY
    return plain_multiset(d, u)


def value(d, u):
    if d.bool(0.008):
        return deep(d, u)
    return d.weighted((1, any_value), (2, setlike), (1, msetlike))(d, u)


# Comparing ----------------------------------------------------------------------------------------

def check_equal(got, expected, what):
    """Fail unless the library object ``got`` has exactly the value ``expected``."""
    val = to_model(got, what)
    if val != expected:
        raise Fail('{}: got {}, expected {}'.format(what, m.show(val), m.show(expected)), what)
    return val


def check_bool(got, expected, what):
    """Fail unless ``got`` is the expected truth value (or Undef() for UNDEF)."""
    if expected is m.UNDEF:
        if got is not undef.Undef():
            raise Fail('{}: got {!r}, expected Undef()'.format(what, got), what)
    elif got is undef.Undef() or not isinstance(got, bool) or got != expected:
        raise Fail('{}: got {!r}, expected {!r}'.format(what, got, expected), what)


# The audit of cached knowledge --------------------------------------------------------------------

STATE = {CacheStatus.UNKNOWN: 'unknown', CacheStatus.IS: 'is', CacheStatus.IS_NOT: 'is not',
         CacheStatus.N_A: 'not applicable'}
PROPERTIES = ['functional', 'right_functional', 'reflexive', 'symmetric', 'transitive']


truth = m.truth


def _expect(obj, val, name, cached, allowed):
    if cached != CacheStatus.UNKNOWN and cached not in allowed:
        raise Fail('{} remembers about itself: {} = {}, which is wrong'.format(
            m.show(val), name, STATE.get(cached, cached)), 'flag-' + name)


def _status(flag):
    return CacheStatus.IS if flag else CacheStatus.IS_NOT


def audit(obj, val=None, deep=True):
    """Fail if anything that ``obj`` (or a part of it) has cached about itself is wrong."""
    if obj is undef.Undef():
        return
    if val is None:
        val = to_model(obj)
    kinds = (obj.is_atom, obj.is_couplet, obj.is_set, obj.is_multiset)
    if kinds != tuple(val[0] == kind for kind in 'ACSM'):
        raise Fail('{}: wrong kind {}'.format(m.show(val), kinds), 'kind')
    for name, is_member in (('relation', m.is_relation), ('clan', m.is_clan),
                            ('multiclan', m.is_multiclan), ('absolute', absolute)):
        cached = getattr(obj, 'cached_' + name)
        if cached != CacheStatus.UNKNOWN:
            _expect(obj, val, name, cached, [_status(is_member(val))])
    for name in PROPERTIES + ['regular', 'right_regular']:
        if getattr(obj, 'cached_' + name) == CacheStatus.UNKNOWN:
            continue
        expected = truth(val, name)
        allowed = [CacheStatus.N_A] if expected is m.UNDEF else [_status(expected)]
        _expect(obj, val, name, getattr(obj, 'cached_' + name), allowed)
    if deep:
        if val[0] == 'C':
            audit(obj.left)
            audit(obj.right)
        elif val[0] in 'SM':
            for elem in obj.data:
                audit(elem)


def absolute(val):
    """Whether the lowest part of the definition of val has only atoms."""
    if val[0] == 'A':
        return True
    if val[0] == 'C':
        return m.absolute_couplet(val)
    if m.is_relation(val):
        return m.absolute_relation(val)
    if m.is_clan(val):
        return m.absolute_clan(val)
    if m.is_multiclan(val):
        return m.absolute_multiclan(val)
    return all(elem[0] == 'A' for elem in m.elems(val))


# All questions that can be asked about an object, with their defined answers ----------------------

def _when(is_member, name):
    return lambda val: m.truth(val, name) if is_member(val) else m.UNDEF


def _conj(*names):
    def model(val):
        results = [m.truth(val, name) for name in names]
        return m.UNDEF if m.UNDEF in results else all(results)
    return model


def _absolute_set(val):
    return val[0] == 'S' and bool(val[1]) and all(elem[0] == 'A' for elem in val[1])


def _absolute_mset(val):
    return val[0] == 'M' and bool(val[1]) and all(elem[0] == 'A' for elem, _ in val[1])


QUESTIONS = [
    ('sets.is_member', sets.is_member, m.is_set),
    ('multisets.is_member', multisets.is_member, m.is_multiset),
    ('couplets.is_member', couplets.is_member, m.is_couplet),
    ('relations.is_member', relations.is_member, m.is_relation),
    ('clans.is_member', clans.is_member, m.is_clan),
    ('multiclans.is_member', multiclans.is_member, m.is_multiclan),
    ('couplets.is_absolute_member', couplets.is_absolute_member, m.absolute_couplet),
    ('relations.is_absolute_member', relations.is_absolute_member, m.absolute_relation),
    ('clans.is_absolute_member', clans.is_absolute_member, m.absolute_clan),
    ('multiclans.is_absolute_member', multiclans.is_absolute_member, m.absolute_multiclan),
    ('couplets.is_reflexive', couplets.is_reflexive, _when(m.is_couplet, 'reflexive')),
]
# Whether the empty (multi)set is an absolute one is left open: it is claimed by several algebras.
NON_EMPTY_QUESTIONS = [
    ('sets.is_absolute_member', sets.is_absolute_member, _absolute_set),
    ('multisets.is_absolute_member', multisets.is_absolute_member, _absolute_mset),
]
for _module, _is_member in ((relations, m.is_relation), (clans, m.is_clan),
                            (multiclans, m.is_multiclan)):
    for _name in PROPERTIES + ['regular', 'right_regular']:
        _func = getattr(_module, 'is_' + _name, None)
        if _func is not None:
            QUESTIONS.append((_module.__name__.split('.')[-1] + '.is_' + _name, _func,
                              _when(_is_member, _name)))
for _name in PROPERTIES + ['regular', 'right_regular']:
    QUESTIONS.append(('properties.is_' + _name, getattr(properties, 'is_' + _name), _conj(_name)))
QUESTIONS += [
    ('properties.is_bijective', properties.is_bijective, _conj('functional', 'right_functional')),
    ('properties.is_equivalence_relation', properties.is_equivalence_relation,
     _conj('symmetric', 'transitive', 'reflexive')),
]


def questions(val):
    if val[0] in 'SM' and val[1]:
        return QUESTIONS + NON_EMPTY_QUESTIONS
    return QUESTIONS


def ask(obj, val, question):
    """Ask one question and check the answer."""
    name, func, model = question
    got = func(obj)
    expected = model(val)
    what = '{}({})'.format(name, m.show(val))
    if name.endswith('member') and expected is False:
        # Some of these answer with a falsy CacheStatus or False.
        if got is undef.Undef() or got:
            raise Fail('{}: got {!r}, expected False'.format(what, got), name)
        return
    check_bool(got, expected, what)


# Relations, clans and multiclans of every combination of properties --------------------------------

STYLES = ['any', 'functional', 'right functional', 'both', 'diagonal', 'reflexive', 'symmetric',
          'transitive', 'same lefts', 'same rights', 'empty']


def styled_relation(d, values, style, lefts, rights):
    if style == 'empty':
        return m.EMPTY
    if style == 'same lefts':
        return m.s_of(m.C(left, d.pick(values)) for left in lefts)
    if style == 'same rights':
        return m.s_of(m.C(d.pick(values), right) for right in rights)
    pairs = [(d.pick(values), d.pick(values)) for _ in range(d.weighted((3, 1), (3, 2), (3, 3), (1, 5)))]
    if style in ('functional', 'both'):
        pairs = list({left: (left, right) for left, right in pairs}.values())
    if style in ('right functional', 'both'):
        pairs = list({right: (left, right) for left, right in pairs}.values())
    if style == 'diagonal':
        pairs = [(left, left) for left, _ in pairs]
    pairs = set(pairs)
    if style == 'reflexive':
        pairs |= {(part, part) for pair in pairs for part in pair}
    if style == 'symmetric':
        pairs |= {(right, left) for left, right in pairs}
    if style == 'transitive':
        for _ in range(3):
            pairs |= {(one[0], two[1]) for one in pairs for two in pairs if one[1] == two[0]}
    return m.s_of(m.C(left, right) for left, right in pairs)


class Style:
    """What the relations of one or several values have in common."""

    def __init__(self, d, values):
        self.name = d.pick(STYLES)
        self.lefts = d.shuffle(values)[:d.int(1, 2)]
        self.rights = d.shuffle(values)[:d.int(1, 2)]


def styled(d, values, kind, style=None):
    """A relation, clan or multiclan (or a set of clans) with a random profile of properties."""
    style = style or Style(d, values)

    def relation_():
        this = style.name if d.bool(0.85) else d.pick(STYLES)
        return styled_relation(d, values, this, style.lefts, style.rights)
    if kind == 'relation':
        return relation_()
    rels = [relation_() for _ in range(d.size(0, 3, 1.7))]
    if kind == 'clan':
        return m.s_of(rels)
    if kind == 'set of clans':
        return m.s_of(m.s_of(relation_() for _ in range(d.int(1, 2))) for _ in range(d.int(1, 3)))
    return m.m_of({rel: d.int(1, 2) for rel in rels})


def large_styled(d, kind):
    """A large relation, clan or multiclan with a profile of properties that is sometimes spoiled
    by a single couplet."""
    style = d.pick(STYLES[:-1] if kind == 'relation' else STYLES[:-1] + 4 * ['same lefts', 'same rights'])
    values = [m.A(val) for val in range(3 * (d.int(90, 350) if d.bool(0.03) else d.int(8, 40)))]
    if d.bool(0.3):
        values[d.int(0, len(values) - 1)] = m.A(d.pick([True, 1.0, '1', False]))
    lefts, rights = values[:d.int(1, 3)], values[-d.int(1, 3):]

    def long():
        # Relations over disjoint parts of the values keep the properties of the parts.
        return m.s_of(couplet_ for pos in range(0, len(values), 3)
                      for couplet_ in styled_relation(d, values[pos:pos + 3], style,
                                                      values[pos:pos + 1], values[pos:pos + 1])[1])

    def short():
        few = [d.pick(values) for _ in range(3)]
        return styled_relation(d, few, style, lefts, rights)
    if kind == 'relation':
        return spoiled(d, long()) if d.bool() else long()
    if d.bool(0.25):
        rels = [long() for _ in range(d.int(1, 3))]
    else:
        rels = [short() for _ in range(d.int(20, 90))]
    if d.bool(0.6):
        for _ in range(d.pick([1, 1, 2, len(rels) // 2])):
            pos = d.int(0, len(rels) - 1)
            rels[pos] = spoiled(d, rels[pos])
    if kind == 'clan':
        return m.s_of(rels)
    return m.m_of({rel: d.pick([1, 1, 2, 40]) for rel in rels})


def spoiled(d, rel):
    """The relation ``rel`` with one couplet more, less or different."""
    pairs = sorted(rel[1], key=m.show)
    if not pairs:
        return m.S(m.C(m.A('new'), m.A('new')))
    old = pairs.pop(d.int(0, len(pairs) - 1))
    other = d.pick(pairs) if pairs else old
    new = d.pick([m.C(old[1], other[2]), m.C(other[1], old[2]), m.C(old[2], old[1])] +
                 2 * [m.C(m.A('new'), old[2]), m.C(old[1], m.A('new'))])
    return m.s_of(pairs + d.pick([[], [old, new], [new], [new]]))


# Very large values ---------------------------------------------------------------------------------

SIZES = [260, 515, 515, 600, 1030, 1030, 2050, 4200]


class Giant:
    """Values with hundreds or thousands of members that are made from few choices."""

    def __init__(self, d, high=4200, plain=False):
        self.d, self.plain = d, plain
        self.size = d.pick([size for size in SIZES if size <= high]) + d.int(0, 5)
        self.names = [m.A(name) for name in d.shuffle(['k', 0, 'a', 7])[:d.int(1, 3)]]
        self.special = d.int(0, self.size - 1) if d.bool(0.5) else None
        self.funcs = [self.func() for _ in self.names] + [self.func(), self.func()]
        self.often = d.weighted((6, 0), (1, 300), (0.3, 70000))
        if d.bool(0.6):
            self.funcs[0] = lambda i: m.A(i)

    def func(self):
        how = self.d.weighted((3, 'index'), (2, 'text'), (2, 'few'), (2, 'mod'), (1, 'mixed'), (1, 'one'))
        few, step = self.d.int(2, 40), self.d.pick([3, 7, 31])
        size, start = self.size, self.d.pick([0, 0, 1, 1000])
        return {'index': lambda i: m.A(start + i), 'text': lambda i: m.A('v%d' % (i * step % size)),
                'few': lambda i: m.A(i * step % few), 'mod': lambda i: m.A(start + i // few),
                'mixed': lambda i: m.A([i, str(i), float(i), True if self.plain else (i,),
                                        False if self.plain else None][i % 5]),
                'one': lambda i: m.A('one')}[how]

    def indexes(self, how=None):
        """The indexes of the members: all or some of them."""
        every = range(self.size)
        if how == 'few':
            return [self.d.int(0, self.size - 1) for _ in range(self.d.int(1, 4))]
        if how == 'part':
            skip = self.d.pick([2, 3, 50, self.size])
            return [i for i in every if (i + 1) % skip]
        if how == 'more':
            return range(self.size + self.d.pick([1, 1, 100]))
        if how == 'other':
            return range(self.size, 2 * self.size)
        if how == 'shifted':
            return range(1, self.size + 1)
        return every

    def couplet(self, i):
        left, right = self.funcs[0](i), self.funcs[-1](i)
        return m.C(right, left) if i == self.special else m.C(left, right)

    def row(self, i):
        cells = [m.C(name, func(i)) for name, func in zip(self.names, self.funcs)]
        if i == self.special:
            cells = cells[1:] if i % 2 else cells + [m.C(self.names[0], m.A('special'))]
        return m.s_of(cells)

    def make(self, domain, how=None):
        some = self.indexes(how)
        if domain == 'couplet':
            return m.C(self.d.pick([m.A('new'), self.funcs[0](some[0])]), self.funcs[-1](some[-1]))
        if domain == 'function':
            return m.s_of({c[1]: c for c in map(self.couplet, some)}.values())
        if domain == 'relation':
            return m.s_of(map(self.couplet, some))
        if domain == 'clan':
            return m.s_of(map(self.row, some))
        if domain == 'multiclan':
            return self.counted(map(self.row, some))
        kind = self.size % 3
        if domain in ('set', 'mset'):
            member = [self.couplet, self.row, self.funcs[0]][kind]
            return m.s_of(map(member, some)) if domain == 'set' else self.counted(map(member, some))
        if domain in ('set of sets', 'set of msets'):
            make = m.s_of if domain == 'set of sets' else self.counted
            if kind:
                return m.s_of(make([self.couplet(i), self.couplet(i + 1)]) for i in some)
            return m.s_of(make([self.couplet(i) for i in some if i % 4 != part]) for part in range(4))
        raise ValueError(domain)

    def counted(self, members):
        counts, shift = {}, self.d.int(0, 2)
        for pos, member in enumerate(members):
            counts[member] = counts.get(member, 0) + 1 + (pos + shift) % 3
        if counts and self.often and self.d.bool(0.7):
            counts[next(iter(counts))] += self.often
        return m.m_of(counts)


# Small changes to values ---------------------------------------------------------------------------

_TWINS = {'int': (bool, float, str), 'bool': (int, float, str), 'float': (int, bool, repr),
          'str': (lambda v: v + ' ', lambda v: v.encode('utf-8', 'replace'), lambda v: (v,)),
          'NoneType': (lambda v: False, str, lambda v: ())}


def twin(d, val):
    """A value that is easily confused with ``val`` (which is an atom)."""
    return m.A(d.pick(_TWINS.get(val[1], (str, repr, lambda v: (v,))))(val[2]))


def mutate(d, val, u):
    """A value that differs from ``val`` only slightly (or, rarely, not at all)."""
    kind = val[0]
    wrap = d.weighted((12, None), (1, 'S'), (1, 'M'), (1, 'C'))
    if wrap == 'S':
        return m.S(val)
    if wrap == 'M':
        return m.m_of({val: 1})
    if wrap == 'C':
        return m.C(val, val)
    if kind == 'A':
        return twin(d, val) if d.bool() else d.pick(u.values)
    if kind == 'C':
        how = d.int(0, 2)
        if how == 0:
            return m.C(val[2], val[1])
        if how == 1:
            return m.C(mutate(d, val[1], u), val[2])
        return m.C(val[1], mutate(d, val[2], u))
    items = sorted(val[1], key=lambda e: m.show(e if kind == 'S' else e[0]))
    how = d.int(0, 4)
    if how == 4:
        # Between sets and multisets.
        return m.m_of({e: 1 for e in items}) if kind == 'S' else m.s_of(e for e, _ in items)
    if how == 0 or not items:
        extra = any_value(d, u, 1)
        if kind == 'S':
            return m.s_of(items + [extra])
        return m.m_add(val, m.m_of({extra: count(d)}))
    pos = d.int(0, len(items) - 1)
    rest = items[:pos] + items[pos + 1:]
    if how == 1:
        return (kind, frozenset(rest))
    if kind == 'S':
        return m.s_of(rest + [mutate(d, items[pos], u)])
    elem, times = items[pos]
    if how == 2:
        return m.m_of(dict(rest + [(elem, times + 1 if d.bool() or times == 1 else times - 1)]))
    return m.m_add(m.m_of(dict(rest)), m.m_of({mutate(d, elem, u): times}))


def variations(d, u, count_):
    """Several values, many of which are close to each other or equal."""
    pool = [value(d, u)]
    while len(pool) < count_:
        how = d.weighted((3, 'mutate'), (2, 'new'), (1, 'same'))
        if how == 'new':
            pool.append(value(d, u))
        elif how == 'same':
            pool.append(d.pick(pool))
        else:
            pool.append(mutate(d, d.pick(pool), u))
    return pool
