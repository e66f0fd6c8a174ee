"""C15: extending an operation to sets and multisets applies it to every (pair of) element(s)."""
import algebraixlib.extension as extension
import algebraixlib.mathobjects as mo
import algebraixlib.undef as undef

from vlib import bridge as b
from vlib import model as m
from vlib.engine import Fail, prop

# Operations on single elements: name -> (function on objects, function on models)


def _size(x):
    return len(x.data) if x.is_set or x.is_multiset else 1


def _m_size(x):
    return len(x[1]) if x[0] in 'SM' else 1


UNARY = {
    'identity': (lambda x: x, lambda x: x),
    'constant': (lambda x: mo.Atom('c'), lambda x: m.A('c')),
    'singleton': (lambda x: mo.Set([x]), m.S),
    'size': (lambda x: mo.Atom(_size(x)), lambda x: m.A(_m_size(x))),
    'only couplets': (lambda x: x if x.is_couplet else undef.Undef(),
                      lambda x: x if x[0] == 'C' else m.UNDEF),
    'left': (lambda x: x.left if x.is_couplet else undef.Undef(),
             lambda x: x[1] if x[0] == 'C' else m.UNDEF),
    'empty or undefined': (lambda x: mo.Set() if x.is_set else undef.Undef(),
                           lambda x: m.EMPTY if x[0] == 'S' else m.UNDEF),
    'nothing': (lambda x: undef.Undef(), lambda x: m.UNDEF),
    'diagonal couplet': (lambda x: mo.Couplet(x, x), lambda x: m.C(x, x)),
    # Extensions of extensions.
    'extended': (
        lambda x: extension.unary_extend(x, lambda y: mo.Couplet(y, 'c')) if x.is_set else
        extension.unary_multi_extend(x, lambda y: mo.Couplet(y, 'c')),
        lambda x: m.unary_extend(x, lambda y: m.C(y, m.A('c'))) if x[0] == 'S' else
        m.unary_multi_extend(x, lambda y: m.C(y, m.A('c'))) if x[0] == 'M' else m.UNDEF),
    'squared': (
        lambda x: extension.binary_extend(x, x, mo.Couplet) if x.is_set else
        extension.binary_multi_extend(x, x, mo.Couplet),
        lambda x: m.binary_extend(x, x, m.C) if x[0] == 'S' else
        m.binary_multi_extend(x, x, m.C) if x[0] == 'M' else m.UNDEF),
}
BINARY = {
    'left projection': (lambda x, y: x, lambda x, y: x),
    'right projection': (lambda x, y: y, lambda x, y: y),
    'couplet': (mo.Couplet, m.C),
    'constant': (lambda x, y: mo.Atom('c'), lambda x, y: m.A('c')),
    'pair set': (lambda x, y: mo.Set([x, y]), m.S),
    'equal only': (lambda x, y: x if x == y else undef.Undef(),
                   lambda x, y: x if x == y else m.UNDEF),
    'different only': (lambda x, y: mo.Couplet(x, y) if x != y else undef.Undef(),
                       lambda x, y: m.C(x, y) if x != y else m.UNDEF),
    'sizes': (lambda x, y: mo.Atom(_size(x) - _size(y)), lambda x, y: m.A(_m_size(x) - _m_size(y))),
    'nothing': (lambda x, y: undef.Undef(), lambda x, y: m.UNDEF),
    'extended': (
        lambda x, y: extension.binary_extend(x, y, mo.Couplet) if x.is_set else
        extension.binary_multi_extend(x, y, mo.Couplet),
        lambda x, y: m.UNDEF if x[0] not in 'SM' or x[0] != y[0] else
        m.binary_extend(x, y, m.C) if x[0] == 'S' else m.binary_multi_extend(x, y, m.C)),
    'one of each': (
        lambda x, y: extension.binary_multi_extend(
            mo.Multiset({x: 2}), mo.Multiset({y: 3}), mo.Couplet),
        lambda x, y: m.m_of({m.C(x, y): 6})),
}


def meanwhile():
    """Other extensions, of every kind."""
    few, many = mo.Set('x', 'y'), mo.Multiset({'x': 2, 'y': 3})
    return [extension.unary_extend(few, lambda x: mo.Couplet(x, x)),
            extension.unary_multi_extend(many, lambda x: mo.Couplet(x, x)),
            extension.binary_extend(few, few, mo.Couplet),
            extension.binary_multi_extend(many, many, mo.Couplet)]


def counted(func, calls):
    def wrapped(*args):
        calls.append(args)
        return func(*args)
    return wrapped


@prop(14000, 400000, 'a case is an extension (unary/binary, to sets/multisets) of a total, partial, '
      'injective or constant operation, or of several of them one after the other, applied to operands '
      'of any content; non-trivial: operands '
      'not empty; distinct by operation and operands')
def extensions(d):
    u = b.universe(d, 0.25, huge=0.004)
    kind = d.pick(['unary_extend', 'unary_multi_extend', 'unary_multi_extend of a set',
                   'binary_extend', 'binary_multi_extend'])
    make = b.setlike if kind in ('unary_extend', 'binary_extend') or kind.endswith('set') \
        else b.msetlike
    table = BINARY if kind.startswith('binary') else UNARY
    vals = [make(d, u) for _ in range(2 if table is BINARY else 1)]
    if d.bool(0.006):
        g = b.Giant(d)
        vals[0] = g.make('set' if make is b.setlike else 'mset')
        if len(vals) == 2:
            vals[1] = g.make('set' if make is b.setlike else 'mset', 'few')
            vals = d.shuffle(vals)
    same = len(vals) == 2 and max(len(val[1]) for val in vals) < 200 and d.bool(0.35)
    if same:
        # An operand together with itself (or with an equal one).
        vals[1] = vals[0]
    objs = [b.build_via(d, val, 0.3) for val in vals]
    if same and d.bool(0.7):
        objs[1] = objs[0]
    d.label('operand with itself', same)
    # Often, several operations one after the other.
    for _ in range(d.weighted((3, 1), (1, 2), (1, 3))):
        one_extension(d, kind, table, vals, objs)


def one_extension(d, kind, table, vals, objs):
    name = d.pick(sorted(table))
    func, model = table[name]
    what = '{}({}, {})'.format(kind, name, ', '.join(m.show(val) for val in vals))
    d.note(what)
    d.label(kind)
    calls = []
    lib = getattr(extension, kind.split()[0])
    if kind == 'unary_extend':
        expected = m.unary_extend(vals[0], model)
    elif kind == 'unary_multi_extend':
        expected = m.unary_multi_extend(vals[0], model)
    elif kind == 'unary_multi_extend of a set':
        expected = m.unary_multi_extend(m.m_of({e: 1 for e in vals[0][1]}), model)
    elif kind == 'binary_extend':
        expected = m.binary_extend(vals[0], vals[1], model)
    else:
        expected = m.binary_multi_extend(vals[0], vals[1], model)
    if d.bool(0.3):
        # An operation that itself uses extensions.
        func = b.busy(d, func, meanwhile)
        d.label('extensions meanwhile')
    if d.bool(0.1):
        b.interrupted(d, func, lambda failing: lib(*objs, failing))
    got = lib(*objs, counted(func, calls))
    b.check_equal(got, expected, what)
    b.audit(got)
    b.check_equal(lib(*objs, func, _checked=False), expected, what + ' unchecked')
    # Every element (or pair) must have been seen.
    seen = {tuple(b.to_model(arg) for arg in args) for args in calls}
    if len(vals) == 1:
        wanted = {(x,) for x in m.elems(vals[0])}
    else:
        wanted = {(x, y) for x in m.elems(vals[0]) for y in m.elems(vals[1])}
    if seen != wanted:
        raise Fail('{}: the operation was applied to {}'.format(what, seen), 'seen')
    for obj, val in zip(objs, vals):
        b.check_equal(obj, val, 'operand of ' + what)
    if all(val[1] for val in vals):
        d.nontrivial(what)


TESTS = [extensions]
