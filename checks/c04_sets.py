"""C04: the operations of the algebra of sets are the textbook operations."""
from vlib import bridge as b
from vlib import model as m
from vlib import ops
from vlib.bridge import sets
from vlib.engine import prop


@prop(30000, 600000, ops.NONTRIVIAL)
def operations(d):
    op, models, _, _, _ = ops.operation_case(d, ops.SETS)
    ops.mark(d, op, models)


SELECTORS = {
    'atom': (lambda o: o.is_atom, lambda v: v[0] == 'A'),
    'couplet': (lambda o: o.is_couplet, lambda v: v[0] == 'C'),
    'set': (lambda o: o.is_set, lambda v: v[0] == 'S'),
    'all': (lambda o: True, lambda v: True),
    'none': (lambda o: False, lambda v: False),
    'not empty': (lambda o: not (o.is_set and o.is_empty), lambda v: v != m.EMPTY),
}


@prop(5000, 100000, 'a case restricts a set that has both elements for which the predicate is true '
      'and elements for which it is false; distinct by predicate and set')
def restriction(d):
    u = b.universe(d, huge=0.01)
    val = b.setlike(d, u)
    name = d.pick(sorted(SELECTORS) + ['member'])
    if name == 'member':
        keep = frozenset(elem for elem in sorted(val[1], key=m.show) if d.bool())
        selector, on_model = (lambda o: b.to_model(o) in keep), (lambda v: v in keep)
    else:
        selector, on_model = SELECTORS[name]
    if d.bool(0.25):
        # Answers that are true or false but not `True` or `False`.
        yes, no = d.pick(['yes', 2, [0], 0.5, {0}]), d.pick(['', 0, [], None, 0.0])
        plain = selector
        selector = (lambda o: yes if plain(o) else no)
        d.label('answers that are no truth values')
    if d.bool(0.2):
        # A predicate that itself restricts.
        selector = b.busy(d, selector, lambda: sets.restrict(
            b.build(m.S(m.A('x'), m.EMPTY)), lambda o: o.is_atom))
        d.label('restrictions meanwhile')
    obj = b.build_via(d, val, 0.3)
    expected = m.s_of(elem for elem in val[1] if on_model(elem))
    d.note('restrict({}) by {} -> {}'.format(m.show(val), name, m.show(expected)))
    if d.bool(0.1):
        b.interrupted(d, selector, lambda failing: sets.restrict(obj, failing))
    b.check_equal(sets.restrict(obj, selector), expected, 'sets.restrict')
    # The same relation expressed with other operations.
    rest = sets.restrict(obj, lambda o: not selector(o))
    b.check_equal(sets.union(sets.restrict(obj, selector), rest), val, 'restrict, union')
    b.check_equal(sets.minus(obj, rest), expected, 'restrict, minus')
    if expected[1] and expected != val:
        d.nontrivial(name, m.show(val), m.show(expected))


@prop(400, 10000, ops.HUGE)
def large(d):
    op, models, _, _, _ = ops.operation_case(d, ops.SETS, huge=True)
    if ops.members(models) > 40:
        ops.mark(d, op, models)


@prop(700, 12000, ops.GIANT)
def giant(d):
    ops.giant_case(d, ops.SETS)


TESTS = [operations, large, giant, restriction]
