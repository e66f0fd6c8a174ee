"""C06: the operations of the algebras of couplets and relations."""
from vlib import ops
from vlib.engine import prop


@prop(30000, 600000, ops.NONTRIVIAL)
def operations(d):
    op, models, _, _, _ = ops.operation_case(d, ops.COUPLETS + ops.RELATIONS)
    ops.mark(d, op, models)


@prop(400, 10000, ops.HUGE)
def large(d):
    op, models, _, _, _ = ops.operation_case(d, ops.RELATIONS, huge=True)
    if ops.members(models) > 40:
        ops.mark(d, op, models)


@prop(700, 12000, ops.GIANT)
def giant(d):
    ops.giant_case(d, ops.RELATIONS)


TESTS = [operations, large, giant]
