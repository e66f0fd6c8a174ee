"""C07: the operations of the algebra of clans."""
from vlib import ops
from vlib.engine import prop


@prop(30000, 600000, ops.NONTRIVIAL)
def operations(d):
    op, models, _, _, _ = ops.operation_case(d, ops.CLANS)
    ops.mark(d, op, models)


@prop(400, 10000, ops.HUGE)
def large(d):
    op, models, _, _, _ = ops.operation_case(d, ops.CLANS, huge=True)
    if ops.members(models) > 40:
        ops.mark(d, op, models)


@prop(700, 12000, ops.GIANT)
def giant(d):
    ops.giant_case(d, ops.CLANS)


TESTS = [operations, large, giant]
