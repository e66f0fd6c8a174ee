"""C08: the operations of the algebra of multiclans."""
import algebraixlib.mathobjects as mo

from vlib import bridge as b
from vlib import model as m
from vlib import ops
from vlib.bridge import multiclans
from vlib.engine import prop


@prop(30000, 600000, ops.NONTRIVIAL)
def operations(d):
    op, models, _, _, _ = ops.operation_case(d, ops.MULTICLANS, known=known)
    ops.mark(d, op, models)


def known(op, models):
    if op.name in ('multiclans.get_lefts', 'multiclans.get_rights') and models[0] == m.MEMPTY:
        return 'KF-C08-1'
    return None


def _lefts_of_empty():
    results = [func(mo.Multiset()) for func in (multiclans.get_lefts, multiclans.get_rights)]
    return all(b.to_model(result) == m.MEMPTY for result in results)


FINDINGS = {'KF-C08-1': _lefts_of_empty}
@prop(400, 10000, ops.HUGE)
def large(d):
    op, models, _, _, _ = ops.operation_case(d, ops.MULTICLANS, huge=True, known=known)
    if ops.members(models) > 40:
        ops.mark(d, op, models)


@prop(700, 12000, ops.GIANT)
def giant(d):
    ops.giant_case(d, ops.MULTICLANS, known)


@prop(2000, 60000, ops.MULTIPLE)
def counts(d):
    ops.counts_case(d, ops.MULTICLANS, known)


TESTS = [operations, large, giant, counts]
