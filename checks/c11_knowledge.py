"""C11: what objects remember about themselves is never wrong, after any history of operations."""
import itertools

from vlib import bridge as b
from vlib import model as m
from vlib import ops
from vlib.engine import Fail, Reject, prop
from vlib.history import HISTORY, KNOWN, operand


def history(d, u, pool, high, mean):
    applied = []
    for _ in d.steps(high, mean):
        if pool and d.bool(0.25):
            obj, val = d.pick(pool)
            d.note('ask ' + m.show(val))
            for question in d.shuffle(b.questions(val))[:d.int(1, 4)]:
                b.ask(obj, val, question)
            b.audit(obj, val)
            continue
        op = d.pick(HISTORY)
        items = [operand(d, u, pool, domain) for domain in op.domains]
        models = [val for _, val in items]
        d.note('{}({})'.format(op.name, ', '.join(m.show(val) for val in models)))
        if op.name in KNOWN and models[0] == m.MEMPTY:
            d.exclude('KF-C08-1')
            continue
        got = op.func(*[obj for obj, _ in items])
        op.check(got, models, op.name)
        for obj, val in items:
            b.audit(obj, val)
        applied.append(op.name)
        if op.kind != 'bool':
            val = b.to_model(got)
            if val is not m.UNDEF:
                b.audit(got, val)
                pool.append((got, val))
    return applied


@prop(5000, 200000, 'a case is a history of at least three operations on a growing pool of objects '
      '(with questions in between); after each one everything the participating objects remember '
      'about themselves is compared with the definitions; distinct by final pool')
def histories(d):
    u = b.Universe(d)
    pool = []
    applied = history(d, u, pool, 25, 8)
    for obj, val in pool:
        b.audit(obj, val)
    # Ask again at the end: the answers must not depend on what was remembered on the way.
    for obj, val in pool:
        if d.bool(0.5):
            for question in b.questions(val):
                b.ask(obj, val, question)
    if len(applied) >= 3:
        d.nontrivial(applied, [m.show(val) for _, val in pool])


@prop(6000, 200000, 'a case is one operation on operands about which everything (or something) has '
      'been found out before; the result is audited and then asked everything; distinct by '
      'operation and operands')
def single(d):
    op, models, objs, got, _ = ops.operation_case(
        d, HISTORY, warm=0.9, huge=d.bool(0.01), known=lambda op, models: 'KF-C08-1'
        if op.name in KNOWN and models[0] == m.MEMPTY else None)
    for obj in objs:
        b.audit(obj)
    if op.kind != 'bool':
        val = b.to_model(got)
        if val is not m.UNDEF:
            b.audit(got, val)
            for question in b.questions(val):
                b.ask(got, val, question)
            b.audit(got, val)
    ops.mark(d, op, models)


@prop(150, 4000, 'a case is one operation on operands with hundreds of members about which something '
      'has been asked before; the result and the operands are audited; distinct by operation and '
      'operands')
def giant(d):
    op, models, objs, got = ops.giant_case(
        d, [op for op in HISTORY if op.name not in KNOWN and op.name.split('.')[0] in ALGEBRAS], high=600)
    for obj, val in zip(objs, models):
        b.audit(obj, val)
    if op.kind != 'bool':
        val = b.to_model(got)
        if val is not m.UNDEF:
            b.audit(got, val)


ALGEBRAS = ('sets', 'multisets', 'relations', 'clans', 'multiclans')
STYLED = ('relation', 'clan', 'multiclan')
DERIVING = [op for op in HISTORY if op.kind == 'value' and not op.name.startswith('Multiset(rel')
            and op.domains[0] in STYLED + ('set', 'mset', 'smallset')]
VALUES = [m.A(0), m.A(1), m.A(2)]


def profile(d, domain, values, style):
    """A value with a random profile of properties for the domain or None."""
    if domain in STYLED:
        return b.styled(d, values, domain, style)
    if domain in ('set', 'smallset'):
        return b.styled(d, values, d.pick(['relation', 'clan', 'clan', 'set of clans']), style)
    if domain == 'mset':
        return b.styled(d, values, 'multiclan', style)
    return None


def derive(d, op, models, chances):
    """Apply ``op`` to new objects of which questions were asked with the probability in ``chances``."""
    objs = []
    for val, chance in zip(models, chances):
        obj = b.build(val)
        for question in b.questions(val) if chance else ():
            if chance == 1 or d.bool(chance):
                question[1](obj)
        if val[0] in 'SM' and d.bool(0.2):
            for elem, elem_val in zip(obj.data, [b.to_model(elem) for elem in obj.data]):
                for question in b.questions(elem_val):
                    question[1](elem)
        objs.append(obj)
    if len(models) == 2 and models[0] == models[1] and d.bool(0.3):
        objs[1] = objs[0]
    got = op.func(*objs)
    for obj, val in zip(objs, models):
        b.audit(obj, val)
    return got


@prop(20000, 1500000, 'a case is one operation that derives knowledge about its result, applied to '
      'small relations, clans or multiclans with random combinations of properties, of which '
      'everything, some or nothing has been asked before (and of one of two operands everything, of '
      'the other one nothing); the results and the operands are audited; distinct by operation and '
      'operands')
def deriving(d):
    op = d.pick(DERIVING)
    if len(op.domains) < 2 and d.bool(0.5):
        op = d.pick(DERIVING)
    u = None
    models = []
    values = d.weighted((4, VALUES), (4, VALUES[:2]), (1, VALUES + [m.A(3)]))
    style = b.Style(d, values) if d.bool(0.5) else None
    other = d.int(0, 1) if d.bool(0.15) else None
    for index, domain in enumerate(op.domains):
        # Components that are not only atoms are often in one operand only.
        val = profile(d, domain, values, style) if index != other else \
            profile(d, domain, VALUES[:2] + [m.S(m.A(0))], None)
        if val is None:
            if domain == 'any':
                val = d.pick(VALUES)
            else:
                u = u or b.Universe(d)
                val = ops.DOMAINS[domain][1](d, u)
        models.append(val)
    if len(models) == 2 and models[0][0] == models[1][0] and models[0][0] in 'SM':
        how = d.weighted((5, None), (1, 'part'), (1, 'more'), (1, 'same'))
        if how == 'part':
            models[1] = (models[0][0], frozenset(
                e for e in sorted(models[0][1], key=repr) if d.bool(0.6)))
        elif how == 'more':
            models[1] = m.union(models[0], models[1]) if models[0][0] == 'S' \
                else m.m_add(models[0], models[1])
        elif how == 'same':
            models[1] = models[0]
    if not all(ops.DOMAINS[domain][0](val) for domain, val in zip(op.domains, models)) \
            or op.name in KNOWN and models[0] == m.MEMPTY:
        raise Reject()
    d.note('{}({})'.format(op.name, ', '.join(m.show(val) for val in models)))
    d.label(op.name)
    chances = [1] * len(models) if d.bool(0.6) else [d.pick([0, 0.2, 0.6, 1]) for _ in models]
    for chances in [chances, (1, 0, 0)] + [(0, 1, 0)] * (len(models) > 1):
        got = derive(d, op, models, chances)
        op.check(got, models, op.name)
        val = b.to_model(got)
        if val is m.UNDEF:
            break
        b.audit(got, val)
        if val[0] in 'SM' and d.bool(0.1):
            for question in b.questions(val):
                b.ask(got, val, question)
    ops.mark(d, op, models)


KINDS = {'relation': ('relation', 'set'), 'clan': ('clan', 'set'), 'multiclan': ('multiclan', 'mset'),
         'set of clans': ('set', 'set of sets')}


@prop(2500, 80000, 'a case is a pool of small relations, clans, multiclans or sets of clans with random '
      'combinations of properties, most of which were asked everything before, and every deriving '
      'operation applied to every one or every pair of them; each result is audited; distinct by pool')
def matrix(d):
    kind = d.pick(['relation', 'clan', 'clan', 'multiclan', 'multiclan', 'set of clans'])
    values = d.weighted((3, VALUES), (3, VALUES[:2]), (1, VALUES + [m.A(3)]))
    style = b.Style(d, values)
    models, objs = [], []
    for _ in range(d.int(3, 5)):
        plain = d.bool(0.85)
        val = b.styled(d, values if plain else VALUES[:2] + [m.S(m.A(0))], kind,
                       style if d.bool(0.6) else None)
        obj = b.build(val)
        chance = 1 if d.bool(0.8) else 0.5
        for question in b.questions(val):
            if chance == 1 or d.bool(chance):
                question[1](obj)
        models.append(val)
        objs.append(obj)
    d.note(kind, ', '.join(m.show(val) for val in models))
    d.label(kind)
    for op in DERIVING:
        if not set(op.domains) <= set(KINDS[kind]):
            continue
        for operands in itertools.product(range(len(objs)), repeat=len(op.domains)):
            if op.name in KNOWN and models[operands[0]] == m.MEMPTY or not all(
                    ops.DOMAINS[domain][0](models[i]) for i, domain in zip(operands, op.domains)):
                continue
            got = op.func(*[objs[i] for i in operands])
            val = b.to_model(got)
            if val is m.UNDEF:
                continue
            try:
                b.audit(got, val)
            except Fail as fail:
                raise Fail('{}({}): {}'.format(op.name, ', '.join(
                    m.show(models[i]) for i in operands), fail), fail.tag)
    for obj, val in zip(objs, models):
        b.audit(obj, val)
    if sum(bool(val[1]) for val in models) > 1:
        d.nontrivial(kind, sorted(m.show(val) for val in models))


FINDINGS = {}
TESTS = [histories, single, giant, deriving, matrix]
