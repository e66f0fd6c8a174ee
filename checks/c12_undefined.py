"""C12: operations are undefined exactly outside their domain; undefined propagates; raise levels."""
import algebraixlib.undef as undef
from algebraixlib.algebras import clans, couplets, multiclans, multisets, properties, relations, sets

from vlib import bridge as b
from vlib import model as m
from vlib import ops
from vlib.engine import Fail, Reject, prop
from vlib.history import MORE

ASSUMPTIONS = ['A left of Undef() that is passed to get_rights_for_left gives an empty set instead of '
               'Undef(), as the existing tests require.']
EXTEND = [op for op in MORE if op.name.startswith('extension.')]
OPS = [op for op in ops.ALL if not op.name.startswith('clans.from_set')] + EXTEND
# A relation is out of the domain of functional_add if it isn't a function.
OUTSIDE = [op for op in OPS if op.name != 'relations.functional_add(any)']
# Every domain's operands that are definitely outside of it, whatever the operation.
DOMAINS = {'smallset': 'set', 'function': 'relation'}


def outside(op, index, val):
    domain = op.domains[index]
    if op.algebra == 'extension':
        return val[0] not in 'SM' if 'multi' in op.name else val[0] != 'S'
    if domain == 'any':
        return False
    return not ops.DOMAINS[DOMAINS.get(domain, domain)][0](val)


def undef_allowed(op, index):
    if op.name.endswith('get_rights_for_left') and index == 1:
        return False
    return not (op.name.split('(')[0].endswith('.project') and index > 0)


def outcome(func, *args, **kwargs):
    try:
        return func(*args, **kwargs)
    except undef.UndefException:
        return 'raised'


@prop(8000, 300000, 'a case is an operation with at least one operand that is Undef() or not a '
      'member of the algebra, at a random raise level; distinct by operation, operands and level')
def outside_domain(d):
    op = d.pick(OUTSIDE)
    u = b.universe(d, 0.2, huge=0.004)
    models = op.generate(d, u)
    wrong, missing = [], []
    for index in d.shuffle(range(len(models)))[:d.int(1, len(models))]:
        if undef_allowed(op, index) and d.bool(0.45):
            models[index] = m.UNDEF
            missing.append(index)
            continue
        for _ in range(4):
            val = b.value(d, u) if d.bool(0.6) else b.mutate(d, models[index], u)
            if outside(op, index, val):
                models[index] = val
                wrong.append(index)
                break
    if not wrong and not missing:
        raise Reject()
    objs = [b.build(val) if val is m.UNDEF else b.build_via(d, val, 0.3) for val in models]
    level = d.int(0, 3)
    call = '{}({}) at raise level {}'.format(op.name, ', '.join(m.show(v) for v in models), level)
    d.note(call)
    d.label(op.name)
    undef.RaiseOnUndef.set_level(level)
    got = outcome(op.func, *objs)
    undef.RaiseOnUndef.reset()
    if undef.RaiseOnUndef.get_level() != 0:
        raise Fail('the raise level after a reset is not 0', 'reset')
    if got != 'raised' if isinstance(got, str) else got is not undef.Undef():
        raise Fail('{}: got {!r}, expected Undef()'.format(call, got), op.name)
    raised = isinstance(got, str)
    if raised and level == 0 or not raised and level >= 2 \
            or level == 1 and raised and not wrong or level == 1 and not raised and not missing:
        raise Fail('{}: {}'.format(
            call, 'raised UndefException' if raised else 'returned Undef()'), 'level')
    if op.unchecked and not wrong:
        d.label('unchecked')
        undef.RaiseOnUndef.set_level(level)
        got = outcome(op.func, *objs, _checked=False)
        undef.RaiseOnUndef.reset()
        if (got != 'raised' if level >= 2 else got is not undef.Undef()):
            raise Fail('{} without checks: got {!r}'.format(call, got), op.name)
    d.label('undef operand', bool(missing))
    d.label('wrong operand', bool(wrong))
    d.nontrivial(call)


@prop(6000, 250000, 'a case is an operation with valid operands at a raise level above 0; distinct '
      'by operation, operands and level')
def levels(d):
    op = d.pick(OPS)
    u = b.universe(d, 0.2, huge=0.004)
    models = op.generate(d, u)
    if op.name in ('multiclans.get_lefts', 'multiclans.get_rights') and models[0] == m.MEMPTY:
        d.exclude('KF-C08-1')
        raise Reject()
    objs = [b.build_via(d, val, 0.3) for val in models]
    level = d.int(1, 3)
    expected = op.expected(models)
    call = '{}({}) at raise level {}'.format(op.name, ', '.join(m.show(v) for v in models), level)
    d.note(call)
    undef.RaiseOnUndef.set_level(level)
    if undef.RaiseOnUndef.get_level() != level:
        raise Fail('set_level({}): {}'.format(level, undef.RaiseOnUndef.get_level()), 'set')
    got = outcome(op.func, *objs)
    undef.RaiseOnUndef.reset()
    check_level(op, models, got, expected, level, call)
    d.label('undefined', expected is m.UNDEF)
    d.nontrivial(call)


@prop(1500, 60000, 'a case is a history of up to 10 steps that set the raise level up and down, reset it, '
      'and use the same operations on the same objects again; non-trivial: at least two levels '
      'and an undefined result; distinct by history')
def sequences(d):
    u = b.universe(d, 0.2, huge=0.001)
    calls = []
    for _ in range(d.int(1, 3)):
        op = d.pick(OPS)
        models = op.generate(d, u)
        if not (op.name in ('multiclans.get_lefts', 'multiclans.get_rights')
                and models[0] == m.MEMPTY):
            if d.bool(0.3) and undef_allowed(op, 0) and op in OUTSIDE:
                val = b.value(d, u)
                if outside(op, 0, val):
                    models[0] = val
            calls.append((op, models, [b.build_via(d, val, 0.3) for val in models],
                          outside(op, 0, models[0])))
    level, levels_, undefined = 0, set(), False
    history = []
    try:
        for _ in range(d.int(3, 10)):
            what = d.weighted((2, 'level'), (1, 'reset'), (4, 'call'))
            if what == 'level':
                level = d.int(0, 3)
                undef.RaiseOnUndef.set_level(level)
                history.append('level {}'.format(level))
            elif what == 'reset':
                level = 0
                undef.RaiseOnUndef.reset()
                history.append('reset')
            elif calls:
                op, models, objs, wrong = d.pick(calls)
                call = '{}({})'.format(op.name, ', '.join(m.show(v) for v in models))
                history.append(call)
                d.note(history[-1])
                got = outcome(op.func, *objs)
                expected = m.UNDEF if wrong else op.expected(models)
                undefined |= expected is m.UNDEF
                if wrong and level == 1 and got != 'raised' and not isinstance(got, str):
                    raise Fail('{} at level 1: not raised'.format(call), 'level')
                levels_.add(level)
                check_level(op, models, got, expected, level, ' / '.join(history))
            if undef.RaiseOnUndef.get_level() != level:
                raise Fail('{}: the level is {}'.format(
                    history, undef.RaiseOnUndef.get_level()), 'level')
    finally:
        undef.RaiseOnUndef.reset()
    if len(levels_) > 1 and undefined:
        d.nontrivial(history)


def check_level(op, models, got, expected, level, call):
    if isinstance(got, str):
        if level == 0:
            raise Fail('{}: raised at level 0'.format(call), 'level')
        # From level 2 on, undefined results on the way raise, too.
        if expected is not m.UNDEF and level < 2:
            raise Fail('{}: raised UndefException, but the result is defined: {}'.format(
                call, expected if op.kind != 'value' else m.show(expected)), 'level')
    else:
        if expected is m.UNDEF:
            if got is not undef.Undef():
                raise Fail('{}: got {!r}, expected Undef()'.format(call, got), op.name)
        else:
            op.check(got, models, call)
        if expected is m.UNDEF and level >= 2:
            raise Fail('{}: did not raise an exception'.format(call), 'level')


@prop(500, 20000, 'a case is the rights of a left Undef() in a relation or multiclan (none: an empty '
      'result), at a random raise level; distinct by operand and level')
def rights_of_nothing(d):
    u = b.universe(d, 0.2, huge=0.004)
    level = d.int(0, 3)
    if d.bool():
        func, val = relations.get_rights_for_left, b.relation(d, u)
    else:
        func, val = multiclans.get_rights_for_left, b.multiclan(d, u)
    obj = b.build_via(d, val, 0.3)
    call = '{}.get_rights_for_left({}, Undef()) at raise level {}'.format(
        func.__module__.split('.')[-1], m.show(val), level)
    d.note(call)
    undef.RaiseOnUndef.set_level(level)
    results = [outcome(func, obj, undef.Undef()),
               outcome(func, obj, undef.Undef(), _checked=False)]
    undef.RaiseOnUndef.reset()
    for got in results:
        if isinstance(got, str) or got is undef.Undef() or b.to_model(got) not in (
                m.EMPTY, m.MEMPTY):
            raise Fail('{}: got {!r}'.format(call, got), 'rights of nothing')
    d.nontrivial(call)


@prop(3000, 100000, 'a case is a chain of operations where each one gets the result of the one '
      'before, the first being undefined; distinct by chain')
def propagation(d):
    u = b.universe(d, 0.2, huge=0.004)
    chain = []
    current = undef.Undef()
    for _ in range(d.int(1, 5)):
        op = d.pick(OPS)
        models = op.generate(d, u)
        objs = [b.build_via(d, val) for val in models]
        index = d.int(0, len(objs) - 1)
        if not undef_allowed(op, index):
            index = 0
        objs[index] = current
        checked = not op.unchecked or d.bool()
        current = op.func(*objs) if checked else op.func(*objs, _checked=False)
        chain.append('{}({}, {}){}'.format(
            op.name, index, ', '.join(m.show(v) for v in models), '' if checked else ' unchecked'))
        d.note(chain[-1])
        if current is not undef.Undef():
            raise Fail('{} with an operand Undef(): got {!r}'.format(op.name, current), op.name)
    d.nontrivial(chain)


PREDICATES = ['functional', 'right_functional', 'reflexive', 'symmetric', 'transitive', 'regular',
              'right_regular', 'bijective', 'equivalence_relation']
ALGEBRAS = [couplets, sets, multisets, relations, clans, multiclans]


@prop(2000, 60000, 'a case is a question about Undef() or about something that is not a MathObject, '
      'at a random raise level; distinct by question, operand and level')
def predicates(d):
    level = d.int(0, 3)
    module = d.pick([properties] * 3 + ALGEBRAS)
    name = 'is_' + d.pick(PREDICATES)
    operand = undef.Undef()
    if module is properties and d.bool(0.6):
        operand = d.pick([0, 1, '', 'ab', None, (), [1], {2: 3}, 1.5, True, frozenset(), object])
    elif module is not properties and (d.bool(0.3) or not hasattr(module, name)):
        name = d.pick(['is_member', 'is_member_or_undef', 'is_absolute_member'])
    call = '{}.{}({!r}) at raise level {}'.format(
        module.__name__.split('.')[-1], name, operand, level)
    d.note(call)
    undef.RaiseOnUndef.set_level(level)
    got = outcome(getattr(module, name), operand)
    undef.RaiseOnUndef.reset()
    if 'member' in name:
        good = bool(got) == (name == 'is_member_or_undef') if got is not undef.Undef() else False
    elif level == 1 and operand is undef.Undef() and module is properties:
        good = isinstance(got, str) or got is undef.Undef()
    elif level >= (2 if operand is undef.Undef() else 1):
        good = got == 'raised' if isinstance(got, str) else False
    else:
        good = got is undef.Undef()
    if not good:
        raise Fail('{}: got {!r}'.format(call, got), name)
    d.label(name)
    d.nontrivial(call)


@prop(800, 20000, 'a case is a use of Undef() itself as a value (which is refused); distinct by use')
def not_a_value(d):
    import algebraixlib.mathobjects as mo
    u = b.universe(d, 0.2, huge=0.004)
    obj = b.build(b.value(d, u))
    nothing = undef.Undef()
    uses = {
        'Undef() == x': lambda: nothing == obj, 'Undef() != x': lambda: nothing != obj,
        'bool': lambda: bool(nothing), 'Undef() == Undef()': lambda: nothing == undef.Undef(),
        'Set(Undef())': lambda: mo.Set(nothing), 'Set([x, Undef()])': lambda: mo.Set([obj, nothing]),
        'Multiset(Undef())': lambda: mo.Multiset([nothing]),
        'Couplet(x, Undef())': lambda: mo.Couplet(obj, nothing),
        'Couplet(Undef(), x)': lambda: mo.Couplet(nothing, obj),
        'Atom(Undef())': lambda: mo.Atom(nothing),
        'hash': lambda: hash(nothing), 'in a set': lambda: {nothing}}
    use = d.pick(sorted(uses))
    d.note(use, obj)
    try:
        got = uses[use]()
    except (TypeError, AssertionError):
        pass
    else:
        raise Fail('{} is accepted: {!r}'.format(use, got), use)
    for flag in (name for name in dir(nothing) if name.startswith(('cached_is_', 'is_'))):
        # It is no member of any algebra, and no property applies.
        known = flag[len('cached_is_not_'):] in ('relation', 'clan', 'multiclan', 'absolute') \
            and flag.startswith('cached_is_not_')
        if getattr(nothing, flag) is not known:
            raise Fail('Undef().{}: {!r}'.format(flag, getattr(nothing, flag)), flag)
    if (repr(nothing), str(nothing)) != ('Undef()', 'undef'):
        raise Fail('Undef() is shown as {!r}'.format(nothing), 'repr')
    if type(nothing)() is not undef.Undef() or undef.make_or_raise_undef() is not nothing:
        raise Fail('there is more than one Undef()', 'singleton')
    d.nontrivial(use, repr(obj))


TESTS = [outside_domain, levels, sequences, rights_of_nothing, propagation, predicates, not_a_value]
