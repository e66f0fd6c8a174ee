"""C03: math objects never change: not by operations, not through the data they were made from."""
import collections
import copy
import json

import algebraixlib.algebras.clans as clans
import algebraixlib.algebras.relations as relations
import algebraixlib.mathobjects as mo
import algebraixlib.undef as undef
import algebraixlib.util.latexprinter as latexprinter
import algebraixlib.util.mathobjectprinter as mathobjectprinter
from algebraixlib.import_export.mojson import ExportJson

from vlib import bridge as b
from vlib import model as m
from vlib import ops
from vlib.engine import Fail, Reject, prop
from vlib.history import HISTORY, KNOWN, operand

READ_ONLY = ['value', 'left', 'right', 'data', 'type', 'cardinality', 'is_empty', 'is_set',
             'is_atom', 'is_couplet', 'is_multiset']


def _export(obj):
    json.dumps(obj, cls=ExportJson)


LOOK = [repr, str, hash, copy.copy, copy.deepcopy, lambda x: x.get_ground_set(),
        lambda x: x.get_left_set(), lambda x: x.get_right_set(),
        mathobjectprinter.mo_to_str, latexprinter.math_object_to_latex, _export,
        lambda x: sorted(x.data) if x.is_set or x.is_multiset else None,
        lambda x: list(x) if x.is_set or x.is_multiset else None]


ALGEBRAS = {}
for _operation in HISTORY:
    ALGEBRAS.setdefault(_operation.algebra if '.' in _operation.name else 'other', []).append(_operation)


class Snapshot:
    """Everything about an object that can be observed and must stay the same."""

    def __init__(self, obj, val):
        self.obj, self.val = obj, val
        self.hash, self.repr = hash(obj), repr(obj)

    def check(self, what):
        val = b.to_model(self.obj, 'operand')
        if val != self.val:
            raise Fail('{} changed {} into {}'.format(what, m.show(self.val), m.show(val)), 'value')
        if hash(self.obj) != self.hash:
            raise Fail('{} changed the hash of {}'.format(what, m.show(val)), 'hash')
        if repr(self.obj) != self.repr:
            raise Fail('{} changed the text of {}'.format(what, m.show(val)), 'text')


@prop(2000, 100000, 'a case is a history of operations and read accesses on a growing pool of '
      'objects; after each step, value, text and hash of every object of the pool are '
      'compared with what they were; non-trivial: at least three operations; distinct by pool')
def histories(d):
    u = b.universe(d, huge=0.005)
    pool, shots, applied = [], {}, 0
    for _ in d.steps(12, 5):
        if pool and d.bool(0.25):
            obj, val = d.pick(pool)
            func = d.pick(LOOK + b.QUERIES)
            what = 'look at ' + m.show(val)
            d.note(what)
            func(obj)
        else:
            op = d.pick(HISTORY)
            items = [operand(d, u, pool, domain) for domain in op.domains]
            what = '{}({})'.format(op.name, ', '.join(m.show(val) for _, val in items))
            d.note(what)
            for item in items:
                shots.setdefault(id(item[0]), Snapshot(*item))
            if op.name in KNOWN and items[0][1] == m.MEMPTY:
                d.exclude('KF-C08-1')
                continue
            got = op.func(*[obj for obj, _ in items])
            if op.kind != 'bool' and got is not undef.Undef():
                pool.append((got, b.to_model(got)))
                shots.setdefault(id(got), Snapshot(*pool[-1]))
            applied += 1
        for shot in shots.values():
            shot.check(what)
    if applied >= 3:
        d.nontrivial([m.show(val) for _, val in pool])


@prop(14000, 300000, 'a case is one operation (or look) with operands of any size, shared or not, '
      'that were looked at or not before; value, text and hash of the operands and everything they '
      'give out are compared before and after; non-trivial: an operand is not empty; distinct by '
      'operation and operands')
def single(d):
    op = d.pick(ALGEBRAS[d.pick(sorted(ALGEBRAS))])
    u = b.Universe(d, large=7)
    models = op.generate(d, u)
    if len(models) == 2 and op.domains[0] == op.domains[1] \
            and models[0][0] == models[1][0] and models[0][0] in 'SM':
        models = ops.related(d, u, models, ops.DOMAINS[op.domains[0]][0])
    if op.name in KNOWN and models[0] == m.MEMPTY:
        d.exclude('KF-C08-1')
        raise Reject()
    objs = [b.build_via(d, val, 0.3) for val in models]
    if len(models) == 2 and models[0] == models[1] and d.bool():
        objs[1] = objs[0]
    unchecked = op.unchecked and d.bool(0.4)
    what = '{}({}){}'.format(op.name, ', '.join(m.show(val) for val in models),
                             ' unchecked' if unchecked else '')
    d.note(what)
    d.label(op.name)
    d.label('unchecked', unchecked)
    d.label('large', u.scale > 1)
    shots = [Snapshot(obj, val) for obj, val in zip(objs, models)]
    got = op.func(*objs, _checked=False) if unchecked else op.func(*objs)
    for shot in shots:
        shot.check(what)
    if op.kind != 'bool' and got is not undef.Undef():
        # The result and the operands stay independent of each other.
        result = Snapshot(got, b.to_model(got))
        for obj in [got] + objs:
            d.pick(LOOK)(obj)
            if obj.is_multiset:
                obj.get_multiplicity(mo.Atom('something else'))
        for shot in shots + [result]:
            shot.check('a look at the operands and the result of ' + what)
        op.check(op.func(*objs), models, what + ' once more')
    ops.mark(d, op, models)


@prop(3000, 100000, 'a case is a Python container from which an object is made; the container is '
      'changed afterwards (and what the object gives out is, where it can be); non-trivial: the '
      'container was not empty; distinct by content and route')
def aliasing(d):
    u = b.universe(d, 0.2, huge=0.005)
    route = d.pick(['list', 'set', 'dict', 'Counter', 'from_dict', 'clan from_dict', 'clan from_set',
                    'set list', 'Set(set)'])
    direct = d.bool()
    if route in ('list', 'Counter', 'dict'):
        val = b.msetlike(d, u)
    elif route in ('from_dict', 'clan from_dict', 'clan from_set'):
        val = m.s_of({left: m.C(left, d.pick(u.rights)) for left in
                      (d.pick(u.lefts) for _ in range(d.size(0, 4, 2)))}.values())
    else:
        val = b.setlike(d, u)
    pieces = [(b.build(e), 1) for e in val[1]] if val[0] == 'S' else \
        [(b.build(e), n) for e, n in val[1]]
    d.note(route, direct, m.show(val))
    d.label(route)
    extra = mo.Atom('something else')
    if route == 'list':
        source = [obj for obj, n in pieces for _ in range(n)]
        obj = mo.Multiset(source, direct_load=direct)
        before = list(source)
        change = source.clear
    elif route in ('Counter', 'dict'):
        source = (collections.Counter if route == 'Counter' else dict)(dict(pieces))
        obj = mo.Multiset(source, direct_load=direct)
        before = type(source)(source)

        def change():
            for key in source:
                source[key] += 1
            source[extra] = 3
    elif route in ('set', 'set list', 'Set(set)'):
        source = (list if route == 'set list' else set)(obj for obj, _ in pieces)
        obj = mo.Set(source, direct_load=direct)
        before = type(source)(source)
        change = source.clear
    elif route == 'clan from_set':
        left = b.build(u.lefts[0])
        source = {obj.right for obj, _ in pieces}
        val = m.s_of(m.S(m.C(u.lefts[0], e[2])) for e in val[1])
        obj = clans.from_set(left, *source)
        before, change = set(source), source.clear
    else:
        source = {obj.left: obj.right for obj, _ in pieces}
        obj = relations.from_dict(source) if route == 'from_dict' else clans.from_dict(source)
        if route == 'clan from_dict':
            val = m.S(val)
        before, change = dict(source), source.clear
    if type(before) is not type(source) or before != source:
        raise Fail('the container {} was changed into {}'.format(before, source), 'container')
    b.check_equal(obj, val, route)
    shot = Snapshot(obj, val)
    change()
    shot.check('changing the container it was made from')
    for name in READ_ONLY:
        if hasattr(obj, name):
            try:
                setattr(obj, name, extra)
            except AttributeError:
                pass
            else:
                shot.check('assigning to .' + name)
                raise Fail('the attribute {} of {} can be assigned'.format(name, m.show(val)), name)
    if val[0] == 'S':
        if not isinstance(obj.data, frozenset):
            raise Fail('the data of a set is a {}'.format(type(obj.data)), 'data')
    # An object made of another object's data is independent of it.
    if val[0] == 'M':
        other = mo.Multiset(obj.data, direct_load=direct)
        other.get_multiplicity(extra)
        obj.get_multiplicity(extra)
        if other.data is obj.data:
            raise Fail('two multisets share their data', 'data')
        b.check_equal(other, val, 'Multiset(data)')
    shot.check('making another object from its data')
    twin = copy.deepcopy(obj)
    b.check_equal(twin, val, 'deepcopy')
    b.check_equal(copy.copy(obj), val, 'copy')
    shot.check('copying')
    if pieces:
        d.nontrivial(route, m.show(val))


@prop(400, 8000, 'a case is an operation of an algebra, applied to operands of which one has 260 to 1100 members; '
      'they are compared before and after; distinct by operation and operands')
def giant(d):
    table = d.pick([ops.SETS, ops.MULTISETS, ops.MULTISETS, ops.RELATIONS, ops.CLANS, ops.MULTICLANS])
    ops.giant_case(d, table, lambda op, models: 'KF-C08-1' if op.name in KNOWN and models[0] == m.MEMPTY else None,
                   high=1100, watch=Snapshot)


TESTS = [histories, single, aliasing, giant]
