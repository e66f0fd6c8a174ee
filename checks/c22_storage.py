"""C22: Copies, pickles and other processes: objects stay what they are; results do not depend on
hash values."""
import copy
import pickle

import algebraixlib.mathobjects as mo
import algebraixlib.structure as structure
import algebraixlib.undef as undef
from algebraixlib.util.latexprinter import math_object_to_latex

from checks import c08_multiclans
from vlib import bridge as b
from vlib import model as m
from vlib import ops, remote
from vlib.engine import Fail, prop

ASSUMPTIONS = [
    'Atom values are picklable built-in values. The other processes run the same code with '
    'PYTHONHASHSEED 1 and 4711 (this one with 0).']


@prop(6000, 200000, 'a case is an object (asked questions before or not), alone or several times '
      'within containers, copied or pickled with any protocol, and then used: equality, hash, '
      'membership, predicates; Undef() stays the singleton; non-trivial: it is nested; distinct by '
      'object and way')
def copies(d):
    u = b.universe(d, 0.3, huge=0.01)
    val = b.value(d, u) \
        if d.bool(0.997) else b.Giant(d, 600).make(d.pick(['set', 'mset', 'relation', 'clan', 'multiclan']))
    obj = b.build_via(d, val, 0.5)
    looks = repr(obj), str(obj), hash(obj)
    protocol = d.int(0, pickle.HIGHEST_PROTOCOL)
    how = d.pick(['copy', 'deepcopy', 'pickle', 'pickle', 'pickle'])
    d.note(m.show(val), how, protocol)

    def again(item):
        if how == 'copy':
            return copy.copy(item)
        if how == 'deepcopy':
            return copy.deepcopy(item)
        return pickle.loads(pickle.dumps(item, protocol))
    twin = again(obj)
    container = again({'x': [obj, (obj, undef.Undef())], 'y': undef.Undef(), 'g': obj.get_ground_set()})
    if container['y'] is not undef.Undef() or container['x'][1][1] is not undef.Undef():
        raise Fail('Undef() became another object', 'undef')
    if container['g'] != obj.get_ground_set() or repr(container['g']) != repr(obj.get_ground_set()):
        raise Fail('{!r} became {!r}'.format(obj.get_ground_set(), container['g']), 'structure')
    for item in (twin, container['x'][0], container['x'][1][0]):
        b.check_equal(item, val, how)
        if not (item == obj and obj == item) or item != obj or hash(item) != hash(obj):
            raise Fail('{} of {}: {!r} is not equal'.format(how, m.show(val), item), 'equal')
        if type(item) is not type(obj) or (repr(item), str(item), hash(item)) != looks:
            raise Fail('{} of {}: {!r}'.format(how, m.show(val), item), 'looks')
        if item < obj or obj < item:
            raise Fail('{} of {}: not at the same place'.format(how, m.show(val)), 'order')
        if item not in {obj} or mo.Set(item, obj).cardinality != 1:
            raise Fail('{} of {}: not the same in a set'.format(how, m.show(val)), 'set')
    for question in d.shuffle(b.questions(val))[:4]:
        b.ask(twin, val, question)
    b.audit(twin, val)
    b.check_equal(obj, val, 'the original')
    if val[0] != 'A':
        d.nontrivial(m.show(val), how, protocol)


@prop(2500, 80000, 'a case is up to four objects that are pickled and sent to a process with other '
      'hash values, looked at there (equality with fresh objects, hash, text, order, ground set, '
      'predicates) and sent back; non-trivial: one is nested; distinct by objects')
def elsewhere(d):
    u = b.Universe(d, 0.3)
    vals = [b.value(d, u) for _ in range(d.int(1, 4))]
    objs = [b.build_via(d, val, 0.5) for val in vals]
    for obj in objs:
        if d.bool():
            hash(obj)
    d.note('; '.join(m.show(val) for val in vals))
    seed = d.pick([1, 4711])
    answer = remote.call(seed, pickle.dumps(objs, d.int(0, pickle.HIGHEST_PROTOCOL)))
    back = pickle.loads(answer['back'])
    for obj, other, val, looks in zip(objs, back, vals, answer['looks']):
        b.check_equal(other, val, 'sent there and back')
        if not obj == other or hash(obj) != hash(other):
            raise Fail('{!r} came back as {!r}'.format(obj, other), 'back')
        ground = pickle.loads(looks[3])
        mine = obj.get_ground_set()
        if ground != mine or hash(ground) != hash(mine):
            raise Fail('{!r}: the ground set there is {!r}'.format(obj, ground), 'ground')
        mine = repr(obj), str(obj), math_object_to_latex(obj)
        if looks[:3] != mine:
            raise Fail('{} looks like {} elsewhere, here {}'.format(m.show(val), looks, mine),
                       'looks')
    if len(objs) > 1 and answer['sorted'] != [repr(obj) for obj in sorted(objs)]:
        raise Fail('sorted elsewhere: {}, here {}'.format(answer['sorted'], sorted(objs)), 'sorted')
    if any(val[0] != 'A' for val in vals):
        d.nontrivial('; '.join(m.show(val) for val in vals))


@prop(3000, 100000, 'a case is an operation of one of the algebras evaluated here and, with the '
      'pickled operands, in a process with other hash values: the same value and text; '
      + ops.NONTRIVIAL)
def operations(d):
    op, models, objs, got, expected = ops.operation_case(d, ops.ALL, known=c08_multiclans.known)
    answer = remote.call(d.pick([1, 4711]), pickle.dumps(objs), op.name)
    result = pickle.loads(answer['result'])
    op.check(result, models, op.name + ' elsewhere')
    if op.kind != 'choice' and answer['repr'] != repr(got):
        raise Fail('{}: {} elsewhere, {!r} here'.format(op.name, answer['repr'], got), 'repr')
    ops.mark(d, op, models)


TESTS = [copies, elsewhere, operations]
