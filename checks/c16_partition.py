"""C16: partitions consist of the classes of an equivalence relation: disjoint, complete, maximal."""
import functools

import algebraixlib.mathobjects as mo
import algebraixlib.partition as partition

from vlib import bridge as b
from vlib import history
from vlib import model as m
from vlib.bridge import relations
from vlib.engine import Fail, prop


def m_left(name):
    def key(val):
        rights = [c[2] for c in val[1] if c[0] == 'C' and c[1] == name] \
            if m.is_relation(val) else []
        return rights[0] if len(rights) == 1 else m.A('none')
    return key


def o_left(name):
    def key(obj):
        if obj.is_set and relations.is_member(obj):
            right = relations.get_right(obj, b.build(name))
            if isinstance(right, mo.MathObject):
                return right
        return 'none'
    return key


def m_first(val):
    return val[1] if val[0] == 'C' else val


def o_first(obj):
    return obj.left if obj.is_couplet else obj


def meanwhile():
    """Other partitions."""
    for other in (mo.Set('a', 'b', mo.Couplet('a', 'b')), mo.Multiset({'a': 2, mo.Set('a'): 1})):
        partition.partition(other, history.obj_group)
        partition.make_labeled_partition(other, history.obj_group)


class Key:
    def __init__(self, func):
        self.func = func

    def key(self, elem):
        return self.func(elem)


KEYS = [
    ('kind', history.group, history.obj_group),
    ('size', history.size_key, history.obj_size_key),
    ('itself', lambda v: v, lambda o: o),
    ('constant', lambda v: m.A(0), lambda o: 0),
    ('left component', m_first, o_first),
    # Labels that are equal although they look different.
    ('zero', lambda v: m.A({'A': 0.0, 'C': -0.0, 'S': -5.0 if v[1] else 0.0, 'M': -3.0}[v[0]]),
     lambda o: 0.0 if o.is_atom else -0.0 if o.is_couplet else -3.0 if o.is_multiset else
     0.0 if o.is_empty else -5.0),
    ('empty', lambda v: m.A(v[0] in 'SM' and not v[1]), lambda o: o.is_empty),
    ('text', lambda v: m.A(v[0]), lambda o: 'A' if o.is_atom else 'C' if o.is_couplet else
     'S' if o.is_set else 'M'),
]


@prop(14000, 400000, 'a case is a set or multiset with one or several key functions, one after the other (constant, injective, '
      'by component, by kind, ...); non-trivial: at least two elements; distinct by operand and '
      'key')
def partitions(d):
    u = b.universe(d, 0.2, huge=0.01)
    val = d.weighted((3, b.setlike), (2, b.clan), (3, b.msetlike), (2, b.multiclan),
                     (2, b.relation))(d, u)
    if d.bool(0.01):
        g = b.Giant(d, 1100)
        val = g.make(d.pick(['set', 'clan', 'mset', 'multiclan', 'relation']))
        u.lefts = g.names
    keys = KEYS
    if m.is_clan(val) or m.is_multiclan(val):
        left = d.pick(u.lefts)
        keys = KEYS + 2 * [('value of ' + m.show(left), m_left(left), o_left(left))]
    obj = b.build_via(d, val, 0.4)
    for _ in range(d.weighted((3, 1), (1, 2), (1, 3))):
        one_partition(d, val, obj, *d.pick(keys))


def one_partition(d, val, obj, name, model_key, obj_key):
    # Different functions may have the same name.
    form = d.pick(['as is', 'lambda', 'function', 'method'])
    if form == 'lambda':
        def obj_key(elem, key=obj_key):
            return key(elem)
    elif form == 'function':
        obj_key = functools.partial(lambda key, elem: key(elem), obj_key)
    elif form == 'method':
        obj_key = Key(obj_key).key
    elif d.bool(0.3):
        # A function that itself uses partitions.
        obj_key = b.busy(d, obj_key, meanwhile)
        d.label('partitions meanwhile')
    what = 'partition of {} by {}'.format(m.show(val), name)
    d.note(what)
    d.label(name)
    expected = history.classes(val, model_key)
    if d.bool(0.1):
        b.interrupted(d, obj_key, lambda failing: d.pick(
            [partition.partition, partition.make_labeled_partition])(obj, failing))
    got = partition.partition(obj, obj_key)
    b.check_equal(got, m.s_of(expected.values()), what)
    b.audit(got)
    labeled = partition.make_labeled_partition(obj, obj_key)
    b.check_equal(labeled, m.s_of(m.C(label, part) for label, part in expected.items()),
                  'labeled ' + what)
    b.audit(labeled)
    # Independent of the reference model: nothing lost, nothing twice.
    parts = list(got)
    if val[0] == 'S':
        if sum(len(part) for part in parts) != len(obj) \
                or set().union(*[part.data for part in parts]) != set(obj.data):
            raise Fail(what + ': not a partition', 'cover')
    else:
        total = {}
        for part in parts:
            for elem, count in part.data.items():
                total[elem] = total.get(elem, 0) + count
        if total != dict(obj.data):
            raise Fail(what + ': not a partition', 'cover')
    for part in parts:
        if part.is_empty or part.is_set != obj.is_set:
            raise Fail(what + ': an empty class or one of the wrong kind', 'class')
    for label, part in list(expected.items())[:50]:
        b.check_equal(labeled(b.build(label)), part, 'class {} of the {}'.format(
            m.show(label), what))
    b.check_equal(obj, val, 'operand')
    if len(val[1]) > 1:
        d.nontrivial(what)


TESTS = [partitions]
