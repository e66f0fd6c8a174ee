"""C09: ordering and slicing of multiclans: the rows at the indices of the slice, each once."""
import collections

import algebraixlib.mathobjects as mo
import algebraixlib.undef as undef

from vlib import bridge as b
from vlib import model as m
from vlib.bridge import multiclans
from vlib.engine import Fail, prop

ASSUMPTIONS = ['The ordering function is a strict weak order; relations it does not order may be '
               'in any sequence, which is the same for calls with the same object.']
INF = float('inf')


def right_of(rel, name):
    rights = sorted(m.show(c[2]) for c in rel[1] if c[1] == name)
    return rights[0] if rights else ''


def orders(d, u):
    """Return (name, key on models, key on library objects)."""
    name = d.pick(u.lefts)
    obj_name = b.build(name)

    def obj_right(rel):
        rights = sorted(m.show(b.to_model(c.right)) for c in rel if c.left == obj_name)
        return rights[0] if rights else ''
    return d.pick([
        ('number of couplets', lambda rel: len(rel[1]), len),
        ('right of ' + m.show(name), lambda rel: right_of(rel, name), obj_right),
        ('text', m.show, lambda rel: m.show(b.to_model(rel))),
        ('nothing', lambda rel: 0, lambda rel: 0),
        ('parity', lambda rel: len(m.show(rel)) % 2,
         lambda rel: len(m.show(b.to_model(rel))) % 2)])


def meanwhile():
    """Order, and list a part of, another multiclan."""
    other = mo.Multiset({mo.Set(mo.Couplet('a', 1)): 2, mo.Set(): 1})
    multiclans.order_slice(other, lambda x, y: len(x) < len(y), 1, 1)
    next(iter(multiclans.order_slice_to_listgen(other, lambda x, y: len(y) < len(x), 0, 1)))
    next(iter(multiclans.multiclan_to_listgen(other, 1, 1)))


def inside(first, count, low, high):
    return max(0, min(first + count, high) - max(first, low))


@prop(9000, 300000, 'a case is a multiclan, an ordering function (several kinds, also reversed, '
      'answering with a bool or an atom, with and without ties) and an offset and limit that '
      'often cut through a relation with several occurrences, or several such slices of the same '
      'object; non-trivial: the slice is neither empty nor everything; distinct by multiclan, order, '
      'offset and limit')
def slices(d):
    u = b.universe(d, 0.15, huge=0.005)
    val = b.multiclan(d, u, 6, 3.5)
    if d.bool(0.008):
        g = b.Giant(d)
        val = g.make('multiclan')
        u.lefts = u.values = g.names
    obj = b.build_via(d, val, 0.2)
    for _ in range(d.weighted((3, 1), (1, 2), (1, 3))):
        one_slice(d, u, val, obj)


def one_slice(d, u, val, obj):
    name, key, obj_key = orders(d, u)
    reverse, as_atom = d.bool(), d.bool()
    total = sum(count for _, count in val[1])
    offset = d.int(0, total + 2) if d.bool(0.75) else 0
    limit = d.weighted((4, d.int(0, total + 2)), (2, INF))

    def less_than(x, y):
        if not (x.is_set and y.is_set):
            raise Fail('the ordering function got {!r}, {!r}'.format(x, y), 'argument')
        result = obj_key(y) < obj_key(x) if reverse else obj_key(x) < obj_key(y)
        return mo.Atom(result) if as_atom else result

    if d.bool(0.2):
        # A function that itself orders a multiclan.
        less_than = b.busy(d, less_than, meanwhile)
        d.label('another order meanwhile')
    wrap_offset, wrap_limit, checked = d.bool(), d.bool(), d.bool(0.7)
    args = (mo.Atom(offset) if wrap_offset or not checked else offset,
            mo.Atom(limit) if wrap_limit or not checked else limit)
    what = '{} by {}{}, offset {}, limit {}'.format(
        m.show(val), name, ' reversed' if reverse else '', offset, limit)
    d.note(what)
    if d.bool(0.1):
        b.interrupted(d, less_than, lambda failing: list(multiclans.order_slice_to_listgen(
            obj, failing, 0, total)))
    listing = iter(multiclans.order_slice_to_listgen(obj, less_than, *args, _checked=checked))
    if d.bool(0.2):
        # Several lists at the same time.
        listed = []
        for rel, count in listing:
            listed.append((rel, count))
            meanwhile()
            if len(listed) > 20:
                listed.extend(listing)
    else:
        listed = list(listing)
    entries = [(b.to_model(rel), count) for rel, count in listed]
    counts = dict(val[1])

    # Every relation occurs at most once, in the right sequence.
    if len({rel for rel, _ in entries}) != len(entries):
        raise Fail('{}: a relation is listed twice'.format(what), 'twice')
    keys = [key(rel) for rel, _ in entries]
    if keys != sorted(keys, reverse=reverse):
        raise Fail('{}: not in order: {}'.format(what, keys), 'order')
    # Only the first and the last one may be cut; every class of ties has as many as it must have.
    end = offset + limit
    sizes, got = {}, {}
    for rel, count in counts.items():
        sizes[key(rel)] = sizes.get(key(rel), 0) + count
    for pos, (rel, count) in enumerate(entries):
        if type(count) is not int or not 0 < count <= counts.get(rel, 0):
            raise Fail('{}: {} of {}'.format(what, count, m.show(rel)), 'count')
        if count != counts[rel] and pos not in (0, len(entries) - 1):
            raise Fail('{}: only {} of {}'.format(what, count, m.show(rel)), 'cut')
        got[key(rel)] = got.get(key(rel), 0) + count
    first = 0
    for label in sorted(sizes, reverse=reverse):
        expected = inside(first, sizes[label], offset, end)
        if got.get(label, 0) != expected:
            raise Fail('{}: {} instead of {} of those with key {!r}'.format(
                what, got.get(label, 0), expected, label), 'slice')
        first += sizes[label]

    # The multiclan and another call give the same.
    expected = m.m_of(dict(entries))
    result = multiclans.order_slice(obj, less_than, *args, _checked=checked)
    b.check_equal(result, expected, what)
    b.audit(result, expected)
    b.check_equal(obj, val, 'operand')
    if 0 < sum(count for _, count in entries) < total:
        d.nontrivial(what)
        d.label('cut', any(count != counts[rel] for rel, count in entries))


@prop(3000, 100000, 'a case is a multiclan and a page size: the pages, one after another, contain '
      'exactly all occurrences of all relations, for the ordered and for the plain list; '
      'non-trivial: at least two pages; distinct by multiclan, order and page size')
def pages(d):
    u = b.universe(d, 0.15, huge=0.01)
    val = b.multiclan(d, u, 6, 3)
    if d.bool(0.008):
        g = b.Giant(d, 1100)
        val = g.make('multiclan')
        u.lefts = u.values = g.names
    obj = b.build_via(d, val, 0.2)
    name, _, obj_key = orders(d, u)
    ordered = d.bool(0.7)
    total = sum(count for _, count in val[1])
    size = d.int(1, 6) if total < 200 else total // d.int(1, 6) + d.int(0, 1)
    what = '{} by {} in pages of {}'.format(m.show(val), name if ordered else 'nothing', size)
    d.note(what)

    def page(offset, limit):
        if ordered:
            return list(multiclans.order_slice_to_listgen(
                obj, lambda x, y: obj_key(x) < obj_key(y), offset, limit))
        return list(multiclans.multiclan_to_listgen(obj, offset, limit))

    def flat(entries):
        return [b.to_model(rel) for rel, count in entries for _ in range(count)]
    everything = flat(page(0, INF))
    if m.m_of(collections.Counter(everything)) != val:
        raise Fail('{}: all is {}'.format(what, everything), 'all')
    paged = [rel for start in range(0, total + size, size) for rel in flat(page(start, size))]
    if paged != everything:
        raise Fail('{}: {} instead of {}'.format(
            what, [m.show(rel) for rel in paged], [m.show(rel) for rel in everything]), 'pages')
    if total > size:
        d.nontrivial(what)


@prop(1500, 40000, 'a case is a call of a slicing function with one operand outside of its domain: '
      'the result is undefined, or it raises with raising enabled; distinct by call')
def wrong(d):
    u = b.Universe(d, 0.2)
    which = d.int(0, 2)
    val = b.multiclan(d, u)
    args = [b.build(val), d.int(0, 3), d.int(0, 3)]
    if which == 0:
        bad = d.weighted((2, b.value), (1, b.clan), (1, b.relation))(d, u)
        if m.is_multiclan(bad):
            bad = m.S(bad)
        args[0] = undef.Undef() if d.bool(0.1) else b.build(bad)
    else:
        bad = d.pick([undef.Undef(), 'x', mo.Atom('x'), 1.5, mo.Atom(2.5), None, mo.Set(1),
                      mo.Couplet(1, 2), -INF])
        args[which] = bad
    func = d.pick([
        lambda *a: multiclans.order_slice(a[0], lambda x, y: len(x) < len(y), *a[1:]),
        lambda *a: multiclans.order_slice_to_listgen(a[0], lambda x, y: len(x) < len(y), *a[1:]),
        multiclans.multiclan_to_listgen])
    what = repr(args)
    d.note(what)
    got = func(*args)
    if got is not undef.Undef():
        raise Fail('{}: {!r} instead of Undef()'.format(what, got), 'undefined')
    level = 2 if any(arg is undef.Undef() for arg in args) else 1
    undef.RaiseOnUndef.set_level(level)
    try:
        func(*args)
    except undef.UndefException:
        pass
    else:
        raise Fail('{}: nothing raised'.format(what), 'raise')
    finally:
        undef.RaiseOnUndef.reset()
    d.nontrivial(what)


TESTS = [slices, pages, wrong]
