"""C23: Queries made of many operations give what a reference database gives, at any size."""
import collections
import io

import algebraixlib.mathobjects as mo
from algebraixlib import extension, partition
from algebraixlib.algebras import multisets, relations, sets
from algebraixlib.import_export.csv import export_csv, import_csv

from vlib import bridge as b
from vlib.bridge import clans, multiclans
from vlib.engine import Fail, prop

ASSUMPTIONS = [
    'Tables have functions as rows (a column has at most one value in a row; columns may be '
    'missing). Values are numbers and text. Tables have up to 150 rows.']
COLUMNS = ['a', 'b', 'c', 'd', 'e', 'f']


# The reference: a table is a Counter of rows, a row is a frozenset of (column, value) --------------

def content(obj, what):
    """Return the table a clan or multiclan denotes."""
    result = collections.Counter()
    if isinstance(obj, mo.Set):
        items = [(row, 1) for row in obj.data]
    elif isinstance(obj, mo.Multiset):
        items = list(obj.data.items())
    else:
        raise Fail('{}: {!r} is no table'.format(what, obj), 'type')
    for row, count in items:
        if not isinstance(row, mo.Set):
            raise Fail('{}: {!r} is no row'.format(what, row), 'type')
        result[frozenset((pair.left.value, pair.right.value) for pair in row.data)] += count
        if len(row.data) != len({(pair.left.value, pair.right.value) for pair in row.data}):
            raise Fail('{}: {!r} has equal pairs'.format(what, row), 'row')
    return result


def of_rows(rows, multi):
    result = collections.Counter(rows)
    return result if multi else collections.Counter(dict.fromkeys(result, 1))


def merged(one, two):
    """The union of two rows or None if they disagree."""
    values = dict(one)
    if any(values.get(col, val) != val for col, val in two):
        return None
    return one | two


def joined(one, two, multi):
    result = collections.Counter()
    for left, left_count in one.items():
        for right, right_count in two.items():
            row = merged(left, right)
            if row is not None:
                result[row] += left_count * right_count
    return of_rows(result.elements(), multi)


def value(d, col):
    if col in 'ab':
        return d.int(0, 3)
    if col == 'c':
        return d.pick(['x', 'y', 'z', 'w'])
    return d.int(0, 40) if col == 'd' else d.pick(['n{}'.format(num) for num in range(12)])


def new_table(d, multi):
    columns = d.shuffle(COLUMNS)[:d.int(1, 4)]
    size = d.weighted((4, d.int(0, 6)), (4, d.int(3, 25)), (2, d.int(20, 150)))
    holes = d.bool(0.25)
    rows = collections.Counter()
    for _ in range(size):
        row = frozenset((col, value(d, col)) for col in columns if not holes or d.bool(0.85))
        rows[row] += d.weighted((4, 1), (1, 2), (1, 5)) if multi else 1
    if not multi:
        rows = of_rows(rows, False)
    return rows


def build(rows, multi, d):
    """Create the table in the library: from a CSV text, from dictionaries or from parts."""
    how = d.weighted((2, 'sets'), (1, 'dicts'), (1, 'csv'))
    if how == 'csv' and rows and frozenset() not in rows:
        columns = sorted({col for row in rows for col, _ in row})
        lines = [','.join(columns)] + [
            ','.join(str(dict(row).get(col, '')) for col in columns) for row in rows.elements()]
        return import_csv(io.StringIO('\n'.join(lines) + '\n'), has_dup_rows=multi,
                          types={'a': int, 'b': int, 'd': int})
    if how == 'dicts':
        make = relations.from_dict
    else:
        def make(dict1):
            return mo.Set(mo.Couplet(col, val) for col, val in dict1.items())
    if multi:
        return mo.Multiset({make(dict(row)): count for row, count in rows.items()})
    return mo.Set(make(dict(row)) for row in rows)


class Table:
    def __init__(self, obj, rows):
        self.obj, self.rows = obj, rows


def columns_of(rows):
    return sorted({col for row in rows for col, _ in row})


def step(d, pool, multi):
    """Apply one operation to tables of the pool. Return (description, object, expected rows)."""
    mod = multiclans if multi else clans
    first = d.pick(pool) if d.bool(0.7) else pool[-1]
    second = d.pick(pool)
    cols = columns_of(first.rows) or ['a']
    kind = d.weighted((3, 'equal'), (2, 'in'), (2, 'where'), (3, 'project'), (2, 'rename'),
                      (4, 'join'), (1, 'left join'), (2, 'union'), (1, 'intersect'), (2, 'minus'),
                      (2, 'semijoin'), (1, 'extend'), (1, 'has'), (1, 'distinct'), (1, 'without'),
                      (2, 'add'), (1, 'slice'), (1, 'product'))
    pairs = sum(first.rows.values()) * sum(second.rows.values())
    if kind == 'equal':
        wanted = {col: value(d, col) for col in d.shuffle(cols)[:d.int(1, 2)] if col in COLUMNS} \
            or {'a': 1}
        expected = [row for row in first.rows.elements() if set(wanted.items()) <= row]
        obj = mod.superstrict(first.obj, mod.from_dict(wanted)
                              if not multi else clans_as_multi(wanted))
        return 'where {}'.format(wanted), obj, expected
    if kind == 'in':
        col = d.pick(cols)
        wanted = list(dict.fromkeys(value(d, col if col in COLUMNS else 'a')
                                    for _ in range(d.int(1, 4))))
        expected = [row for row in first.rows.elements()
                    if any((col, val) in row for val in wanted)]
        which = clans.from_set(col, *wanted)
        obj = mod.superstrict(first.obj, sets.multify(which) if multi else which)
        return '{} in {}'.format(col, wanted), obj, expected
    if kind == 'where':
        col, limit = d.pick(cols), d.pick([0, 1, 5, 'm', 'x'])

        def holds(val):
            return type(val) is type(limit) and val > limit
        expected = [row for row in first.rows.elements() if holds(dict(row).get(col))]
        if not multi:
            def selector(row):
                val = row(col)
                return isinstance(val, mo.Atom) and holds(val.value)
            return '{} > {}'.format(col, limit), sets.restrict(first.obj, selector), expected
        parts = partition.partition(first.obj, lambda row: bool(
            isinstance(row(col), mo.Atom) and holds(row(col).value)))
        kept = [part for part in parts if holds(dict(next(iter(content(part, 'part')))).get(col))]
        return '{} > {}'.format(col, limit), kept[0] if kept else mo.Multiset(), expected
    if kind in ('project', 'distinct'):
        wanted = d.shuffle(cols)[:d.int(1, 2)] + (['zz'] if d.bool(0.1) else [])
        rows = [frozenset((col, val) for col, val in row if col in wanted)
                for row in first.rows.elements()]
        obj = mod.project(first.obj, *wanted)
        if kind == 'distinct' and multi:
            obj = sets.multify(multisets.demultify(obj))
            rows = set(rows)
        return '{} {}'.format(kind, wanted), obj, rows
    if kind == 'rename':
        names = {col: new for col, new in zip(d.shuffle(cols), d.shuffle(COLUMNS + ['g', 'h']))
                 if d.bool(0.7)}
        rows = [frozenset((names[col], val) for col, val in row if col in names)
                for row in first.rows.elements()]
        renames = mo.Set(mo.Couplet(new, old) for old, new in names.items())
        other = mo.Multiset({renames: 1}) if multi else mo.Set(renames)
        return 'rename {}'.format(names), mod.compose(first.obj, other), rows
    if kind in ('join', 'left join', 'product') and pairs <= 2500:
        result = joined(first.rows, second.rows, multi)
        if kind == 'product':
            # All unions; only those that are rows of a table are kept here.
            if any(merged(one, two) is None for one in first.rows for two in second.rows):
                return None
            return 'product', mod.cross_union(first.obj, second.obj), result.elements()
        if kind == 'join':
            return 'join', mod.cross_functional_union(first.obj, second.obj), result.elements()
        if multi:
            return None
        lonely = [row for row in first.rows
                  if all(merged(row, other) is None for other in second.rows)]
        return 'left join', clans.lhs_cross_functional_union(first.obj, second.obj), \
            list(result) + lonely
    if kind == 'union':
        rows = first.rows | second.rows
        algebra = multisets if multi else sets
        return 'union', algebra.union(first.obj, second.obj), rows.elements()
    if kind == 'add' and multi:
        return 'add', multisets.add(first.obj, second.obj), (first.rows + second.rows).elements()
    if kind == 'intersect':
        algebra = multisets if multi else sets
        return 'intersect', algebra.intersect(first.obj, second.obj), \
            (first.rows & second.rows).elements()
    if kind == 'minus':
        algebra = multisets if multi else sets
        return 'minus', algebra.minus(first.obj, second.obj), (first.rows - second.rows).elements()
    if kind == 'semijoin':
        common = [col for col in cols if col in columns_of(second.rows)]
        if not common or pairs > 6000:
            return None
        keys = {frozenset((col, val) for col, val in row if col in common) for row in second.rows}
        expected = [row for row in first.rows.elements() if any(key <= row for key in keys)]
        obj = mod.superstrict(first.obj, mod.project(second.obj, *common))
        return 'semijoin on {}'.format(common), obj, expected
    if kind == 'has':
        col = d.pick(cols + ['zz'])
        rows = [row for row in first.rows.elements() if col in dict(row)]
        parts = partition.partition(first.obj, lambda row: len(row[col].data) > 0)
        for part in parts:
            if col in dict(next(iter(content(part, 'part')))):
                return 'has {}'.format(col), part, rows
        return 'has {}'.format(col), mo.Multiset() if multi else mo.Set(), rows
    if kind == 'extend':
        col = d.pick(['new', 'a'])
        rows = [row | {(col, len(row))} if col not in dict(row) else row
                for row in first.rows.elements()]

        def longer(row):
            return relations.functional_union(row, mo.Set(mo.Couplet(col, len(row.data)))) \
                if row[col].is_empty else row
        func = extension.unary_multi_extend if multi else extension.unary_extend
        return 'extend {}'.format(col), func(first.obj, longer), rows
    if kind == 'slice' and multi:
        ordered = sorted(first.rows, key=text)
        bag = [row for row in ordered for _ in range(first.rows[row])]
        offset, limit = d.int(0, len(bag) + 1), d.int(0, len(bag) + 1)

        def less(one, two):
            return text_of(one) < text_of(two)
        return 'rows {} to {}'.format(offset, offset + limit), \
            multiclans.order_slice(first.obj, less, offset, limit), bag[offset:offset + limit]
    if kind == 'without':
        wanted = {col: value(d, col) for col in cols[:1] if col in COLUMNS}
        if not wanted or multi:
            return None
        removed = clans.superstrict(first.obj, clans.from_dict(wanted))
        expected = [row for row in first.rows if not set(wanted.items()) <= row]
        return 'without {}'.format(wanted), sets.minus(first.obj, removed), expected
    return None


def text(row):
    return sorted((col, str(val)) for col, val in row)


def text_of(row):
    return sorted((pair.left.value, str(pair.right.value)) for pair in row)


def clans_as_multi(wanted):
    return mo.Multiset({relations.from_dict(wanted): 1})


def ask(d, pool, multi):
    """Ask for some properties of some tables and compare the answers."""
    mod = multiclans if multi else clans
    for table in pool:
        if d.bool(0.6):
            lefts = {frozenset(dict(row)) for row in table.rows}
            expected = {'is_regular': len(lefts) <= 1, 'is_functional': True,
                        'is_right_functional': all(
                            len({(type(val), val) for _, val in row}) == len(row)
                            for row in table.rows),
                        'is_absolute_member': True}
            for name in d.shuffle(sorted(expected))[:d.int(1, 4)]:
                got = getattr(mod, name)(table.obj)
                if got is not expected[name]:
                    raise Fail('{} of {} is {}'.format(name, table.rows, got), name)


def aggregate(d, table, multi, what):
    """Check what is asked about a table: columns, values, groups and counts, sums, texts."""
    rows = table.rows
    total = sum(rows.values())
    if table.obj.cardinality != total or len(table.obj) != total or table.obj.is_empty != (not rows):
        raise Fail('{}: cardinality {}, expected {}'.format(what, table.obj.cardinality, total),
                   'cardinality')
    mod = multiclans if multi else clans
    cols = columns_of(rows)
    if rows or not multi:
        lefts = mod.get_lefts(table.obj)
        if sorted(left.value for left in lefts) != cols:
            raise Fail('{}: columns {}, expected {}'.format(what, lefts, cols), 'columns')
        rights = mod.get_rights(table.obj)
        values = {val for row in rows for _, val in row}
        if {right.value for right in rights} != values:
            raise Fail('{}: values {}'.format(what, rights), 'values')
    sets_of = [frozenset(dict(row)) for row in rows]
    if mod.is_regular(table.obj) is not (len(set(sets_of)) <= 1):
        raise Fail('{}: regular is {}'.format(what, mod.is_regular(table.obj)), 'regular')
    if cols:
        col = d.pick(cols)
        got = table.obj[col]
        counts = collections.Counter()
        for row, count in rows.items():
            if col in dict(row):
                counts[dict(row)[col]] += count
        if multi:
            found = collections.Counter({val.value: count for val, count in got.data.items()})
        else:
            found = collections.Counter(val.value for val in got.data)
            counts = collections.Counter(dict.fromkeys(counts, 1))
        if found != counts:
            raise Fail('{}: values of {}: {}, expected {}'.format(what, col, found, counts), 'column')
        groups = partition.make_labeled_partition(
            table.obj, lambda row: row[col])
        got = {}
        for pair in groups:
            key = frozenset(item.value for item in pair.left.data)
            got[key] = content(pair.right, what)
        expected = {}
        for row, count in rows.items():
            key = frozenset([dict(row)[col]]) if col in dict(row) else frozenset()
            expected.setdefault(key, collections.Counter())[row] = count
        if got != expected:
            raise Fail('{}: grouped by {}: {}'.format(what, col, got), 'groups')
        if frozenset() not in rows and d.bool(0.4):
            types = {name: {type(dict(row)[name]) for row in rows if name in dict(row)}
                     for name in cols}
            if any(len(kinds) > 1 for kinds in types.values()):
                return
            out = io.StringIO(newline='')
            export_csv(table.obj, out, ordered_lefts=cols)
            again = import_csv(io.StringIO(out.getvalue(), newline=''), has_dup_rows=multi,
                               types={name: next(iter(kinds)) for name, kinds in types.items()})
            if content(again, what) != rows:
                raise Fail('{}: exported and imported: {}'.format(what, again), 'csv')


@prop(3000, 60000, 'a case is a history: up to three tables with up to 150 rows, created from CSV '
      'or objects, and up to eight operations (selection, projection, renaming, joins, set and '
      'multiset operations, groups, slices), each applied to any tables so far and compared with a '
      'reference database; the results are then aggregated, grouped, exported; non-trivial: at '
      'least three operations and a result that is not empty; distinct by history')
def queries(d):
    multi = d.bool(0.45)
    pool = []
    what = 'multisets' if multi else 'sets'
    for _ in range(d.int(1, 3)):
        rows = new_table(d, multi)
        pool.append(Table(build(rows, multi, d), rows))
        what += '; a table with {} rows'.format(len(rows)) if len(rows) > 4 \
            else '; table {}'.format(sorted((sorted(row, key=str), count)
                                            for row, count in rows.items()))
    d.note(what)
    done = 0
    asks = d.bool(0.5)
    for _ in d.steps(8, 4.5):
        if asks and d.bool(0.6):
            ask(d, pool, multi)
        result = step(d, pool, multi)
        if result is None:
            continue
        name, obj, expected = result
        what += '; ' + name
        d.note(name)
        rows = of_rows(expected, multi)
        got = content(obj, what)
        if got != rows:
            raise Fail('{}: surplus {}, missing {}'.format(
                what, dict((got - rows)), dict((rows - got))), name.split(' ')[0])
        done += bool(rows)
        if all(len(dict(row)) == len(row) for row in rows) and sum(rows.values()) <= 1500:
            pool.append(Table(obj, rows))
        d.label(name.split(' ')[0])
    for table in pool:
        if content(table.obj, what) != table.rows:
            raise Fail('{}: a table has changed'.format(what), 'changed')
    aggregate(d, pool[-1], multi, what)
    if len(pool[-1].rows) < 40:
        b.audit(pool[-1].obj)
    d.label('large', len(pool[-1].rows) > 30)
    if done > 2:
        d.nontrivial(what, str(sorted(map(text, pool[0].rows))))


TESTS = [queries]
