"""C17: CSV import and export: every cell of every row, exactly, in both directions."""
import copy
import io
import os
import tempfile

import algebraixlib.mathobjects as mo
import algebraixlib.undef as undef
from algebraixlib.import_export.csv import export_csv, import_csv

from vlib import bridge as b
from vlib import model as m
from vlib import remote
from vlib.engine import Fail, prop

ASSUMPTIONS = [
    'Column names are distinct, not empty and all of one type. Cells are text without NUL or lone '
    'surrogates. Empty text and missing values are the same in CSV (documented).',
    'A row with more cells than columns, and exporting a relation with several rights for one left, '
    'are outside the domain.']
CHARS = 'ab1\u00e9\u4e2d ,;"\'\n\r\t.-=\U0001f600'
NAMES = ['a', 'b', 'c', 'name', 'x y', 'k,l', 'q"r', 'Z', '\u00e9', 'two\nlines', "it's", '10', '2']
INTS = (int, lambda d: d.int(-50, 200))
FLOATS = (float, lambda d: d.int(-99, 400) / d.pick([1, 2, 4, 8, 3, 7, 1e300, 1e-5]))
TEXTS = (str, lambda d: d.text(CHARS, 0, 6, 2.5) * (d.int(10, 3000) if d.bool(0.005) else 1)
         if d.bool(0.6) else d.pick(['x', 'y', '1', '']))
BOOLS = ('True'.__eq__, lambda d: d.bool())


# A CSV reader and writer of our own ---------------------------------------------------------------

def parse(text):
    """Split CSV text (as Excel writes it) into rows of cells."""
    rows, row, cell, pos = [], [], '', 0
    started = False
    while pos < len(text):
        char = text[pos]
        if char == '"':
            pos += 1
            while True:
                if text[pos] == '"' and text[pos + 1:pos + 2] == '"':
                    cell += '"'
                    pos += 2
                elif text[pos] == '"':
                    break
                else:
                    cell += text[pos]
                    pos += 1
            started = True
        elif char == ',':
            row.append(cell)
            cell, started = '', True
        elif char in '\r\n':
            if text[pos:pos + 2] == '\r\n':
                pos += 1
            rows.append(row + [cell] if started else [])
            row, cell, started = [], '', False
        else:
            cell += char
            started = True
        pos += 1
    if started:
        rows.append(row + [cell])
    return rows


def quote(d, cell, alone):
    if any(char in cell for char in ',"\r\n') or (alone and not cell) or d.bool(0.2):
        return '"' + cell.replace('"', '""') + '"'
    return cell


# Export and re-import -----------------------------------------------------------------------------

def table(d, regular):
    names = d.subset(NAMES, 0.3) or [d.pick(NAMES)]
    names = names[:5]
    kinds = {name: d.weighted((3, TEXTS), (2, INTS), (1, FLOATS), (1, BOOLS)) for name in names}
    rows = {}
    few = d.bool(0.4)
    pool = {name: [m.A(kinds[name][1](d)) for _ in range(2)] for name in names} if few else None
    for _ in range(d.extent(0, 6, 3)):
        present = names if regular else d.subset(names, 0.7)
        rel = m.s_of(m.C(m.A(name), d.pick(pool[name]) if few else m.A(kinds[name][1](d)))
                     for name in present)
        rows[rel] = d.weighted((4, 1), (1, 2), (1, 3))
    return names, kinds, rows


def as_read(rel, names, kinds):
    """What is read back of a row: the columns in ``names`` that are not blank."""
    return m.s_of(c for c in rel[1] if c[1][2] in names and str(c[2][2]) != '')


def write_read(d, folder, clan, lefts, sort_key, how, **kwargs):
    """Export ``clan``; return the text and what is imported again."""
    args = {}
    if lefts is not None:
        args['ordered_lefts'] = list(lefts)
    if sort_key is not None:
        args['sort_key'] = sort_key
    if how == 'path':
        path = os.path.join(folder, 'table.csv')
        if export_csv(clan, path, **args) is not True:
            raise Fail('the export is refused', 'refused')
        with open(path, 'rb') as file:
            text = file.read().decode('utf-8')
        return text, import_csv(path, **kwargs)
    file = io.StringIO(newline='')
    if export_csv(clan, file, **args) is not True:
        raise Fail('the export is refused', 'refused')
    if file.closed or args.get('ordered_lefts') != lefts:
        raise Fail('the file is closed or the argument changed to {}'.format(args), 'arguments')
    return file.getvalue(), import_csv(io.StringIO(file.getvalue(), newline=''), **kwargs)


@prop(5000, 150000, 'a case is a table (clan or multiclan, regular or not; text with separators, '
      'quotes and line breaks, numbers) that is exported (all columns or some, given sequence '
      'or default, sorted or not, to a file or a stream) and imported again; the text is also read '
      'by an independent parser; non-trivial: at least two rows and a cell that needs quoting or '
      'a missing or converted cell; distinct by table and options')
def round_trip(d):
    regular = d.bool(0.6)
    names, kinds, rows = table(d, regular)
    multi = d.bool(0.4)
    val = m.m_of(rows) if multi else m.s_of(rows)
    occurrences = [rel for rel, count in rows.items() for _ in range(count if multi else 1)]
    default = not names or (m.regular(val) and d.bool(0.5))
    lefts = d.shuffle(names)
    if d.bool(0.2):
        lefts = lefts[:d.int(1, len(lefts))]
    if d.bool(0.1):
        lefts = lefts + ['not there']
    if default:
        lefts = sorted({c[1][2] for c in occurrences[0][1]}) if occurrences else []
    sort = d.bool(0.4)
    by = d.pick(names)

    def key(rel):
        rights = [c[2][2] for c in rel[1] if c[1][2] == by]
        return str(rights[0]) if rights else ''

    def obj_key(rel):
        return key(b.to_model(rel))
    how = d.weighted((2, 'stream'), (1, 'path'))
    what = '{} as {}, sorted by {}, {}'.format(
        m.show(val), 'default' if default else lefts, by if sort else None, how)
    d.note(what)
    if any(not rel[1] for rel in rows) and default:
        # A table without columns.
        return
    with tempfile.TemporaryDirectory() as folder:
        text, again = write_read(
            d, folder, b.build_via(d, val, 0.2), None if default else lefts,
            obj_key if sort else None, how, has_dup_rows=multi,
            types={name: kinds[name][0] for name in names})
    cells = parse(text)
    if lefts and (not cells or cells[0] != lefts):
        raise Fail('{}: the header is {!r}'.format(what, cells[:1]), 'header')

    def line(rel):
        rights = {c[1][2]: str(c[2][2]) for c in rel[1]}
        return [rights.get(name, '') for name in lefts]
    got, expected = cells[1:], [line(rel) for rel in occurrences]
    if sorted(got) != sorted(expected):
        raise Fail('{}: the rows are {!r}'.format(what, got), 'rows')
    if sort:
        by_key = sorted(occurrences, key=key)
        keyed = [key(rel) for rel in by_key]
        # Rows with the same key may be in any sequence.
        for label in set(keyed):
            pos = [i for i, k in enumerate(keyed) if k == label]
            if sorted(got[i] for i in pos) != sorted(line(by_key[i]) for i in pos):
                raise Fail('{}: not sorted: {!r}'.format(what, got), 'sorted')
    result = {}
    for rel in occurrences:
        rel = as_read(rel, lefts, kinds)
        result[rel] = result.get(rel, 0) + 1
    b.check_equal(again, m.m_of(result) if multi else m.s_of(result), what)
    b.audit(again)
    if len(occurrences) > 1 and any(char in text[len(lefts):] for char in '"0123456789'):
        d.nontrivial(what)
    d.label('multi', multi)
    d.label('irregular', not m.regular(val))
    d.label('quotes', '"' in text)


# Import -------------------------------------------------------------------------------------------

@prop(6000, 200000, 'a case is a CSV text made of a grid of cells (short and blank rows, quoted and '
      'unquoted cells, several line ends, a preamble) that is imported with random options (types, '
      'skipped rows, index column, duplicates, column names); non-trivial: at least two data rows '
      'and at least one option; distinct by text and options')
def reading(d):
    names = d.shuffle(NAMES)[:d.int(1, 4)]
    values = [TEXTS[1](d) for _ in range(3)] + ['', '7', 'x']
    grid = []
    for _ in range(d.extent(0, 6, 3)):
        width = len(names) if d.bool(0.8) else d.int(1, len(names))
        grid.append([d.pick(values) for _ in range(width)])
    blank_column = d.bool(0.2)
    if blank_column:
        pos = d.int(0, len(names) - 1)
        for row in grid:
            if pos < len(row):
                row[pos] = ''
    given = d.bool(0.3)
    end = d.pick(['\n', '\r\n'])
    lines = [] if given else [names]
    body = [','.join(quote(d, cell, len(row) == 1) for cell in row) for row in lines + grid]
    # Lines without anything are skipped.
    where = d.int(0, len(body)) if d.bool(0.2) else None
    if where is not None and (given or where > 0):
        body.insert(where, '')
    skip = d.weighted((3, 0), (1, 1), (1, 2))
    text = ''.join(line + end for line in ['preamble, with: "things'] * skip + body)
    if d.bool(0.3) and text.endswith(end) and body and body[-1]:
        text = text[:-len(end)]
    index = d.pick(['row', 'idx']) if d.bool(0.25) else None
    multi = index is None and d.bool(0.4)
    types = {}
    for name in names + ['unused']:
        kind = d.weighted((4, None), (1, 'len'), (1, 'upper'), (1, 'bytes'))
        if kind is not None:
            types[name] = {'len': len, 'upper': str.upper, 'bytes': lambda s: s.encode()}[kind]
    kwargs = {}
    for name, val, default in (('types', types, {}), ('skip_rows', skip, 0),
                               ('index_column', index, None), ('has_dup_rows', multi, False),
                               ('columns', names if given else None, None)):
        if val != default:
            kwargs[name] = val
    what = '{!r} with {}'.format(text, {key: val if key != 'types' else sorted(val)
                                        for key, val in kwargs.items()})
    d.note(what)
    result = {}
    for pos, row in enumerate(grid):
        cells = {name: types.get(name, str)(cell) for name, cell in zip(names, row) if cell != ''}
        if index is not None:
            cells[index] = pos
        rel = m.s_of(m.C(m.A(name), m.A(cell)) for name, cell in cells.items())
        result[rel] = result.get(rel, 0) + 1
    expected = m.m_of(result) if multi else m.s_of(result)
    given_args = {key: copy.copy(val) for key, val in kwargs.items()}
    if d.bool(0.08):
        # An import before this one fails.
        b.interrupted(d, str, lambda failing: import_csv(
            io.StringIO(text, newline=''),
            **dict(kwargs, types={name: failing for name in d.subset(names, 0.6)})))
        b.interrupted(d, str, lambda failing: import_csv(
            Reader(map(failing, text.splitlines(True))), **kwargs))
    if d.bool(0.7):
        file = io.StringIO(text, newline='')
        if skip and d.bool(0.3):
            # Somebody else has read the preamble already.
            for _ in range(kwargs.pop('skip_rows')):
                file.readline()
            given_args.pop('skip_rows')
        obj = import_csv(file, **kwargs)
        if file.closed or file.read():
            raise Fail('{}: the file is closed or not read'.format(what), 'file')
    else:
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, 'table.csv')
            with open(path, 'wb') as file:
                file.write(text.encode('utf-8'))
            if d.bool():
                obj = import_csv(path, **kwargs)
            else:
                with open(path, newline='', encoding='utf-8') as file:
                    obj = import_csv(file, **kwargs)
    b.check_equal(obj, expected, what)
    if kwargs != given_args:
        raise Fail('{}: the arguments were changed to {}'.format(what, kwargs), 'arguments')
    b.audit(obj, expected)
    for question in d.shuffle(b.questions(expected))[:3]:
        b.ask(obj, expected, question)
    if len(grid) > 1 and kwargs:
        d.nontrivial(what)
    d.label('irregular', not m.regular(expected))
    d.label('regular with blank column', blank_column and m.regular(expected) and len(grid) > 1)


class Reader:
    """A file that is read line by line."""

    def __init__(self, lines):
        self.lines = lines

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.lines)

    def readlines(self):
        return list(self.lines)


@prop(1500, 50000, 'a case is a table (clan or multiclan) whose columns are named by values of several '
      'types, exported with default or given columns; non-trivial: names of different types; '
      'distinct by table')
def columns(d):
    pool = ['a', 'B', 1, 2, 10, 2.5, (3, 4), None, b'x', 'z z', ('b',), 1j]
    names = d.shuffle(pool)[:d.int(1, 4)]
    rows = {}
    for _ in range(d.int(1, 4)):
        rel = m.s_of(m.C(m.A(name), m.A(d.pick(['x', 'y', 3]))) for name in names)
        rows[rel] = rows.get(rel, 0) + 1
    multi = d.bool()
    val = m.m_of(rows) if multi else m.s_of(rows)
    default = d.bool(0.7)
    what = '{} {}'.format(m.show(val), default)
    d.note(what)
    file = io.StringIO(newline='')
    got = export_csv(b.build_via(d, val, 0.2), file, **({} if default else {'ordered_lefts': names}))
    if got is not True:
        raise Fail('{}: {!r}'.format(what, got), 'refused')
    cells = parse(file.getvalue())
    texts = {'' if name is None else str(name): name for name in names}
    if sorted(cells[0]) != sorted(texts) or not default and cells[0] != [
            '' if name is None else str(name) for name in names]:
        raise Fail('{}: the header is {!r}'.format(what, cells[0]), 'header')
    order = [texts[text] for text in cells[0]]
    expected = [[str(dict((c[1], c[2][2]) for c in rel[1])[m.A(name)]) for name in order]
                for rel, count in rows.items() for _ in range(count if multi else 1)]
    if sorted(cells[1:]) != sorted(expected):
        raise Fail('{}: the rows are {!r}'.format(what, cells[1:]), 'rows')
    if len({type(name) for name in names}) > 1:
        d.nontrivial(what)


class Source(io.StringIO):
    """A text that does something whenever a line of it is read."""

    def __init__(self, text, action):
        super().__init__(text, newline='')
        self.action = action

    def __next__(self):
        self.action()
        return super().__next__()


@prop(1500, 50000, 'a case is two to four CSV texts where every import but the last starts the next '
      'one while it reads one of its lines or converts one of its cells; each result is what it is '
      'without the others; non-trivial: one is regular and another one is not; distinct by texts')
def nested(d):
    names = d.shuffle(['a', 'b', 'c'])
    grids, results = [], []
    for _ in range(d.int(2, 4)):
        holes = d.bool()
        grids.append([[d.pick(['x', 'y', '7']) if not holes or d.bool(0.7) else ''
                       for _ in names] for _ in range(d.size(0, 5, 3))])
    texts = [''.join(','.join(row) + '\n' for row in [names] + grid) for grid in grids]
    plans = [(d.bool(), d.int(0, len(grid)), d.bool(), d.bool(0.3)) for grid in grids]
    d.note(*zip(texts, plans))

    def load(pos):
        in_cell, when, multi, indexed = plans[pos]
        count = [0]

        def act(*cell):
            if count[0] == when and pos + 1 < len(texts):
                count[0] += 1
                load(pos + 1)
            count[0] += 1
            return cell[0] if cell else None

        args = {'has_dup_rows': multi} if multi else {'index_column': 'row'} if indexed else {}
        if in_cell:
            args['types'] = {names[0]: act, names[1]: act}
        results.append((pos, import_csv(Source(texts[pos], (lambda: None) if in_cell else act),
                                        **args)))

    load(0)
    kinds = set()
    for pos, obj in results:
        _, _, multi, indexed = plans[pos]
        result = {}
        for number, row in enumerate(grids[pos]):
            cells = {name: cell for name, cell in zip(names, row) if cell}
            if not any(row) and len(names) == 1:
                continue
            if indexed and not multi:
                cells['row'] = number
            rel = m.s_of(m.C(m.A(name), m.A(cell)) for name, cell in cells.items())
            result[rel] = result.get(rel, 0) + 1
        expected = m.m_of(result) if multi else m.s_of(result)
        what = 'import {} of {}'.format(pos, texts)
        b.check_equal(obj, expected, what)
        b.audit(obj, expected)
        kinds.add(m.regular(expected))
    if len(kinds) > 1:
        d.nontrivial(texts, plans)


@prop(2000, 50000, 'a case is an object that cannot be exported (not an absolute clan or multiclan, '
      'or not regular and no columns given): the export is refused and nothing is written; '
      'distinct by object')
def refused(d):
    u = b.Universe(d, 0.4)
    val = b.value(d, u)
    ok = m.absolute_clan(val) or m.absolute_multiclan(val)
    regular = ok and m.regular(val)
    given = d.bool()
    if ok and (regular or given):
        return
    d.note(m.show(val), given)
    obj = undef.Undef() if d.bool(0.02) else b.build_via(d, val, 0.3)
    file = io.StringIO()
    kwargs = {'ordered_lefts': ['a', 'b']} if given else {}
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, 'table.csv')
        got = [export_csv(obj, file, **kwargs), export_csv(obj, path, **kwargs)]
        if got != [False, False] or file.getvalue() or os.path.exists(path):
            raise Fail('exporting {}: {!r} {!r}'.format(m.show(val), got, file.getvalue()), 'refused')
    d.nontrivial(m.show(val), given)


CHILD = '''
from algebraixlib.import_export.csv import export_csv, import_csv
def run(cells, path):
    clan = mo.Set(mo.Set(mo.Couplet('a', cell)) for cell in cells)
    export_csv(clan, path)
    if import_csv(path) != clan:
        return 'read back as ' + ascii(import_csv(path))
'''


@prop(2, 20, 'a case is a batch of 40 tables that are written to and read from a file in a new '
      'process whose locale does not use UTF-8; distinct by batch')
def other_locale(d):
    batch = [[d.text('ab\u00e9\u4e2d,"', 1, 4, 2) for _ in range(d.int(1, 3))] for _ in range(40)]
    d.note(batch[:3])
    remote.elsewhere(CHILD, batch)
    d.nontrivial(batch)


TESTS = [round_trip, columns, reading, nested, refused, other_locale]
