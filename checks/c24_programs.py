"""C24: whole programs (a query over CSV, XML and RDF; deductions on a board) give right results."""
import contextlib
import datetime
import importlib.util
import io
import itertools
import os
import tempfile

from vlib import bridge as b
from vlib import engine
from vlib import model as m
from vlib.engine import Fail, prop

ASSUMPTIONS = [
    'The programs are those in the examples folder (they are used as they are). Tables have the '
    'columns that the query uses; prices and discounts are numbers whose products and sums are '
    'exact. The rules of the board program are sound, but not complete.']


def _load(path):
    import algebraixlib
    root = os.path.dirname(os.path.dirname(os.path.abspath(algebraixlib.__file__)))
    spec = importlib.util.spec_from_file_location(
        'example_' + os.path.basename(path)[:-3].replace('-', '_'),
        os.path.join(root, 'examples', path))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


query = _load('TPC-H_Query5/TPC-H_Query5.py')
sudoku = _load('sudoku.py')

# A query over CSV, XML and RDF --------------------------------------------------------------------

WORDS = ['x', 'even, regular "platelets"', '', '<b>', 'a & b', '\u00e9t\u00e9', "it's", 'two\nlines']
REGIONS = ['EUROPE', 'ASIA', 'MIDDLE EAST', 'A & B']
NATIONS = ['FRANCE', 'PERU', 'C\u00f4te', '"Q"', 'A,B']
DATES = [datetime.date(1994, 1, 1), datetime.date(1994, 6, 30), datetime.date(1995, 12, 31),
         datetime.date(1996, 1, 1), datetime.date(1997, 1, 1), datetime.date(2000, 2, 29)]


def xml_text(val):
    return val.replace('&', '&amp;').replace('<', '&lt;')


def csv_text(d, names, rows):
    lines = [names] + [[row.get(name, '') for name in names] for row in rows]

    def cell(val):
        val = str(val)
        return '"{}"'.format(val.replace('"', '""')) if d.bool(0.5) or any(
            char in val for char in ',"\n') else val

    return ''.join(','.join(cell(val) for val in line) + '\r\n' for line in lines)


def join(left, right):
    """The natural join of tables that are collections of dictionaries."""
    result = []
    for x, y in itertools.product(left, right):
        if all(x[key] == y[key] for key in x if key in y):
            result.append(dict(x, **y))
    return distinct(result)


def distinct(rows):
    return list({tuple(sorted(row.items())): row for row in rows}.values())


def project(rows, *names):
    return distinct({name: row[name] for name in names if name in row} for row in rows)


def to_model(rows):
    return m.s_of(m.s_of(m.C(m.A(key), m.A(val)) for key, val in row.items()) for row in rows)


def some(d, high):
    return d.int((high + 1) // 2, high) if d.bool(0.7) else d.int(0, high)


def data(d):
    """Generate the tables and the texts of the files."""
    keys = list(range(1, 1 + d.int(1, 4)))
    regions = []
    for name in REGIONS[:d.int(1, 4)]:
        nations = [{'name': d.pick(NATIONS), 'nationkey': d.pick(keys), 'comment': d.pick(WORDS)}
                   for _ in range(some(d, 4))]
        regions.append((name, nations))
    doc = ['<regions>\n']
    for number, (name, nations) in enumerate(regions):
        doc.append('  <region>\n<name>{}</name><regionkey>{}</regionkey>\n'.format(
            xml_text(name), number))
        if d.bool(0.7):
            doc.append('<comment>{}</comment>'.format(xml_text(d.pick(WORDS))))
        for nation in nations:
            parts = ['<{0}>{1}</{0}>'.format(key, xml_text(str(val)))
                     for key, val in nation.items() if key != 'comment' or d.bool(0.7)]
            doc.append('    <nation>{}</nation>\n'.format('\n'.join(d.shuffle(parts))))
        doc.append('  </region>\n')
    doc.append('</regions>\n')

    facts = []
    for number in range(some(d, 5)):
        subject = 'tpch:supplier-{}'.format(number)
        for predicate in ('suppkey', 'nationkey'):
            for _ in range(d.weighted((12, 1), (2, 2), (1, 0))):
                facts.append((subject, predicate, number if predicate == 'suppkey' and d.bool(0.8)
                              else d.pick(keys)))
        facts.append((subject, 'name', 'Supplier {}'.format(d.int(0, 3))))
    turtle = ''.join('<{}> <tpch:{}> {} .\n'.format(
        subject, predicate, val if isinstance(val, int) else '"{}"'.format(val))
        for subject, predicate, val in d.shuffle(facts))

    customers = [{'custkey': number if d.bool(0.8) else d.int(0, 3), 'name': d.pick(WORDS),
                  'nationkey': d.pick(keys), 'acctbal': d.pick([0.5, -3.25, 10.0]),
                  'comment': d.pick(WORDS)} for number in range(some(d, 6))]
    buyers = [row['custkey'] for row in customers] or [0]
    orders = [{'orderkey': number if d.bool(0.8) else d.int(0, 3),
               'custkey': d.pick(buyers) if d.bool(0.85) else d.int(0, 4),
               'orderdate': d.pick(DATES), 'totalprice': d.pick([0.5, 2.0]),
               'comment': d.pick(WORDS)} for number in range(some(d, 8))]
    for row in orders:
        if d.bool(0.05):
            del row['custkey']
    numbers = [row['orderkey'] for row in orders] or [0]
    sellers = [val for _, predicate, val in facts if predicate == 'suppkey'] or [0]
    items = [{'orderkey': d.pick(numbers) if d.bool(0.9) else d.int(0, 9),
              'suppkey': d.pick(sellers) if d.bool(0.9) else d.int(0, 4),
              'linenumber': d.int(1, 3), 'extendedprice': d.int(1, 12) * 0.25,
              'discount': d.pick([0.0, 0.25, 0.5])}
             for _ in range(some(d, 12))]
    texts = {
        'regions.xml': ''.join(doc), 'supplier.ttl': turtle,
        'customer.csv': csv_text(d, ['custkey', 'name', 'nationkey', 'acctbal', 'comment'],
                                 customers),
        'orders.csv': csv_text(d, ['orderkey', 'custkey', 'orderdate', 'totalprice', 'comment'],
                               orders),
        'lineitem.csv': csv_text(d, ['orderkey', 'suppkey', 'linenumber', 'extendedprice',
                                     'discount'], items)}
    return regions, facts, customers, orders, items, texts


@contextlib.contextmanager
def folder(texts):
    """A new current folder with these files."""
    before = os.getcwd()
    with tempfile.TemporaryDirectory() as path:
        os.chdir(path)
        try:
            for name, text in texts.items():
                with open(name, 'wb') as file:
                    file.write(text.encode('utf-8'))
            with contextlib.redirect_stdout(io.StringIO()):
                yield
        finally:
            os.chdir(before)


def summed(rows):
    """The sum of the revenues of the rows of each nation."""
    totals = {}
    for row in rows:
        totals[row['nationname']] = totals.get(row['nationname'], 0) + row['revenue']
    return [{'nationname': name, 'revenue': total} for name, total in totals.items()]


def _merged():
    """Two line items with the same revenue."""
    query.region_name, query.start_date, query.end_date = 'R', DATES[0], DATES[-1] + datetime.timedelta(1)
    with folder({
            'regions.xml': '<regions><region><name>R</name><nation><nationkey>1</nationkey><name>N</name></nation>'
                           '<nation><nationkey>2</nationkey><name>M</name></nation></region>'
                           '<region><name>Q</name><nation><nationkey>3</nationkey><name>O</name></nation>'
                           '<nation><nationkey>4</nationkey><name>P</name></nation></region></regions>',
            'supplier.ttl': '<x:s> <tpch:suppkey> 1; <tpch:nationkey> 1 .',
            'customer.csv': 'custkey,nationkey,acctbal\n1,1,0.5\n',
            'orders.csv': 'orderkey,custkey,orderdate,totalprice,shippriority\n1,1,{},1.0,0\n'.format(
                DATES[0].strftime('%Y-%m-%d')),
            'lineitem.csv': 'orderkey,suppkey,linenumber,extendedprice,discount\n1,1,1,2.0,0.0\n1,1,2,2.0,0.0\n'}):
        got = query.query5()
    return b.to_model(got) == to_model([{'nationname': 'N', 'revenue': 2.0}])


FINDINGS = {'KF-C24-1': _merged}


@prop(900, 40000, 'a case is a set of files (regions and nations in XML, suppliers in Turtle, three '
      'tables in CSV; missing and repeated rows, dangling keys, any characters) for which the '
      'program computes the revenue by nation; every step is compared with loops over the rows; '
      'non-trivial: the result is not empty; distinct by files and parameters')
def query5(d):
    regions, facts, customers, orders, items, texts = data(d)
    region = d.pick([name for name, _ in regions]) if d.bool(0.9) else d.pick(REGIONS)
    start, end = sorted([d.pick(DATES), d.pick(DATES)])
    if d.bool(0.6):
        start, end = DATES[0], DATES[-1] + datetime.timedelta(1)
    d.note(region, start, end, texts)

    nations = [dict(nationname=nation['name'], nationkey=nation['nationkey'])
               for name, some in regions if name == region for nation in some]
    nations = distinct(nations)
    suppliers = distinct(
        {'suppkey': key, 'nationkey': nation}
        for s1, p1, key in facts if p1 == 'suppkey'
        for s2, p2, nation in facts if p2 == 'nationkey' and s1 == s2)
    buyers = project(join(customers, nations), 'custkey', 'nationkey', 'nationname')
    recent = project([row for row in orders if start <= row['orderdate'] < end],
                     'orderkey', 'custkey')
    rows = join(join(join(suppliers, buyers), recent), items)
    revenues = [dict(row, revenue=row['extendedprice'] * (1 - row['discount']))
                for row in distinct(rows)]
    expected = summed(revenues)
    merged = summed(project(revenues, 'revenue', 'nationname'))

    query.region_name, query.start_date, query.end_date = region, start, end
    with folder(texts):
        if d.bool(0.6):
            result = query.query5()
            if merged != expected and 'KF-C24-1' in engine.LISTED and to_model(merged) == b.to_model(result):
                d.exclude('KF-C24-1')
                expected = merged
            steps = [('result', result, expected)]
        else:
            steps = [('nations', query.get_nations(region), nations),
                     ('suppliers', query.get_supplier_solutions(), suppliers)]
            steps.append(('customers', query.get_customers_nations_projected(steps[0][1]), buyers))
            steps.append(('orders', query.get_orders_restricted_projected(start, end), recent))
    for name, obj, table in steps:
        val = to_model(table)
        b.check_equal(obj, val, name)
        b.audit(obj, val)
    d.label('no such nation', not nations)
    if expected:
        d.nontrivial(texts, region, start, end)


# Deductions on a board ----------------------------------------------------------------------------

BASE = '483921657967345821251876493548132976729564138136798245372689514814253769695417382'


def solution(d):
    """A completed board: the base with digits, rows, columns, bands and stacks exchanged."""
    digits = d.shuffle('123456789')
    rows = [3 * band + row for band in d.shuffle(range(3)) for row in d.shuffle(range(3))]
    cols = [3 * stack + col for stack in d.shuffle(range(3)) for col in d.shuffle(range(3))]
    board = [[digits[int(BASE[9 * row + col]) - 1] for col in cols] for row in rows]
    if d.bool():
        board = [list(row) for row in zip(*board)]
    return ''.join(''.join(row) for row in board)


STEPS = {'values': lambda board: sudoku.check_values(board),
         'rows': lambda board: sudoku.check_rows(board, 1),
         'cols': lambda board: sudoku.check_cols(board, 1),
         'blocks': lambda board: sudoku.check_blocks(board)}


def read(board, what):
    """Return the digits on a board after checking that every cell is complete."""
    val = b.to_model(board, what)
    cells = {}
    for rel in val[1]:
        cell = {c[1][2]: c[2][2] for c in rel[1]}
        place = (cell.get('row'), cell.get('col'))
        if len(cell) != len(rel[1]) or place in cells or None in place or not set(cell) <= {
                'row', 'col', 'band', 'stack', 'value'} \
                or cell.get('band') != (place[0] - 1) // 3 + 1 \
                or cell.get('stack') != (place[1] - 1) // 3 + 1:
            raise Fail('{}: the cell {}'.format(what, m.show(rel)), 'cell')
        cells[place] = str(cell.get('value', 0))
    if len(cells) != 81:
        raise Fail('{}: {} cells'.format(what, len(cells)), 'cells')
    return ''.join(cells[row, col] for row in range(1, 10) for col in range(1, 10))


def complete(digits):
    """Whether some rule must apply: a unit in which exactly one digit is missing."""
    units = [[9 * row + col for col in range(9)] for row in range(9)]
    units += [[9 * row + col for row in range(9)] for col in range(9)]
    return any(sum(digits[cell] == '0' for cell in unit) == 1 for unit in units)


@prop(48, 2000, 'a case is a board made from a solution by removing digits (at random, or whole '
      'units, or all but a few of one digit) to which the deduction rules are applied in any '
      'sequence, or the whole program; every digit that is placed is that of the solution, no digit '
      'vanishes, and a single gap in a row or column is filled; non-trivial: a digit was placed; '
      'distinct by board')
def board(d):
    answer = solution(d)
    how = d.weighted((3, 'random'), (2, 'few'), (1, 'digit'), (1, 'block'))
    gaps = set(d.shuffle(range(81))[:d.int(20, 52) if how == 'random' else d.int(1, 12)])
    if how == 'digit':
        gaps |= {pos for pos in range(81) if answer[pos] in '12'}
    if how == 'block':
        gaps |= {pos for pos in range(81) if pos // 9 // 3 == 1 and pos % 9 // 3 == 1}
    puzzle = ''.join('.' if pos in gaps else digit for pos, digit in enumerate(answer))
    d.note(puzzle)
    d.label(how)
    state = sudoku.make_board(puzzle)
    before = read(state, 'new board')
    if before != puzzle.replace('.', '0') or sudoku.get_string(state) != before:
        raise Fail('the new board {} is {}'.format(puzzle, before), 'new')
    if d.bool(0.4):
        plan = ['solve']
    else:
        plan = [d.pick(sorted(STEPS)) for _ in range(d.int(1, 3))]
    first = before
    for name in plan:
        what = '{} after {}'.format(name, before)
        d.note(name)
        state = sudoku.solve_board(state) if name == 'solve' else STEPS[name](state)
        after = read(state, what)
        for old, new, right in zip(before, after, answer):
            if new not in ('0', right) or old != '0' and new != old:
                raise Fail('{} of {}: {}, which differs from {}'.format(
                    name, before, after, answer), 'wrong')
        if name == 'rows' and any(before[9 * row:9 * row + 9].count('0') == 1
                                  and after[9 * row:9 * row + 9].count('0') for row in range(9)) \
                or name == 'cols' and any(before[col::9].count('0') == 1
                                          and after[col::9].count('0') for col in range(9)) \
                or name == 'solve' and complete(after):
            raise Fail('{} of {}: a gap remains in {}'.format(name, before, after), 'gap')
        b.audit(state)
        if sudoku.get_string(state) != after or sudoku.check_done(state) is not ('0' not in after):
            raise Fail('{}: {}'.format(what, sudoku.get_string(state)), 'string')
        before = after
    d.label('solved', '0' not in before)
    if before != first:
        d.nontrivial(puzzle, plan)


TESTS = [query5, board]
