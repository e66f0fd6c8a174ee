"""C21: LaTeX, HTML and readable text show the whole object, the same way for equal objects."""
import contextlib
import html
import html.parser
import io
import re

import algebraixlib.mathobjects as mo
import algebraixlib.undef as undef
from algebraixlib.util import html as html_util
from algebraixlib.util import latexprinter
from algebraixlib.util.latexprinter import math_object_to_latex
from algebraixlib.util.mathobjectprinter import mo_to_str
from algebraixlib.util.miscellaneous import FunctionTimer, print_var

from vlib import bridge as b
from vlib import model as m
from vlib.engine import Fail, prop

ASSUMPTIONS = [
    'For LaTeX and readable text, atoms are text without braces and quotes, or numbers (LaTeX in '
    'values is passed through). Line breaks and indentation are left open.',
    'print_var and FunctionTimer: values without blank lines.']
TEXTS = ['a', 'b', 'c', 'name', 'a_b', 'a longer text of several words', 'exactly 12c', 'x' * 11,
         'x' * 30, '', ' ', '$', '<&>', '<b>x', '&amp;']


class Universe(b.Universe):
    def __init__(self, d):
        super().__init__(d, 0)
        self.scale = 1
        self.values = [m.A(val) for val in d.shuffle(
            TEXTS + [0, 1, 2, -3, 1.5, True, 12345678901, 123456789012345])[:d.int(3, 12)]]
        self.lefts = self.rights = self.values


def value(d, u):
    kind = d.weighted((5, b.value), (1, 'big'), (1, 'mixed'), (1, 'bigm'), (0.02, 'huge'), (0.1, b.deep))
    if kind == 'huge':
        return b.Giant(d, 600, plain=True).make(d.pick(['set', 'mset', 'clan']))
    if kind == 'big':
        return m.s_of(m.A(i) for i in range(
            d.pick([40, 101, 200, 300]) if d.bool(0.03) else d.int(4, 9)))
    if kind == 'bigm':
        return m.m_of({b.any_value(d, u, 1): b.count(d) for _ in range(d.int(3, 9))})
    if kind == 'mixed':
        return m.s_of(b.couplet(d, u) if d.bool() else b.any_value(d, u, 0)
                      for _ in range(d.int(2, 9)))
    return kind(d, u)


# LaTeX --------------------------------------------------------------------------------------------

class Latex:
    """A parser of the LaTeX that is written. Results in trees:
    ('atom', text), ('couplet', left, right), ('set', items, rest), ('mset', pairs, rest)."""

    def __init__(self, text):
        self.text, self.pos = text, 0

    def accept(self, *tokens):
        for token in tokens:
            if self.text.startswith(token, self.pos):
                self.pos += len(token)
                return token
        return None

    def expect(self, *tokens):
        result = self.accept(*tokens)
        if result is None:
            raise Fail('LaTeX {!r}: expected {} at {}'.format(self.text, tokens, self.pos), 'latex')
        return result

    def until(self, token):
        end = self.text.find(token, self.pos)
        if end < 0:
            raise Fail('LaTeX {!r}: expected {}'.format(self.text, token), 'latex')
        result, self.pos = self.text[self.pos:end], end + len(token)
        return result

    def parse(self):
        result = self.value()
        if self.pos != len(self.text):
            raise Fail('LaTeX {!r}: unexpected text at {}'.format(self.text, self.pos), 'latex')
        return result

    def value(self):
        left = self.primary()
        if self.accept(r'{\mapsto}{'):
            right = self.value()
            self.expect('}')
            return ('couplet', left, right)
        return left

    def primary(self):
        token = self.expect(r'\mbox{', r'\color{', r'\left(', r'\left\{', r'\left[', '(')
        if token == r'\mbox{':
            return ('atom', self.until('}'))
        if token == r'\color{':
            self.until('}{')
            result = self.value()
            self.expect('}')
            return result
        if token in (r'\left(', '('):
            result = self.value()
            self.expect(r'\right)' if token == r'\left(' else ')')
            return result
        end = r'\right\}' if token == r'\left\{' else r'\right]'
        array = self.accept(r'\begin{array}{l}')
        sep, end = (',\\\\\n', r'\end{array}' + end) if array else (r',\ ', end)
        items, rest = [], None
        while not self.accept(end):
            if items:
                self.expect(sep)
            if self.accept(r'\text{...}('):
                rest = int(self.until(')'))
                self.expect(end)
                break
            item = self.value()
            if token == r'\left[':
                self.expect(r':\ ')
                count = re.match('[0-9]+', self.text[self.pos:]).group()
                self.pos += len(count)
                item = (item, int(count))
            items.append(item)
        return ('set' if token == r'\left\{' else 'mset', items, rest)


def shown(val):
    """The tree that is expected for a model; items unordered."""
    if val[0] == 'A':
        return ('atom', repr(val[2]))
    if val[0] == 'C':
        return ('couplet', shown(val[1]), shown(val[2]))
    if val[0] == 'S':
        return ('set', frozenset(map(shown, val[1])), None)
    return ('mset', frozenset((shown(elem), count) for elem, count in val[1]), None)


def unordered(tree):
    if tree[0] == 'atom':
        return tree
    if tree[0] == 'couplet':
        return ('couplet', unordered(tree[1]), unordered(tree[2]))
    if tree[0] == 'set':
        items = [unordered(item) for item in tree[1]]
    else:
        items = [(unordered(item), count) for item, count in tree[1]]
    if len(items) != len(set(items)):
        raise Fail('an element is shown twice: {}'.format(tree), 'twice')
    return (tree[0], frozenset(items), tree[2])


def shortened(tree, atom_len, set_len):
    """What the short version of a tree must be."""
    if tree[0] == 'atom':
        text = tree[1]
        return ('atom', text[:atom_len] + '...' if len(text) > atom_len + 3 else text)
    if tree[0] == 'couplet':
        return ('couplet',) + tuple(shortened(part, atom_len, set_len) for part in tree[1:])
    items, rest = tree[1], None
    if len(items) > set_len + 1:
        rest = len(items) - set_len if tree[0] == 'set' else sum(
            count for _, count in items[set_len:])
        items = items[:set_len]
    if tree[0] == 'set':
        return ('set', [shortened(item, atom_len, set_len) for item in items], rest)
    return ('mset', [(shortened(item, atom_len, set_len), count) for item, count in items], rest)


@contextlib.contextmanager
def config(colors, atom_len, set_len):
    conf = latexprinter.Config
    old = conf.colorize_output, conf.short_atom_len, conf.short_set_len
    conf.colorize_output, conf.short_atom_len, conf.short_set_len = colors, atom_len, set_len
    try:
        yield
    finally:
        conf.colorize_output, conf.short_atom_len, conf.short_set_len = old


@prop(4000, 120000, 'a case is an object (nested, large, mixed) rendered as LaTeX, in full and '
      'short, with up to three configurations one after the other, parsed by an independent parser; '
      'equal objects made in other ways give the same; non-trivial: the object is nested or large; '
      'distinct by object')
def latex(d):
    u = Universe(d)
    val = value(d, u)
    d.note(m.show(val))
    obj = b.build_via(d, val, 0.3)
    for _ in range(d.weighted((4, 1), (1, 2), (1, 3))):
        one_latex(d, val, obj)
    b.check_equal(obj, val, 'the object after rendering')


def one_latex(d, val, obj):
    colors = d.bool()
    atom_len, set_len = d.pick([10, 10, 3, 0, 20]), d.pick([4, 4, 1, 2, 6])
    d.note(colors, atom_len, set_len)
    with config(colors, atom_len, set_len):
        if d.bool(0.3):
            math_object_to_latex(obj, short=d.bool())
        full, short = math_object_to_latex(obj), math_object_to_latex(obj, short=True)
        other = b.build_via(d, val, 0.3)
        if math_object_to_latex(other) != full or math_object_to_latex(other, True) != short:
            raise Fail('{}: equal objects give different LaTeX: {!r} {!r} / {!r} {!r}'.format(
                m.show(val), full, math_object_to_latex(other), short,
                math_object_to_latex(other, True)), 'canonical')
        plain = math_object_to_latex(undef.Undef()), math_object_to_latex(12)
    if plain != (r'\mathit{undef}', '12'):
        raise Fail('Undef() and 12 give {}'.format(plain), 'plain')
    tree = Latex(full).parse()
    if unordered(tree) != shown(val):
        raise Fail('{} is shown as {!r}'.format(m.show(val), full), 'full')
    expected = shortened(tree, atom_len, set_len)
    got = Latex(short).parse()
    if got != expected:
        raise Fail('{} is shown short as {!r}'.format(m.show(val), short), 'short')
    if ('color' in full) != (colors and 'mapsto' in full):
        raise Fail('{!r}: colors are {}'.format(full, colors), 'colors')
    if val[0] != 'A':
        d.nontrivial(m.show(val), colors, atom_len, set_len)
    d.label('shortened', full != short)


# Readable text ------------------------------------------------------------------------------------

FULL = re.compile(r"\s*(Couplet\(left=|,\s*right=|Set\(\{|Multiset\(\{|\}\)|Atom\((?:'[^']*'|[^()]*)\)"
                  r"|\)|,)\s*")
BRIEF = re.compile(r"\s*(->|[(){},]|'[^']*'|[^\s(){},'>]+?(?=->|[\s(){},]|$))\s*")


def tokens(text, pattern):
    result, pos = [], 0
    while pos < len(text):
        match = pattern.match(text, pos)
        if match is None:
            raise Fail('{!r}: cannot be read at {}'.format(text, pos), 'text')
        result.append(match.group(1))
        pos = match.end()
    return result


class Readable:
    def __init__(self, text, brief):
        self.text, self.brief = text, brief
        self.tokens = tokens(text, BRIEF if brief else FULL)
        self.pos = 0

    def next(self):
        if self.pos >= len(self.tokens):
            raise Fail('{!r} ends too early'.format(self.text), 'text')
        self.pos += 1
        return self.tokens[self.pos - 1]

    def expect(self, *wanted):
        got = self.next()
        if re.sub(r'\s', '', got) not in wanted:
            raise Fail('{!r}: {!r} instead of {}'.format(self.text, got, wanted), 'text')

    def parse(self):
        result = self.value()
        if self.pos != len(self.tokens):
            raise Fail('{!r}: surplus text'.format(self.text), 'text')
        return result

    def value(self):
        token = self.next()
        if token in ('(', 'Couplet(left='):
            left = self.value()
            self.expect('->', ',right=')
            right = self.value()
            self.expect(')')
            return ('couplet', left, right)
        if token in ('{', 'Set({', 'Multiset({'):
            items = []
            while self.tokens[self.pos:self.pos + 1] not in (['}'], ['})']):
                items.append(self.value())
                if self.tokens[self.pos:self.pos + 1] == [',']:
                    self.pos += 1
                elif items[-1][0] == 'atom' \
                        and self.tokens[self.pos:self.pos + 1] not in (['}'], ['})']):
                    raise Fail('{!r}: nothing after {!r}'.format(self.text, items[-1]), 'text')
            self.pos += 1
            return ('{' if self.brief else token[:-2],
                    tuple(sorted(items, key=repr)))
        if token in (',', ')', '}', '})') or (not self.brief and not token.startswith('Atom(')):
            raise Fail('{!r}: unexpected {!r}'.format(self.text, token), 'text')
        return ('atom', token if self.brief else token[5:-1])


def readable(val, brief):
    if val[0] == 'A':
        return ('atom', repr(val[2]))
    if val[0] == 'C':
        return ('couplet', readable(val[1], brief), readable(val[2], brief))
    if val[0] == 'S':
        items, name = [readable(elem, brief) for elem in val[1]], 'Set('
    else:
        items = [readable(elem, brief) for elem, count in val[1] for _ in range(count)]
        name = 'Multiset('
    return ('{' if brief else name[:-1], tuple(sorted(items, key=repr)))


@prop(4000, 120000, 'a case is an object written as readable text (abbreviated or not, any indent), '
      'parsed by an independent parser, then with a limited line length; non-trivial: it is nested; '
      'distinct by object and options')
def text(d):
    u = Universe(d)
    val = value(d, u)
    d.note(m.show(val))
    obj = b.build_via(d, val, 0.3)
    for _ in range(d.weighted((4, 1), (1, 2))):
        one_text(d, val, obj)


def one_text(d, val, obj):
    brief, indent_text = d.bool(), d.pick(['   ', '', ' ', '\t'])
    indent = d.pick(['', '', '  '])
    d.note(brief, repr(indent_text))
    full = mo_to_str(obj, brief, indent_text, indent, max_line_len=10 ** 6)
    if Readable(full, brief).parse() != readable(val, brief):
        raise Fail('{} is written as {!r}'.format(m.show(val), full), 'text')
    width = d.pick([95, 60, 30, 10])
    cut = mo_to_str(obj, brief, indent_text, indent, max_line_len=width)
    full_lines, cut_lines = full.split('\n'), cut.split('\n')
    if len(full_lines) != len(cut_lines):
        raise Fail('{!r} became {!r}'.format(full, cut), 'lines')
    for line, short in zip(full_lines, cut_lines):
        if line == short:
            continue
        # Only the right of a couplet is shortened, and only if the line is too long.
        parts = short.rsplit('...)', 1)
        if len(parts) != 2 or parts[1] or not line.startswith(parts[0]) or not line.endswith(')'):
            raise Fail('{!r} became {!r} ({})'.format(line, short, width), 'cut')
    if 'C' in str(val):
        d.nontrivial(m.show(val), brief, indent_text, width)
    d.label('cut', full != cut)


@prop(2000, 50000, 'a case is a couplet of atoms with a long right and a line length: it is cut to '
      'exactly fit; distinct by couplet and length')
def line_length(d):
    right = d.text('ab c', 0, 60, 25)
    width = d.int(25, 70)
    brief = d.bool()
    val = m.C(m.A('k'), m.A(right))
    d.note(repr(right), width, brief)
    full = mo_to_str(b.build(val), brief, max_line_len=10 ** 6)
    cut = mo_to_str(b.build(val), brief, max_line_len=width)
    if len(full) <= width:
        if cut != full:
            raise Fail('{!r} was cut to {!r} ({})'.format(full, cut, width), 'cut')
        return
    if cut != full and (not cut.endswith('...)\n') or not full.startswith(cut[:-5])
                        or len(cut.rstrip('\n')) > width and not cut.endswith(('right=...)\n', '->...)\n'))):
        raise Fail('{!r} became {!r} ({})'.format(full, cut, width), 'cut')
    if cut == full and len(full) > width + 2:
        raise Fail('{!r} was not cut ({})'.format(full, width), 'cut')
    d.nontrivial(right, width, brief)


# HTML ---------------------------------------------------------------------------------------------

class Page(html.parser.HTMLParser):
    """Collects the text of the elements with an id and checks that elements are balanced."""

    def __init__(self, page):
        super().__init__(convert_charrefs=True)
        self.stack, self.found = [], []
        self.feed(page)
        self.close()
        if self.stack:
            raise Fail('{!r}: {} is not closed'.format(page, self.stack), 'html')

    def handle_starttag(self, tag, attrs):
        if tag == 'br':
            if self.found and self.found[-1][2] is not None:
                self.found[-1][1] += '\0'
            return
        self.stack.append(tag)
        if dict(attrs).get('id'):
            self.found.append([dict(attrs)['id'], '', len(self.stack)])

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag != 'br':
            self.handle_endtag(tag)

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1] != tag:
            raise Fail('<{}> ends within {}'.format(tag, self.stack), 'html')
        if self.found and self.found[-1][2] == len(self.stack):
            self.found[-1][2] = None
        self.stack.pop()

    def handle_data(self, data):
        if self.found and self.found[-1][2] is not None:
            self.found[-1][1] += data

    def texts(self):
        return [(name, content) for name, content, _ in self.found]


@prop(2500, 60000, 'a case is a page with any title and objects, containers or other data with '
      'titles and descriptions full of special characters, default or own templates, read by an '
      'HTML parser; non-trivial: something needs escaping; distinct by contents')
def pages(d):
    u = Universe(d)
    chars = 'ab<>&"\'{} \u00e9;/'

    def word():
        return d.text(chars, 0, 8, 4)
    title = word()
    items, expected = [], [('page_title', title)]
    for _ in range(d.size(0, 3, 1.5)):
        kind = d.weighted((3, 'object'), (1, 'list'), (1, 'text'), (1, 'number'))
        if kind == 'object':
            content = b.build(b.value(d, u))
            text_ = '$$' + math_object_to_latex(content) + '$$'
        elif kind == 'list':
            content = [b.build(b.value(d, u)) if d.bool(0.8) else d.pick([12, 'a<b', None])
                       for _ in range(d.int(0, 3))]
            text_ = ''.join(
                '$$' + math_object_to_latex(elem) + '$$\0' if isinstance(elem, mo.MathObject)
                else str(elem) + '\0' for elem in content)
        else:
            content = word() if kind == 'text' else 12
            text_ = str(content)
        items.append(html_util.DataAlgebraHtmlDescriptor(word(), content, word()))
        expected += [('input_title', items[-1].input_title),
                     ('description_brief', items[-1].description_brief),
                     ('data_algebra_construct', text_)]
    d.note(title, items)
    own = d.bool(0.3)
    if own:
        page = html_util.math_object_as_html(
            title, items, '<html><p id="page_title">{page_title}</p>', '</html>',
            '<b id="input_title">{input_title}</b><b id="description_brief">{description_brief}</b>'
            '<b id="data_algebra_construct">{data_algebra_construct}</b>')
    else:
        page = html_util.math_object_as_html(title, items)
    got = Page(page).texts()
    if [name for name, _ in got] != [name for name, _ in expected]:
        raise Fail('{!r}: {}'.format(page, got), 'parts')
    for (name, content), (_, wanted) in zip(got, expected):
        if '\0' in wanted:
            # A list: each object on its own line, prepended by what loads the extensions.
            content = content.replace(
                '\\(\\require{color}\\)\\(\\require{xcolor}\\)', '').replace('$$ \0', '$$\0')
        if content.strip() != wanted.strip():
            raise Fail('{}: {!r} instead of {!r} in {!r}'.format(name, content, wanted, page), name)
    if set('<>&') & set(title + ''.join(str(item[0]) + str(item[2]) for item in items)):
        d.nontrivial(repr(items), title)


@prop(800, 20000, 'a case is an object shown on a simple page, or a list of objects turned into '
      'descriptors; distinct by object')
def simple(d):
    u = Universe(d)
    val = b.value(d, u)
    d.note(m.show(val))
    obj = b.build(val)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        page = html_util.create_simple_web_page(obj)
    got = dict(Page(page).texts())
    if got.get('dataAlgebraArea') != str(obj):
        raise Fail('{!r} is shown as {!r}'.format(str(obj), got), 'input')
    if got.get('latexArea', '').split('\\)', 1)[-1].strip() != math_object_to_latex(obj) + '$$':
        raise Fail('{!r} is shown as {!r}'.format(math_object_to_latex(obj), got), 'output')
    objs = [obj, b.build(b.value(d, u))]
    descs = html_util.build_descriptors_from_math_obj(objs)
    if [(desc.input_title, desc.data_algebra_construct) for desc in descs] != [
            (str(item), item) for item in objs]:
        raise Fail('{}: descriptors {}'.format(objs, descs), 'descriptors')
    if val[0] != 'A':
        d.nontrivial(m.show(val))


# Printing -----------------------------------------------------------------------------------------

def indented(text_, first, indent):
    lines = text_.split('\n')
    return '\n'.join((first if index == 0 else indent) + line for index, line in enumerate(lines))


@prop(2000, 50000, 'a case is a variable (text with braces and line breaks, an object, a number) '
      'printed with random options, from its own frame or a deeper one; distinct by all of them')
def variables(d):
    u = Universe(d)
    kind = d.weighted((3, 'text'), (2, 'object'), (1, 'number'))
    variable = b.build(b.value(d, u)) if kind == 'object' else 12 if kind == 'number' else \
        'x' + d.text('ab{}%', 0, 9, 5) + d.pick(['', '\n{0}', '\n  y'])
    args = {}
    if d.bool(0.3):
        args['short'] = d.bool()
    if d.bool(0.4):
        args['max_length'] = d.pick([None, 0, 1, 3, 8, 1000])
    if d.bool(0.4):
        args['append'] = d.pick(['.', '{}', '{x}', ' }', '{{'])
    if d.bool(0.4):
        args['indent'] = d.pick(['', '  ', '> '])
    if d.bool(0.3):
        args['indent_first'] = d.pick(['', '   ', '* '])
    skip = d.bool(0.1)
    if skip or d.bool(0.1):
        args['skip'] = skip
    frames = d.int(0, 2)
    d.note(repr(variable), args, frames)

    def deeper(up):
        if up == frames:
            print_var('variable', frames_up=frames, **args)
        else:
            deeper(up + 1)

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if frames == 0:
            print_var('variable', **args)
        else:
            deeper(1)
    content = str(variable)
    limit = args.get('max_length', 10000)
    if limit is not None and len(content) > limit:
        content = content[:limit] + '...'
    length = '' if kind == 'number' else '(len {})'.format(len(variable)) \
        if hasattr(variable, '__len__') else ''
    expected = 'variable' + length + ' ' + ('' if args.get('short') else '= ' + content) \
        + args.get('append', '')
    indent = args.get('indent', '')
    expected = indented(expected, args.get('indent_first', indent), indent) + '\n'
    if skip:
        expected = ''
    if out.getvalue() != expected:
        raise Fail('{!r} with {}: printed {!r}, expected {!r}'.format(
            variable, args, out.getvalue(), expected), 'printed')
    if kind != 'number':
        d.nontrivial(repr(variable), sorted(map(repr, args.items())), frames)


@prop(1000, 30000, 'a case is a nest of timed functions (laps with variables or descriptions, '
      'prints, quiet ones, ended or left through an exception); the log has every message once, at '
      'the depth of its function; non-trivial: two levels; distinct by program')
def timers(d):
    expected, program = [], []
    depth_before = FunctionTimer._indent

    class Stop(Exception):
        pass

    def pad(depth):
        return ' ' * (3 * depth)

    def function(depth, quiet, left):
        value_ = d.pick(['v', '{v}', 'two\nlines'])
        program.append((depth, quiet))
        with FunctionTimer(notime=True, quiet=quiet, args=['depth', 'left']) as timer:
            def log(line):
                if not quiet:
                    expected.append(line)
            log('{}...function START (args: depth: {}; left: {})'.format(
                pad(depth), depth, left))
            for _ in range(d.size(0, 3, 1.5)):
                kind = d.weighted((2, 'call'), (1, 'lap'), (1, 'var'), (1, 'desc'), (1, 'print'),
                                  (1, 'skip'))
                program.append(kind)
                if kind == 'call' and left > 0:
                    try:
                        function(depth + 1, d.bool(0.2), left - 1)
                    except Stop:
                        pass
                elif kind == 'lap':
                    timer.lap()
                    log(pad(depth) + '...function LAP')
                elif kind == 'var':
                    timer.lap('value_')
                    log(pad(depth) + '...function LAP: ' + indented(
                        'value_(len {}) = {}'.format(len(value_), value_), '', pad(depth + 1)))
                elif kind == 'desc':
                    timer.lap(desc='{some} text')
                    log(pad(depth) + '...function LAP: {some} text')
                elif kind == 'skip':
                    timer.lap('value_', skip=True)
                elif kind == 'print':
                    timer.print('a', 1, '{}')
                    log(pad(depth + 1) + 'a 1 {}')
            how = d.weighted((4, 'end'), (1, 'end value'), (1, 'raise'), (1, 'fall'))
            program.append(how)
            if how == 'end':
                timer.end()
                log(pad(depth) + '...function END')
            elif how == 'end value':
                timer.end('value_')
                log(pad(depth) + '...function END: ' + indented(
                    'value_(len {}) = {}'.format(len(value_), value_), '', pad(depth + 1)))
            elif how == 'raise':
                raise Stop()

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for _ in range(d.int(1, 2)):
            try:
                function(0, False, 3)
            except Stop:
                pass
    d.note(program)
    lines = '\n'.join(expected) + '\n'
    if out.getvalue() != lines:
        raise Fail('printed\n{}\nexpected\n{}'.format(out.getvalue(), lines), 'log')
    if FunctionTimer._indent != depth_before:
        raise Fail('the depth is {} afterwards'.format(FunctionTimer._indent), 'depth')
    if any(isinstance(step, tuple) and step[0] > 0 for step in program):
        d.nontrivial(program)


TESTS = [latex, text, line_length, pages, simple, variables, timers]
