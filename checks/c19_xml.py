"""C19: XML import keeps every element, attribute and text; pretty printing keeps the document."""
import io
import os
import tempfile

from algebraixlib.import_export.xml import import_xml, xml_to_str
from algebraixlib.util.miscellaneous import core

from vlib import bridge as b
from vlib import model as m
from vlib import remote
from vlib.engine import Fail, prop

ASSUMPTIONS = [
    'Documents are UTF-8. Text is compared without surrounding white space. With conversion of '
    'numbers, a text is a number if Python accepts it as int or float (NaN, infinities and digit '
    'groups with underscores are left open).',
    'Pretty printing removes blank lines (documented as removing duplicate white space); documents '
    'with blank lines in a text or line breaks in attributes are left out there.']
TAGS = ['a', 'b', 'name', 'row', 'x-y', 'n.1', '\u00e9', 'ns:t']
TEXTS = ['x', 'y', '12', '-3', '1.5', '1e3', '007', '0x10', '1,000', 'a b', '<&>', '"q"', "it's",
         '\u4e2d\U0001f600', ']]', '12 13', 'true', '-', '+5', '.5', '5.']


class Node:
    def __init__(self, tag, attrs, children):
        self.tag, self.attrs, self.children = tag, attrs, children


def text(d):
    if d.bool(0.7):
        return d.pick(TEXTS)
    return ' '.join(d.pick(TEXTS) for _ in range(d.int(1, 3))) * (
        d.int(20, 9000) if d.bool(0.02) else 1)


def element(d, depth, lines):
    """``lines``: whether texts may have blank lines and attributes line breaks."""
    attrs = {}
    for _ in range(d.size(0, 3, 0.8)):
        val = d.pick(TEXTS + ['', ' 7 '])
        if lines and d.bool(0.1):
            val += '\nz'
        attrs[d.pick(['id', 'name', 'k', 'a', 'ns:k'])] = val
    children = []
    for _ in range(d.extent(0, 5, 1.8, 60)):
        kind = d.weighted((4, 'element'), (3, 'text'), (1, 'cdata'), (1, 'comment'), (1, 'pi'))
        if kind == 'element' and depth == 0:
            continue
        if kind == 'element':
            children.append(element(d, depth - 1, lines))
        elif kind == 'text':
            if not (children and children[-1][0] == 'text' if children and isinstance(
                    children[-1], tuple) else False):
                val = text(d) + (d.pick(['\nz', '\n\n z']) if lines and d.bool(0.1) else '')
                children.append(('text', val))
        elif kind == 'cdata':
            children.append(('cdata', text(d) if d.bool(0.9) else ' '))
        else:
            children.append((kind, 'note'))
    return Node(d.pick(TAGS), attrs, children)


def escape(d, val, quote=None):
    result = ''
    for char in val:
        if char in '<&' or char == quote or (char == '>' and d.bool(0.7)):
            names = {'<': '&lt;', '&': '&amp;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}
            result += names[char] if d.bool(0.8) else '&#{};'.format(ord(char))
        elif char == '\n' and quote:
            result += '&#10;'
        elif char == '>':
            result += char
        elif d.bool(0.02):
            result += '&#x{:X};'.format(ord(char))
        else:
            result += char
    return result


def write(d, node, space):
    """Return the XML text of ``node``."""
    if isinstance(node, tuple):
        kind, val = node
        if kind == 'text':
            val = escape(d, val)
            return ('\n  ' + val + ' \t\n') if d.bool(0.2) else val
        return {'cdata': '<![CDATA[{}]]>', 'comment': '<!-- {} -->', 'pi': '<?do {}?>'}[
            kind].format(val)
    result = '<' + node.tag
    for name, val in node.attrs.items():
        quote = d.pick('"\'')
        result += ' {}={}{}{}'.format(name, quote, escape(d, val, quote), quote)
    if any(name.startswith('ns:') for name in list(node.attrs) + [node.tag]):
        # The prefix is declared by the root element.
        pass
    if not node.children and d.bool():
        return result + '/>'
    parts = []
    for child in node.children:
        # White space next to a text belongs to it.
        parts.append('\n   ' if space and d.bool(0.6) else '')
        parts.append(write(d, child, space))
    return result + '>' + ''.join(parts) + ('\n' if space else '') + '</' + node.tag + '>'


def number(val):
    for kind in (int, float):
        try:
            return kind(val)
        except ValueError:
            pass
    return val


def convert(node, conv):
    couplets = []
    for name, val in node.attrs.items():
        couplets.append(m.C(m.A(name), m.A(conv(val))))
    for child in node.children:
        if isinstance(child, Node):
            couplets.append(convert(child, conv))
        elif child[0] in ('text', 'cdata') and child[1].strip():
            couplets.append(m.C(m.A('$'), m.A(conv(child[1].strip()))))
    content = m.s_of(couplets)
    if len(content[1]) == 1:
        only = next(iter(content[1]))
        if only[1] == m.A('$'):
            content = only[2]
    return m.C(m.A(node.tag), content)


LATIN = '<?xml version="1.0" encoding="iso-8859-1"?>\n'


def document(d, lines):
    root = element(d, 3, lines)
    if d.bool(0.02):
        # A deeply nested document.
        for _ in range(d.int(5, 80)):
            root = Node(d.pick(TAGS), {}, [root])
    root.attrs['xmlns:ns'] = 'http://x'
    content = write(d, root, d.bool())
    prolog = d.pick(['', '<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="utf-8"?>', LATIN])
    if d.bool(0.15):
        prolog += '<!-- before -->\n'
    if d.bool(0.1):
        prolog += '<!DOCTYPE {} [<!ENTITY unused "x">]>\n'.format(root.tag)
    return root, prolog + content + d.pick(['', '\n', '\n<!-- after -->', '<?end it?>'])


def given(d, folder, content):
    """Return the document as stream or file."""
    how = d.weighted((4, 'stream'), (1, 'bytes'), (2, 'path'))
    if how == 'stream':
        return io.StringIO(content)
    encoding = 'utf-8'
    if content.startswith(LATIN):
        encoding = 'iso-8859-1'
        try:
            content.encode(encoding)
        except UnicodeEncodeError:
            # Use an encoding that has all characters.
            content, encoding = content.replace('iso-8859-1', 'utf-16', 1), 'utf-16'
    d.label(encoding)
    if how == 'bytes':
        return io.BytesIO(content.encode(encoding))
    path = os.path.join(folder, 'file.xml')
    with open(path, 'wb') as file:
        file.write(content.encode(encoding))
    return path


@prop(5000, 150000, 'a case is an XML document (nested elements, attributes, texts mixed with '
      'elements, CDATA, comments, processing instructions, character references, any layout), '
      'imported with or without conversion of numbers from a stream or a file; non-trivial: it '
      'has nested elements and attributes or mixed content; distinct by content')
def importing(d):
    root, content = document(d, True)
    numbers = d.bool()
    d.note(content, numbers)
    expected = m.S(convert(root, number if numbers else str))
    with tempfile.TemporaryDirectory() as folder:
        source = given(d, folder, content)
        obj = import_xml(source, convert_numerics=True) if numbers else import_xml(source)
    b.check_equal(obj, expected, content)
    b.audit(obj, expected)
    for question in d.shuffle(b.questions(expected))[:3]:
        b.ask(obj, expected, question)
    if content.count('</') + content.count('/>') > 2:
        d.nontrivial(content, numbers)


@prop(2500, 80000, 'a case is an XML document that is pretty printed (any indent; truncated '
      'or not) and imported again; non-trivial: it has nested elements; distinct by content')
def pretty(d):
    root, content = document(d, False)
    d.note(content)
    indent = d.pick(['   ', '', '\t', ' '])
    with tempfile.TemporaryDirectory() as folder:
        result = xml_to_str(given(d, folder, content), indent, truncate=False,
                            max_line_len=d.int(5, 60))
    for numbers in (False, True):
        obj = import_xml(io.StringIO(result), numbers)
        b.check_equal(obj, m.S(convert(root, number if numbers else str)), 'printed ' + content)
    # Truncation only shortens lines that are too long.
    width = d.int(10, 60)
    short = xml_to_str(io.StringIO(content), indent, max_line_len=width)
    full, cut = result.split('\n'), short.split('\n')
    if len(full) != len(cut):
        raise Fail('truncation changed the number of lines', 'lines')
    for line, part in zip(full, cut):
        if line == part:
            begin, end = line.find('>'), line.rfind('<')
            if 0 <= begin < end and end + 1 - begin > width:
                raise Fail('not truncated: {!r}'.format(line), 'long')
            continue
        at = part.rfind('...<')
        begin = line.find('>')
        if at < 0 or line[:at] != part[:at] or not line.endswith(part[at + 4:]) \
                or line.rfind('<') + 1 - begin <= width \
                or at + 4 - begin != width:
            raise Fail('{!r} became {!r} (width {})'.format(line, part, width), 'truncate')
    pre, post = d.int(0, 60), d.int(0, 60)
    both = xml_to_str(io.StringIO(content), indent, pre_len=pre, post_len=post, truncate=True,
                      max_line_len=width)
    check_core(short, pre, post, both)
    if content.count('</') + content.count('/>') > 2:
        d.nontrivial(content)


def check_core(full, pre, post, got):
    if pre > 0 and post > 0 and pre + post < len(full):
        expected = full[:pre] + '\n...\n' + full[len(full) - post:]
    else:
        expected = full
    if got != expected:
        raise Fail('{!r} reduced to {} + {}: {!r}'.format(full, pre, post, got), 'core')


@prop(1000, 20000, 'a case is a text of which the middle is removed; distinct by text and lengths')
def middle(d):
    val = d.text('abc\n.', 0, 20, 8)
    pre, post = d.int(0, 12), d.int(0, 12)
    d.note(repr(val), pre, post)
    check_core(val, pre, post, core(val, pre, post))
    if pre and post:
        d.nontrivial(val, pre, post)


CHILD = '''
from io import BytesIO
from algebraixlib.import_export.xml import import_xml, xml_to_str
def run(text, path):
    data = text.encode('utf-8')
    with open(path, 'wb') as file:
        file.write(data)
    if import_xml(path) != import_xml(BytesIO(data)):
        return ascii(import_xml(path))
    if xml_to_str(path, truncate=False) != xml_to_str(BytesIO(data), truncate=False):
        return ascii(xml_to_str(path, truncate=False))
'''


@prop(2, 20, 'a case is a batch of 40 XML documents that are read from a file in a new process whose '
      'locale does not use UTF-8; distinct by batch')
def other_locale(d):
    batch = []
    for _ in range(40):
        root = element(d, 2, True)
        root.attrs['xmlns:ns'] = 'http://x'
        batch.append(write(d, root, True))
    d.note(batch[:3])
    remote.elsewhere(CHILD, batch)
    d.nontrivial(batch)


TESTS = [importing, pretty, middle, other_locale]
