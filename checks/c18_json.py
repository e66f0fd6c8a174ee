"""C18: JSON: math objects survive the round trip exactly; imported documents keep their content."""
import io
import json
import os
import tempfile

import algebraixlib.mathobjects as mo
from algebraixlib.import_export import mojson
from algebraixlib.import_export.json import import_json
from algebraixlib.import_export.mojson import ExportJson, ImportJson

from vlib import bridge as b
from vlib import model as m
from vlib import remote
from vlib.engine import Fail, prop

ASSUMPTIONS = [
    'Atoms hold values of the documented types (None, bool, int, float, str, bytes, complex, '
    'frozenset, tuple, range), nested as needed. JSON documents consist of objects, lists of '
    'objects, text, numbers and truth values: other nodes (null, lists of scalars) are documented '
    'to be unsupported.',
    'Tuples and lists are told apart within math objects (at the top level, JSON has lists only).']
CHARS = 'ab1 "\\/\n\u00e9\u4e2d\U0001f600\ud800{}[]:,_'


def raw(d, depth=2, inner=True):
    """A Python value of a supported type."""
    kind = d.weighted((3, int), (3, str), (2, float), (2, bool), (1, None), (2, bytes),
                      (2, complex), (3, tuple), (2, frozenset), (2, range), (1 if inner else 0, 'object'))
    if kind is int:
        return d.weighted((3, d.int(-3, 3)), (1, 10 ** d.int(0, 40)))
    if kind is str:
        return d.text(CHARS, 0, 6, 2) * (d.int(9, 999) if d.bool(0.01) else 1) if d.bool(0.7) else d.pick(['__cls__', '__val__', 'Atom', '1'])
    if kind is float:
        return d.pick([0.0, 1.0, -1.5, 0.1, 1e300, 5e-324, float('inf'), float('-inf'), 1 / 3])
    if kind is bool:
        return d.bool()
    if kind is None:
        return None
    if kind is bytes:
        return bytes(d.pick([0, 1, 65, 255]) if d.bool(0.8) else d.int(0, 255)
                     for _ in range(d.extent(0, 4, 2, 600)))
    if kind is complex:
        return complex(d.pick([0.0, 1.0, -2.5, 1e20, float('inf')]),
                       d.pick([0.0, 1.0, -2.5, 1 / 3, -1e-300]))
    if kind is range:
        return range(d.int(-2, 3), d.int(-2, 9) if d.bool(0.9) else 10**30, d.pick([1, 2, -1]))
    if depth == 0:
        return ()
    if kind == 'object':
        return b.build(b.value(d, b.universe(d, 0.1, huge=0.005)))
    items = [raw(d, depth - 1) for _ in range(d.extent(0, 4, 1.7, 40))]
    return kind(items)


def strict(val):
    """A description of a value with which values of different types are different."""
    name = type(val).__name__
    if isinstance(val, (tuple, list)):
        return (name,) + tuple(strict(item) for item in val)
    if isinstance(val, frozenset):
        return (name, tuple(sorted((strict(item) for item in val), key=repr)))
    if isinstance(val, dict):
        return (name, tuple(sorted(((key, strict(item)) for key, item in val.items()), key=repr)))
    if isinstance(val, range):
        return (name, val.start, val.stop, val.step)
    if isinstance(val, mo.Atom):
        return (name, strict(val.value))
    if isinstance(val, mo.Couplet):
        return (name, strict(val.left), strict(val.right))
    if isinstance(val, mo.Set):
        return (name, tuple(sorted((strict(elem) for elem in val.data), key=repr)))
    if isinstance(val, mo.Multiset):
        return (name, tuple(sorted(((strict(elem), count) for elem, count in val.data.items()),
                                   key=repr)))
    return (name, repr(val))


def math_object(d, depth=3):
    kind = d.weighted((4, 'A'), (3, 'C'), (3, 'S'), (2, 'M'), (2, 'any')) if depth else 'A'
    if kind == 'A':
        return mo.Atom(raw(d, 2, False))
    if kind == 'C':
        return mo.Couplet(math_object(d, depth - 1), math_object(d, depth - 1))
    if kind == 'S':
        return mo.Set([math_object(d, depth - 1) for _ in range(d.extent(0, 4, 2, 60))])
    if kind == 'M':
        return mo.Multiset({math_object(d, depth - 1): b.count(d)
                            for _ in range(d.extent(0, 4, 2, 60))})
    return b.build_via(d, b.value(d, b.universe(d, huge=0.005)), 0.3)


def construct(d, depth=2):
    """A math object or a list or dictionary that contains some."""
    kind = d.weighted((6, 'object'), (2, 'list'), (2, 'dict'), (1, 'raw')) if depth else 'object'
    if kind == 'object':
        return math_object(d)
    if kind == 'list':
        return [construct(d, depth - 1) for _ in range(d.size(0, 3, 2))]
    if kind == 'dict':
        return {d.pick(['a', 'b', '', '__cls__', 'x']): construct(d, depth - 1)
                for _ in range(d.size(0, 3, 2))}
    return d.pick([None, 1, 1.5, 'x', True])


@prop(8000, 250000, 'a case is a construct of (nested) math objects with atoms of all supported '
      'types that is written as JSON (text or file) and read back; everything, including the types '
      'of nested values, must be the same; non-trivial: it contains a nested tuple, frozenset, '
      'range, bytes or complex or a multiset; distinct by construct')
def round_trip(d):
    val = construct(d)
    before = strict(val)
    d.note(before)
    how = d.weighted((3, 'dumps'), (2, 'dump'), (1, 'indent'), (1, 'file'), (1, 'encode'))
    if how == 'dump':
        file = io.StringIO()
        json.dump(val, file, cls=ExportJson)
        text = file.getvalue()
        got = json.load(io.StringIO(text), cls=ImportJson)
    elif how == 'indent':
        text = json.dumps(val, cls=ExportJson, indent=2, sort_keys=d.bool())
        got = json.loads(text, cls=ImportJson)
    elif how == 'file':
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, 'file.json')
            with open(path, 'w') as file:
                json.dump(val, file, cls=ExportJson)
            with open(path) as file:
                text = file.read()
                file.seek(0)
                got = json.load(file, cls=ImportJson)
    elif how == 'encode' and not isinstance(val, (list, dict)):
        text = json.dumps(mojson.encode(val), cls=ExportJson)
        got = mojson.decode(json.loads(text, cls=ImportJson))
    else:
        text = json.dumps(val, cls=ExportJson)
        got = json.loads(text, cls=ImportJson)
    json.loads(text)  # It is plain JSON.
    if strict(got) != before:
        raise Fail('{!r}: got {}, expected {}, text {}'.format(val, strict(got), before, text),
                   'round trip')
    if strict(val) != before:
        raise Fail('the original changed', 'original')
    if isinstance(got, mo.MathObject):
        if got != val or hash(got) != hash(val):
            raise Fail('{!r}: not equal to the original'.format(val), 'equal')
        b.audit(got)
    text = repr(before)
    if any("'{}'".format(name) in text for name in ('tuple', 'frozenset', 'range', 'bytes',
                                                    'complex', 'Multiset')):
        d.nontrivial(text)


# Documents ----------------------------------------------------------------------------------------

KEYS = ['a', 'b', 'id', '', '\u00e9', 'a b', '__cls__']


def document(d, depth=3):
    result = {}
    for _ in range(d.extent(0, 4, 2, 60)):
        kind = d.weighted((4, 'scalar'), (2, 'dict'), (2, 'list')) if depth else 'scalar'
        if kind == 'scalar':
            val = d.pick([0, 1, -5, 1.0, 2.5, True, False, '', '1', 'x', '\u4e2d"\\', 10 ** 20])
        elif kind == 'dict':
            val = document(d, depth - 1)
        else:
            val = [document(d, depth - 1) for _ in range(d.extent(0, 3, 1.7, 60))]
        result[d.pick(KEYS) if d.bool(0.8) else 'k%d' % d.int(0, 99)] = val
    return result


def convert(doc):
    """The nested relation of a JSON object."""
    result = []
    for key, val in doc.items():
        for item in val if isinstance(val, list) else [val]:
            right = convert(item) if isinstance(item, dict) else m.A(item)
            result.append(m.C(m.A(key), right))
    return m.s_of(result)


@prop(4000, 150000, 'a case is a JSON document (an object or a list of objects, nested) written in '
      'one of several layouts to a stream or a file; non-trivial: it is nested; distinct by text')
def documents(d):
    doc = [document(d, 2) for _ in range(d.extent(0, 4, 2))] if d.bool(0.4) else document(d)
    text = json.dumps(doc, indent=d.pick([None, 1]), ensure_ascii=d.bool())
    d.note(text)
    if d.bool(0.7):
        obj = import_json(io.StringIO(text))
    else:
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, 'file.json')
            with open(path, 'w', encoding='utf-8') as file:
                file.write(text)
            if d.bool():
                obj = import_json(path)
            else:
                with open(path, encoding='utf-8') as file:
                    obj = import_json(file)
    expected = m.s_of(convert(item) for item in doc) if isinstance(doc, list) else convert(doc)
    b.check_equal(obj, expected, text)
    b.audit(obj, expected)
    for question in d.shuffle(b.questions(expected))[:3]:
        b.ask(obj, expected, question)
    if text.count('{') > 2:
        d.nontrivial(text)


CHILD = '''
from io import StringIO
from algebraixlib.import_export.json import import_json
def run(text, path):
    with open(path, 'wb') as file:
        file.write(text.encode('utf-8'))
    if import_json(path) != import_json(StringIO(text)):
        return ascii(import_json(path))
'''


@prop(2, 20, 'a case is a batch of 40 JSON documents that are read from a file in a new process whose '
      'locale does not use UTF-8; distinct by batch')
def other_locale(d):
    batch = [json.dumps(document(d), ensure_ascii=False) for _ in range(40)]
    d.note(batch[:3])
    remote.elsewhere(CHILD, batch)
    d.nontrivial(batch)


TESTS = [round_trip, documents, other_locale]
