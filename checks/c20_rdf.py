"""C20: RDF: imported graphs, pattern matches, joins and exported result tables are exact."""
import csv
import datetime
import decimal
import io
import itertools
import json
import os
import tempfile
import urllib.parse
import urllib.request

import rdflib

import algebraixlib.mathobjects as mo
from algebraixlib.import_export.rdf import export_table, import_graph
from algebraixlib.util import rdf

from vlib import bridge as b
from vlib import model as m
from vlib import remote
from vlib.engine import Fail, prop

ASSUMPTIONS = [
    'rdflib reads the documents (N-Triples, Turtle, RDF/XML); the documents are written by the '
    'check itself. Literals are well-formed values of the XML Schema types string, integer, '
    'decimal, double, boolean and date; language tags are dropped on import.',
    'In a pattern, every variable occurs once; column names of result tables are text and '
    'different as text. Rights of result tables are IRIs, blank nodes, text, numbers, truth values '
    'and dates.']
XSD = 'http://www.w3.org/2001/XMLSchema#'
CHARS = 'ab1 "\\\n\t\u00e9\u4e2d\U0001f600?$<>&\''
IRIS = ['http://x/a', 'http://x/a#b', 'urn:x:1', 'id:jeff', 'http://x/\u00e9', 'rdf:type', 'cat:b',
        'http://x/?q=1&r=2']


# Documents ----------------------------------------------------------------------------------------

def literal(d):
    """Return (lexical form, type or language, Python value)."""
    kind = d.weighted((4, 'plain'), (3, 'integer'), (2, 'double'), (1, 'decimal'), (2, 'boolean'),
                      (1, 'date'), (1, 'lang'), (1, 'string'))
    if kind in ('plain', 'lang', 'string'):
        val = d.text(CHARS, 0, 5, 2) if d.bool(0.6) else d.pick(['x', 'jeff', '1', '', 'true'])
        return val, {'plain': '', 'lang': '@' + d.pick(['en', 'fr', 'de-CH']),
                     'string': XSD + 'string'}[kind], val
    if kind == 'integer':
        text = d.pick(['0', '1', '2', '01', '-3', '+1', '123456789012345678901'])
        return text, XSD + kind, int(text)
    if kind == 'double':
        text = d.pick(['1.0', '1', '1e0', '-2.5', '1.5E3', '0.1'])
        return text, XSD + kind, float(text)
    if kind == 'decimal':
        text = d.pick(['1.0', '1.50', '-2.5'])
        return text, XSD + kind, decimal.Decimal(text)
    if kind == 'boolean':
        text = d.pick(['true', 'false', '1', '0'])
        return text, XSD + kind, text in ('true', '1')
    text = d.pick(['2020-01-01', '1999-12-31'])
    return text, XSD + kind, datetime.date(*[int(part) for part in text.split('-')])


def escaped(text, escape_all):
    result = ''
    for char in text:
        if char in '"\\':
            result += '\\' + char
        elif char in '\n\t\r':
            result += {'\n': '\\n', '\t': '\\t', '\r': '\\r'}[char]
        elif ord(char) > 127 and escape_all:
            result += '\\U{:08X}'.format(ord(char))
        else:
            result += char
    return result


def xml_escaped(text):
    return text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace(
        '"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;').replace('\r', '&#13;')


def term_text(d, term, turtle, escape_all):
    kind, val = term
    if kind == 'iri':
        return '<' + val + '>'
    if kind == 'bnode':
        return '_:' + val
    text, datatype, python = val
    if turtle and datatype in (XSD + 'integer', XSD + 'boolean') and text not in ('1', '0') \
            and not (datatype == XSD + 'boolean' and text in '10') and d.bool():
        return text
    if turtle and datatype == '' and d.bool(0.3):
        return "'" + escaped(text, escape_all).replace("'", "\\'") + "'"
    quoted = '"' + escaped(text, escape_all) + '"'
    if datatype.startswith('@'):
        return quoted + datatype
    return quoted + ('^^<' + datatype + '>' if datatype else '')


def document(d, triples):
    """Return the triples as (text, format)."""
    kind = d.weighted((3, 'turtle'), (2, 'nt'), (1, 'xml'))
    if kind == 'xml':
        parts = []
        for index, (subj, pred, obj) in enumerate(triples):
            about = 'rdf:about' if subj[0] == 'iri' else 'rdf:nodeID'
            cut = max(pred[1].rfind(char) for char in '/#:') + 1
            head = '<rdf:Description {}="{}"><p:{} xmlns:p="{}"'.format(
                about, xml_escaped(subj[1]), pred[1][cut:], pred[1][:cut])
            if obj[0] == 'iri':
                parts.append(head + ' rdf:resource="{}"/>'.format(xml_escaped(obj[1])))
            elif obj[0] == 'bnode':
                parts.append(head + ' rdf:nodeID="{}"/>'.format(obj[1]))
            else:
                text, datatype, _ = obj[1]
                if datatype.startswith('@'):
                    head += ' xml:lang="{}"'.format(datatype[1:])
                elif datatype:
                    head += ' rdf:datatype="{}"'.format(datatype)
                parts.append('{}>{}</p:{}>'.format(head, xml_escaped(text), pred[1][cut:]))
            parts.append('</rdf:Description>\n')
        return '<?xml version="1.0" encoding="utf-8"?>\n<rdf:RDF xmlns:rdf="http://www.w3.org/' \
            '1999/02/22-rdf-syntax-ns#">\n' + ''.join(parts) + '</rdf:RDF>\n', kind
    escape_all = d.bool(0.3)
    turtle = kind == 'turtle'
    lines, last = [], None
    for subj, pred, obj in triples:
        if turtle and last == subj and d.bool(0.5):
            lines[-1] = lines[-1][:-2] + ' ;\n  {} {} .'.format(
                term_text(d, pred, turtle, escape_all), term_text(d, obj, turtle, escape_all))
        else:
            lines.append(' '.join(term_text(d, term, turtle, escape_all)
                                  for term in (subj, pred, obj)) + ' .')
        last = subj
    return ('# A comment\n' if d.bool(0.2) else '') + '\n'.join(lines) + '\n', kind


def graph_terms(d):
    """Random triples of terms."""
    iris = [('iri', val) for val in d.shuffle(IRIS)[:d.int(1, 5)]]
    bnodes = [('bnode', val) for val in ['b0', 'x', 'n1'][:d.weighted((3, 0), (1, 1), (1, 2), (1, 3))]]
    preds = [('iri', val) for val in d.shuffle(
        ['http://x/p', 'rdf:type', 'rdf:name', 'http://x/v#q', 'fav:x'])[:d.int(1, 3)]]
    literals = [('literal', literal(d)) for _ in range(d.int(1, 5))]
    return [(d.pick(iris + bnodes), d.pick(preds), d.pick(iris + bnodes + literals))
            for _ in range(d.extent(0, 8, 4, 100))]


def triple(subj, pred, obj):
    return m.S(m.C(m.A('s'), subj), m.C(m.A('p'), pred), m.C(m.A('o'), obj))


def iri(val):
    return m.A(rdflib.URIRef(val))


@prop(2500, 60000, 'a case is an RDF document (N-Triples, Turtle or RDF/XML, with blank nodes, '
      'literals of several types, any characters) that is imported from a stream or a file, with '
      'the format given or not; non-trivial: at least two triples with a literal or blank node; '
      'distinct by document and way')
def importing(d):
    triples = graph_terms(d)
    text, kind = document(d, triples)
    way = d.weighted((3, 'stream'), (1, 'bytes'), (2, 'path'), (1, 'path without extension'),
                     (1, 'file'))
    explicit = d.bool(0.4) or (kind == 'xml' and way != 'path')
    d.note(text, way, explicit)
    args = {'rdf_format': kind} if explicit else {}
    with tempfile.TemporaryDirectory() as folder:
        if way == 'stream':
            obj = import_graph(io.StringIO(text), **args)
        elif way == 'bytes':
            obj = import_graph(io.BytesIO(text.encode('utf-8')), **args)
        else:
            ext = {'turtle': '.ttl', 'nt': '.nt', 'xml': '.rdf'}[kind]
            path = os.path.join(folder, 'graph' + (ext if way == 'path' else ''))
            with open(path, 'wb') as file:
                file.write(text.encode('utf-8'))
            if way == 'file':
                with open(path, 'rb') as file:
                    obj = import_graph(file, **args)
            else:
                obj = import_graph(path, **args)
    val = b.to_model(obj)
    labels = sorted({term[1] for item in triples for term in item if term[0] == 'bnode'})
    known = {term[1] for item in triples for term in item if term[0] == 'iri'}
    new = set()
    for rel in val[1]:
        if not m.is_relation(rel):
            raise Fail('{}: not a clan: {}'.format(text, m.show(val)), 'clan')
        for cpl in rel[1]:
            if cpl[2][1] == 'BNode':
                raise Fail('{}: a blank node was not converted: {}'.format(text, m.show(val)),
                           'bnode')
            if cpl[2][1] == 'URIRef' and str(cpl[2][2]) not in known:
                new.add(str(cpl[2][2]))
    if len(new) != len(labels):
        raise Fail('{}: {} blank nodes became {}'.format(text, len(labels), sorted(new)), 'bnodes')

    def term(item, names):
        kind_, data = item
        if kind_ == 'literal':
            return m.A(data[2])
        return iri(data if kind_ == 'iri' else names[data])
    for perm in itertools.permutations(sorted(new)):
        names = dict(zip(labels, perm))
        expected = m.s_of(triple(*[term(item, names) for item in items]) for items in triples)
        if expected == val:
            break
    else:
        raise Fail('{}: imported as {}'.format(text, m.show(val)), 'import')
    b.audit(obj, val)
    if rdf.is_graph(obj) is not True or rdf.is_absolute_graph(obj) is not True:
        raise Fail('{}: the import is not a graph'.format(text), 'graph')
    if len(triples) > 1 and any(term[0] != 'iri' for item in triples for term in item):
        d.nontrivial(text, way, explicit)
    d.label('blank nodes', bool(labels))
    d.label(kind)


# Matching -----------------------------------------------------------------------------------------

def graph(d, u):
    pool = [iri(val) for val in IRIS[:3]] + u.values[:4]
    if d.bool(0.15):
        pool[3:5] = [m.A(val) for val in d.pick([(1, True), (0, False), (2, 2.0), (True, 1.0)])]
    return m.s_of(triple(d.pick(pool[:4]), d.pick(pool[:3]), d.pick(pool))
                  for _ in range(d.extent(0, 7, 4, 100, 0.004))), pool


def given(d, val):
    """The value of an argument: raw or as object."""
    if m.is_atom(val) and val[2] is not None and not (
            isinstance(val[2], str) and val[2][:1] in ('?', '$')) and d.bool(0.7):
        return val[2]
    return b.build(val)


def solutions(rows, patterns):
    """Match a graph: ``patterns`` maps 's', 'p', 'o' to None, ('var', name) or ('val', value)."""
    result = set()
    for row in rows[1]:
        content = {cpl[1][2]: cpl[2] for cpl in row[1]}
        if all(pat is None or pat[0] == 'var' or content[name] == pat[1]
               for name, pat in patterns.items()):
            result.add(m.s_of(m.C(m.A(pat[1]), content[name])
                              for name, pat in patterns.items() if pat and pat[0] == 'var'))
    return m.s_of(result)


def joined(left, right):
    result = set()
    for one in left[1]:
        for two in right[1]:
            content = dict((cpl[1], cpl[2]) for cpl in one[1])
            if all(content.get(cpl[1], cpl[2]) == cpl[2] for cpl in two[1]):
                result.add(m.s_of(one[1] | two[1]))
    return m.s_of(result)


VARS = ['?a', '?b', '$c', '?', '?name', '$1']


@prop(4000, 120000, 'a case is a graph (imported IRIs, values of any kind, also empty) and one to '
      'three patterns with variables, values (given raw or as objects) and ignored positions, each '
      'matched and then joined; compared with a direct evaluation; non-trivial: at least two '
      'triples and a result that is neither empty nor everything; distinct by graph and patterns')
def matching(d):
    u = b.Universe(d, 0.1)
    val, pool = graph(d, u)
    obj = b.build_via(d, val, 0.3)
    results, models, patterns = [], [], {}
    what = m.show(val)
    for _ in range(d.weighted((3, 1), (2, 2), (1, 3))):
        names = d.shuffle(VARS)
        previous, patterns, args = patterns, {}, []
        for pos in 'spo':
            kind = d.weighted((4, 'var'), (3, 'val'), (1, None))
            if kind == 'var':
                patterns[pos] = (kind, names.pop())
                args.append(patterns[pos][1])
            elif kind == 'val':
                present = [cpl[2] for row in val[1] for cpl in row[1] if cpl[1][2] == pos]
                wanted = d.pick(sorted(present, key=repr)) if present and d.bool(0.7) \
                    else d.pick(pool + [m.A(''), m.A(1.0)])
                if (previous.get(pos) or [''])[0] == 'val' and d.bool(0.4):
                    # As in the pattern before, perhaps another kind of number.
                    wanted = previous[pos][1]
                    wanted = m.A(twin(d, wanted[2])) if m.is_atom(wanted) else wanted
                patterns[pos] = (kind, wanted)
                args.append(given(d, wanted))
            else:
                patterns[pos] = None
                args.append(None)
        what += '; {}'.format([(pos, pat and (pat[0], m.show(pat[1]) if pat[0] == 'val' else pat[1]))
                               for pos, pat in sorted(patterns.items())])
        d.note(what)
        expected = solutions(val, patterns)
        if d.bool(0.8):
            args = args[:3]
            while args and args[-1] is None and d.bool(0.3):
                args.pop()
            got = rdf.triple_match(obj, *args)
        else:
            got = rdf.triple_match(obj, **dict(zip(['subject', 'predicate', 'object_'], args)))
        b.check_equal(got, expected, 'match ' + what)
        b.audit(got, expected)
        results.append(got)
        models.append(expected)
        if len(val[1]) > 1 and 0 < len(expected[1]) < len(val[1]):
            d.nontrivial(what)
    if len(results) > 1:
        got = rdf.join(*results)
        expected = models[0]
        for item in models[1:]:
            expected = joined(expected, item)
        b.check_equal(got, expected, 'join ' + what)
        b.audit(got, expected)
        d.label('joined', len(expected[1]) > 0)
    b.check_equal(obj, val, 'the graph after matching')


@prop(1500, 40000, 'a case is a join of two to five tables of solutions, in which some variables may not '
      'be bound, and of which some may be the same object; compared with nested loops; non-trivial: the '
      'result is not empty; distinct by tables')
def joining(d):
    u = b.Universe(d, 0.1)
    names = d.shuffle(VARS)[:4]

    def table():
        rows = []
        for _ in range(d.weighted((4, 2), (3, 1), (2, 3), (1, 0), (1, 5))):
            rows.append(m.s_of(m.C(m.A(name), d.pick(u.rights)) for name in names if d.bool(0.5)))
        return m.s_of(rows)

    models = [table() for _ in range(d.weighted((4, 2), (3, 3), (1, 4)))]
    objs = [b.build_via(d, val, 0.2) for val in models]
    while len(objs) < 5 and d.bool(0.4):
        pos, to = d.int(0, len(objs) - 1), d.int(0, len(objs))
        models.insert(to, models[pos])
        objs.insert(to, objs[pos])
    what = '; '.join(map(m.show, models))
    d.note(what)
    got, expected = rdf.join(*objs), models[0]
    for item in models[1:]:
        expected = joined(expected, item)
    b.check_equal(got, expected, 'join ' + what)
    b.audit(got, expected)
    if expected[1]:
        d.nontrivial(what)


def twin(d, raw):
    """Return a raw value that Python considers equal but that is different (if there is one)."""
    if type(raw) not in (int, float, bool):
        return raw
    vals = [kind(raw) for kind in (int, float, bool)]
    return d.pick([val for val in vals if val == raw])


@prop(3000, 100000, 'a case is a clan (any columns, regular or not) and up to four patterns and '
      'renamings of columns, one after the other on the same object (also patterns that only '
      'differ in the kind of a number); non-trivial: some but not all relations match; distinct '
      'by all of them')
def projecting(d):
    u = b.Universe(d, 0.1)
    val = b.clan(d, u, 5, 3)
    if d.bool(0.3):
        # Numbers of different kinds that Python considers equal.
        left = d.pick(u.lefts)
        val = m.s_of(list(val[1])[:3] + [
            m.s_of([m.C(left, m.A(d.pick([0, False, 1, True, 1.0, 0.0]))),
                    m.C(d.pick(u.lefts), d.pick(u.rights))])
            for _ in range(d.int(1, 4))])
        u.rights = u.rights + [m.A(1), m.A(True)]
    obj = b.build_via(d, val, 0.3)
    atoms = [left for left in u.lefts if m.is_atom(left) and isinstance(left[2], (str, int, float))]
    if not atoms:
        return
    present = sorted({cpl[2] for row in val[1] for cpl in row[1]}, key=repr)
    pattern_arg = None
    for _ in range(d.weighted((3, 1), (2, 2), (2, 3), (1, 4))):
        if pattern_arg and d.bool(0.5):
            # The same pattern with other kinds of numbers.
            pattern_arg = {twin(d, key) if d.bool(0.2) else key: twin(d, right)
                           for key, right in pattern_arg.items()}
        else:
            pattern_arg = {}
            for left in atoms:
                if d.bool(0.3) and left[2] not in pattern_arg:
                    pattern_arg[left[2]] = given(
                        d, d.pick(present if present and d.bool(0.4) else u.rights))
        one_projection(d, val, obj, atoms, pattern_arg)
    b.check_equal(obj, val, 'the clan after matching')


def one_projection(d, val, obj, atoms, pattern_arg):
    pattern = {m.A(key): b.to_model(right) if isinstance(right, mo.MathObject) else m.A(right)
               for key, right in pattern_arg.items()}
    names = d.shuffle(['n1', 'n2', 'n3', 'a', 'b', 1])
    projection = {}
    for left in atoms:
        if d.bool(0.6) and left[2] not in projection and names:
            projection[left[2]] = names.pop()
    kinds = [m.A(key) for key in projection]
    what = '{} matching {}, renamed by {}'.format(m.show(val), pattern_arg, projection)
    d.note(what)
    matches = [row for row in val[1] if all(m.C(left, right) in row[1]
                                            for left, right in pattern.items())]
    got = rdf.pattern_match(obj, dict(pattern_arg))
    b.check_equal(got, m.s_of(matches), 'pattern_match ' + what)
    b.audit(got, m.s_of(matches))
    if projection:
        expected = m.s_of(
            m.s_of(m.C(m.A(projection[cpl[1][2]]), cpl[2]) for cpl in row[1] if cpl[1] in kinds)
            for row in matches)
        before = dict(pattern_arg), dict(projection)
        if pattern_arg or d.bool():
            got = rdf.match_and_project(obj, pattern_arg, projection)
        else:
            got = rdf.match_and_project(obj, projection=projection)
        b.check_equal(got, expected, 'match_and_project ' + what)
        b.audit(got, expected)
        if before != (pattern_arg, projection):
            raise Fail('the arguments were changed', 'changed')
    if 0 < len(matches) < len(val[1]):
        d.nontrivial(what)


def distorted(d, row, pool, how):
    """Return a relation that is nearly the triple `row`."""
    cpls = sorted(row[1], key=repr)
    cpl = d.pick(cpls)
    if how == 'again':  # One left has two rights.
        return m.s_of(cpls + [m.C(cpl[1], d.pick(pool))])
    if how == 'lost':
        return m.s_of(other for other in cpls if other != cpl)
    if how == 'moved':  # Two of the lefts become the same.
        other = d.pick(cpls)
        return m.s_of([m.C(other[1], cpl[2])] + [item for item in cpls if item != cpl])
    if how == 'graph':  # A fourth left.
        return m.s_of(cpls + [m.C(m.A(d.pick(['g', 'S', 0])), d.pick(pool))])
    return m.r_transpose(row) if how == 'turned' else m.s_of(
        m.C(m.A({'s': 'S', 'p': 'p', 'o': 'o'}[item[1][2]]), item[2]) for item in cpls)


def is_triple(val):
    return m.is_relation(val) and len(val[1]) == 3 \
        and {cpl[1] for cpl in val[1]} == {m.A('s'), m.A('p'), m.A('o')}


@prop(4000, 120000, 'a case is an object: any value, a triple, a graph or one that is nearly one '
      '(an element added, removed or changed); non-trivial: made from a graph; distinct by value')
def recognized(d):
    u = b.Universe(d, 0.2)
    kind = d.weighted((3, 'graph'), (2, 'triple'), (1, 'any'))
    if kind == 'any':
        val = b.value(d, u)
    else:
        val, pool = graph(d, u)
        if kind == 'triple':
            val = d.pick(sorted(val[1], key=repr)) if val[1] else triple(*[d.pick(pool)] * 3)
        how = d.weighted((4, None), (3, 'mutated'), (3, 'all'), (2, 'one'))
        if how == 'mutated':
            val = b.mutate(d, val, u)
        elif how:
            # The triple, all or one triple of the graph are nearly triples.
            kind_ = d.pick(['again', 'again', 'lost', 'moved', 'graph', 'turned', 'name'])
            rows = [val] if kind == 'triple' else sorted(val[1], key=repr)
            index = d.int(0, max(len(rows) - 1, 0))
            rows = [distorted(d, row, pool, kind_) if how == 'all' or num == index else row
                    for num, row in enumerate(rows)]
            val = rows[0] if kind == 'triple' else m.s_of(rows)
            d.label('nearly: ' + kind_)
        if d.bool(0.1) and val[0] == 'S':
            val = m.m_of({item: 1 for item in val[1]})
        d.nontrivial(m.show(val))
    obj = b.build_via(d, val, 0.4)
    d.note(m.show(val))
    is_graph = m.is_clan(val) and val[0] == 'S' and all(is_triple(row) for row in val[1])
    for func, expected in [
            (rdf.is_triple, is_triple(val)), (rdf.is_graph, is_graph),
            (rdf.is_absolute_triple, is_triple(val) and m.absolute_relation(val)),
            (rdf.is_absolute_graph, is_graph and m.absolute_clan(val))]:
        got = func(obj)
        if got is not expected:
            raise Fail('{}({}) is {!r}'.format(func.__name__, m.show(val), got), func.__name__)
    if not is_graph:
        try:
            rdf.triple_match(obj, '?a')
        except AssertionError:
            pass
        else:
            raise Fail('{} is no graph but was matched'.format(m.show(val)), 'match')
    elif val[1]:
        row = d.pick(sorted(val[1], key=repr))
        content = {cpl[1][2]: cpl[2] for cpl in row[1]}
        b.check_equal(rdf.make_triple(*[given(d, content[pos]) for pos in 'spo']), row,
                      'make_triple')


# Export -------------------------------------------------------------------------------------------

def right(d):
    kind = d.weighted((3, 'text'), (2, 'iri'), (1, 'bnode'), (2, 'int'), (1, 'float'), (1, 'bool'),
                      (1, 'date'))
    if kind == 'text':
        return d.text(CHARS + ',\r', 0, 5, 2) if d.bool(0.7) else d.pick(['x', '1', '', 'true'])
    if kind == 'iri':
        return rdflib.URIRef(d.pick(IRIS))
    if kind == 'bnode':
        return rdflib.BNode(d.pick(['b0', 'b1']))
    if kind == 'int':
        return d.int(-3, 12)
    if kind == 'float':
        return d.pick([1.0, -2.5, 0.1, 1e30])
    if kind == 'bool':
        return d.bool()
    return datetime.date(d.int(1999, 2020), d.int(1, 12), d.int(1, 28))


def lexical(val):
    """Return (text, datatype)."""
    if isinstance(val, bool):
        return str(val).lower(), XSD + 'boolean'
    if isinstance(val, int):
        return str(val), XSD + 'integer'
    if isinstance(val, float):
        return repr(val), XSD + 'double'
    if isinstance(val, datetime.date):
        return val.isoformat(), XSD + 'date'
    return str(val), None


def binding(val):
    if isinstance(val, rdflib.URIRef):
        return {'type': 'uri', 'value': str(val)}
    if isinstance(val, rdflib.BNode):
        return {'type': 'bnode', 'value': str(val)}
    text, datatype = lexical(val)
    result = {'type': 'literal', 'value': text}
    if datatype:
        result['datatype'] = datatype
    return result


@prop(4000, 120000, 'a case is a result table (any characters in names and values, missing values, '
      'no rows) exported as CSV and JSON, all columns or some, to a stream or a file; both are read '
      'by an independent parser; non-trivial: at least two rows and a missing value or one that '
      'needs escaping; distinct by table and columns')
def exporting(d):
    names = d.shuffle(['?a', '?b', '$c', 'name', 'q"r', 'x\\y', 'k,l', '\u00e9', '_:b0'])[:d.int(1, 4)]
    regular = d.bool(0.5)
    rows = {}
    for _ in range(d.extent(0, 5, 2.5)):
        row = {name: right(d) for name in names if regular or d.bool(0.7)}
        rows[m.s_of(m.C(m.A(key), m.A(val)) for key, val in row.items())] = row
    val = m.s_of(rows)
    lefts = names if d.bool(0.6) else d.shuffle(names + ['?z'])[:d.int(1, len(names) + 1)]
    what = '{} columns {}'.format(m.show(val), lefts)
    d.note(what)
    table = b.build_via(d, val, 0.3)
    left_set = mo.Set(*lefts) if d.bool(0.8) else [mo.Atom(left) for left in lefts]
    path = d.bool(0.3)
    text = {}
    with tempfile.TemporaryDirectory() as folder:
        for kind in ('csv', 'json'):
            args = (left_set, table) + (() if kind == 'csv' and d.bool(0.5) else (kind,))
            if path:
                name = os.path.join(folder, 'out')
                export_table(name, *args)
                with open(name, 'rb') as file:
                    text[kind] = file.read().decode('utf-8')
            else:
                out = io.StringIO(newline='')
                export_table(out, *args)
                text[kind] = out.getvalue()
    doc = json.loads(text['json'])
    if set(doc) != {'head', 'results'} or set(doc['head']) != {'vars'} \
            or set(doc['results']) != {'bindings'}:
        raise Fail('{}: the JSON is {}'.format(what, text['json']), 'json')
    if doc['head']['vars'] != sorted(lefts):
        raise Fail('{}: the columns are {}'.format(what, doc['head']['vars']), 'vars')
    expected = [{key: binding(val) for key, val in row.items() if key in lefts}
                for row in rows.values()]
    if sorted(map(repr, map(canonical, doc['results']['bindings']))) != sorted(
            map(repr, map(canonical, expected))):
        raise Fail('{}: the JSON is {}'.format(what, text['json']), 'bindings')
    lines = list(csv.reader(io.StringIO(text['csv'], newline=''), skipinitialspace=True,
                            strict=True))
    if lines[0] != sorted(lefts):
        raise Fail('{}: the header is {}'.format(what, lines[0]), 'header')
    cells = [[lexical(row[key])[0] if key in row else '' for key in sorted(lefts)]
             for row in rows.values()]
    # A row with a single, missing value is a blank line.
    if sorted(line or [''] for line in lines[1:]) != sorted(cells):
        raise Fail('{}: the CSV is {!r}'.format(what, text['csv']), 'csv')
    if len(rows) > 1 and (not regular or '\\' in text['json'] or '""' in text['csv']):
        d.nontrivial(what)
    b.check_equal(table, val, 'the table after exporting')


def canonical(row):
    return sorted((key, sorted(val.items())) for key, val in row.items())


@prop(1500, 30000, 'a case is a value that cannot be exported as a result table (not an absolute '
      'clan), or an unknown format: refused, and nothing is written; distinct by value')
def refused(d):
    u = b.Universe(d, 0.4)
    val = b.value(d, u)
    ok = m.absolute_clan(val)
    d.note(m.show(val))
    out = io.StringIO()
    kind = d.pick(['csv', 'json']) if not ok else d.pick(['xml', 'CSV', ''])
    try:
        export_table(out, mo.Set('a'), b.build_via(d, val, 0.2), kind)
    except (AssertionError, TypeError, AttributeError):
        if out.getvalue():
            raise Fail('{} was refused, but something was written'.format(m.show(val)), 'written')
        d.nontrivial(m.show(val), kind)
        return
    raise Fail('{} was exported as {!r}'.format(m.show(val), out.getvalue()), 'exported')


@prop(1500, 30000, 'a case is a file path whose file URL must name the same file; non-trivial: it '
      'has characters that are special in URLs; distinct by path')
def file_url(d):
    parts = [d.text('ab1 %?#\u00e9;&=+.', 1, 6, 3) for _ in range(d.int(1, 4))]
    path = ('/' if d.bool(0.6) else '') + '/'.join(parts)
    d.note(repr(path))
    url = rdf.get_file_url(path)
    if rdf.is_file_url(url) is not True:
        raise Fail('{!r} gives {!r}'.format(path, url), 'url')
    split = urllib.parse.urlsplit(url)
    got = urllib.request.url2pathname(split.path)
    if got != os.path.abspath(path) or split.query or split.fragment or split.netloc:
        raise Fail('{!r} gives {!r}, which is {!r}'.format(path, url, got), 'url')
    other = d.pick(['http://', 'file:', 'FILE', '', 'xfile://']) + path
    if rdf.is_file_url(other) is not other.startswith('file://'):
        raise Fail('is_file_url({!r})'.format(other), 'is')
    if any(char in path for char in ' %?#\u00e9'):
        d.nontrivial(path)


CHILD = '''
from io import StringIO
from algebraixlib.import_export.rdf import export_table, import_graph
def run(texts, path):
    table = mo.Set(mo.Set(mo.Couplet(texts[0], text)) for text in texts)
    for kind in ('csv', 'json'):
        out = StringIO(newline='')
        export_table(out, mo.Set(texts[0]), table, kind)
        export_table(path, mo.Set(texts[0]), table, kind)
        with open(path, 'rb') as file:
            content = file.read()
        if content != out.getvalue().encode('utf-8'):
            return ascii(content)
    triples = ''.join('<http://x/y> <http://x/z> "%s" .\\n' % text for text in texts)
    with open(path + '.ttl', 'wb') as file:
        file.write(triples.encode('utf-8'))
    graph = import_graph(path + '.ttl')
    if graph != import_graph(StringIO(triples), rdf_format='turtle'):
        return ascii(graph)
    os.remove(path + '.ttl')
'''


@prop(2, 20, 'a case is a batch of 20 tables and graphs that are written to and read from a file in a '
      'new process whose locale does not use UTF-8; distinct by batch')
def other_locale(d):
    batch = [[d.text('ab\u00e9\u4e2d,', 1, 4, 2) for _ in range(d.int(1, 3))] for _ in range(20)]
    d.note(batch[:3])
    remote.elsewhere(CHILD, batch)
    d.nontrivial(batch)


TESTS = [importing, matching, joining, projecting, recognized, exporting, refused, file_url, other_locale]
