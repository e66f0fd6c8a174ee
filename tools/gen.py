"""Generate properties.jsonl and MANIFEST.json from the data below (run: python3 tools/gen.py)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AL = 'algebraixlib/algebras/'
MO = 'algebraixlib/mathobjects/'
UT = 'algebraixlib/util/'

# id -> (title, statement, over, quantifier, why tests can't, files, mechanism, technique, note)
PROPS = {
'C01': (
    'Equality and hashing are those of the mathematical value',
    'Two math objects (atoms, couplets, sets, multisets) are equal exactly if they denote the same '
    'mathematical value: order of construction and duplicates do not matter, multiplicities in '
    'multisets do, and atoms of different Python types (1, True, 1.0, \'1\') are never equal. Equal '
    'objects have equal hashes, equality is an equivalence relation whose negation is !=, and it '
    'does not depend on the way an object was constructed or on what was asked of it before. '
    'Construction from raw values, from math objects and with the direct-loading option give equal '
    'objects, and membership, length and iteration agree with the value.',
    ['inputs', 'histories'], 'All pairs of objects of any nesting, constructed through any '
    'constructor route, with any queries asked before.',
    'The tests compare a few dozen fixed objects; equality must hold for every pair of values and '
    'every way of constructing them.',
    [MO + 'atom.py', MO + 'couplet.py', MO + 'set.py', MO + 'multiset.py', MO + 'mathobject.py'],
    [('Atom.__eq__, type-strict', MO + 'atom.py Atom.__eq__, _hash'),
     ('Set/Multiset equality on data', MO + 'set.py Set.__eq__; multiset.py Multiset.__eq__'),
     ('Couplet equality and hash caching', MO + 'couplet.py Couplet.__eq__, __hash__')],
    'property-based testing against a reference model (values built through several routes)', ''),
'C02': (
    'Total order and canonical text depend on the value and can be read back',
    'The ordering of math objects is a strict total order that is consistent with equality, so '
    'sorting any collection gives one well-defined result whatever the initial sequence. The code '
    'representation (repr) is the same for equal objects and different for different ones and, '
    'evaluated as Python, gives back an equal object; the text representation (str) is the same for '
    'equal objects. None of them depends on construction order, on hash seeds or on what was asked '
    'before.',
    ['inputs', 'histories'], 'All triples of objects of any nesting and kind, constructed via any '
    'route.', 'Transitivity and canonical text quantify over all pairs and triples of values; the '
    'tests sample a handful of comparisons within one type.',
    [MO + 'atom.py', MO + 'couplet.py', MO + 'set.py', MO + 'multiset.py'],
    [('ordering across kinds', MO + '*.py __lt__'),
     ('sorted rendering', MO + '*.py __repr__, __str__')],
    'property-based testing: order axioms, sort-permutation metamorphic relation, repr round trip',
    ''),
'C03': (
    'Math objects are immutable and independent of the data they were made from',
    'No operation of any algebra, query, iteration, rendering or copy changes the value, hash or '
    'text of an operand or of any object that existed before. Changing the Python containers an '
    'object was created from, or a container it hands out, does not change the object. Attempts to '
    'assign to parts of an object are refused.',
    ['inputs', 'histories'], 'All objects and all sequences of operations on shared operands.',
    'The tests look at results, not at whether operands survive, and only for single calls.',
    [MO + 'set.py', MO + 'multiset.py', MO + 'couplet.py', MO + 'atom.py', AL + 'sets.py',
     AL + 'multisets.py', AL + 'clans.py', AL + 'multiclans.py'],
    [('frozenset / read-only mapping', MO + 'set.py Set.data; multiset.py Multiset.data'),
     ('read-only properties', MO + 'atom.py, couplet.py'),
     ('copies of counters before updating', AL + 'multisets.py')],
    'stateful property-based testing: histories with snapshots of all earlier objects', ''),
'C04': (
    'Algebra of sets: every operation is the textbook operation',
    'Union, intersection, difference, restriction to sub- or supersets, subset and superset tests, '
    'power set and its variations, big union and intersection, and restriction by a condition on '
    'sets of any content give exactly the elements that their mathematical definition prescribes. '
    'Their algebraic laws (commutativity, associativity, absorption, De Morgan, ...) follow and hold '
    'for all operands, including empty and equal ones.',
    ['inputs'], 'All sets (of any elements, of any size) as operands, fresh or with cached knowledge.',
    'The tests use about ten fixed sets; the laws quantify over all operands.',
    [AL + 'sets.py'],
    [('set operations and flag propagation', AL + 'sets.py union ... multiply, power_set, big_*')],
    'property-based testing against a reference model and algebraic laws', ''),
'C05': (
    'Algebra of multisets: multiplicities follow the definitions',
    'Union (maximum), intersection (minimum), sum, difference (down to zero), sub- and superset '
    'tests and restrictions, big union and intersection, single-element access, conversion to sets, '
    'and restriction by a condition on multisets give exactly the elements and multiplicities that '
    'their definitions prescribe. Every multiplicity in a result is a positive integer.',
    ['inputs'], 'All multisets of any elements and multiplicities as operands, fresh or with cached '
    'knowledge.', 'The tests use a few fixed multisets; the definitions quantify over all '
    'multiplicities and overlaps.',
    [AL + 'multisets.py', MO + 'multiset.py'],
    [('Counter arithmetic', AL + 'multisets.py union, intersect, minus, add'),
     ('dropping of zero counts', MO + 'multiset.py')],
    'property-based testing against a reference model', ''),
'C06': (
    'Algebras of couplets and relations: operations follow their definitions',
    'Transposition, composition (right operand first), functional and right-functional '
    'union, construction from dictionaries and constructors from sets and values, swapping and '
    'renaming of lefts, lefts and rights, lookups, and addition of couplets give exactly the couplets '
    'that their definitions prescribe for every relation. Operations that are only partially '
    'defined (such as composing couplets that do not meet) are undefined exactly where the '
    'definition says so.',
    ['inputs'], 'All couplets and relations (functional or not, with nested components) as operands.',
    'The tests use a dozen fixed relations; composition, functional unions and renaming have '
    'corner cases in operand overlap that need many combinations.',
    [AL + 'couplets.py', AL + 'relations.py'],
    [('couplet operations', AL + 'couplets.py transpose, compose'),
     ('relation operations', AL + 'relations.py transpose ... swap, rename, functional_add')],
    'property-based testing against a reference model', ''),
'C07': (
    'Algebra of clans: operations (joins, projections, ...) follow their definitions',
    'Cross-union (join), cross-functional union (natural join of tables), left variants, '
    'cross-intersection, cross-sub- and superstriction, composition, transposition, projection, '
    'diagonals, lefts and rights, constructors from sets and dictionaries and renaming on clans give '
    'exactly the relations that combining every pair (or transforming every relation) according to '
    'the definition prescribes. No row is lost, invented or left unmatched, for regular and for '
    'irregular clans, with or without an empty relation.',
    ['inputs'], 'All pairs of clans (tables and irregular ones), fresh or with cached knowledge.',
    'The tests join a few fixed tables; shortcuts taken because of cached properties or empty '
    'operands show up only for particular combinations.',
    [AL + 'clans.py', 'algebraixlib/extension.py'],
    [('binary extension of relation operations', AL + 'clans.py cross_*; extension.py'),
     ('shortcuts for flags and empty operands', AL + 'clans.py')],
    'property-based testing against a reference model', ''),
'C08': (
    'Algebra of multiclans: operations keep exact multiplicities',
    'The cross operations, composition, transposition, projection, lefts and rights, lookups and '
    'constructors of multiclans give exactly the relations that the definition prescribes, each '
    'with the multiplicity that results from multiplying the multiplicities of paired relations '
    'and adding those of pairs with the same result.',
    ['inputs'], 'All pairs of multiclans with any multiplicities.',
    'The tests use a few multiclans with small multiplicities; collisions of results (which add '
    'multiplicities) are rare in them.',
    [AL + 'multiclans.py', 'algebraixlib/extension.py'],
    [('multi-extension', 'algebraixlib/extension.py binary_multi_extend, unary_multi_extend'),
     ('cross operations', AL + 'multiclans.py')],
    'property-based testing against a reference model', ''),
'C09': (
    'Ordering and slicing of multiclans select exactly the rows at the indices',
    'Ordering a multiclan by a strict weak order and slicing it with an offset and a limit gives '
    'exactly the occurrences of relations at the indices from offset to below offset plus limit '
    'of the ordered sequence, counting every occurrence of a relation. Consecutive slices together '
    'give every occurrence exactly once, and the operand is unchanged. With an operand that is not '
    'a multiclan, or an offset or limit that is not a number, the result is undefined.',
    ['inputs'], 'All multiclans with any multiplicities, ordering functions (with ties, answering '
    'with truth values or atoms), offsets and limits.',
    'The tests slice one or two multiclans at a few offsets; boundaries fall inside of a relation '
    'with several occurrences only for particular combinations.',
    [AL + 'multiclans.py'],
    [('order_slice, order_slice_to_listgen, multiclan_to_listgen', AL + 'multiclans.py')],
    'property-based testing: validity predicate for the slice, pagination metamorphic relation', ''),
'C10': (
    'Property and membership predicates answer according to their definitions',
    'For every math object, every question about membership in an algebra (couplet, relation, clan, '
    'multiclan, absolute ...) and about being functional, right-functional, reflexive, symmetric, '
    'transitive, regular, right-regular, bijective or an equivalence relation is answered as the '
    'definition says, and is undefined where the property does not apply. The answer is the same '
    'whichever module or method is asked, however often, in whatever order and whatever was asked '
    'before.',
    ['inputs', 'histories'], 'All objects and all sequences of questions.',
    'Answers are cached in flags and derived from one another; the tests ask fixed objects in a '
    'fixed order.',
    [AL + 'properties.py', AL + 'relations.py', AL + 'clans.py', AL + 'multiclans.py',
     MO + '_flags.py', MO + 'mathobject.py'],
    [('predicates', AL + 'properties.py, relations.py, clans.py, multiclans.py is_*'),
     ('answers cached in flags', MO + 'mathobject.py cache_*; _flags.py')],
    'property-based testing: random sequences of questions against definitions on a model', ''),
'C11': (
    'Remembered knowledge is never wrong, over any history of operations',
    'Whatever an object remembers about itself (being a relation, clan, multiclan, absolute, '
    'functional, reflexive, regular, ...), whether found out by asking, passed on by the operation '
    'that created it or declared by its creator truthfully, is true of its value. Hence the '
    'result of an operation never depends on what was asked of its operands before.',
    ['histories', 'inputs'], 'All sequences of operations and questions in which results become '
    'operands of later operations.',
    'Operations infer properties of results from those of operands; a wrong inference shows up only '
    'for particular combinations of remembered facts and values, and later in the history.',
    [AL + 'sets.py', AL + 'multisets.py', AL + 'relations.py', AL + 'clans.py',
     AL + 'multiclans.py', 'algebraixlib/partition.py', 'algebraixlib/extension.py',
     MO + '_flags.py'],
    [('inference of flags for results', AL + '*.py (cache_* of results)'),
     ('initial flags of new objects', MO + 'set.py, multiset.py _INIT_CACHE'),
     ('copying flags', MO + 'mathobject.py, _flags.py')],
    'stateful property-based testing: operation histories with an audit of every object', ''),
'C12': (
    'Undefined exactly outside the domain; raise levels and unchecked calls agree',
    'An operation of the algebras, or an extension of one, that is given an operand outside its '
    'domain (or an undefined operand) gives the undefined value, never a wrong result; with all '
    'operands inside, it gives the value of its definition. With raising enabled at level 1, '
    'exactly the calls that would give an undefined result raise instead, and the default '
    'level never raises. Calls that skip the operand '
    'checks give the same as checked ones for operands in the domain.',
    ['inputs', 'configurations', 'histories'], 'All operations with operands of all kinds (inside and '
    'outside of the domain), all raise levels.',
    'The tests try a few wrong operands per operation and one raise level; the domain conditions '
    'quantify over all kinds of operands in all positions.',
    ['algebraixlib/undef.py', AL + 'sets.py', AL + 'multisets.py', AL + 'couplets.py',
     AL + 'relations.py', AL + 'clans.py', AL + 'multiclans.py', 'algebraixlib/extension.py'],
    [('operand checks', AL + '*.py is_member checks'),
     ('undefined value and raise levels', 'algebraixlib/undef.py')],
    'property-based testing: all operations with generated wrong operands, differential over '
    'raise levels and checked/unchecked', ''),
'C13': (
    'Ground sets describe objects exactly; structures form a partial order',
    'An object\'s ground set lies below a structure exactly if the object belongs to that structure '
    '(taking the empty set to belong to every structure, as documented), for every structure built '
    'from atoms, everything, Cartesian products, power sets and unions. Equality, hash, text and '
    'order of structures depend only on what they denote: unions contain no redundant members and '
    'the sequence in which they were built does not matter. Power set levels are counted '
    'accordingly, and the ground sets of the algebras contain the members of the algebras.',
    ['inputs'], 'All objects and all structures up to a depth of four.',
    'The tests compare about twenty fixed structures pairwise.',
    ['algebraixlib/structure.py', MO + 'set.py', MO + 'multiset.py', MO + 'couplet.py'],
    [('is_subset, is_same, Union normalization', 'algebraixlib/structure.py'),
     ('get_ground_set', MO + '*.py')],
    'property-based testing: independent membership oracle, order axioms, eval(repr) round trip',
    ''),
'C14': (
    'Lookups and left/right sets agree with the couplets that are present',
    'Indexing an object by a left gives exactly the rights that occur with this left: as a set for '
    'relations and clans, with multiplicities for multirelations and multiclans. Calling a '
    'function with a left gives the right or is undefined if there is none (and for anything that '
    'is not a function); the left and right sets of relations, clans, multiclans and nested sets of '
    'clans are exactly the components that occur. For all other objects, these are undefined.',
    ['inputs', 'histories'], 'All objects and lefts, present or not, given raw or as objects.',
    'The tests look up a few present lefts of fixed relations.',
    [MO + 'set.py', MO + 'multiset.py', MO + 'couplet.py', MO + 'atom.py', AL + 'relations.py',
     AL + 'multiclans.py', AL + 'clans.py'],
    [('__getitem__, __call__, get_left_set, get_right_set', MO + '*.py')],
    'property-based testing against a reference model', ''),
'C15': (
    'Extending an operation applies it to every element or pair of elements',
    'Extending a unary operation to a set or multiset gives the results for all elements, extending '
    'a binary one those for all pairs of elements; undefined results are left out and, for '
    'multisets, multiplicities multiply within and add across pairs. This holds for every '
    'operation that is extended, including partially defined ones and ones whose results coincide.',
    ['inputs'], 'All operands and a range of (partial, non-commutative) operations to extend.',
    'The tests extend a few operations over fixed operands.',
    ['algebraixlib/extension.py'],
    [('unary_extend, binary_extend and multi variants', 'algebraixlib/extension.py')],
    'property-based testing against a reference model', ''),
'C16': (
    'Partitions consist of equivalence classes: disjoint, complete, maximal',
    'Partitioning a set or multiset by a representative function gives exactly the classes of '
    'elements with the same representative (multisets keep all multiplicities): they are not '
    'empty, disjoint and together give the original. The labeled variant pairs each '
    'class with its representative.',
    ['inputs'], 'All sets and multisets and many class functions.',
    'The tests partition a few fixed sets by one or two functions.',
    ['algebraixlib/partition.py'],
    [('partition, make_labeled_partition', 'algebraixlib/partition.py')],
    'property-based testing against a reference model', ''),
'C17': (
    'CSV import and export keep every cell of every row',
    'Importing CSV gives one relation per row with exactly the non-empty cells, converted by the '
    'types that were asked for, under their column names; blank cells are left out, duplicate rows '
    'are counted or collapsed as asked, skipped rows and the index column behave as asked. '
    'Exporting a clan or multiclan of functions writes one row per member with every value in its '
    'column, so that importing the result gives the original again, whatever characters the values '
    'hold and whatever the locale; other objects are refused without writing anything.',
    ['inputs'], 'All tables with any text in the cells, all options, files and streams.',
    'The tests read and write a few fixed files without separators, quotes or line breaks in cells.',
    ['algebraixlib/import_export/csv.py', 'algebraixlib/import_export/_util.py'],
    [('import_csv, export_csv', 'algebraixlib/import_export/csv.py')],
    'property-based testing: round trip and comparison with an independent CSV parser', ''),
'C18': (
    'JSON keeps math objects exactly and imported documents completely',
    'A construct of math objects written as JSON and read back is the same, including the types of '
    'atoms and of values nested within them (tuples, frozen sets, ranges, bytes, complex numbers) '
    'and the multiplicities of multisets. Importing a JSON document gives a nested structure that '
    'contains every key and every scalar value at its place, with its type, and nothing else.',
    ['inputs'], 'All constructs of objects with values of the supported types; all documents made '
    'of objects, lists of objects and scalars.',
    'The tests convert a list of fixed values and two documents.',
    ['algebraixlib/import_export/mojson.py', 'algebraixlib/import_export/json.py'],
    [('ExportJson, ImportJson', 'algebraixlib/import_export/mojson.py'),
     ('import_json', 'algebraixlib/import_export/json.py')],
    'property-based testing: round trip with type-strict comparison; independent document model', ''),
'C19': (
    'XML import keeps every element, attribute and text',
    'Importing an XML document gives a nested structure in which every element, attribute and text '
    'appears at its place and nothing else does, whatever the layout, comments, processing '
    'instructions or CDATA sections; with conversion of numbers, texts that are numbers become '
    'numbers and all others stay text. Pretty printing a document does not change what it means, '
    'and its truncated form keeps the requested beginning and end.',
    ['inputs'], 'All XML documents; all indents and lengths.',
    'The tests import two fixed documents.',
    ['algebraixlib/import_export/xml.py', UT + 'miscellaneous.py'],
    [('import_xml, xml_to_str', 'algebraixlib/import_export/xml.py'),
     ('core', UT + 'miscellaneous.py')],
    'property-based testing: generated documents against an independent model of the content', ''),
'C20': (
    'RDF graphs, pattern matches, joins and exported result tables are exact',
    'Importing an RDF document gives exactly one triple per statement, with IRIs, native values for '
    'literals, and blank nodes consistently converted to distinct IRIs, from streams and files, '
    'with the format given or guessed. Matching a pattern gives exactly the bindings of its '
    'variables in all matching triples, and joining gives all compatible combinations; graphs and '
    'triples are recognized exactly. A result table exported as CSV or JSON is well-formed and '
    'contains every row with every value, its type and its lexical form, whatever the characters; '
    'other objects are refused.',
    ['inputs'], 'All graphs, patterns and result tables, empty ones included.',
    'The tests match one pattern and export one table without special characters; the import test '
    'is skipped.',
    ['algebraixlib/import_export/rdf.py', UT + 'rdf.py'],
    [('import_graph, export_table', 'algebraixlib/import_export/rdf.py'),
     ('triple_match, match_and_project, join, is_graph', UT + 'rdf.py')],
    'property-based testing: generated documents, direct evaluation of patterns, independent readers',
    ''),
'C21': (
    'LaTeX, HTML, readable text and logs show the whole object',
    'The LaTeX of an object can be read back unambiguously as that object and is the same for equal '
    'objects; the short form shows the first elements and says how many are left out exactly if '
    'some are. The readable text contains every component at its place, and only values in lines '
    'that are too long are cut. HTML pages show exactly the titles, descriptions and objects '
    'given, with everything escaped; printed variables and timer logs have every message at its '
    'depth, with the values unchanged.',
    ['inputs', 'histories'], 'All objects, configurations, texts with special characters and call '
    'hierarchies.', 'The tests compare the LaTeX of five fixed objects; HTML, readable text and '
    'logs are not tested.',
    [UT + 'latexprinter.py', UT + 'mathobjectprinter.py', UT + 'html.py', UT + 'miscellaneous.py'],
    [('math_object_to_latex and what it calls', UT + 'latexprinter.py'),
     ('mo_to_str', UT + 'mathobjectprinter.py'),
     ('math_object_as_html, create_simple_web_page', UT + 'html.py'),
     ('print_var, FunctionTimer', UT + 'miscellaneous.py')],
    'property-based testing: rendered output is parsed by independent parsers and compared', ''),
'C22': (
    'Copies, pickles and other processes preserve objects and results',
    'Copying or pickling a math object, a structure or the undefined value (with any protocol, '
    'alone or within containers) gives one that is equal, has the same hash, order, text and '
    'properties; the undefined value stays the only one of its kind. In a process with other hash '
    'values, a received object equals one that is created there, and every operation gives the '
    'same result with the same text as here.',
    ['inputs', 'histories', 'configurations'], 'All objects, protocols, operations and hash seeds.',
    'The tests run in one process; results that depend on hash values look the same there.',
    [MO + 'atom.py', MO + 'couplet.py', MO + 'set.py', MO + 'multiset.py', MO + 'mathobject.py',
     'algebraixlib/undef.py', 'algebraixlib/structure.py'],
    [('__reduce__, __deepcopy__', MO + '*.py'), ('Undef singleton', 'algebraixlib/undef.py'),
     ('hash caches', MO + '*.py __hash__')],
    'property-based testing: round trips and differential runs in processes with other hash seeds',
    ''),
'C23': (
    'Queries made of many operations give what a reference database gives',
    'Whatever tables (clans or multiclans, created from objects, dictionaries or CSV) are combined '
    'in whatever order by selection, projection, renaming, joins, unions, intersections, '
    'differences, extension, slicing and partitioning, every intermediate and final table has '
    'exactly the rows (and numbers of rows) that the relational operations prescribe, the tables '
    'that were used stay as they were, and columns, values, groups and exports of the result agree '
    'with its rows, whatever the properties that were derived and cached on the way.',
    ['inputs', 'histories'], 'All tables and all sequences of operations.',
    'The tests run single operations on small tables; a property that one operation derives '
    'wrongly shows only when a later operation relies on it.',
    [AL + 'clans.py', AL + 'multiclans.py', AL + 'sets.py', AL + 'multisets.py',
     'algebraixlib/partition.py', 'algebraixlib/extension.py', 'algebraixlib/import_export/csv.py'],
    [('superstrict, project, compose, cross_functional_union, order_slice',
      AL + 'clans.py, multiclans.py'),
     ('flag derivation of the operations', AL + '*.py'),
     ('flag and left/right caches', MO + 'mathobject.py')],
    'property-based testing: generated queries, compared step by step with a reference database',
    ''),
'C24': (
    'The example programs give right results on any data',
    'The program that answers TPC-H query 5 over a hierarchy in XML, a graph in Turtle and tables in '
    'CSV (selecting a region, joining suppliers, customers, orders and line items, adding a revenue '
    'column, grouping and summing up) gives, in every step, exactly the rows that loops over the '
    'data give, with dangling, repeated and missing values, too. The board program, whose rules are '
    'made of restrictions, joins, differences, projections and partitions, places only digits that '
    'follow, keeps the digits that are there and every cell complete, and fills single gaps.',
    ['inputs', 'histories'], 'All data files of the form the query expects, and all boards that come '
    'from a solution.',
    'The tests run a few given boards and no query over several formats.',
    [AL + 'clans.py', AL + 'relations.py', AL + 'sets.py', 'algebraixlib/partition.py',
     MO + 'set.py', 'algebraixlib/import_export/xml.py', 'algebraixlib/import_export/rdf.py',
     'algebraixlib/import_export/csv.py', 'examples/TPC-H_Query5/TPC-H_Query5.py',
     'examples/sudoku.py'],
    [('query5 and its parts', 'examples/TPC-H_Query5/TPC-H_Query5.py'),
     ('check_values, check_rows, check_cols, check_blocks, solve_board', 'examples/sudoku.py'),
     ('Set.__getitem__, Set.__call__', MO + 'set.py')],
    'property-based testing: generated data and boards, compared with direct computations', ''),
}

NOT_APPLICABLE = {}


def main():
    lines, checks = [], []
    for pid, item in sorted(PROPS.items()):
        if not glob.glob(os.path.join(HERE, 'checks', pid.lower() + '_*.py')):
            print('no check yet:', pid)
            continue
        title, statement, over, quant, why, files, mech, technique, note = item
        assert len(title) <= 80, (pid, len(title))
        for name in files:
            assert os.path.exists(os.path.join('/repo', name)), name
        lines.append({
            'id': pid, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
            'anchors': {'files': files,
                        'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
        checks.append({
            'property': pid, 'quick_cmd': './check {} quick'.format(pid),
            'thorough_cmd': './check {} thorough'.format(pid),
            'technique': technique, 'level': 'exploration',
            'level_note': (note + ' ' if note else '') + 'Random generation with shrinking; bounded '
            'by case count and size of the generated objects (see DESIGN.md); no absence proof.'})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as file:
        for line in lines:
            file.write(json.dumps(line) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as file:
        json.dump({
            'version': 1, 'setup_cmd': 'true', 'checks': checks,
            'not_applicable': [{'property': key, 'reason': val}
                               for key, val in sorted(NOT_APPLICABLE.items())],
            'notes': 'Generated by tools/gen.py. No hooks are needed: all checks use the public '
                     'API of /repo.'}, file, indent=1)
        file.write('\n')


main()
