"""C10: membership and property predicates answer according to the definitions, in any order."""
from vlib import bridge as b
from vlib import model as m
from vlib.engine import prop


def anything(d, u):
    kind = d.weighted((6, b.value), (2, _nested), (1, _mixture))
    return kind(d, u)


def _nested(d, u):
    """Sets of (sets of) clans, and things that look similar."""
    level = d.int(1, 3)

    def make(depth):
        if depth == 0:
            return b.clan(d, u, 3, 1.5)
        if d.bool(0.05):
            return d.pick([m.EMPTY, m.S(m.EMPTY), m.MEMPTY, b.relation(d, u), m.S(m.S(m.EMPTY))])
        return m.s_of(make(depth - 1) for _ in range(d.size(0, 3, 1.8)))
    return make(level)


def _mixture(d, u):
    """A (multi)set of elements of different kinds."""
    parts = [b.relation, b.clan, b.couplet, b.multiclan, lambda d, u: m.EMPTY,
             lambda d, u: m.MEMPTY, lambda d, u: d.pick(u.values)]
    elems = [d.pick(parts)(d, u) for _ in range(d.size(1, 4, 2.2))]
    return m.s_of(elems) if d.bool(0.7) else m.m_of({elem: b.count(d) for elem in elems})


@prop(9000, 300000, 'a case asks several questions about an object for which at least two different '
      'answers (true, false, undefined) are given; distinct by object and order of questions')
def questions(d):
    u = b.universe(d, huge=0.01)
    val = anything(d, u)
    obj = b.build_via(d, val, 0.25)
    d.note(m.show(val))
    asked = d.shuffle(b.questions(val))[:d.int(3, 12)]
    answers = set()
    for question in asked:
        d.note(question[0])
        b.ask(obj, val, question)
        answers.add(question[2](val))
    for question in asked[:3]:
        b.ask(obj, val, question)
    d.label('undefined', m.UNDEF in answers)
    d.label('set of clans', m.is_set(val) and m.set_of_clans(val))
    if len(answers) > 1:
        d.nontrivial(m.show(val), [question[0] for question in asked])


VALUES = [m.A('a'), m.A('b'), m.A(1)]
KINDS = ['relation', 'clan', 'set of clans', 'multiclan', 'nested']


@prop(9000, 300000, 'a case asks several questions about a relation, a clan, a multiclan or a '
      'set (of sets) of clans with a random combination of properties, of which at least one that '
      'is not a membership is true and one is false; distinct by object and order of questions')
def profiles(d):
    kind = d.pick(KINDS)
    if kind == 'nested':
        val = m.s_of(b.styled(d, VALUES, 'set of clans') for _ in range(d.int(1, 2)))
    else:
        val = b.styled(d, VALUES, kind)
    obj = b.build_via(d, val, 0.25)
    d.note(m.show(val))
    asked = d.shuffle(b.questions(val))[:d.int(3, 14)]
    answers = set()
    for question in asked:
        d.note(question[0])
        b.ask(obj, val, question)
        if 'member' not in question[0]:
            answers.add(question[2](val))
    d.label(kind)
    if len(answers - {m.UNDEF}) > 1:
        d.nontrivial(m.show(val), [question[0] for question in asked])


@prop(1000, 30000, 'a case asks several questions about a relation, a clan or a multiclan with dozens '
      'of members and a random combination of properties, sometimes spoiled by a single couplet; '
      'non-trivial: at least one answer (besides memberships) is true and one is false; distinct by '
      'object and order of questions')
def large(d):
    kind = d.pick(['relation', 'clan', 'multiclan'])
    val = b.large_styled(d, kind)
    obj = b.build_via(d, val)
    d.note(m.show(val))
    asked = d.shuffle([question for question in b.questions(val) if question[0].startswith(
        (kind, 'properties'))])[:d.int(3, 14)]
    answers = set()
    for question in asked:
        d.note(question[0])
        b.ask(obj, val, question)
        if 'member' not in question[0]:
            answers.add(question[2](val))
    d.label(kind)
    if len(answers - {m.UNDEF}) > 1:
        d.nontrivial(m.show(val), [question[0] for question in asked])


TESTS = [questions, profiles, large]
