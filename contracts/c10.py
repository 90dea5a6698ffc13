''' C10 unique numbers '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('event streams: all well-nested streams of up to 4 elements over '
          '4 numbered and 2 other kinds, seeded random ones up to 60 '
          'elements')
ASSUMPTIONS = [
    'the attribute dictionaries of different elements are different objects; '
    'a start and an end event may or may not share theirs',
]
KINDS = ('Paragraph', 'TableControl', 'GShapeObjectControl', 'ShapeComponent')
IDS = dict(Paragraph='paragraph_id', TableControl='table_id',
           GShapeObjectControl='gshape_id', ShapeComponent='shape_id')


@unit('C10', funcs=['hwp5.xmlmodel.give_elements_unique_id'],
      covers=['numbered ' + k for k in KINDS] + ['other', 'end event',
                                                 'finished'])
def numbers(E):
    ''' the k-th output event is the k-th input event, unchanged but for the
    number of a START of a numbered kind, which is the count of such STARTs
    before it '''
    from .common import (event_stream, all_models, SIter, ti, prove_eq,
                         same_item, over)
    from .common import SVal, SInt, SBool
    from pyvc.models import SCount
    from hwp5 import xmlmodel
    from hwp5.treeop import STARTEVENT
    import z3
    stale = z3.Function('stale', z3.IntSort(), z3.BoolSort())
    old = z3.Function('old', z3.IntSort(), z3.IntSort(), z3.IntSort())

    def fields(i, ev, m):
        # the elements may already carry numbers, of an earlier numbering
        d = {'a0': SVal('a0', i)}
        if SBool(stale(ti(i))):
            for j, k in enumerate(KINDS):
                d[IDS[k]] = SInt(old(ti(i), j))
        return d

    def unchanged(attrs, but=None):
        i = attrs['a0']._idx
        had = ['a0']
        if SBool(stale(ti(i))):
            had += IDS.values()
        if sorted(set(attrs) | {but}  - {None}) != sorted(
                set(had) | {but} - {None}):
            return False
        for j, k in enumerate(KINDS):
            if IDS[k] in had and IDS[k] != but:
                prove_eq(E, attrs[IDS[k]], SInt(old(ti(i), j)),
                         'other attributes are unchanged')
        return True
    seq, n, elem = event_stream(E, 'events', all_models(), fields)
    it = SIter(seq, name='events')
    G = E.G
    G.declare(k=0, c0=0, c1=0, c2=0, c3=0)

    def role(key):
        s = (key if isinstance(key, str) else
             getattr(key, '__name__', '')).lower()
        for part, r in (('paragraph', 0), ('table', 1), ('gshape', 2),
                        ('shape', 3)):
            if part in s:
                return r

    def inv(L):
        for i in range(4):
            L.ghost('c%d' % i, 0)
        L.ghostlet('k', L.pos)
        # counters kept in a dict, or in counting iterators
        for name, v in list(L.env.items()):
            if type(v) is dict and len(v) == 4 and all(
                    isinstance(x, (int, SInt, SCount)) for x in v.values()):
                held = list(v.items())
            elif isinstance(v, SCount):
                held = [(name, v)]
            else:
                continue
            if sorted(str(role(key)) for key, x in held) != list('0123')[
                    :len(held)] and len(held) > 1:
                continue
            for key, x in held:
                r = role(key)
                if r is None:
                    continue
                if isinstance(x, SCount):
                    L.attr(x, 'value', getattr(G, 'c%d' % r))
                else:
                    L.item(v, key, getattr(G, 'c%d' % r))
    E.hints.append((over(it), inv, {}))
    for event, item in xmlmodel.give_elements_unique_id(it):
        E.prove(ti(G.k) < ti(n), 'no event is invented')
        ev, want = elem(G.k)
        if not (event == ev):
            E.fail('events keep their order')
        same_item(E, item, want, 'items pass unchanged')
        model, attrs, ctx = item
        if ev is STARTEVENT or ev == STARTEVENT:
            for i, k in enumerate(KINDS):
                if model == getattr(xmlmodel, k):
                    if IDS[k] not in attrs or not unchanged(attrs, IDS[k]):
                        E.fail('numbered ' + k, 'attributes %r' % list(attrs))
                    prove_eq(E, attrs[IDS[k]], getattr(G, 'c%d' % i),
                             'consecutive numbers of ' + k)
                    setattr(G, 'c%d' % i, getattr(G, 'c%d' % i) + 1)
                    E.cover('numbered ' + k)
                    break
            else:
                if not unchanged(attrs):
                    E.fail('other elements are unchanged', repr(list(attrs)))
                E.cover('other')
        else:
            if not unchanged(attrs):
                E.fail('end events are unchanged', repr(list(attrs)))
            E.cover('end event')
        G.k = G.k + 1
    E.prove(ti(G.k) == ti(n), 'every event is passed')
    E.cover('finished')


# -- cross-check --------------------------------------------------------------

def trees(rng, n, kinds):
    ''' a random forest in (kind, children) form '''
    out = []
    while n > 0:
        k = rng.randrange(0, n)
        out.append((rng.choice(kinds), trees(rng, k, kinds)))
        n -= k + 1
    return out


def small(n, kinds):
    if n == 0:
        yield []
        return
    for k in kinds:
        for a in range(n):
            for ch in small(a, kinds):
                for rest in small(n - 1 - a, kinds):
                    yield [(k, ch)] + rest


ALL = KINDS + ('TableBody', 'Text')


def cases(rng, tier):
    for n in (0, 1, 2, 3):
        for f in small(n, ALL):
            yield ('forest', f)
    for i in range(2000 if tier == 'quick' else 40000):
        yield ('forest', trees(rng, rng.randrange(1, 60), ALL),
               rng.choice((0, 0, 7)))


def check_case(case):
    from pyvc.concrete import need
    give, = need('hwp5.xmlmodel', 'give_elements_unique_id'),
    x = need('hwp5.xmlmodel')
    START, END = need('hwp5.treeop', 'STARTEVENT', 'ENDEVENT')
    events = []

    def walk(f):
        for k, ch in f:
            item = (need('hwp5.xmlmodel', k), {'a0': len(events)}, {})
            if len(case) > 2 and case[2] and len(events) % case[2] == 0:
                item[1].update((i, 5) for i in IDS.values())    # stale
            events.append((START, item))
            walk(ch)
            events.append((END, item))
    walk(case[1])
    before = [(e, i, dict(i[1])) for e, i in events]
    got = list(give(iter(events)))
    if [(e, i[0]) for e, i in got] != [(e, i[0]) for e, i, a in before]:
        return 'events changed'
    counts = {}
    for (e, i), (e0, i0, a0) in zip(got, before):
        want = dict(a0)
        k = i[0].__name__
        if k in IDS:
            if e is START:
                want[IDS[k]] = counts.get(k, 0)
                counts[k] = want[IDS[k]] + 1
                if dict(i[1]) != want:
                    return '%s has %r, not %r' % (k, i[1], want)
                a0.update(want)     # the end event shares the dict
            else:
                if i[1].get('a0') != a0['a0']:
                    return 'attributes changed'
        elif dict(i[1]) != want:
            return '%s has %r, not %r' % (k, i[1], want)
    return None
