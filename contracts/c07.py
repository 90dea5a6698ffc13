''' C07 restructuring keeps the events well nested '''
from pyvc.unit import unit
from . import documents     # noqa

LEVEL = 'proof'
BOUNDS = ('seeded random sections of up to about 40 text pieces and controls '
          '(tables in cells, captions, text boxes, notes, nested fields over '
          'several lines, unknown elements anywhere), every stage alone and '
          'all of them together; whole sample documents, with several '
          'sections, with and without stored data (cross-check, not counted '
          'as proved)')
ASSUMPTIONS = [
    'preconditions taken from the format: a list header or a table body does '
    'not stand at the top of a section; a field and a FIELD_END character '
    'stand directly in a line and have no events inside; a paragraph with '
    'text has character shapes; a section has its definition; no paragraph '
    'stands directly in a paragraph and none that begins columns at the top; '
    'each extended control character has its control; the cells of a table '
    'stand directly in its body, in the announced number',
    'that the outputs nest is argued with a key per open element (contracts/'
    'nest.py): the elements open in the input and those the stage adds form '
    'two stacks whose keys never interleave out of order; each start and end '
    'yielded is an obligation against those stacks',
    'callees by their contracts: C04 (build_subtree, tree_events), C06 '
    '(split_and_shape, make_ranged_shapes, line_segmented), C09 (rstbody_*), '
    'C19 (tokenize_unicode_by_lang)',
]
NOTE = ('every stage proved for streams of any length and depth, stage by '
        'stage; the concrete run of all stages together is a cross-check')
STAGES = ['text', 'inline', 'fields', 'lists', 'cells', 'rows', 'lang',
          'section', 'columns']


@unit('C07', funcs=['hwp5.xmlmodel.wrap_modelevents'],
      covers=['wrapped'])
def wrapped(E):
    ''' the events, all and in order, between one start and one end of the
    wrapper '''
    from .common import fresh_int, fresh_list, SVal, SIter, ti, prove_eq
    from hwp5 import xmlmodel
    from hwp5.treeop import STARTEVENT, ENDEVENT
    import z3
    n = fresh_int('n', 0)
    it = SIter(fresh_list(E, 'events', n, lambda i, t: SVal('event', i)),
               name='events')
    w = SVal('wrapper', 0)
    G = E.G
    G.declare(k=0, state=0)
    start = []

    def inv(L):
        L.ghostlet('k', L.pos)
        L.ghostlet('state', 1)
    E.hints.append((lambda L: L.it is it, inv, {'peel': 0}))
    for ev in xmlmodel.wrap_modelevents(w, it):
        if isinstance(ev, tuple):
            if len(ev) != 2 or ev[1] is not w:
                E.fail('events of the wrapper', repr(ev))
            if ev[0] is STARTEVENT:
                prove_eq(E, G.state, 0, 'one start, first')
                G.state = 1
            elif ev[0] is ENDEVENT:
                prove_eq(E, G.state, 1, 'one end')
                prove_eq(E, G.k, n, 'after all events')
                G.state = 2
            else:
                E.fail('a start or an end')
            continue
        prove_eq(E, G.state, 1, 'inside the wrapper')
        prove_eq(E, ev, SVal('event', G.k), 'the events in order')
        G.k = G.k + 1
    prove_eq(E, G.state, 2, 'started and ended')
    E.cover('wrapped')


@unit('C07', funcs=['hwp5.xmlmodel.tokenize_text_by_lang'],
      covers=['token', 'passed', 'finished'],
      notes=['tokenize_unicode_by_lang by its contract (C19)'])
def language_tokens(E):
    ''' a text becomes elements for its tokens, each started and ended, in
    order; everything else passes unchanged '''
    from .common import (fresh_int, fresh_list, SVal, SIter, ti, prove_eq,
                         event_stream, all_models, same_item, V, mkint)
    from hwp5 import xmlmodel
    from hwp5.treeop import STARTEVENT, ENDEVENT
    import z3
    cnt = z3.Function('cnt', z3.IntSort(), z3.IntSort())

    def fields(i, ev, m):
        return dict(text=SVal('text', i), charshape_id=SVal('shape', i))
    seq, n, elem = event_stream(E, 'events', all_models(), fields)
    it = SIter(seq, name='events')
    cur = {}

    def tokenize(text):
        if not isinstance(text, SVal) or text._base != 'text':
            E.fail('the text is tokenised', repr(text))
        i = text._idx
        E.prove(ti(i) == ti(it.pos) - 1, 'the text of this element')
        E.assume(cnt(ti(i)) >= 0)
        toks = fresh_list(E, 'tokens', mkint(cnt(ti(i))), lambda j, tag: (
            SVal('lang', j), SVal('tok', j)))
        cur['it'] = SIter(toks, name='tokens')
        return cur['it']
    E.contracts['hwp5.charsets.tokenize_unicode_by_lang'] = tokenize
    G = E.G
    # k: events given or replaced; t: tokens of the current text given;
    # half: a token is started
    G.declare(k=0, t=0, half=0)

    def inv(L):
        L.ghostlet('half', 0)
        if L.it is it:
            if L.mode == 'check':
                done(L)
            L.ghostlet('k', L.pos)
            L.ghostlet('t', 0)
        else:
            L.ghostlet('t', L.pos)

    def done(L):
        ''' the step of one event: a text is replaced by all its tokens '''
        i = L.pos - 1
        ev, (m, a, c) = elem(i)
        if E.branch(ti(G.k) == ti(i)):
            # nothing passed: it is a text
            if not E.branch(V.tb(V.same(m, xmlmodel.Text))):
                E.fail('other elements pass')
            if E.branch(V.tb(V.same(ev, STARTEVENT))):
                E.assume(cnt(ti(i)) >= 0)
                prove_eq(E, G.t, mkint(cnt(ti(i))), 'all the tokens')
            else:
                prove_eq(E, G.t, 0, 'the text was replaced at its start')
            G.k = G.k + 1
            G.t = 0
        else:
            E.prove(ti(G.k) == ti(i) + 1, 'one event for one')
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for event, item in xmlmodel.tokenize_text_by_lang(it):
        model, attrs, ctx = item
        i = mkint(ti(it.pos) - 1)
        ev, want = elem(i)
        if model is xmlmodel.Text and item is not want:
            if not E.branch(V.tb(V.same(want[0], xmlmodel.Text))) \
                    or not E.branch(V.tb(V.same(ev, STARTEVENT))):
                E.fail('tokens for the start of a text')
            if set(attrs) != set(('text', 'lang', 'charshape_id')):
                E.fail('attributes of a token', repr(sorted(attrs)))
            prove_eq(E, attrs['text'], SVal('tok', G.t), 'tokens in order')
            prove_eq(E, attrs['lang'], SVal('lang', G.t), 'its language')
            prove_eq(E, attrs['charshape_id'], want[1]['charshape_id'],
                     'the shape of the text')
            prove_eq(E, ctx, want[2], 'the context of the text')
            if event is STARTEVENT:
                prove_eq(E, G.half, 0, 'tokens are not nested')
                G.half = 1
                cur['tok'] = item
            elif event is ENDEVENT:
                prove_eq(E, G.half, 1, 'a started token is ended')
                if item is not cur['tok']:
                    E.fail('the end of the same token')
                G.half = 0
                G.t = G.t + 1
                E.cover('token')
            else:
                E.fail('a start or an end')
            continue
        prove_eq(E, G.k, i, 'events in order')
        E.prove(V.tb(V.same(event, ev)), 'the event passes')
        same_item(E, item, want, 'the item passes')
        if E.branch(V.tb(V.same(want[0], xmlmodel.Text))):
            E.fail('texts are replaced')
        G.k = G.k + 1
        E.cover('passed')
    prove_eq(E, G.k, n, 'nothing is lost')
    E.cover('finished')


def lists_stage(E, parent, child, run):
    ''' a list header is started where it stands and ended before the next
    element beside it that is not an item of the list, or with what it is
    in; everything else passes '''
    from .common import fresh_int, ti, prove_eq, mkint, all_models
    from .nest import Stream, Nest
    from hwp5.treeop import STARTEVENT
    import z3
    S = Stream(E, 'events', all_models())
    N = Nest(E, S)
    G = E.G
    header = lambda e: S.is_(e, lambda c: issubclass(c, parent))    # noqa
    item = lambda e: S.is_(e, lambda c: c is child)                 # noqa
    hel = z3.Function('header', z3.IntSort(), z3.IntSort())
    E.assume(S.dep(ti(S.n)) == 0)

    def make(j, level):
        h = hel(ti(j))
        S.at(h)
        E.assume(z3.And(h >= 0, h < ti(S.n), header(h)))
        return S.item(h)

    def pre(i):
        E.assume(z3.Implies(S.dep(i) == 0, z3.Not(header(S.own(i)))))

    def inv(L):
        if L.it is not S.it:
            return
        pos = ti(L.pos)
        if L.mode == 'check':
            i = pos - 1
            if not E.branch(ti(G.passed) == 1):
                # what is dropped
                E.prove(z3.And(z3.Not(S.st(i)), header(S.own(i))),
                        'only ends of list headers are dropped')
                G.d = mkint(ti(G.d) - 1)
                E.cover('dropped')
        if L.havocking:
            N.havoc(make, 2)
        L.ghost_havoc.update(['ex', 'passed'])
        L.ghostlet('d', mkint(S.dep(pos)))
        if L.mode != 'init':
            G.passed = 0
        N.bounded(L, S.dep(pos) + 1)
        L.contents(L.the_list('stack'), G.ex)
        L.int_candidate('depth', lambda v: ti(v) == S.dep(pos))
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for event, x in run(S.it):
        i = ti(S.cur())
        S.at(i)
        pre(i)
        e = S.element(x)
        if e is None:
            E.fail('elements are not replaced')
        L = S.dep(i) + 1
        if S.starts(event):
            E.prove(z3.And(S.st(i), S.own(i) == e), 'starts pass in order')
            prove_eq(E, G.passed, 0, 'once')
            if E.branch(header(e)):
                N.push(L, x)
                G.d = mkint(ti(G.d) + 1)
                E.cover('header')
            else:
                t = N.top()
                if t is not None:
                    if E.branch(t == L):
                        E.prove(item(e), 'the list has only its items')
                        E.cover('item')
                N.start()
            G.passed = 1
        elif E.branch(header(e)):
            lev, was = N.pop()
            E.prove(S.element(was) == e, 'the innermost list is ended')
            prove_eq(E, G.passed, 0, 'before the event')
            E.prove(z3.If(S.st(i), z3.And(L == ti(lev), z3.Not(item(
                S.own(i)))), S.dep(i) == ti(lev) - 1),
                'the list goes on to its last item')
            E.cover('list ended')
        else:
            E.prove(z3.And(z3.Not(S.st(i)), S.own(i) == e),
                    'ends pass in order')
            prove_eq(E, G.passed, 0, 'once')
            N.end()
            G.passed = 1
    E.prove(ti(G.ex.slen()) == 0, 'all the lists are ended')
    prove_eq(E, mkint(ti(S.it.pos)), S.n, 'nothing is lost')
    E.cover('finished')


@unit('C07', funcs=['hwp5.xmlmodel.make_paragraphs_children_of_listheader'],
      covers=['header', 'item', 'list ended', 'dropped', 'finished'],
      notes=['no list header stands at the top'])
def lists(E):
    from hwp5 import xmlmodel as x, binmodel
    lists_stage(E, binmodel.ListHeader, x.Paragraph,
                x.make_paragraphs_children_of_listheader)


@unit('C07', funcs=['hwp5.xmlmodel.make_paragraphs_children_of_listheader'],
      covers=['header', 'item', 'list ended', 'dropped', 'finished'],
      notes=['no table body stands at the top'])
def cells(E):
    from hwp5 import xmlmodel as x
    lists_stage(E, x.TableBody, x.TableCell, lambda it:
                x.make_paragraphs_children_of_listheader(
                    it, x.TableBody, x.TableCell))


@unit('C07', funcs=['hwp5.xmlmodel.match_field_start_end',
                    'hwp5.xmlmodel.mfse_field',
                    'hwp5.xmlmodel.mfse_lineseg',
                    'hwp5.xmlmodel.mfse_field_end'],
      covers=['field', 'field ended', 'nothing to end', 'line', 'line ended',
              'reopened', 'closed', 'other', 'finished'],
      notes=['a field and a field end stand directly in a line; a control '
             'character has nothing inside; any number of fields may be '
             'left open or ended without being open'])
def fields(E):
    ''' a field is opened where it starts and closed where it is ended; what
    is open at the end of a line is closed there and opened again, in order,
    at the start of the next '''
    from .common import ti, tb, prove_eq, mkint, all_models, Rope, V
    from .common import fresh_list, SInt, Lit
    from .c04 import append, list_of
    from .nest import Stream, Name
    from hwp5 import xmlmodel as x
    import z3

    I = z3.IntSort()
    isend = z3.Function('is_field_end', I, z3.BoolSort())
    S = Stream(E, 'events', all_models(), lambda e, m: dict(
        name=Name('FIELD_END', isend(ti(e)))))
    E.assume(S.dep(ti(S.n)) == 0)
    G = E.G
    nothing = Rope('list', [])
    # ex: the fields open in the output; Ds, bases: depth of each open line
    # and how many fields were open before it; pend: to be opened again
    G.declare(d=0, ex=nothing, Ds=nothing, bases=nothing, pend=nothing,
              snap=nothing, passed=0, r=0)
    is_field = lambda e: S.is_(e, lambda c: issubclass(c, x.Field))  # noqa
    is_line = lambda e: S.is_(e, lambda c: c is x.LineSeg)           # noqa

    def is_mark(e):
        return z3.And(S.is_(e, lambda c: c is x.ControlChar), isend(e))
    fel = [z3.Function('field%d' % k, I, I) for k in range(2)]

    def a_field(f, j):
        h = f(ti(j))
        S.at(h)
        E.assume(z3.And(h >= 0, h < ti(S.n), is_field(h)))
        return S.item(h)

    def line():
        ''' depth and base of the innermost open line '''
        if E.branch(ti(G.Ds.slen()) == 0):
            return None
        return ti(G.Ds[-1]), ti(G.bases[-1])

    def base():
        l = line()
        return z3.IntVal(0) if l is None else l[1]

    def size():
        return ti(G.ex.slen())

    def facts(i):
        ''' what holds of event i of the input '''
        S.at(i)
        e, st = S.own(i), S.st(i)
        l = line()
        if l is None:
            # the lines followed are the open lines of the input
            E.assume(z3.Not(z3.Or(is_field(e), is_mark(e))))
            E.assume(z3.Implies(is_line(e), st))
            return
        E.assume(z3.Implies(z3.Not(st), z3.If(
            is_line(e), l[0] == S.dep(i), l[0] < S.dep(i))))
        E.assume(z3.Implies(z3.Or(is_field(e), is_mark(e)),
                            S.dep(e) == l[0]))
        # control characters are leaves
        E.assume(z3.Implies(z3.And(i > 0, S.st(i - 1), is_mark(S.own(i - 1))),
                            z3.And(z3.Not(st), e == i - 1)))
        E.assume(z3.Implies(z3.And(is_mark(e), z3.Not(st)), e == i - 1))

    def on_next(i, v):
        i = ti(i)
        S.at(i)
        S.at(i - 1)
        facts(i)
        G.snap = G.ex
    S.it.on_next = on_next

    def done():
        i = ti(S.cur())
        e, st = S.own(i), S.st(i)
        if E.branch(ti(G.passed) == 1):
            return
        if E.branch(is_field(e)):
            E.prove(z3.Not(st), 'fields are started')
            G.d = mkint(ti(G.d) - 1)
        else:
            E.prove(is_mark(e), 'only field ends are dropped')
            if not E.branch(st):
                E.prove(size() == base(), 'an open field is ended')
                E.cover('nothing to end')

    def inside(pos):
        ''' is a field end char just started? '''
        return z3.And(pos > 0, S.st(pos - 1), is_mark(S.own(pos - 1)))

    def inv(L):
        if L.it is not S.it:
            return inner(L)
        if L.mode == 'check':
            done()
        pos = ti(L.pos)
        S.at(pos - 1)
        if L.havocking:
            m = z3.Int(E.fresh('lines'))
            k = z3.Int(E.fresh('open'))
            q = z3.Int(E.fresh('pending'))
            E.assume(z3.And(m >= 0, k >= 0, q >= 0))
            D = z3.Function(E.fresh('D'), I, I)
            B = z3.Function(E.fresh('B'), I, I)

            def depth(j, tag):
                t = ti(j)
                E.assume(z3.And(D(t) >= 1, z3.Implies(t > 0, z3.And(
                    D(t - 1) < D(t), D(t - 1) >= 1))))
                return SInt(D(t))

            def number(j, tag):
                t = ti(j)
                E.assume(z3.And(B(t) >= 0, z3.Implies(t == 0, B(t) == 0),
                                z3.Implies(t > 0, z3.And(
                                    B(t - 1) <= B(t), B(t - 1) >= 0))))
                return SInt(B(t))
            G.Ds = fresh_list(E, 'Ds', mkint(m), depth)
            G.bases = fresh_list(E, 'bases', mkint(m), number)
            G.ex = fresh_list(E, 'ex', mkint(k),
                              lambda j, tag: a_field(fel[0], j))
            G.pend = fresh_list(E, 'pend', mkint(q),
                                lambda j, tag: a_field(fel[1], j))
        L.ghost_havoc.update(['ex', 'passed', 'Ds', 'bases', 'pend', 'snap',
                              'r'])
        L.ghostlet('d', mkint(S.dep(pos) - z3.If(inside(pos), 1, 0)))
        if L.mode != 'init':
            G.passed = 0
            G.r = 0
        L.fact(ti(G.bases.slen()) == ti(G.Ds.slen()), 'lines')
        l = line()
        if l is None:
            L.fact(z3.And(size() == 0, z3.Not(inside(pos))),
                   'no field outside of the lines')
        else:
            L.fact(z3.And(l[1] <= size(), l[0] <= S.dep(pos)),
                   'fields of the line')
            L.fact(z3.Implies(inside(pos), l[0] == S.dep(pos) - 1),
                   'a field end is in the line')
        L.contents(L.var('stack'), G.ex)
        L.contents(L.var('lines'), [0] + list_of(G.bases))
        L.contents(L.var('pending'), G.pend)

    def inner(L):
        i = ti(S.cur())
        if E.branch(S.st(i)):
            L.ghostlet('r', L.pos)
            L.ghostlet('ex', Rope('list', V.normal(
                list(V.segs_of(G.snap))
                + list(V.segs_of(G.pend[:mkint(ti(L.pos))])))))
        else:
            L.ghostlet('ex', G.snap[:mkint(ti(G.snap.slen()) - ti(L.pos))])
    E.hints.append((lambda L: True, inv, {'peel': 0}))

    def is_item(got, want, what):
        E.prove(S.element(got) == S.element(want), what)

    for event, got in x.match_field_start_end(S.it):
        i = ti(S.cur())
        e = S.element(got)
        if e is None:
            E.fail('elements are not replaced')
        own, st = S.own(i), S.st(i)
        l = line()
        if S.starts(event):
            E.prove(st, 'starts at starts')
            if l is not None:
                E.prove(l[0] <= ti(G.d), 'a start is inside all that is open')
            if E.branch(z3.And(is_line(own), ti(G.passed) == 1)):
                # the line is started: its fields again
                E.prove(ti(G.r) < ti(G.pend.slen()), 'only what was open')
                is_item(got, G.pend[G.r], 'fields are opened again in order')
                E.prove(ti(G.d) == l[0], 'fields are right inside the line')
                G.r = G.r + 1
                G.ex = append(G.ex, got)
                E.cover('reopened')
                continue
            E.prove(e == own, 'the element of the event')
            prove_eq(E, G.passed, 0, 'once')
            G.passed = 1
            if E.branch(is_field(own)):
                E.prove(z3.And(l is not None and l[0] == ti(G.d)),
                        'fields are right inside the line')
                G.ex = append(G.ex, got)
                G.pend = G.ex[mkint(l[1]):]
                E.cover('field')
            else:
                E.prove(z3.Not(is_mark(own)), 'field ends are dropped')
                E.cover('other')
            G.d = mkint(ti(G.d) + 1)
            if E.branch(is_line(own)):
                G.bases = append(G.bases, G.ex.slen())
                G.Ds = append(G.Ds, G.d)
                E.cover('line')
            continue
        E.prove(z3.Not(st), 'ends at ends')
        prove_eq(E, G.passed, 0, 'once, and last')
        if E.branch(is_field(e)):
            # a field is closed
            E.prove(size() > base(), 'a field of this line is open')
            is_item(got, G.ex[-1], 'the innermost field is closed')
            E.prove(ti(G.d) == l[0], 'after all that is inside')
            G.ex = G.ex[:-1]
            if E.branch(is_line(own)):
                E.cover('closed')
            else:
                E.prove(is_mark(own), 'closed where it is ended')
                G.pend = G.ex[mkint(l[1]):]
                G.passed = 1
                E.cover('field ended')
            continue
        E.prove(e == own, 'the element of the event')
        E.prove(z3.Not(is_mark(own)), 'field ends are dropped')
        if l is not None:
            E.prove(z3.If(size() > l[1], l[0] + 1, l[0]) <= ti(G.d),
                    'an end is of what is open innermost')
        G.d = mkint(ti(G.d) - 1)
        G.passed = 1
        if E.branch(is_line(own)):
            G.pend = G.snap[mkint(l[1]):]
            E.prove(size() == l[1], 'the fields of the line are closed')
            G.Ds = G.Ds[:-1]
            G.bases = G.bases[:-1]
            E.cover('line ended')
    E.prove(size() == 0, 'all the fields are closed')
    prove_eq(E, mkint(ti(S.it.pos)), S.n, 'nothing is lost')
    E.cover('finished')


@unit('C07', funcs=['hwp5.xmlmodel.merge_paragraph_text_charshape_lineseg'],
      covers=['line', 'inside', 'finished', 'no lines'],
      notes=['split_and_shape, make_ranged_shapes, line_segmented and '
             'range_shaped_textchunk_events by their contracts (C06)'])
def merging(E):
    ''' the lines of the shaped text, each started and ended around its
    own events '''
    from .common import (fresh_int, fresh_list, SVal, SIter, ti, V, prove_eq,
                         mkint)
    from hwp5 import xmlmodel as x
    from hwp5.treeop import STARTEVENT, ENDEVENT
    import z3
    n = fresh_int('n', 0)
    chunks = fresh_list(E, 'chunks', n, lambda i, tag: (
        SVal('range', i), SVal('chunk', i)))
    k = fresh_int('shapes', 1)
    shapes = fresh_list(E, 'shapes', k, lambda i, tag: SVal('mark', i))
    m = fresh_int('segs', 1)
    segs = fresh_list(E, 'segs', m, lambda i, tag: dict(
        chpos=SVal('chpos', i), seg=SVal('seg', i)))
    noline = E.choose(2)
    tctx, sctx = {'version': SVal('version', 0)}, SVal('seg context', 0)
    text = (x.ParaText, dict(chunks=chunks), tctx)
    shape = (x.ParaCharShape, dict(charshapes=shapes), SVal('context', 1))
    seg = None if noline else (x.ParaLineSeg, dict(linesegs=segs), sctx)
    made = {}

    def some(seq, n, what):
        ''' an arbitrary item '''
        if not isinstance(seq, V.SIter):
            E.fail(what, repr(type(seq)))
        E.prove(ti(seq.n()) == ti(n), what)
        j = fresh_int('j', 0)
        E.assume(ti(j) < ti(n))
        return j, V.Rope('list', list(seq.segs()))[j]

    def ranged(what):
        if what is shapes:
            made['shapes'] = SVal('ranges', 0)
            return made['shapes']
        if noline:
            xs = list(what)
            if len(xs) != 1 or xs[0][0] != 0 or not isinstance(
                    xs[0][1], dict) or xs[0][1]['chpos'] != 0:
                E.fail('one line from the start', repr(xs))
            E.cover('no lines')
        else:
            j, v = some(what, m, 'all the line segments')
            prove_eq(E, v[0], SVal('chpos', j), 'where the line starts')
            prove_eq(E, v[1]['seg'], SVal('seg', j), 'the line')
        made['lines'] = SVal('ranges', 1)
        return made['lines']

    def split(what, ranges):
        if ranges is not made['shapes']:
            E.fail('text is split by shapes')
        j, v = some(what, n, 'all the text')
        prove_eq(E, v[0], SVal('range', j), 'the position of the text')
        if v[1] is not None:
            E.fail('not labelled yet')
        prove_eq(E, v[2], SVal('chunk', j), 'the text')
        made['split'] = SVal('shaped', 0)
        return made['split']
    count = fresh_int('lines', 0)
    cnt = z3.Function('cnt', z3.IntSort(), z3.IntSort())

    def segmented(what, ranges):
        if what is not made['split'] or ranges is not made['lines']:
            E.fail('shaped text is split by lines')
        made['it'] = SIter(fresh_list(E, 'lined', count, lambda j, tag: (
            SVal('line', j), SVal('pieces', j))), name='lines')
        return made['it']

    def events(ctx, pieces):
        if ctx is not tctx:
            E.fail('the context of the text')
        j = pieces._idx
        prove_eq(E, pieces, SVal('pieces', j), 'the pieces of a line')
        E.assume(cnt(ti(j)) >= 0)
        made['j'] = j
        return SIter(fresh_list(E, 'events', mkint(cnt(ti(j))),
                                lambda t, tag: SVal('event', t)), name='ev')
    q = 'hwp5.xmlmodel.'
    E.contracts[q + 'make_ranged_shapes'] = ranged
    E.contracts[q + 'split_and_shape'] = split
    E.contracts[q + 'line_segmented'] = segmented
    E.contracts[q + 'range_shaped_textchunk_events'] = events
    G = E.G
    # l: lines ended; t: events of the line given; state: a line is open
    G.declare(l=0, t=0, state=0)

    def inv(L):
        if L.it is made.get('it'):
            L.ghostlet('l', L.pos)
            L.ghostlet('t', 0)
            L.ghostlet('state', 0)
        else:
            L.ghostlet('t', L.pos)
            L.ghostlet('state', 1)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for ev in x.merge_paragraph_text_charshape_lineseg(text, shape, seg):
        if isinstance(ev, SVal):
            prove_eq(E, G.state, 1, 'in a line')
            prove_eq(E, ev, SVal('event', G.t), 'the events in order')
            prove_eq(E, made['j'], G.l, 'of its line')
            G.t = G.t + 1
            E.cover('inside')
            continue
        event, (m_, a, c) = ev
        if m_ is not x.LineSeg:
            E.fail('a line', repr(m_))
        prove_eq(E, a, SVal('line', G.l), 'lines in order')
        if noline:
            if c != {}:
                E.fail('the context of the line')
        elif c is not sctx:
            E.fail('the context of the lines')
        if event is STARTEVENT:
            prove_eq(E, G.state, 0, 'lines are not nested')
            G.state = 1
        elif event is ENDEVENT:
            prove_eq(E, G.state, 1, 'a line is ended once')
            prove_eq(E, G.t, mkint(cnt(ti(G.l))), 'after its events')
            G.state = 0
            G.t = 0
            G.l = G.l + 1
            E.cover('line')
        else:
            E.fail('a start or an end')
    prove_eq(E, G.state, 0, 'the last line is ended')
    prove_eq(E, G.l, count, 'all the lines')
    E.cover('finished')


@unit('C07', funcs=['hwp5.xmlmodel.make_texts_linesegmented_and_charshaped'],
      covers=['paragraph', 'ended', 'no text', 'line events', 'other',
              'finished'],
      notes=['merge_paragraph_text_charshape_lineseg by its contract: lines '
             'one after the other, each started and ended (merging)',
             'text, shapes and line segments stand in a paragraph, which has '
             'character shapes'])
def texts(E):
    ''' the records of a paragraph's text are replaced by its lines, which
    come last in the paragraph; everything else passes '''
    from .common import (ti, prove_eq, mkint, all_models, Rope, V, SVal,
                         SIter, fresh_list)
    from .c04 import append
    from .nest import Stream, Slots
    from hwp5 import xmlmodel as x
    import z3

    I = z3.IntSort()
    S = Stream(E, 'events', all_models())
    E.assume(S.dep(ti(S.n)) == 0)
    kinds = (x.ParaText, x.ParaCharShape, x.ParaLineSeg, x.ParaRangeTag)
    # the latest record of a kind before event i in paragraph e, or -1
    last = dict((k, z3.Function('last_' + k.__name__, I, I, I))
                for k in kinds)
    is_para = lambda e: S.is_(e, lambda c: c is x.Paragraph)    # noqa
    is_part = lambda e: S.is_(e, lambda c: c in kinds)          # noqa
    cnt = z3.Function('cnt', I, I)
    G = E.G
    # paras: the open paragraphs; t: events of the lines given
    G.declare(d=0, paras=Rope('list', []), passed=0, t=0, written=0)
    made = {}

    def top():
        if E.branch(ti(G.paras.slen()) == 0):
            return None
        return ti(G.paras[-1].e)

    def read(slots, k):
        if k not in last:
            E.fail('something else is looked up', repr(k))
        i = ti(S.cur())
        v = last[k](i, ti(slots.e))
        E.assume(z3.And(v >= -1, v < i))
        if E.branch(v < 0):
            return None
        E.assume(S.is_(v, lambda c: c is k))
        return S.item(v)

    def write(slots, k, v):
        i = ti(S.cur())
        k = k.the() if isinstance(k, V.SClass) else k
        prove_eq(E, G.written, 0, 'once')
        if slots.e is None:
            E.fail('what is kept before the paragraph is open')
        E.prove(z3.And(S.st(i), ti(slots.e) == top()),
                'kept for the innermost paragraph')
        e = S.element(v)
        if e is None:
            E.fail('the record is kept')
        E.prove(z3.And(e == S.own(i), S.is_(e, lambda c: c is k)),
                'the record is kept as what it is')
        G.written = 1

    def new(*a, **kw):
        if len(a) == 1 and isinstance(a[0], SVal):
            return SVal('copy of ' + a[0]._base, a[0]._idx)
        if a or kw:
            return dict(*a, **kw)
        made['new'] = Slots(None, read, write)
        return made['new']
    E.models[dict] = new

    def merge(text, shape, seg):
        i = ti(S.cur())
        e = S.own(i)
        E.prove(z3.And(z3.Not(S.st(i)), is_para(e)),
                'merged at the end of a paragraph')
        prove_eq(E, G.t, 0, 'once')
        for v, k in ((text, x.ParaText), (shape, x.ParaCharShape),
                     (seg, x.ParaLineSeg)):
            l = last[k](i, e)
            E.assume(z3.And(l >= -1, l < i))
            if k is x.ParaCharShape:
                E.assume(l >= 0)
            if E.branch(l < 0):
                if k is x.ParaText:
                    E.cover('no text')
                    if v[0] is not k or list(v[1]) != ['chunks'] \
                            or list(v[1]['chunks']) != [((0, 0), '')]:
                        E.fail('an empty text', repr(v))
                    c = S.item(e)[2]
                    prove_eq(E, v[2], SVal('copy of ' + c._base, c._idx),
                             'the context of the paragraph')
                elif v is not None:
                    E.fail('no line segments')
            else:
                w = S.element(v)
                if w is None:
                    E.fail('a record of the paragraph', repr(v))
                E.prove(w == l, 'the record of this paragraph')
        E.assume(cnt(i) >= 0)
        return SIter(fresh_list(E, 'lines', mkint(cnt(i)), lambda j, tag:
                                SVal('line event', j)), name='lines')
    E.contracts['hwp5.xmlmodel.merge_paragraph_text_charshape_lineseg'] = \
        merge

    def facts(i, v):
        i = ti(i)
        S.at(i)
        t = top()
        o, st = S.own(i), S.st(i)
        if t is None:
            E.assume(z3.Not(is_part(o)))
            E.assume(z3.Implies(is_para(o), st))
        else:
            # what is followed are the open paragraphs of the input
            E.assume(z3.Implies(z3.And(is_para(o), z3.Not(st)), o == t))
        made.pop('new', None)
    S.it.on_next = facts

    def done():
        i = ti(S.cur())
        e, st = S.own(i), S.st(i)
        if E.branch(is_para(e)):
            prove_eq(E, G.passed, 1, 'paragraphs pass')
            if E.branch(st):
                new = made.get('new')
                if new is None:
                    E.fail('something is kept for the paragraph')
                new.e = e
                G.paras = append(G.paras, new)
                E.cover('paragraph')
            else:
                G.paras = G.paras[:-1]
                E.cover('ended')
        elif E.branch(is_part(e)):
            prove_eq(E, G.passed, 0, 'parts are replaced')
            prove_eq(E, G.written, mkint(z3.If(st, 1, 0)),
                     'every part is kept')
        else:
            prove_eq(E, G.passed, 1, 'the others pass')
        G.d = mkint(ti(G.d) + z3.If(st, 1, -1))

    def inv(L):
        if L.it is not S.it:
            L.ghostlet('t', L.pos)
            return
        if L.mode == 'check':
            done()
        if L.havocking:
            m = z3.Int(E.fresh('paras'))
            E.assume(m >= 0)
            pe = z3.Function(E.fresh('para'), I, I)

            def para(j, tag):
                t = pe(ti(j))
                E.assume(z3.And(t >= 0, t < ti(S.n), is_para(t)))
                return Slots(t, read, write)
            G.paras = fresh_list(E, 'paras', mkint(m), para)
        L.ghost_havoc.update(['paras', 'passed', 't', 'written'])
        L.ghostlet('d', mkint(S.dep(ti(L.pos))))
        if L.mode != 'init':
            G.passed = G.t = G.written = 0
        L.contents(L.the_list('stack'), G.paras)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for got in x.make_texts_linesegmented_and_charshaped(S.it):
        i = ti(S.cur())
        e, st = S.own(i), S.st(i)
        prove_eq(E, G.passed, 0, 'one event for one')
        if isinstance(got, SVal):
            prove_eq(E, got, SVal('line event', G.t), 'the lines in order')
            G.t = G.t + 1
            E.cover('line events')
            continue
        event, item = got
        w = S.element(item)
        if w is None:
            E.fail('elements are not replaced')
        E.prove(w == e, 'the element of the event')
        if S.starts(event):
            E.prove(st, 'starts at starts')
            E.cover('other')
        else:
            E.prove(z3.Not(st), 'ends at ends')
            if E.branch(is_para(e)):
                prove_eq(E, G.t, mkint(cnt(i)), 'all the lines')
        G.passed = 1
    prove_eq(E, mkint(ti(S.it.pos)), S.n, 'nothing is lost')
    prove_eq(E, G.d, 0, 'everything is ended')
    E.cover('finished')


@unit('C07', funcs=['hwp5.xmlmodel.wrap_section'],
      covers=['definition', 'inside', 'before', 'after', 'finished', 'none',
              'finished without'],
      notes=['build_subtree and tree_events_multi by their contracts (C04)'])
def section(E):
    ''' with p..q the events of the first section definition, the output is
    p, p+1..q-1, 0..p-1, q+1..n-1, q: all of the events, with a balanced part
    taken out of its place and put around the rest; without a definition it
    is the input '''
    from .common import (fresh_int, ti, prove_eq, mkint, all_models, Rope, V,
                         View, SVal, SIter, fresh_list)
    from .nest import Stream
    from hwp5 import xmlmodel as x
    import z3
    S = Stream(E, 'events', all_models())
    n = ti(S.n)
    E.assume(S.dep(n) == 0)
    p, q = ti(fresh_int('p', 0)), ti(fresh_int('q', 0))
    is_def = lambda e: S.is_(e, lambda c: c is x.SectionDef)    # noqa
    without = E.choose(2) == 1
    if without:
        E.assume(z3.And(p == n, q == n))
    else:
        E.assume(z3.And(p < q, q < n, S.st(p), z3.Not(S.st(q)),
                        S.own(q) == p, S.own(p) == p))
        E.assume(is_def(p))
    sid = [None, SVal('section id', 0), 0][E.choose(3)]
    the_item = S.item(p)
    content = fresh_list(E, 'content', fresh_int('children', 0),
                         lambda i, t: SVal('child', i))
    G = E.G
    # state: 0 nothing, 1 the definition is open, 2 ended; k: how many of
    # the events p+1.., 0.., q+1.. were given
    G.declare(state=0, k1=mkint(p + 1), k2=0, k3=mkint(q + 1))
    if without:
        G.k1 = G.k3 = mkint(n)
    made = {}

    def first(i, v):
        made['last'] = v
        i = ti(i)
        S.at(i)
        # (what ends before p was started before p)
        E.assume(z3.Implies(i < p, z3.Not(is_def(S.own(i)))))
    S.it.on_next = first

    def build(it):
        if it is not S.it:
            E.fail('the subtree is read from the events')
        E.prove(ti(it.pos) == p + 1, 'the subtree of the definition')
        it.pos = q + 1
        # (the start and the end carry one item)
        return made['last'][1], content

    def events(children):
        prove_eq(E, children, content, 'the content of the definition')
        made['inner'] = SIter(Rope('list', [View(S.b, p + 1, q)]),
                              name='content')
        return made['inner']
    E.contracts['hwp5.treeop.build_subtree'] = build
    E.contracts['hwp5.treeop.tree_events_multi'] = events

    def inv(L):
        pos = ti(L.pos)
        if L.it is S.it:
            L.fact(z3.Or(pos <= p, pos >= q + 1), 'not inside')
            before = without or E.branch(pos <= p)
            if without:
                L.let('sectiondef', None)
                L.let(L.the(lambda v: isinstance(v, bool), 'the flag',
                            'started'), False)
                L.contents(L.the_list('starting_buffer'), Rope('list', [
                    View(S.b, 0, pos)]))
                return
            L.ghostlet('state', 0 if before else 1)
            L.ghostlet('k1', mkint(p + 1 if before else q))
            L.ghostlet('k2', mkint(z3.IntVal(0) if before else p))
            L.ghostlet('k3', mkint(q + 1 if before else pos))
            L.let(L.the(lambda v: isinstance(v, bool), 'the flag', 'started'),
                  not before)
            L.let('sectiondef', None if before else the_item)
            L.contents(L.the_list('starting_buffer'), Rope('list', [
                View(S.b, 0, pos if before else p)]))
        elif L.it is made.get('inner'):
            L.ghostlet('k1', mkint(p + 1 + pos))
        else:
            L.ghostlet('k2', mkint(pos))
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for event, got in x.wrap_section(S.it, sid):
        prove = E.prove
        e = S.element(got)
        if e is None:
            E.fail('elements are not replaced')
        st = S.starts(event)
        if without:
            k = ti(G.k2)
            prove(k < n, 'nothing is made up')
            S.at(k)
            prove(z3.And(e == S.own(k), S.st(k) == st), 'all events in order')
            G.k2 = mkint(k + 1)
            E.cover('none')
            continue
        if E.branch(ti(G.state) == 0):
            prove(z3.And(st, e == p), 'the definition first')
            if sid is None:
                if 'section_id' in got[1]:
                    E.fail('no number is made up')
            elif got[1].get('section_id', None) is not sid:
                E.fail('the number of the section')
            G.state = 1
            E.cover('definition')
            continue
        prove(ti(G.state) == 1, 'nothing after the definition')
        if E.branch(ti(G.k1) < q):
            k, name = ti(G.k1), 'inside'
            G.k1 = mkint(k + 1)
        elif E.branch(ti(G.k2) < p):
            k, name = ti(G.k2), 'before'
            G.k2 = mkint(k + 1)
        elif E.branch(ti(G.k3) < n):
            k, name = ti(G.k3), 'after'
            prove(k == ti(S.cur()), 'in step')
            G.k3 = mkint(k + 1)
        else:
            prove(z3.And(not st, e == p), 'the definition last')
            G.state = 2
            continue
        S.at(k)
        prove(z3.And(e == S.own(k), S.st(k) == st), 'all events in order')
        E.cover(name)
    if without:
        prove_eq(E, G.k2, mkint(n), 'nothing is lost')
        E.cover('finished without')
        return
    prove_eq(E, G.state, 2, 'the definition is ended')
    E.cover('finished')


@unit('C07', funcs=['hwp5.xmlmodel.wrap_columns'],
      covers=['column', 'next column', 'column ended', 'paragraph', 'other',
              'finished', 'last column'],
      notes=['no paragraph is right inside a paragraph; there are no column '
             'sets yet'])
def columns(E):
    ''' a paragraph that begins columns is put in a new column set, which
    goes on to the next such paragraph beside it or the end of what both are
    in; everything passes '''
    from .common import (ti, prove_eq, mkint, all_models, Rope, V, SVal,
                         fresh_list)
    from .c04 import append
    from .nest import Stream
    from hwp5 import xmlmodel as x
    import z3

    I = z3.IntSort()
    newcol = z3.Function('new_columns', I, z3.BoolSort())
    S = Stream(E, 'events', [c for c in all_models()
                             if c is not x.ColumnSet], lambda e, m: dict(
        split=SVal('split', e)))
    E.assume(S.dep(ti(S.n)) == 0)
    G = E.G
    # st: what is kept; fed: there was an event; passed: it is given; new: a
    # column set was started for it
    G.declare(st=Rope('list', []), passed=0, new=0, fed=0)
    is_para = lambda e: S.is_(e, lambda c: c is x.Paragraph)    # noqa

    def flags(v):
        if not isinstance(v, SVal) or v._base != 'split':
            E.fail('the flags of the paragraph')
        return SVal('flags', v._idx,
                    new_columnsdef=V.mkbool(newcol(ti(v._idx))))
    E.models[x.Paragraph.SplitFlags] = flags

    def iscol(item):
        return item[0] is x.ColumnSet

    def near(e):
        ''' e or, if that is a paragraph, what it is in '''
        return z3.If(z3.And(e >= 0, is_para(e)), S.par(e), e)

    def top():
        ''' (the element, is a column set open in it?) '''
        if E.branch(ti(G.st.slen()) == 0):
            return z3.IntVal(-1), False
        t = G.st[-1]
        if iscol(t):
            if E.branch(ti(G.st.slen()) == 1):
                return z3.IntVal(-1), True
            return S.element(G.st[-2]), True
        return S.element(t), False

    def facts(i, v=None):
        i = ti(i)
        S.at(i)
        S.chain(i)
        S.at(S.own(i))
        e = S.own(i)
        E.assume(z3.Implies(is_para(e), z3.Implies(
            S.par(e) >= 0, z3.Not(is_para(S.par(e))))))
        if v is not None:
            G.fed = 1
    S.it.on_next = facts

    def state():
        m = z3.Int(E.fresh('kept'))
        E.assume(m >= 0)
        col = z3.Function(E.fresh('column'), I, z3.BoolSort())
        el = z3.Function(E.fresh('element'), I, I)

        def about(t):
            E.assume(z3.Implies(z3.And(t >= 0, t < m), z3.If(
                col(t), z3.Implies(t >= 1, z3.Not(col(t - 1))),
                z3.And(el(t) >= 0, el(t) < ti(S.n),
                       z3.Not(is_para(el(t)))))))
            S.link(el(t))

        def entry(j, tag):
            t = ti(j)
            about(t)
            about(t - 1)
            about(t - 2)
            if E.branch(col(t)):
                return (x.ColumnSet, {}, {})
            u = z3.If(z3.And(t >= 1, col(t - 1)), t - 2, t - 1)
            p = S.par(el(t))
            S.link(p)
            E.assume(z3.If(u < 0, near(p) == -1, near(p) == el(u)))
            return S.item(el(t))
        return fresh_list(E, 'kept', mkint(m), entry)

    def inv(L):
        pos = ti(L.pos)
        if L.mode == 'check':
            prove_eq(E, G.passed, 1, 'every event is given')
        if L.havocking:
            G.st = state()
        L.ghost_havoc.update(['st', 'passed', 'new', 'fed'])
        if L.mode != 'init':
            G.passed = G.new = G.fed = 0
        S.chain(pos)
        if L.mode == 'init':
            E.assume(S.inn(0) == -1)
        if L.mode == 'check':
            S.chain(pos - 1)
        e, c = top()
        inn = S.inn(pos)
        E.assume(z3.And(inn >= -1, inn < pos))
        L.fact(e == near(inn), 'what is kept is what is open')
        L.contents(L.the_list('stack'), G.st)
    E.hints.append((lambda L: L.it is S.it, inv, {'peel': 0}))
    for event, got in x.wrap_columns(S.it):
        i = ti(S.cur())
        own, st = S.own(i), S.st(i)
        e, c = top()
        over = not E.branch(ti(G.fed) == 1)
        prove_eq(E, G.passed, 0, 'the event last')
        if not isinstance(got, tuple) or len(got) != 3:
            E.fail('an item')
        starts = S.starts(event)
        begins = z3.And(st, is_para(own), newcol(own))
        if isinstance(got[0], type) and iscol(got):
            if got[1] or got[2]:
                E.fail('a column set is nothing but that', repr(got))
            E.prove(S.inn(ti(S.n) if over else i) == e,
                    'column sets are right inside')
            if starts:
                E.prove(begins, 'a paragraph begins columns')
                prove_eq(E, G.new, 0, 'one column set')
                if c:
                    E.fail('a column set in a column set')
                G.new = 1
                G.st = append(G.st, got)
                E.cover('column')
            else:
                if not c:
                    E.fail('a column set is ended that is open')
                if over:
                    E.prove(e == -1, 'all else is ended')
                    E.cover('last column')
                else:
                    E.prove(z3.Or(begins, z3.And(
                        z3.Not(st), own == e)), 'columns go on')
                prove_eq(E, G.new, 0, 'before the next')
                G.st = G.st[:-1]
                E.cover('column ended')
                if E.branch(st):
                    E.cover('next column')
            continue
        w = S.element(got)
        if w is None:
            E.fail('elements are not replaced')
        if over:
            E.fail('nothing is made up')
        E.prove(z3.And(w == own, st == starts), 'the events pass in order')
        prove_eq(E, G.new, mkint(z3.If(begins, 1, 0)),
                 'columns are begun before the paragraph')
        if E.branch(is_para(own)):
            E.cover('paragraph')
        elif starts:
            G.st = append(G.st, got)
            E.cover('other')
        else:
            if c:
                E.fail('a column set is ended before what it is in')
            E.prove(e == own, 'an end is of what is open innermost')
            G.st = G.st[:-1]
        G.passed = 1
    E.prove(ti(G.st.slen()) == 0, 'everything is ended')
    prove_eq(E, mkint(ti(S.it.pos)), S.n, 'nothing is lost')
    E.cover('finished')


@unit('C07', funcs=['hwp5.xmlmodel.make_extended_controls_inline',
                    'hwp5.xmlmodel.meci_paragraph',
                    'hwp5.xmlmodel.meci_controlchar'],
      covers=['paragraph', 'ended', 'control kept', 'control given',
              'character', 'inlined', 'other', 'section', 'control'],
      notes=['build_subtree and tree_events by their contracts (C04); the '
             'recursive call by its contract: for the content and the end of '
             'a control it gives content and end of the same control',
             'controls and control characters stand in paragraphs; an '
             'extended control character has its control before it'])
def inline(E):
    ''' the controls of a paragraph are taken out and put, whole and in
    order, in the place of its extended control characters; everything else
    passes. Once for a section, once for what is inside a control '''
    from .common import (ti, prove_eq, mkint, all_models, Rope, V, View, SVal,
                         SIter, SList, fresh_list, fresh_int)
    from .c04 import append
    from .nest import Stream, Slots, SChoice
    from hwp5 import xmlmodel as x
    import z3

    I = z3.IntSort()
    CC = x.ControlChar
    kinds = [CC.CHAR, CC.INLINE, CC.EXTENDED]
    kind = z3.Function('kind', I, I)

    def attrs(e, m):
        k = kind(ti(e))
        E.assume(z3.And(k >= 0, k < 3))
        return dict(kind=SChoice(k, kinds, 'kind'))
    S = Stream(E, 'events', all_models(), attrs)
    E.assume(S.dep(ti(S.n)) == 0)
    is_para = lambda e: S.is_(e, lambda c: c is x.Paragraph)            # noqa
    is_char = lambda e: S.is_(e, lambda c: c is CC)                     # noqa
    is_ctrl = lambda e: S.is_(e, lambda c: issubclass(c, x.Control))    # noqa
    # the end of an element; the controls of a paragraph in order; how many
    # of them, and of its extended characters, come before an event
    fin = z3.Function('fin', I, I)
    ctl = z3.Function('ctl', I, I, I)
    nc = z3.Function('nc', I, I, I)
    nx = z3.Function('nx', I, I, I)
    cnt = z3.Function('cnt', I, I)
    G = E.G
    G.declare(d=0, paras=Rope('list', []), passed=0, t=0, state=0, kept=0,
              at=0)
    made = {}
    tail = E.choose(2)
    below = Rope('list', [])
    if tail:
        # the content and end of a control
        E.assume(z3.And(S.st(0), S.own(0) == 0, is_ctrl(0), ti(S.n) >= 2))
        S.at(0)
        S.it.pos = 1
        G.d = 1
        n = fresh_int('below', 0)

        def not_ours(slots, k, *v):
            E.fail('the paragraphs around are left alone')
        below = fresh_list(E, 'below', n, lambda j, tag: Slots(
            SVal('outer', j), not_ours, not_ours))

    def ended(e):
        E.assume(z3.And(fin(e) > e, fin(e) < ti(S.n), z3.Not(S.st(fin(e))),
                        S.own(fin(e)) == e, S.dep(fin(e) + 1) == S.dep(e)))
        if tail:
            E.assume((fin(e) == ti(S.n) - 1) == (e == 0))

    def top():
        if E.branch(ti(G.paras.slen()) == 0):
            return None
        return ti(G.paras[-1].e)

    class Queue(object):
        def __init__(self, slots):
            self.slots = slots

        def append(self, v):
            i = ti(G.at)
            prove_eq(E, G.kept, 0, 'once')
            E.prove(z3.And(S.st(i), is_ctrl(S.own(i))),
                    'controls are kept')
            if v is not made.get('tree'):
                E.fail('the tree of the control', repr(v))
            mine(self.slots)
            G.kept = 1

        def pop(self, j=-1):
            i = ti(G.at)
            e = mine(self.slots)
            if not isinstance(j, int) or j not in (0, -1):
                E.fail('the first is taken', repr(j))
            E.prove(z3.And(S.st(i), is_char(S.own(i))),
                    'a control is taken for its character')
            prove_eq(E, G.kept, 0, 'once')
            G.kept = 1
            k = nx(i, e) if j == 0 else nc(i, e) - 1
            c = ctl(e, k)
            E.assume(z3.And(nx(i, e) >= 0, nx(i, e) < nc(i, e), c >= 0,
                            c < ti(S.n), S.st(c), S.own(c) == c, is_ctrl(c)))
            return (S.item(c), SVal('children', mkint(c)))

        def __len__(self):
            raise V.Unsupported('the number of controls')

    def mine(slots):
        t = top()
        if t is None or slots.e is None or isinstance(slots.e, SVal):
            E.fail('kept in the paragraph')
        E.prove(ti(slots.e) == t, 'kept in the innermost paragraph')
        return t

    class Para(Slots):
        def setdefault(self, k, default):
            if k is not x.Control:
                E.fail('something else is kept', repr(k))
            return Queue(self)

        def get(self, k, default=None):
            if k is not x.Control:
                E.fail('something else is looked up', repr(k))
            mine(self)
            return Queue(self)

    def new(*a, **kw):
        if a or kw:
            return dict(*a, **kw)
        made['new'] = Para(None, None, None)
        return made['new']
    E.models[dict] = new

    def build(it):
        i = ti(G.at)
        if it is not S.it:
            E.fail('the subtree is read from the events')
        E.prove(z3.And(S.st(i), ti(it.pos) == i + 1),
                'the subtree of the element')
        ended(S.own(i))
        it.pos = fin(S.own(i)) + 1
        made['tree'] = (made['last'][1], SVal('children', mkint(S.own(i))))
        return made['tree']

    def events(item, children):
        e = S.element(item)
        if e is None:
            E.fail('the root of a tree')
        prove_eq(E, children, SVal('children', mkint(e)), 'one tree')
        ended(e)
        made['tev'] = (SIter(Rope('list', [View(S.b, e, fin(e) + 1)]),
                             name='subtree'), e)
        S.at(e)
        return made['tev'][0]

    def rec(it, stack):
        it0, e = made.get('tev', (None, None))
        if it is not it0:
            E.fail('the events of the control')
        E.prove(ti(it.pos) == 1, 'content and end of the control')
        if stack is not made.get('stack', stack):
            E.fail('one stack')
        E.prove(V.segs_eq(V.segs_of(stack), list(V.segs_of(below))
                          + list(V.segs_of(G.paras)), True),
                'the open paragraphs')
        it.pos = it.n()
        E.assume(cnt(e) >= 1)
        return SIter(fresh_list(E, 'inlined', mkint(cnt(e)), lambda j, tag:
                                SVal('inlined', j)), name='inlined')
    E.contracts['hwp5.treeop.build_subtree'] = build
    E.contracts['hwp5.treeop.tree_events'] = events
    E.contracts['hwp5.xmlmodel.make_extended_controls_inline'] = rec

    def facts(i, v):
        G.at = i
        made['last'] = v
        i = ti(i)
        S.at(i)
        t = top()
        o, st = S.own(i), S.st(i)
        if tail:
            E.assume((o == 0) == (i == ti(S.n) - 1))
        # controls are given as a whole
        E.assume(z3.Implies(z3.And(is_ctrl(o), z3.Not(st)),
                            o == 0 if tail else z3.BoolVal(False)))
        if t is None:
            E.assume(z3.Not(z3.Or(is_char(o), z3.And(is_ctrl(o), st))))
            E.assume(z3.Implies(is_para(o), st))
        else:
            # what is followed are the open paragraphs of the input
            E.assume(z3.Implies(z3.And(is_para(o), z3.Not(st)), o == t))
            if tail:
                E.assume(o != 0)
        made.pop('new', None)
        made.pop('tree', None)
    S.it.on_next = facts

    def done():
        i = ti(G.at)
        e, st = S.own(i), S.st(i)
        passed = E.branch(ti(G.passed) == 1)
        if E.branch(is_para(e)):
            if not passed:
                E.fail('paragraphs pass')
            if E.branch(st):
                new = made.get('new')
                if new is None:
                    E.fail('something is kept for the paragraph')
                new.e = mkint(e)
                G.paras = append(G.paras, new)
                E.cover('paragraph')
            else:
                G.paras = G.paras[:-1]
                E.cover('ended')
            G.d = mkint(ti(G.d) + z3.If(st, 1, -1))
        elif E.branch(is_char(e)):
            if E.branch(st):
                if not passed:
                    E.fail('something is given for a character')
            elif passed:
                E.fail('characters are given at their start')
            G.d = mkint(ti(G.d) + z3.If(st, 1, -1))
        elif E.branch(z3.And(is_ctrl(e), st)):
            if passed:
                E.fail('controls are given later')
            prove_eq(E, G.kept, 1, 'a control is kept')
            E.prove(ti(S.it.pos) == fin(e) + 1, 'a whole control')
            E.cover('control kept')
        else:
            if not passed:
                E.fail('the others pass')
            E.cover('other')
            G.d = mkint(ti(G.d) + z3.If(st, 1, -1))
        prove_eq(E, G.state, 0, 'what is begun is ended')

    def inv(L):
        if L.it is not S.it:
            L.ghostlet('t', L.pos)
            L.ghostlet('state', mkint(z3.If(
                ti(L.pos) < cnt(made['tev'][1]), 2, 0)))
            return
        if L.mode == 'check':
            done()
        pos = ti(L.pos)
        if L.havocking:
            m = z3.Int(E.fresh('paras'))
            E.assume(m >= 0)
            pe = z3.Function(E.fresh('para'), I, I)

            def para(j, tag):
                t = pe(ti(j))
                E.assume(z3.And(t >= 0, t < ti(S.n), is_para(t)))
                return Para(mkint(t), None, None)
            G.paras = fresh_list(E, 'paras', mkint(m), para)
        L.ghost_havoc.update(['paras', 'passed', 't', 'state', 'kept', 'at'])
        L.ghostlet('d', mkint(S.dep(pos)))
        if L.mode != 'init':
            G.passed = G.t = G.state = G.kept = 0
        if tail:
            L.fact(z3.Implies(pos == ti(S.n), ti(G.paras.slen()) == 0),
                   'the paragraphs of the control are ended')
        L.contents(L.the_list('stack'), Rope('list', V.normal(
            list(V.segs_of(below)) + list(V.segs_of(G.paras)))))
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    if tail:
        stack = SList(list(V.segs_of(below)))
        out = x.make_extended_controls_inline(S.it, stack)
        made['stack'] = stack
        E.cover('control')
    else:
        out = x.make_extended_controls_inline(S.it)
        E.cover('section')
    for got in out:
        i = ti(G.at)
        e, st = S.own(i), S.st(i)
        if isinstance(got, SVal):
            # (inside and end of the control)
            prove_eq(E, G.state, 2, 'a control is begun')
            prove_eq(E, got, SVal('inlined', G.t), 'what is in it, in order')
            G.t = G.t + 1
            if E.branch(ti(G.t) == cnt(made['tev'][1])):
                G.state = 0
                E.cover('inlined')
            continue
        event, item = got
        w = S.element(item)
        if w is None:
            E.fail('elements are not replaced')
        starts = S.starts(event)
        if E.branch(ti(G.state) == 1):
            E.prove(z3.And(not starts, w == e), 'a character is ended')
            G.state = 0
            E.cover('character')
            continue
        prove_eq(E, G.state, 0, 'one thing after the other')
        prove_eq(E, G.passed, 0, 'one event for one')
        G.passed = 1
        if E.branch(is_char(e)):
            E.prove(z3.And(st, starts), 'for the start of a character')
            if E.branch(kind(e) == 2):
                p = top()
                E.prove(w == ctl(p, nx(i, p)), 'the next control of the '
                        'paragraph')
                G.state = 2
                E.cover('control given')
            else:
                E.prove(w == e, 'the character')
                G.state = 1
            continue
        E.prove(z3.And(w == e, st == starts), 'the events pass in order')
    if tail:
        E.prove(V.segs_eq(V.segs_of(stack), V.segs_of(below), True),
                'the stack is left as it was')
    prove_eq(E, mkint(ti(S.it.pos)), S.n, 'nothing is lost')
    prove_eq(E, G.d, 0, 'everything is ended')


@unit('C07', funcs=['hwp5.xmlmodel.restructure_tablebody'],
      covers=['body', 'cell', 'row', 'row ended', 'other', 'finished'],
      notes=['rstbody_tablebody and rstbody_tablecell by their contracts '
             '(C09): the element passes; a cell outside of a row begins one '
             'first; a cell may end the row after it',
             'cells stand right in a table body, which announces their '
             'number: its last cell ends a row (C09)'])
def rows(E):
    ''' rows are started and ended around whole cells of one body '''
    from .common import (ti, prove_eq, mkint, all_models, SVal, SIter, Rope,
                         fresh_list)
    from .nest import Stream, Nest
    from hwp5 import xmlmodel as x
    from hwp5.treeop import STARTEVENT, ENDEVENT
    import z3
    S = Stream(E, 'events', all_models())
    N = Nest(E, S)
    E.assume(S.dep(ti(S.n)) == 0)
    G = E.G
    G.declare(begun=0)
    is_body = lambda e: S.is_(e, lambda c: c is x.TableBody)    # noqa
    is_cell = lambda e: S.is_(e, lambda c: c is x.TableCell)    # noqa
    last = z3.Function('last_of_row', z3.IntSort(), z3.BoolSort())
    the_row = SVal('row', 0)
    made = {}

    def in_row(level):
        t = N.top()
        return t is not None and E.branch(t == level)

    def facts(i, v):
        i = ti(i)
        made['last'] = v
        S.at(i)
        S.at(S.own(i))
        S.chain(i)
        o, st = S.own(i), S.st(i)
        E.assume(z3.Implies(is_cell(o), z3.And(S.par(o) >= 0,
                                               is_body(S.par(o)))))
        E.assume(z3.Implies(z3.And(is_cell(o)), S.dep(o) >= 1))
        t = N.top()
        if t is not None:
            # rows are in bodies only, and the last cell of a body ends one
            E.assume(z3.Implies(z3.Not(st), t != S.dep(i) + 1))
    S.it.on_next = facts

    def handled(event, stack, item):
        v = made['last']
        if item is not v[1]:
            E.fail('the item of the event')
        E.prove(S.starts(event) == S.st(ti(S.cur())), 'the event')
        made['stack'] = made.get('stack', stack)
        if stack is not made['stack']:
            E.fail('one stack')
        return v

    def body(event, stack, item, attributes, context):
        v = handled(event, stack, item)
        E.prove(is_body(S.own(ti(S.cur()))), 'bodies')
        if attributes is not item[1] or context is not item[2]:
            E.fail('attributes and context of the item')
        E.cover('body')
        return [v]

    def cell(event, stack, item):
        v = handled(event, stack, item)
        i = ti(S.cur())
        E.prove(is_cell(S.own(i)), 'cells')
        E.cover('cell')
        if S.starts(event):
            if in_row(S.dep(i) + 1):
                return [v]
            return [(STARTEVENT, the_row), v]
        if not in_row(S.dep(i)):
            # its start has begun one
            raise core.PathEnd()
        if E.branch(last(S.own(i))):
            return [v, (ENDEVENT, the_row)]
        return [v]
    E.contracts['hwp5.xmlmodel.rstbody_tablebody'] = body
    E.contracts['hwp5.xmlmodel.rstbody_tablecell'] = cell
    from pyvc import core

    def inv(L):
        if L.it is not S.it:
            return
        if L.mode == 'check':
            prove_eq(E, G.passed, 1, 'everything passes')
        if L.havocking:
            N.havoc(lambda j, level: the_row, 2)
        L.ghost_havoc.update(['ex', 'passed', 'begun'])
        L.ghostlet('d', mkint(S.dep(ti(L.pos))))
        if L.mode != 'init':
            G.passed = G.begun = 0
        N.bounded(L, S.dep(ti(L.pos)) + 1)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for event, got in x.restructure_tablebody(S.it):
        i = ti(S.cur())
        if got is the_row:
            if event is STARTEVENT:
                prove_eq(E, G.passed, 0, 'before the cell')
                N.push(S.dep(i) + 1, got)
                E.cover('row')
            else:
                prove_eq(E, G.passed, 1, 'after the cell')
                lev, w = N.pop()
                E.prove(ti(lev) == S.dep(i), 'the row of the cell')
                E.cover('row ended')
            continue
        e = S.element(got)
        if e is None:
            E.fail('elements are not replaced')
        st = S.starts(event)
        E.prove(z3.And(e == S.own(i), st == S.st(i)), 'events in order')
        prove_eq(E, G.passed, 0, 'once')
        if st:
            N.start()
        else:
            N.end()
        G.passed = 1
        E.cover('other')
    E.prove(ti(G.ex.slen()) == 0, 'all the rows are ended')
    prove_eq(E, mkint(ti(S.it.pos)), S.n, 'nothing is lost')
    E.cover('finished')


def cases(rng, tier):
    for i in range(1200 if tier == 'quick' else 40000):
        yield ('doc', rng.randrange(1 << 30), rng.randrange(0, 4))
        if i % 20 == 0:
            # long texts, many lines, deep nesting
            yield ('doc', rng.randrange(1 << 30), rng.randrange(2, 9), 12)
    for case in documents.cases():
        yield case


def check_case(case):
    import random
    import logging
    from pyvc.concrete import need
    from . import doctree as T
    if case[0] == 'file':
        return documents.check_case(case)
    M = T.models(need)
    logging.disable(logging.CRITICAL)
    x = need('hwp5.xmlmodel')
    tokenize = need('hwp5.charsets', 'tokenize_unicode_by_lang')
    rng = random.Random(case[1])
    doc = T.Gen(rng, M, depth=case[2], fields=rng.random() < .7,
                loose=rng.random() < .3,
                scale=case[3] if len(case) > 3 else 1).section()
    sid = rng.choice((None, 0, 1, 7))
    refs = dict(
        text=lambda d: T.merged(d, M),
        inline=lambda d: T.inlined(d, M),
        fields=lambda d: T.fields(d, M),
        lists=lambda d: T.listed(d, M, M.ListHeader, M.Paragraph),
        cells=lambda d: T.listed(d, M, M.TableBody, M.TableCell),
        rows=lambda d: T.rows(d, M),
        lang=lambda d: T.tokenised(d, M, tokenize),
        section=lambda d: T.sectioned(d, M, sid),
        columns=lambda d: T.columned(d, M))
    code = dict(
        text=x.make_texts_linesegmented_and_charshaped,
        inline=x.make_extended_controls_inline,
        fields=x.match_field_start_end,
        lists=x.make_paragraphs_children_of_listheader,
        cells=lambda e: x.make_paragraphs_children_of_listheader(
            e, M.TableBody, M.TableCell),
        rows=x.restructure_tablebody,
        lang=x.tokenize_text_by_lang,
        section=lambda e: x.wrap_section(e, sid),
        columns=x.wrap_columns)
    S, E = M.S, M.E
    cur = doc
    for name in STAGES:
        evs = T.events([T.clone(n) for n in cur], S, E)
        want = refs[name]([T.clone(n) for n in cur])
        got = list(code[name](iter(evs)))
        try:
            got = T.parse(got, S, E)
        except T.NotNested as e:
            return 'stage %s: %s' % (name, e)
        d = T.differ(got, want)
        if d:
            return 'stage %s: %s' % (name, d)
        cur = want
    # all of them

    class Sect(x.Section):
        def __init__(self):
            pass

        def modelevents(self, **kw):
            return iter(T.events([T.clone(n) for n in doc], S, E))
    kw = {} if sid is None else dict(section_idx=sid)
    try:
        got = T.parse(list(Sect().events(**kw)), S, E)
    except T.NotNested as e:
        return 'events of the section: %s' % e
    d = T.differ(got, cur)
    if d:
        return 'events of the section: %s' % d
    # wrapping
    item = (M.Unknown, {}, {})
    evs = T.events([T.clone(n) for n in doc], S, E)
    got = list(x.wrap_modelevents(item, iter(evs)))
    if got != [(S, item)] + evs + [(E, item)]:
        return 'wrap_modelevents'
    return None
