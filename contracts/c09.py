''' C09 table cells in rows '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('all tables of up to 4 rows of 0..3 cells; seeded random tables of '
          'up to 40 rows of up to 30 cells, with other elements between the '
          'cells and tables nested in cells up to 4 deep')
ASSUMPTIONS = [
    'a table body is followed by as many cells as its rows announce',
    'a cell belongs to the innermost open table body; events are well nested '
    '(the stage before, C07)',
]
NOTE = ('the three functions are proved for all row counts and all positions '
        'in a row; that a cell\'s start and its end see the same table body '
        'follows from the contracts (every body pops what it pushed)')


def codes(E, n, c):
    ''' what a body keeps per cell: 1 begins a row, 2 ends one, cell by cell.
    P(i) is the number of cells before row i; row(t) the row of cell t '''
    from .common import V, Rope, View, Base, SInt, ti, mkint
    import z3
    I = z3.IntSort()
    P = z3.Function('P', I, I)
    row = z3.Function('row', I, I)
    E.assume(P(0) == 0)

    def step(i):
        ''' facts of row i '''
        E.assume(z3.Implies(z3.And(i >= 0, i < ti(n)), z3.And(
            c(i) >= 0, P(i) >= 0, P(i + 1) == P(i) + c(i),
            P(i + 1) <= P(ti(n)))))

    def cell(t, i=None):
        ''' cell t is in row i '''
        if i is not None:
            E.assume(z3.Implies(z3.And(t >= P(i), t < P(i + 1)),
                                row(t) == i))
        r = row(t)
        E.assume(z3.Implies(z3.And(t >= 0, t < P(ti(n))), z3.And(
            r >= 0, r < ti(n), P(r) <= t, t < P(r + 1))))
        step(r)
        return r

    def code(i):
        t = ti(i)
        r = cell(t)
        return SInt(z3.If(t == P(r), 1, 0) + z3.If(t == P(r + 1) - 1, 2, 0))
    total = P(ti(n))
    E.assume(total >= 0)
    b = Base('codes', 'list', total, code)
    return Rope('list', [View(b, 0, total)]), P, row, step, cell, total


@unit('C09', funcs=['hwp5.xmlmodel.rstbody_tablebody'],
      covers=['begun', 'ended', 'empty row', 'row of one', 'row of more'])
def body(E):
    ''' a body keeps, for every cell it announces, whether it begins or ends
    a row; its events pass '''
    from .common import (fresh_int, fresh_list, SVal, SInt, SList, ti, V,
                         mkint, prove_eq, Rope, kind_of, segs_of)
    from hwp5 import xmlmodel
    from hwp5.treeop import STARTEVENT, ENDEVENT
    import z3
    n = fresh_int('n', 0)
    c = z3.Function('c', z3.IntSort(), z3.IntSort())
    want, P, row, step, cell, total = codes(E, n, c)

    def count(i, tag):
        step(ti(i))
        return SInt(c(ti(i)))
    counts = fresh_list(E, 'counts', n, count)
    m = fresh_int('m', 0)
    ctx = {'version': SVal('version', 0)}
    # (the elements of a stream may all carry one context)
    shared = E.choose(2)
    below = fresh_list(E, 'below', m, lambda i, tag: (
        ctx if shared else SVal('context', i), SVal('rowcols', i)))
    end = E.choose(2)
    stack = SList(list(below.segs))
    attrs = dict(other=SVal('attribute', 0))
    item = (xmlmodel.TableBody, attrs, ctx)
    G = E.G
    G.declare()
    if end:
        stack.append((ctx, SVal('rowcols', -1)))
        got = list(xmlmodel.rstbody_tablebody(ENDEVENT, stack, item, attrs,
                                              ctx))
        if len(got) != 1 or got[0][0] is not ENDEVENT \
                or got[0][1] is not item:
            E.fail('the end passes', repr(got))
        prove_eq(E, stack.rope, below, 'the enclosing tables are back')
        E.cover('ended')
        return
    attrs['rowcols'] = counts

    def inv(L):
        loop = L.loop
        name = L.the(lambda v: isinstance(v, SList) and v is not stack,
                     'cells', 'rowcols')
        if getattr(L.it, 'name', None) == 'range' or L.it is not outer(L):
            i = ti(outer(L).pos) - 1
            step(i)
            if L.mode == 'init':
                # (marks of the row before the loop)
                before[L.loop.key] = ti(L.var(name).slen()) - P(i) \
                    - ti(L.pos)
            j = P(i) + before[L.loop.key] + ti(L.pos)
            E.assume(c(i) >= 0)
            for t in (P(i), j, j - 1):
                cell(t, i)
            L.contents(L.var(name), want[:mkint(j)])
            return
        step(ti(L.pos))
        step(ti(L.pos) - 1)
        L.contents(L.var(name), want[:mkint(P(ti(L.pos)))])
        if L.mode == 'check':
            i = ti(L.pos) - 1
            if E.branch(c(i) == 0):
                E.cover('empty row')
            elif E.branch(c(i) == 1):
                E.cover('row of one')
            else:
                E.cover('row of more')
    first = []
    before = {}

    def outer(L):
        if not first:
            first.append(L.it)
        return first[0]

    def hint(L):
        if L.mode in ('check',) and first:
            i = ti(first[0].pos) - 1
            step(i)
            for t in (P(i), P(i) + 1, P(i + 1) - 1, P(i + 1) - 2):
                cell(t, i)
        inv(L)
    E.hints.append((lambda L: True, hint, {'peel': 0}))
    got = list(xmlmodel.rstbody_tablebody(STARTEVENT, stack, item, attrs,
                                          ctx))
    if len(got) != 1 or got[0][0] is not STARTEVENT or got[0][1] is not item:
        E.fail('the start passes', repr(got))
    if sorted(attrs) != ['other']:
        E.fail('the row counts are used up', repr(sorted(attrs)))
    top = stack.pop()
    prove_eq(E, stack.rope, below, 'enclosing tables are kept')
    if not isinstance(top, tuple) or len(top) != 2 or top[0] is not ctx \
            or kind_of(top[1]) != 'list':
        E.fail('context and cells of the table', repr(top))
    prove_eq(E, Rope('list', list(segs_of(top[1]))), want,
             'a mark for every cell')
    E.cover('begun')


@unit('C09', funcs=['hwp5.xmlmodel.rstbody_tablecell'],
      covers=['start', 'end', 'row started', 'row ended'])
def cells(E):
    ''' cell k starts a row if it is the first of its row, ends it if it is
    the last, and is one mark further at its end '''
    from .common import (fresh_int, fresh_list, SVal, SList, ti, V, mkint,
                         prove_eq, Rope, segs_of)
    from hwp5 import xmlmodel
    from hwp5.treeop import STARTEVENT, ENDEVENT
    import z3
    n = fresh_int('n', 0)
    c = z3.Function('c', z3.IntSort(), z3.IntSort())
    want, P, row, step, cell, total = codes(E, n, c)
    k = fresh_int('k', 0)
    E.assume(ti(k) < total)
    r = cell(ti(k))
    m = fresh_int('m', 0)
    ctx = {'version': SVal('version', 0)}
    # (the elements of a stream may all carry one context)
    shared = E.choose(2)
    below = fresh_list(E, 'below', m, lambda i, tag: (
        ctx if shared else SVal('context', i), SVal('rowcols', i)))
    left = SList(list(want[k:].segs))
    stack = SList(list(below.segs))
    stack.append((ctx, left))
    item = (xmlmodel.TableCell, dict(col=SVal('col', 0)),
            SVal('cell context', 0))
    first = E.branch(ti(k) == P(r))
    last = E.branch(ti(k) == P(r + 1) - 1)
    ev = [STARTEVENT, ENDEVENT][E.choose(2)]
    got = list(xmlmodel.rstbody_tablecell(ev, stack, item))

    def is_row(x, e):
        if x[0] is not e or x[1][0] is not xmlmodel.TableRow or x[1][1]:
            E.fail('a row is %s' % ('started' if e is STARTEVENT
                                    else 'ended'), repr(x))
        if x[1][2] != ctx:
            E.fail('a row has the context of its table')
    if ev is STARTEVENT:
        E.cover('start')
        if first:
            E.cover('row started')
            if len(got) != 2:
                E.fail('a row is started before its first cell')
            is_row(got.pop(0), STARTEVENT)
        prove_eq(E, Rope('list', list(left.rope.segs)), want[k:],
                 'the cell is not counted yet')
    else:
        E.cover('end')
        if last:
            E.cover('row ended')
            if len(got) != 2:
                E.fail('a row is ended after its last cell')
            is_row(got.pop(), ENDEVENT)
        prove_eq(E, Rope('list', list(left.rope.segs)), want[k + 1:],
                 'the cell is counted')
    if len(got) != 1 or got[0][0] is not ev or got[0][1] is not item:
        E.fail('the cell passes', repr(got))
    top = stack.pop()
    if top[1] is not left or top[0] is not ctx:
        E.fail('the table stays')
    prove_eq(E, stack.rope, below, 'enclosing tables are kept')


@unit('C09', funcs=['hwp5.xmlmodel.restructure_tablebody'],
      covers=['body', 'cell', 'other', 'finished'],
      notes=['rstbody_tablebody and rstbody_tablecell by their contracts'])
def dispatch(E):
    ''' bodies and cells are handled with one stack; anything else passes '''
    from .common import (fresh_int, SVal, SIter, ti, V, prove_eq, mkint,
                         event_stream, all_models, same_item, fresh_list)
    from hwp5 import xmlmodel
    import z3
    seq, n, elem = event_stream(E, 'events', all_models())
    it = SIter(seq, name='events')
    cur = {}
    G = E.G
    G.declare(k=0, t=0)
    made = z3.Function('made', z3.IntSort(), z3.IntSort())

    def given(what, event, stack, item, *rest):
        i = mkint(ti(it.pos) - 1)
        ev, want = elem(i)
        E.prove(V.tb(V.same(event, ev)), 'the event is handled')
        same_item(E, item, want, 'the item is handled')
        if rest and (rest[0] is not want[1] or rest[1] is not want[2]):
            E.fail('attributes and context of the item')
        m = {'body': xmlmodel.TableBody, 'cell': xmlmodel.TableCell}[what]
        if not E.branch(V.tb(V.same(want[0], m))):
            E.fail('only a %s is handled as one' % what)
        st = cur.setdefault('stack', stack)
        if st is not stack:
            E.fail('one stack')
        if isinstance(stack, (V.SList, list)) and (
                V.seqlen(V.segs_of(stack)) if isinstance(stack, V.SList)
                else len(stack)):
            E.fail('only these change the stack')
        E.cover(what)
        E.assume(made(ti(i)) >= 0)
        cur['out'] = SIter(fresh_list(E, 'out', mkint(made(ti(i))),
                                      lambda j, tag: SVal('out', j)),
                           name='out')
        return cur['out']
    E.contracts['hwp5.xmlmodel.rstbody_tablebody'] = \
        lambda *a: given('body', *a)
    E.contracts['hwp5.xmlmodel.rstbody_tablecell'] = \
        lambda *a: given('cell', *a)

    def inv(L):
        if L.it is it:
            if L.mode == 'check':
                i = L.pos - 1
                if E.branch(ti(G.k) == ti(i)):
                    ev, (m, a, c) = elem(i)
                    if not E.branch(z3.Or(
                            V.tb(V.same(m, xmlmodel.TableBody)),
                            V.tb(V.same(m, xmlmodel.TableCell)))):
                        E.fail('other elements pass')
                    prove_eq(E, G.t, mkint(made(ti(i))),
                             'all that it is made into')
                    G.k = G.k + 1
                    G.t = 0
                else:
                    E.prove(ti(G.k) == ti(i) + 1, 'one event for one')
            L.ghostlet('k', L.pos)
            L.ghostlet('t', 0)
        else:
            L.ghostlet('t', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for x in xmlmodel.restructure_tablebody(it):
        if isinstance(x, SVal):
            prove_eq(E, x, SVal('out', G.t), 'what it is made into, in order')
            G.t = G.t + 1
            continue
        i = mkint(ti(it.pos) - 1)
        ev, want = elem(i)
        prove_eq(E, G.k, i, 'events in order')
        E.prove(V.tb(V.same(x[0], ev)), 'the event passes')
        same_item(E, x[1], want, 'the item passes')
        E.prove(z3.Not(z3.Or(V.tb(V.same(want[0], xmlmodel.TableBody)),
                             V.tb(V.same(want[0], xmlmodel.TableCell)))),
                'bodies and cells are handled')
        G.k = G.k + 1
        E.cover('other')
    prove_eq(E, G.k, n, 'nothing is lost')
    E.cover('finished')


# -- cross-check --------------------------------------------------------------

def cases(rng, tier):
    import itertools
    for n in range(0, 5):
        for rows in itertools.product(range(4), repeat=n):
            yield ('table', rows, False)
            if n < 4:
                yield ('table', rows, True)
    for i in range(600 if tier == 'quick' else 20000):
        yield ('nested', rng.randrange(1 << 30), rng.randrange(0, 5))
    for i in range(40 if tier == 'quick' else 400):
        yield ('table', tuple(rng.randrange(31) for k in range(40)), True)
    yield ('table', (2000,) * 5, False)


class G(object):
    def __init__(self, rng, M):
        self.rng, self.M, self.uid = rng, M, 0

    def node(self, m, k=(), **a):
        from .doctree import N
        self.uid += 1
        a['uid'] = self.uid
        # (the record parser gives all elements one context)
        if not hasattr(self, 'ctx'):
            self.ctx = self.rng.random() < .5 and dict(c=7)
        return N(m, a, self.ctx or dict(c=self.rng.randrange(5)), k)

    def noise(self):
        r = self.rng
        if r.random() < .2:
            return [self.node(r.choice((self.M.Unknown, self.M.Paragraph)))]
        return []

    def body(self, rows, depth, noise):
        r, M = self.rng, self.M
        k = self.noise() if noise else []
        for n in rows:
            for j in range(n):
                c = []
                if depth > 0 and r.random() < .5:
                    c.append(self.node(M.Paragraph, [self.table(depth - 1)]))
                elif noise:
                    c = self.noise()
                k.append(self.node(M.TableCell, c))
                if noise:
                    k += self.noise()
        return self.node(M.TableBody, k, rowcols=tuple(rows))

    def table(self, depth):
        r = self.rng
        rows = [r.choice((0, 1, 1, 2, 3)) for i in range(r.randrange(5))]
        return self.node(self.M.TableControl,
                         self.noise() + [self.body(rows, depth,
                                                   r.random() < .4)]
                         + self.noise())


def check_case(case):
    import random
    from pyvc.concrete import need
    from . import doctree as T
    M = T.models(need)
    x = need('hwp5.xmlmodel', 'restructure_tablebody')
    if case[0] == 'table':
        g = G(random.Random(1), M)
        doc = [g.body(case[1], 0, case[2])]
    else:
        g = G(random.Random(case[1]), M)
        doc = [g.table(case[2]) for i in range(g.rng.randrange(1, 4))]
    if case[0] == 'table' and case[2]:
        doc = [g.node(M.TableControl, doc)]
    got = list(x(iter(T.events([T.clone(n) for n in doc], M.S, M.E))))
    try:
        got = T.parse(got, M.S, M.E)
    except T.NotNested as e:
        return str(e)
    # the k-th row having cells has exactly that row's cells

    def rows(n):
        if n.m is M.TableBody:
            out = []
            for k in n.k:
                if k.m is M.TableRow:
                    out.append([c.a['uid'] for c in k.k
                                if c.m is M.TableCell])
                elif k.m is M.TableCell:
                    return 'a cell outside the rows'
            return out

    def wanted(n):
        ids = [c.a['uid'] for c in n.k if c.m is M.TableCell]
        out = []
        for c in n.a['rowcols']:
            if c:
                out.append(ids[:c])
                ids = ids[c:]
        return out
    got_bodies, want_bodies = [], []

    def walk(n, out, f):
        if n.m is M.TableBody:
            out.append((n.a['uid'], f(n)))
        for k in n.k:
            walk(k, out, f)
    for n in got:
        walk(n, got_bodies, rows)
    for n in doc:
        walk(n, want_bodies, wanted)
    if got_bodies != want_bodies:
        return 'rows %r, not %r' % (got_bodies[:5], want_bodies[:5])
    # all the rest passes unchanged

    def flat(ns, out):
        for n in ns:
            if n.m is not M.TableRow:
                a = dict(n.a)
                a.pop('rowcols', None)
                out.append((n.m, a, n.c))
            flat(n.k, out)
            if n.m is not M.TableRow:
                out.append('end')
        return out
    if flat(got, []) != flat(doc, []):
        return 'other events change'
    for n in got:
        msg = contexts(n, M)
        if msg:
            return msg
    return None


def contexts(n, M):
    for k in n.k:
        if k.m is M.TableRow and n.m is not M.TableBody:
            return 'a row outside a table body'
        msg = contexts(k, M)
        if msg:
            return msg
    return None
