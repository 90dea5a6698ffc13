''' C04 levels and tree events '''
from pyvc.unit import unit
from . import mains  # noqa

LEVEL = 'proof'
BOUNDS = ('all level sequences of up to 6 items with levels up to 4 '
          '(jumps included), seeded random ones up to 80; all trees of up '
          'to 6 nodes, seeded random ones up to 60')
NOTE = ('each function of treeop is proved against its contract for all '
        'inputs; build_subtree and tree_events by induction over the '
        'contract of the recursive call; partial correctness '
        '(termination is not proved)')


def levels(E):
    ''' an arbitrary sequence of (level, item), no level above the first '''
    from .common import (fresh_int, SVal, Base, View, Rope, V, ti, SInt)
    import z3
    n = fresh_int('n', 0)
    lev = z3.Function('level', z3.IntSort(), z3.IntSort())
    box = {}

    def elem(i):
        t = ti(i)
        E.assume(z3.And(lev(t) >= lev(0), lev(0) >= 0))
        return V.elemtuple(box['b'], i, (SInt(lev(t)), SVal('item', i)))
    b = Base('items', 'list', ti(n), elem)
    box['b'] = b
    rel = lambda i: lev(ti(i)) - lev(0)     # noqa
    return Rope('list', [View(b, 0, ti(n))]), n, rel


@unit('C04', funcs=['hwp5.treeop.prefix_event'],
      covers=['start', 'end', 'finished', 'invalid'])
def prefix_event(E):
    ''' one START per item, in order, when exactly rel(item) elements are
    open; every END closes the innermost open element; nothing stays open;
    raises exactly when an item is more than one deeper than its
    predecessor '''
    from .common import (SIter, SVal, ti, prove_eq, open_list, SList,
                         mkint, Rope)
    from hwp5 import treeop
    import z3
    seq, n, rel = levels(E)
    it = SIter(seq, name='items')
    root = SVal('root', 0)
    G = E.G
    G.declare(k=0, open=Rope('list', []))
    counted = {}

    def inv(L):
        k = L.ghost('k', 0, n) if L.loop.it is it else G.k
        if L.loop.it is not it and not L.changes(
                L.var(L.the_list('stack')), 'stack'):
            return
        if L.havocking:
            d = L.e.fresh('depth')
            d = z3.Int(d)
            E.assume(d >= 0)
            G.open = open_list(E, 'open', 'item', mkint(d), k)
        L.ghost_havoc.add('open')
        depth = G.open.slen()
        name = L.the_list('stack')
        L.contents(name, [root] + list_of(G.open))
        before = z3.If(ti(k) == 0, 0, rel(ti(k) - 1) + 1)
        if L.loop.it is it:
            L.fact(ti(k) == ti(L.pos), 'items started')
            L.fact(ti(depth) == before, 'depth')
        else:
            if L.it is not None:
                # a counted loop: one element closed at a time
                if L.mode == 'init':
                    counted[L.loop.key] = ti(depth) + ti(L.pos)
                L.fact(ti(depth) == counted[L.loop.key] - ti(L.pos),
                       'one at a time')
            L.fact(z3.And(ti(depth) <= before, z3.Implies(
                ti(k) < ti(n),
                z3.Or(ti(depth) >= rel(k), ti(depth) == before))),
                'closing')
    E.hints.append((lambda L: True, inv, {}))
    try:
        for event, item in treeop.prefix_event(it, root):
            if event is treeop.STARTEVENT:
                E.prove(ti(G.k) < ti(n), 'no element is invented')
                prove_eq(E, item, SVal('item', G.k), 'starts in order')
                E.prove(ti(G.open.slen()) == rel(G.k),
                        'as many open as the level says')
                G.open = G.open + [item] if False else append(G.open, item)
                G.k = G.k + 1
                E.cover('start')
            else:
                E.prove(ti(G.open.slen()) > 0, 'something is open')
                top = G.open[-1]
                prove_eq(E, item, top, 'the innermost element is closed')
                G.open = G.open[:-1]
                E.cover('end')
    except (PathErrors()) as e:
        raise
    except Exception as e:
        k = G.k
        E.prove(z3.And(ti(k) > 0, ti(k) < ti(n),
                       rel(k) > rel(ti(k) - 1) + 1),
                'refused only for a jump')
        E.cover('invalid')
        return
    E.prove(ti(G.k) == ti(n), 'every item is started')
    E.prove(ti(G.open.slen()) == 0, 'every element is ended')
    E.cover('finished')


class Never(Exception):
    pass


def PathErrors():
    return Never


def append(rope, x):
    from .common import Rope, Lit
    from pyvc.values import normal, segs_of
    return Rope('list', normal(list(segs_of(rope)) + [Lit((x,))]))


class list_of(object):
    ''' so that [root] + list_of(rope) reads naturally '''

    def __init__(self, rope):
        self.rope = rope

    def __radd__(self, head):
        from .common import Rope, Lit
        from pyvc.values import normal, segs_of
        return Rope('list', normal([Lit(tuple(head))]
                                   + list(segs_of(self.rope))))


@unit('C04', funcs=['hwp5.treeop.prefix_ancestors_from_level'],
      covers=['item', 'finished', 'invalid'])
def prefix_ancestors_from_level(E):
    ''' every item is yielded once, in order, with [root] + the most recent
    item of every lower level '''
    from .common import (SIter, SVal, ti, prove_eq, open_list, SInt, fresh_int,
                         mkint, Rope)
    from hwp5 import treeop
    import z3
    seq, n, rel = levels(E)
    it = SIter(seq, name='items')
    root = SVal('root', 0)
    G = E.G
    # open: the most recent items of levels 0..rel(k-1)
    G.declare(k=0, open=Rope('list', []))

    def inv(L):
        name = L.the_list('stack')
        if L.loop.it is it:
            k = L.ghost('k', 0, n)
            L.ghost_havoc.add('open')
            before = z3.If(ti(k) == 0, 0, rel(ti(k) - 1) + 1)
            if L.havocking:
                d = z3.Int(E.fresh('depth'))
                E.assume(d >= 0)
                G.open = open_list(E, 'open', 'item', mkint(d), k)
            L.contents(name, [root] + list_of(G.open))
            L.fact(ti(k) == ti(L.pos), 'items seen')
            L.fact(ti(G.open.slen()) == before, 'depth')
        else:
            # dropping: a prefix of open, not shorter than the level
            if not L.changes(L.var(name), 'stack'):
                return
            full = G.open.slen()
            if L.havocking:
                d = fresh_int('keep', 0, full)
            else:
                d = L.var(name).slen() - 1
                E.prove(z3.And(ti(d) >= 0, ti(d) <= ti(full)),
                        'stack is within the open elements')
            L.contents(name, [root] + list_of(G.open[:d]))
            L.fact(z3.Or(ti(d) >= rel(G.k), ti(d) == ti(full)), 'not too far')
    E.hints.append((lambda L: True, inv, {}))
    try:
        for anc, item in treeop.prefix_ancestors_from_level(it, root):
            E.prove(ti(G.k) < ti(n), 'no item is invented')
            prove_eq(E, item, SVal('item', G.k), 'items in order')
            E.prove(rel(G.k) <= ti(G.open.slen()), 'level is reachable')
            G.open = G.open[:SInt(rel(G.k))]
            prove_eq(E, anc, [root] + list_of(G.open), 'ancestors')
            G.open = append(G.open, item)
            G.k = G.k + 1
            E.cover('item')
    except Exception:
        k = G.k
        E.prove(z3.And(ti(k) > 0, ti(k) < ti(n),
                       rel(k) > rel(ti(k) - 1) + 1),
                'refused only for a jump')
        E.cover('invalid')
        return
    E.prove(ti(G.k) == ti(n), 'every item is given')
    E.cover('finished')


@unit('C04', funcs=['hwp5.treeop.prefix_ancestors'],
      covers=['item', 'finished'])
def prefix_ancestors(E):
    ''' every START's item is yielded with [root] + the open items '''
    from .common import (SIter, SVal, ti, prove_eq, nested_events, mkint,
                         Rope, open_list)
    from hwp5 import treeop
    import z3
    seq, n, elem, dep, st = nested_events(E, 'ev')
    it = SIter(seq, name='events')
    root = SVal('root', 0)
    G = E.G
    G.declare(open=Rope('list', []), seen=0)
    # the reader of the input: what is open before event i
    def sync(upto):     # noqa
        pass

    def on_next(i, v):
        ''' ghost code at every input event '''
        ev, item = v
        if ev is treeop.STARTEVENT or ev == treeop.STARTEVENT:
            G.pending = (item, G.open)
            G.open = append(G.open, item)
            G.expected = G.expected + 1
        else:
            G.open = G.open[:-1]
    it.on_next = on_next
    G.declare(pending=None, expected=0)

    def inv(L):
        if L.havocking:
            d = z3.Int(E.fresh('depth'))
            E.assume(d >= 0)
            G.open = open_list(E, 'open', 'item_ev', mkint(d), L.pos)
            G.pending = None
        L.ghost_havoc.update(['open', 'pending'])
        L.ghost('seen', 0)
        L.ghostlet('expected', G.seen)
        L.fact(ti(G.open.slen()) == dep(ti(L.pos)), 'depth')
        L.contents(L.the_list('stack'), [root] + list_of(G.open))
    E.hints.append((lambda L: True, inv, {}))
    for anc, item in treeop.prefix_ancestors(it, root):
        G.seen = G.seen + 1
        prove_eq(E, G.seen, G.expected, 'one item per START')
        prove_eq(E, item, G.pending[0], 'the item of the event')
        prove_eq(E, anc, [root] + list_of(G.pending[1]), 'ancestors')
        E.cover('item')
    prove_eq(E, mkint(ti(it.pos)), n, 'the whole input is read')
    prove_eq(E, G.seen, G.expected, 'no item is missed')
    E.cover('finished')


@unit('C04', funcs=['hwp5.treeop.iter_subevents'],
      covers=['inside', 'last', 'exhausted'])
def iter_subevents(E):
    ''' yields the events in order, up to and including the END that closes
    the enclosing element, and consumes no more '''
    from .common import (SIter, ti, nested_events, SVal, over, fresh_int,
                         fresh_bool, V, View, Rope, Base, SInt)
    from hwp5 import treeop
    import z3
    # depth may end the enclosing element: dep >= -1, -1 only at the end
    n = fresh_int('n', 0)
    dep = z3.Function('dep', z3.IntSort(), z3.IntSort())
    st = z3.Function('start', z3.IntSort(), z3.BoolSort())
    E.assume(dep(0) == 0)
    box = {}

    def elem(i):
        t = ti(i)
        E.assume(dep(t + 1) == dep(t) + z3.If(st(t), 1, -1))
        return V.elemtuple(box['b'], i, (
            V.SEither(st(t), treeop.STARTEVENT, treeop.ENDEVENT),
            SVal('item', i)))
    b = box['b'] = Base('ev', 'list', ti(n), elem)
    it = SIter(Rope('list', [View(b, 0, ti(n))]), name='events')
    G = E.G
    G.declare(k=0, d=0)

    def inv(L):
        L.ghost('k')
        L.ghost('d', 0)
        L.fact(ti(G.k) == ti(L.pos), 'events passed')
        L.fact(ti(G.d) == dep(ti(L.pos)), 'depth')
    E.hints.append((over(it), inv, {}))
    closed = False
    for event, item in treeop.iter_subevents(it):
        if closed:
            E.fail('nothing after the end of the subtree')
        E.prove(ti(G.k) < ti(n), 'no event is invented')
        ev, want = b.elem(G.k)
        if not (event == ev):
            E.fail('events in order')
        from .common import prove_eq
        prove_eq(E, item, want, 'items in order')
        G.k = G.k + 1
        if event == treeop.STARTEVENT:
            G.d = G.d + 1
        else:
            G.d = G.d - 1
            if G.d < 0:
                closed = True
                E.cover('last')
        E.cover('inside')
        E.prove(ti(it.pos) == ti(G.k), 'nothing is read ahead')
    if closed:
        E.prove(ti(it.pos) == ti(G.k), 'consumes the subtree only')
    else:
        E.cover('exhausted')
        E.prove(ti(G.k) == ti(n), 'stops early only at the end of input')


def tree_spec(E, p=None):
    ''' the events of one element's content, starting at position p of a
    well-formed stream: c(j) is where the j-th child starts, nxt(s) is the
    position after the END of the element whose content starts at s '''
    from .common import (fresh_int, V, View, Rope, Base, SInt, SVal, ti)
    from hwp5 import treeop
    import z3
    n = fresh_int('n', 0)
    st = z3.Function('start', z3.IntSort(), z3.BoolSort())
    nxt = z3.Function('nxt', z3.IntSort(), z3.IntSort())
    box = {}

    def elem(i):
        return V.elemtuple(box['b'], i, (
            V.SEither(st(ti(i)), treeop.STARTEVENT, treeop.ENDEVENT),
            SVal('item', i)))
    b = box['b'] = Base('ev', 'list', ti(n), elem)

    def well_formed(s):
        ''' the element whose content starts at s has its END at
        nxt(s) - 1 '''
        s = ti(s)
        E.assume(z3.And(nxt(s) > s, nxt(s) <= ti(n),
                        z3.Not(st(nxt(s) - 1))))
    return n, st, nxt, b, elem, well_formed


@unit('C04', funcs=['hwp5.treeop.build_subtree'],
      covers=['child', 'done'],
      notes=['induction: the recursive call is used by its contract'])
def build_subtree(E):
    ''' for a stream positioned in an element's content: consumes up to and
    including its END and returns (item of that END, [tree of each child in
    order]) '''
    from .common import (SIter, ti, SVal, Rope, View, Base, SInt, mkint,
                         prove_eq, fresh_int, fresh_list)
    from hwp5 import treeop
    import z3
    n, st, nxt, b, elem, well_formed = tree_spec(E)
    p = fresh_int('p', 0, n)
    # c(j): start of child j; the children end where an END stands
    c = z3.Function('c', z3.IntSort(), z3.IntSort())
    m = fresh_int('m', 0)
    E.assume(c(0) == ti(p))
    E.assume(z3.And(c(ti(m)) >= 0, c(ti(m)) < ti(n),
                    z3.Not(st(c(ti(m))))))

    def child(j):
        ''' definition of the children: j < m '''
        j = ti(j)
        E.assume(z3.Implies(z3.And(j >= 0, j < ti(m)), z3.And(
            st(c(j)), c(j) >= 0, c(j) < ti(n), c(j + 1) == nxt(c(j) + 1),
            nxt(c(j) + 1) > c(j) + 1, nxt(c(j) + 1) <= ti(n))))
    it = SIter(Rope('list', [View(b, 0, ti(n))]), name='events')
    it.pos = ti(p)
    G = E.G
    G.declare(j=0)

    def rec(events):
        ''' contract of the recursive call '''
        if events is not it:
            E.fail('the children are read from the same stream')
        s = ti(it.pos)
        E.prove(z3.And(ti(G.j) < ti(m), s == c(ti(G.j)) + 1),
                'recursion at the content of the next child')
        it.pos = nxt(s)
        G.j = G.j + 1
        E.cover('child')
        return SVal('tree', mkint(s))
    E.contracts['hwp5.treeop.build_subtree'] = rec
    trees = fresh_list(E, 'trees', m, lambda i, tag: SVal(
        'tree', mkint(c(ti(i)) + 1)))

    def inv(L):
        L.ghost('j', 0, m)
        child(G.j)
        L.fact(ti(L.it.pos) == c(ti(G.j)), 'at the start of child j')
        L.contents(L.the_list('childs'), trees[:G.j])
    E.hints.append((lambda L: L.it is it, inv, {'peel': 0}))
    child(0)
    r = treeop.build_subtree(it)
    if not isinstance(r, tuple) or len(r) != 2:
        E.fail('a pair is returned', repr(r))
    end = c(ti(m))
    prove_eq(E, G.j, m, 'every child is built')
    prove_eq(E, r[0], SVal('item', mkint(end)), 'the item of the END')
    prove_eq(E, r[1], trees, 'the children in order')
    E.prove(ti(it.pos) == end + 1, 'consumes exactly the subtree')
    E.cover('done')


@unit('C04', funcs=['hwp5.treeop.tree_events',
                    'hwp5.treeop.tree_events_multi'],
      covers=['child', 'done'],
      notes=['induction: events of the children are used by the contract of '
             'tree_events; together with build_subtree this gives the round '
             'trip'])
def tree_events(E):
    ''' tree_events(root, children) is START root, the events of each child
    in order, END root: the events build_subtree read '''
    from .common import (SIter, ti, SVal, Rope, View, Base, SInt, mkint,
                         prove_eq, fresh_int, fresh_list, V)
    from hwp5 import treeop
    import z3
    n, st, nxt, b, elem, well_formed = tree_spec(E)
    p = fresh_int('p', 1, n)
    c = z3.Function('c', z3.IntSort(), z3.IntSort())
    m = fresh_int('m', 0)
    E.assume(c(0) == ti(p))

    def child(j):
        j = ti(j)
        E.assume(z3.And(c(j) >= 0, z3.Implies(z3.And(j >= 0, j < ti(m)),
                 z3.And(st(c(j)), c(j + 1) == nxt(c(j) + 1),
                        nxt(c(j) + 1) > c(j) + 1, c(j + 1) <= ti(n)))))

    def tree(i, tag):
        child(i)
        s = mkint(c(ti(i)) + 1)
        return (SVal('root', s), SVal('childs', s))
    trees = fresh_list(E, 'trees', m, tree)
    G = E.G
    G.declare(k=ti(p), depth=0)
    root = SVal('item', mkint(ti(p) - 1))

    first = [True]

    def rec(item, childs):
        ''' contract of the recursive call for child s: the events
        [s-1, nxt(s)) '''
        if childs is trees:
            E.contract_off.add('hwp5.treeop.tree_events')
            return treeop.tree_events(item, childs)
        s = item._idx
        prove_eq(E, item, SVal('root', s), 'root of a child')
        prove_eq(E, childs, SVal('childs', s), 'children of the same child')
        E.prove(ti(s) - 1 == ti(G.k), 'the next child')
        E.cover('child')
        return SIter(Rope('list', [View(b, mkint(ti(s) - 1),
                                        nxt(ti(s)))]))
    E.contracts['hwp5.treeop.tree_events'] = rec
    mt = SIter(trees)

    def inv(L):
        G_k = L.ghost('k')
        if L.it.seq is trees or L.it is mt:
            child(L.pos)
            L.fact(ti(G.k) == c(ti(L.pos)), 'children so far')
            return
        lo = L.it.segs()[0].lo if L.it.segs() else 0
        L.fact(ti(G.k) == ti(lo) + ti(L.pos), 'events of a child')
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    child(0)
    E.contract_off.clear()
    k = 0
    G.declare(phase=0)
    for x in treeop.tree_events(root, trees):
        event, item = x
        if G.phase == 0:
            if event is not treeop.STARTEVENT or item is not root:
                E.fail('begins with START of the root')
            G.phase = 1
            continue
        if G.phase == 2:
            E.fail('nothing after the END of the root')
        if event is treeop.ENDEVENT and item is root:
            E.prove(ti(G.k) == c(ti(m)), 'all the children are enumerated')
            G.phase = 2
            E.cover('done')
            continue
        ev, want = b.elem(mkint(ti(G.k)))
        if not (event == ev):
            E.fail('events of the children in order')
        prove_eq(E, item, want, 'items of the children in order')
        G.k = mkint(ti(G.k) + 1)
    if G.phase != 2:
        E.fail('ends with END of the root')
    E.prove(True, 'complete')


# -- cross-check --------------------------------------------------------------

def level_seqs(n, maxl):
    if n == 0:
        yield ()
        return
    for s in level_seqs(n - 1, maxl):
        for x in range(maxl):
            yield s + (x,)


def forests(n):
    if n == 0:
        yield []
        return
    for a in range(n):
        for ch in forests(a):
            for rest in forests(n - 1 - a):
                yield [ch] + rest


def cases(rng, tier):
    for n in range(0, 6):
        for s in level_seqs(n, 4):
            for base in (0, 2):
                yield ('levels', base, s)
    for n in range(0, 7):
        for f in forests(n):
            yield ('forest', f)
    for i in range(3000 if tier == 'quick' else 60000):
        n = rng.randrange(1, 80)
        s = [0]
        for j in range(n):
            s.append(max(0, min(s[-1] + 1, s[-1] + 1 - rng.choice(
                [0, 0, 1, 1, 2, 3, 5]))))
        if rng.random() < .2:
            k = rng.randrange(1, len(s))
            s[k] += rng.randrange(1, 3)
        yield ('levels', rng.randrange(3), tuple(s))
    for i in range(500 if tier == 'quick' else 5000):
        yield ('forest', rforest(rng, rng.randrange(1, 60)))


def rforest(rng, n):
    out = []
    while n > 0:
        a = rng.randrange(0, n)
        out.append(rforest(rng, a))
        n -= a + 1
    return out


class Item(object):
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return '<%d>' % self.i


def check_levels(base, s):
    from pyvc.concrete import need
    pe, pal, pa = need('hwp5.treeop', 'prefix_event',
                       'prefix_ancestors_from_level', 'prefix_ancestors')
    START, END = need('hwp5.treeop', 'STARTEVENT', 'ENDEVENT')
    if any(x < s[0] for x in s):
        return None
    items = [Item(i) for i in range(len(s))]
    # any objects are items: the same one twice, false ones
    some = [None, 0, '', (), Item(0)]
    for items, root in ((items, Item(-1)),
                        ([some[i % 5] for i in range(len(s))], None),
                        ([some[(i // 2 + base) % 5]
                          for i in range(len(s))], some[base % 5])):
        r = check_items(base, s, items, root)
        if r:
            return r


def check_items(base, s, items, root):
    from pyvc.concrete import need
    pe, pal, pa = need('hwp5.treeop', 'prefix_event',
                       'prefix_ancestors_from_level', 'prefix_ancestors')
    START, END = need('hwp5.treeop', 'STARTEVENT', 'ENDEVENT')
    rel = [x - s[0] for x in s]
    bad = None
    for i in range(1, len(rel)):
        if rel[i] > rel[i - 1] + 1:
            bad = i
            break
    pairs = [(x + base, it) for x, it in zip(s, items)]
    want = []
    wanta = []
    stack = []
    for i, r in enumerate(rel):
        if i == bad:
            # everything above may have been closed or not
            break
        while len(stack) > r:
            want.append((END, stack.pop()))
        wanta.append(([root] + list(stack), items[i]))
        stack.append(items[i])
        want.append((START, items[i]))
    if bad is None:
        while stack:
            want.append((END, stack.pop()))
    got = []
    err = None
    try:
        for x in pe(iter(pairs), root):
            got.append(tuple(x))
    except Exception as e:
        err = e
    if bad is None and err is not None:
        return 'prefix_event raises %r' % err
    if bad is not None and err is None:
        return 'prefix_event accepts a jump'
    if bad is None and got != want:
        return 'prefix_event gives %r' % (got,)
    if bad is not None and got[:len(want)] != want[:len(got)]:
        return 'prefix_event gives %r before the jump' % (got,)
    gota = []
    err = None
    try:
        for anc, item in pal(iter(pairs), root):
            gota.append((list(anc), item))
    except Exception as e:
        err = e
    if (bad is None) != (err is None):
        return 'prefix_ancestors_from_level: %r' % err
    if gota != wanta:
        return 'prefix_ancestors_from_level gives %r' % (gota,)
    if bad is None:
        g = [(list(a), i) for a, i in pa(iter(want), root)]
        if g != wanta:
            return 'prefix_ancestors gives %r' % (g,)
    return None


def check_forest(f):
    from pyvc.concrete import need
    bs, te, tem, isub = need('hwp5.treeop', 'build_subtree', 'tree_events',
                             'tree_events_multi', 'iter_subevents')
    START, END = need('hwp5.treeop', 'STARTEVENT', 'ENDEVENT')
    count = [0]
    events = []
    trees = []

    def walk(ch, out):
        item = Item(count[0])
        count[0] += 1
        events.append((START, item))
        mine = []
        for c in ch:
            walk(c, mine)
        events.append((END, item))
        out.append((item, mine))
    for ch in f:
        walk(ch, trees)

    def norm(t):
        return (t[0], [norm(x) for x in t[1]])
    it = iter(events)
    pos = 0
    for t in trees:
        ev, item = next(it)
        r = bs(it)
        if norm(r) != t:
            return 'build_subtree gives %r' % (r,)
        if list(map(tuple, te(*r))) != list(map(tuple, te(*t))):
            return 'tree_events differ'
        size = len(list(te(*t)))
        if list(map(tuple, te(*r))) != events[pos:pos + size]:
            return 'tree_events gives %r' % (list(te(*r)),)
        pos += size
    if list(it):
        return 'build_subtree does not consume the subtree'
    if list(map(tuple, tem(trees))) != events:
        return 'tree_events_multi differs'
    # iter_subevents
    it = iter(events)
    pos = 0
    for t in trees:
        next(it)
        sub = [tuple(x) for x in isub(it)]
        size = len(list(te(*t)))
        if sub != events[pos + 1:pos + size]:
            return 'iter_subevents gives %r' % (sub,)
        pos += size
    return None


def check_case(case):
    if case[0] == 'levels':
        return check_levels(case[1], case[2])
    return check_forest(case[1])
