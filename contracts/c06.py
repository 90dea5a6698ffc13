''' C06 text by shapes and lines '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('texts of up to 3 chunks and 6 code units with every list of up to '
          '3 shape and line boundaries; seeded random ones of up to 40 '
          'chunks; surrogate pairs cut in the middle included')
ASSUMPTIONS = [
    'a control character is not cut by a boundary',
    'positions are below 0x7fffffff',
    'different line segments are different objects',
    'encode/decode of UTF-16LE with surrogatepass are inverse and map code '
    'unit i to bytes 2i, 2i+1',
]
END = 0x7fffffff


class UText(str):
    ''' a text as a sequence of UTF-16 code units '''

    def __new__(cls, rope):
        o = str.__new__(cls, '<text>')
        o.rope = rope
        return o

    def encode(self, encoding='utf-8', errors='strict'):
        from pyvc.core import Unsupported
        if encoding.replace('-', '').lower() != 'utf16le' \
                or errors != 'surrogatepass':
            raise Unsupported('encoding %s, %s' % (encoding, errors))
        return UBytes(self.rope)

    def __getitem__(self, i):
        from pyvc.core import Unsupported
        raise Unsupported('indexing by characters')

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    __len__ = __iter__ = None
    __hash__ = str.__hash__


class UBytes(object):
    def __init__(self, rope):
        self.rope = rope

    def __getitem__(self, s):
        from pyvc.core import Unsupported, engine
        from .common import mkint, ti
        import z3
        if not isinstance(s, slice) or s.step is not None:
            raise Unsupported('a byte of a text')

        def half(x):
            if x is None:
                return None
            engine().prove(ti(x) % 2 == 0, 'cuts between code units')
            return mkint(z3.simplify(ti(x) / 2))
        return UBytes(self.rope[half(s.start):half(s.stop)])

    def decode(self, encoding='utf-8', errors='strict'):
        from pyvc.core import Unsupported
        if encoding.replace('-', '').lower() != 'utf16le' \
                or errors != 'surrogatepass':
            raise Unsupported('encoding %s, %s' % (encoding, errors))
        return UText(self.rope)


@unit('C06', funcs=['hwp5.xmlmodel.split_at'], covers=['split'])
def split_at(E):
    ''' cuts at the pos'th code unit '''
    from .common import fresh_text, fresh_int, prove_eq
    from hwp5 import xmlmodel
    t = fresh_text('text')
    pos = fresh_int('pos', 0, t.slen())
    a, b = xmlmodel.split_at(UText(t), pos)
    if not isinstance(a, UText) or not isinstance(b, UText):
        E.fail('two texts')
    prove_eq(E, a.rope, t[:pos], 'the first pos code units')
    prove_eq(E, b.rope, t[pos:], 'the rest')
    E.cover('split')


@unit('C06', funcs=['hwp5.xmlmodel.make_ranged_shapes'],
      covers=['range', 'last', 'finished'])
def make_ranged_shapes(E):
    ''' every shape gets the range from its start to the next one's '''
    from .common import (fresh_int, fresh_list, SVal, SInt, SIter, ti,
                         prove_eq, each)
    from hwp5 import xmlmodel
    import z3
    M = fresh_int('M', 1)
    s = z3.Function('start', z3.IntSort(), z3.IntSort())
    shapes = fresh_list(E, 'shapes', M, lambda i, tag: (
        SInt(s(ti(i))), SVal('shape', i)))
    G = E.G
    G.declare(j=0)
    it = SIter(shapes, name='shapes')

    def inv(L):
        L.ghost('j', 0, M)
        L.fact(ti(G.j) == ti(L.pos) - 1, 'one behind')
    E.hints.append((lambda L: True, inv, {'peel': 1}))
    for (a, b), x in xmlmodel.make_ranged_shapes(it):
        E.prove(ti(G.j) < ti(M), 'no shape is invented')
        prove_eq(E, a, SInt(s(ti(G.j))), 'starts at its start')
        prove_eq(E, x, SVal('shape', G.j), 'labelled with its shape')
        E.prove(ti(b) == z3.If(ti(G.j) + 1 < ti(M), s(ti(G.j) + 1), END),
                'ends where the next one starts')
        if G.j + 1 == M:
            E.cover('last')
        G.j = G.j + 1
        E.cover('range')
    prove_eq(E, G.j, M, 'every shape has a range')
    E.cover('finished')


def ranged(E, name):
    ''' contract of make_ranged_shapes: contiguous ranges from 0 to END '''
    from .common import fresh_int, fresh_list, SVal, SInt, ti
    import z3
    M = fresh_int('M_' + name, 1)
    s = z3.Function('start_' + name, z3.IntSort(), z3.IntSort())
    E.assume(z3.And(s(0) == 0, s(ti(M)) == END))

    def elem(i, tag):
        E.assume(z3.And(s(ti(i)) >= 0, s(ti(i)) <= s(ti(i) + 1),
                        s(ti(i) + 1) <= END))
        return ((SInt(s(ti(i))), SInt(s(ti(i) + 1))), SVal(name, i))
    return fresh_list(E, name, M, elem), M, s


@unit('C06', funcs=['hwp5.xmlmodel.split_and_shape'],
      covers=['piece', 'cut', 'finished', 'no chunks'],
      notes=['split_at by its contract'])
def split_and_shape(E):
    ''' the pieces tile the text in order; each is in the range of the shape
    it is labelled with '''
    from .common import (fresh_int, fresh_list, fresh_text, SVal, SInt,
                         SIter, ti, prove_eq, mkint, Rope, segs_of)
    from hwp5 import xmlmodel
    import z3
    text = fresh_text('text')
    n = text.slen()
    E.assume(ti(n) < END)
    N = fresh_int('N', 0)
    c = z3.Function('c', z3.IntSort(), z3.IntSort())
    E.assume(z3.And(c(0) == 0, c(ti(N)) == ti(n)))

    def bounds(i):
        E.assume(z3.Implies(z3.And(i >= 0, i < ti(N)), z3.And(
            c(i) >= 0, c(i) <= c(i + 1), c(i + 1) <= ti(n))))

    def chunk(i, tag):
        i = ti(i)
        bounds(i)
        a, b = mkint(c(i)), mkint(c(i + 1))
        return ((a, b), SVal('attr', mkint(i)), text[a:b])
    chunks = fresh_list(E, 'chunks', N, chunk)
    it = SIter(chunks, name='chunks')
    shapes, M, s = ranged(E, 'shape')
    shit = SIter(shapes, name='shapes')

    def split_at(ch, pos):
        E.prove(z3.And(ti(pos) >= 0, ti(pos) <= ti(ch.slen())),
                'cuts inside the chunk')
        E.cover('cut')
        return ch[:pos], ch[pos:]
    E.contracts['hwp5.xmlmodel.split_at'] = split_at
    G = E.G
    G.declare(at=0)

    def inv(L):
        # the current chunk is what is left of the last one read
        at = L.ghost('at', 0, n)
        k = L.iterpos(it)
        if L.mode == 'havoc':
            E.assume(ti(k) >= 1)
        else:
            E.prove(ti(k) >= 1, 'a chunk is being cut')
        bounds(ti(k) - 1)
        L.fact(z3.And(ti(k) <= ti(N), c(ti(k) - 1) <= ti(at),
                      ti(at) <= c(ti(k))), 'inside the current chunk')
        end = mkint(c(ti(k)))
        L.let('chunk_start', at)
        L.let('chunk_end', end)
        L.let('chunk', text[at:end])
        L.let('chunk_attr', SVal('attr', k - 1))
        if L.loop.it is shit:
            L.fact(ti(at) >= s(ti(L.pos)), 'not before the shape')
            if L.mode == 'init':
                E.prove(ti(L.pos) == 0, 'from the first shape')
        else:
            L.fact(ti(at) >= s(ti(shit.pos) - 1), 'not before the shape')
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for (a, b), (shape, attr), ch in xmlmodel.split_and_shape(it, shit):
        E.prove(ti(a) == ti(G.at), 'pieces are contiguous')
        E.prove(z3.And(ti(a) <= ti(b), ti(b) <= ti(n)), 'pieces go on')
        prove_eq(E, ch, text[a:b], 'the text of its range')
        j = ti(shit.pos) - 1
        prove_eq(E, shape, SVal('shape', mkint(j)), 'labelled by the shape')
        E.prove(z3.And(s(j) <= ti(a), ti(b) <= s(j + 1)),
                'inside the range of its shape')
        prove_eq(E, attr, SVal('attr', it.pos - 1), 'keeps the chunk\'s label')
        E.prove(z3.And(c(ti(it.pos) - 1) <= ti(a), ti(b) <= c(ti(it.pos))),
                'inside its chunk')
        G.at = b
        E.cover('piece')
    prove_eq(E, G.at, n, 'the pieces cover the text')
    prove_eq(E, mkint(ti(it.pos)), N, 'every chunk is used')
    if N == 0:
        E.cover('no chunks')
    E.cover('finished')


@unit('C06', funcs=['hwp5.xmlmodel.line_segmented'],
      covers=['line', 'finished', 'empty'],
      notes=['split_and_shape by its contract'])
def line_segmented(E):
    ''' all the pieces, in order, each in its line; no line empty or given
    twice '''
    from .common import (fresh_int, fresh_list, SVal, SInt, SIter, ti,
                         prove_eq, mkint, SList)
    from hwp5 import xmlmodel
    import z3
    K = fresh_int('K', 0)
    lab = z3.Function('lab', z3.IntSort(), z3.IntSort())

    def piece(i, tag):
        t = ti(i)
        E.assume(z3.And(lab(t) >= 0, z3.Implies(t > 0,
                                                lab(t - 1) <= lab(t))))
        return ((mkint(z3.Function('a', z3.IntSort(), z3.IntSort())(t)),
                 mkint(z3.Function('b', z3.IntSort(), z3.IntSort())(t))),
                (SVal('lineseg', SInt(lab(t))), SVal('attr', i)),
                SVal('chunk', i))
    pieces = fresh_list(E, 'pieces', K, piece)

    def wanted(i, tag):
        p = piece(i, tag)
        return (p[0], p[1][1], p[2])
    want = fresh_list(E, 'want', K, wanted)
    chunks, linesegs = object(), object()
    E.distinct.add('lineseg')
    it = SIter(pieces, name='pieces')

    def split_and_shape(a, b):
        if a is not chunks or b is not linesegs:
            E.fail('the chunks are cut by the line segments')
        return it
    E.contracts['hwp5.xmlmodel.split_and_shape'] = split_and_shape
    q = fresh_int('q')
    G = E.G
    G.declare(out=0, last=-1)

    def inv(L):
        out = L.ghost('out', 0, K)
        last = L.ghost('last', -1)
        pos = L.pos
        L.fact(z3.And(ti(out) < ti(pos), ti(last) < lab(ti(pos) - 1),
                      lab(ti(out)) == lab(ti(pos) - 1)),
               'a line is begun')
        L.let('prev_lineseg', SVal('lineseg', SInt(lab(ti(pos) - 1))))
        L.contents('line', want[out:pos])
        L.fact(z3.Implies(z3.And(ti(q) >= ti(out), ti(q) < ti(pos)),
                          lab(ti(q)) == lab(ti(pos) - 1)), 'one line')
        if L.mode == 'havoc':
            for v in ('line',):
                E.keep.append(L.var(v))
    E.hints.append((lambda L: True, with_line(inv), {'peel': 1}))
    for seg, line in xmlmodel.line_segmented(chunks, linesegs):
        if not isinstance(line, SList):
            E.fail('a list of pieces')
        m = line.slen()
        E.prove(ti(m) > 0, 'no line is empty')
        new = mkint(ti(G.out) + ti(m))
        E.prove(ti(new) <= ti(K), 'no piece is invented')
        prove_eq(E, line, want[G.out:new], 'pieces in order')
        j = lab(ti(G.out))
        prove_eq(E, seg, SVal('lineseg', SInt(j)), 'labelled by the line')
        E.prove(z3.Implies(z3.And(ti(q) >= ti(G.out), ti(q) < ti(new)),
                           lab(ti(q)) == j), 'each piece in its line')
        E.prove(j > ti(G.last), 'no line twice, in order')
        G.last = mkint(j)
        G.out = new
        E.cover('line')
    prove_eq(E, G.out, K, 'no piece is lost')
    if K == 0:
        E.cover('empty')
    E.cover('finished')


def with_line(inv):
    ''' the list variable is a new list in an arbitrary iteration '''
    def hint(L):
        if L.mode == 'havoc':
            from .common import SList
            L.env = dict(L.env)
            new = SList([])
            L.env['line'] = new
            L.new['line'] = new
        L.handled.add('line')
        inv(L)
    return hint


@unit('C06', funcs=['hwp5.xmlmodel.range_shaped_textchunk_events'],
      covers=['text', 'control', 'finished'])
def chunk_events(E):
    ''' one element per piece, in order, with its text or control and its
    shape '''
    from .common import (fresh_int, fresh_list, SVal, SInt, SIter, ti,
                         prove_eq, mkint, fresh_text, fresh_bool)
    from hwp5 import xmlmodel
    from hwp5.binmodel import ControlChar
    from hwp5.treeop import STARTEVENT, ENDEVENT
    import z3
    K = fresh_int('K', 0)
    istext = z3.Function('istext', z3.IntSort(), z3.BoolSort())
    code = z3.Function('code', z3.IntSort(), z3.IntSort())
    T = {}

    def piece(i, tag):
        if E.branch(istext(ti(i))):
            ch = UText(('text', i))
        else:
            E.assume(z3.And(code(ti(i)) >= 0, code(ti(i)) < 32))
            ch = {'code': SInt(code(ti(i))), 'chid': SVal('chid', i),
                  'param': SVal('param', i)}
        return ((SVal('a', i), SVal('b', i)), (SVal('shape', i), None), ch)
    pieces = fresh_list(E, 'pieces', K, piece)
    it = SIter(pieces, name='pieces')
    ctx = object()
    G = E.G
    G.declare(k=0, open=None)

    def inv(L):
        L.ghostlet('k', L.pos)
        L.ghostlet('open', None)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for ev, item in xmlmodel.range_shaped_textchunk_events(ctx, it):
        if G.open is not None:
            if ev is not ENDEVENT or not (item is G.open or item == G.open):
                E.fail('each element is ended at once')
            G.open = None
            G.k = G.k + 1
            continue
        if ev is not STARTEVENT:
            E.fail('a start')
        E.prove(ti(G.k) < ti(K), 'no element is invented')
        model, attrs, context = item
        if context is not ctx:
            E.fail('the context of the text')
        want = pieces[G.k]
        prove_eq(E, attrs['charshape_id'], want[1][0], 'its shape')
        if isinstance(want[2], UText):
            if model is not xmlmodel.Text or attrs['text'] is not want[2]:
                E.fail('a text element with the text')
            E.cover('text')
        else:
            if model is not ControlChar:
                E.fail('a control element')
            prove_eq(E, attrs['code'], want[2]['code'], 'its code')
            E.cover('control')
        G.open = item
    if G.open is not None:
        E.fail('the last element is ended')
    prove_eq(E, G.k, K, 'an element for every piece')
    E.cover('finished')


# -- cross-check --------------------------------------------------------------

def increasing(n, m):
    ''' increasing sequences of m positions in 1..n-1 '''
    from itertools import combinations
    return combinations(range(1, n), m)


def cases(rng, tier):
    for chunks in (('abc', 'def'), ('a', u'\U0001f600b', 'c'), ('abcdef',),
                   ('ab', 9, 'c'), (13,), ('a', 13), (), ('',),
                   (u'\U0001f600' * 3,)):
        n = sum(len(c.encode('utf-16le')) // 2 if isinstance(c, str)
                else (8 if c == 9 else 1) for c in chunks)
        for a in range(0, 3):
            for s in increasing(n + 2, a):
                for b in range(0, 3 if tier != 'quick' else 2):
                    for ln in increasing(n + 2, b):
                        yield ('merge', chunks, (0,) + s, (0,) + ln)
    alpha = ['a', 'bcd', u'\ud55c\uae00', u'\U0001f600', u'x\U0001f600y',
             'longer text here', u'\U00020000\U0001f601']
    for i in range(1500 if tier == 'quick' else 40000):
        chunks = []
        for k in range(rng.randrange(0, 12)):
            if rng.random() < .3:
                chunks.append(rng.choice((9, 13, 10, 11, 2, 24, 3, 4)))
            else:
                chunks.append(rng.choice(alpha))
        n = sum(len(c.encode('utf-16le')) // 2 if isinstance(c, str)
                else (8 if c not in (13, 10, 24) else 1) for c in chunks)
        hi = max(n + 3, 4)
        yield ('merge', tuple(chunks),
               (0,) + tuple(sorted(rng.sample(range(1, hi), rng.randrange(
                   0, min(6, hi - 1))))),
               (0,) + tuple(sorted(rng.sample(range(1, hi), rng.randrange(
                   0, min(6, hi - 1))))))
    yield ('merge', ('x' * 70000,), (0, 5, 300, 66000), (0, 40000, 65536))


def units(s):
    return s.encode('utf-16le', 'surrogatepass')


def check_case(case):
    from pyvc.concrete import need
    _, spec, starts, lines = case
    rngs = []
    at = 0
    texts = b''
    for c in spec:
        if isinstance(c, str):
            w = len(units(c)) // 2
            rngs.append(((at, at + w), c))
            texts += units(c)
        else:
            w = 1 if c in (13, 10, 24) else 8
            rngs.append(((at, at + w), {'code': c}))
            texts += b'\0\0' * w
        at += w
    n = at
    # a boundary inside a control is moved behind it

    def fix(bs):
        out = []
        for b in bs:
            for (x, y), c in rngs:
                if isinstance(c, dict) and x < b < y:
                    b = y
            out.append(b)
        return tuple(out)
    starts, lines = fix(starts), fix(lines)
    r = check_split(rngs, starts, n, texts)
    if r:
        return r
    lines = tuple(sorted(set(lines)))
    return check_merge(rngs, starts, lines, n, texts)


def check_pieces(pieces, rngs, starts, n, texts, label):
    at = 0
    k = 0
    for (a, b), shape, chunk in pieces:
        if a != at or b < a:
            return 'piece %r after position %d' % ((a, b), at)
        at = b
        inside = [c for (x, y), c in rngs if x <= a and b <= y]
        if not inside:
            return 'piece %r is in no chunk' % ((a, b),)
        if isinstance(chunk, str):
            if units(chunk) != texts[2 * a:2 * b]:
                return 'piece %r has text %r' % ((a, b), chunk)
        elif not any(c is chunk for c in inside):
            return 'piece %r is %r' % ((a, b), chunk)
        want = max(i for i, s in enumerate(starts) if s <= a)
        if shape != label(want):
            return 'piece %r is labelled %r, not %r' % ((a, b), shape, want)
        for s in starts:
            if a < s < b:
                return 'piece %r crosses the boundary %d' % ((a, b), s)
    if at != n:
        return 'pieces end at %d, not %d' % (at, n)


def check_split(rngs, starts, n, texts):
    from pyvc.concrete import need
    split, ranged = need('hwp5.xmlmodel', 'split_and_shape',
                         'make_ranged_shapes')
    if not rngs:
        return None
    label = labels(starts)
    shapes = [(s, label(i)) for i, s in enumerate(starts)]
    got = list(split(iter([(r, 'attr', c) for r, c in rngs]),
                     ranged(iter(shapes))))
    if any(x[1][1] != 'attr' for x in got):
        return 'chunk label lost'
    r = check_pieces([(r, s[0], c) for r, s, c in got], rngs, starts, n,
                     texts, label)
    return r or check_lines(rngs, starts, n, texts)


def labels(starts):
    ''' boundaries may repeat a shape '''
    m = sum(starts) % 4 + 1
    return lambda i: 100 + i % m


def check_lines(rngs, starts, n, texts):
    ''' line_segmented: labels are told apart by identity only '''
    from pyvc.concrete import need
    line_segmented, ranged = need('hwp5.xmlmodel', 'line_segmented',
                                  'make_ranged_shapes')
    segs = [dict(y=0) for s in starts]
    got = list(line_segmented(
        iter([(r, 'attr', c) for r, c in rngs]),
        ranged(iter([(s, x) for s, x in zip(starts, segs)]))))
    at = [next(i for i, s in enumerate(segs) if s is g[0]) for g in got]
    if at != sorted(set(at)):
        return 'lines %r' % (at,)
    if any(not g[1] for g in got):
        return 'an empty line'
    if any(p[1] != 'attr' for g in got for p in g[1]):
        return 'a label is lost'
    return check_pieces([(p[0], i, p[2]) for i, g in zip(at, got)
                         for p in g[1]], rngs, starts, n, texts, lambda i: i)


def check_merge(rngs, starts, lines, n, texts):
    ''' the whole of merge_paragraph_text_charshape_lineseg '''
    from pyvc.concrete import need
    x = need('hwp5.xmlmodel')
    make = need('hwp5.xmlmodel', 'make_texts_linesegmented_and_charshaped')
    START, END = need('hwp5.treeop', 'STARTEVENT', 'ENDEVENT')
    need('hwp5.xmlmodel', 'Text', 'ControlChar', 'ParaText', 'ParaCharShape',
         'ParaLineSeg', 'LineSeg', 'Paragraph')
    para = (x.Paragraph, {}, {})
    text = (x.ParaText, dict(chunks=list(rngs)), {'c': 1})
    label = labels(starts)
    shape = (x.ParaCharShape, dict(charshapes=[
        (s, label(i)) for i, s in enumerate(starts)]), {})
    segs = [dict(chpos=s, y=i) for i, s in enumerate(lines)]
    seg = (x.ParaLineSeg, dict(linesegs=segs), {})
    events = [(START, para)]
    for it in (text, shape, seg):
        events += [(START, it), (END, it)]
    events.append((END, para))
    got = list(make(iter(events)))
    if got[0][1][0] is not x.Paragraph or got[-1][1][0] is not x.Paragraph:
        return 'the paragraph is lost'
    stack = []
    pieces = []
    seen = []
    for ev, it in got[1:-1]:
        if ev is START:
            stack.append(it)
            if it[0] is x.LineSeg:
                if len(stack) != 1:
                    return 'a line inside a line'
                if any(s is it[1] for s in seen):
                    return 'a line twice'
                seen.append(it[1])
                pieces.append([it[1]['y']])
            else:
                if len(stack) != 2:
                    return '%r outside of a line' % (it,)
                pieces[-1].append(it)
        else:
            if stack.pop()[:2] != it[:2]:
                return 'badly nested'
    if stack:
        return 'badly nested'
    at = 0
    flat = []
    k = 0
    for line in pieces:
        if len(line) == 1:
            return 'empty line'
        for it in line[1:]:
            if it[0] is x.Text:
                b = at + len(units(it[1]['text'])) // 2
                ch = it[1]['text']
            else:
                while k < len(rngs) and not (
                        isinstance(rngs[k][1], dict)):
                    k += 1
                if k >= len(rngs) or it[1]['code'] != rngs[k][1]['code']:
                    return 'controls differ'
                ch = rngs[k][1]
                b = at + rngs[k][0][1] - rngs[k][0][0]
                k += 1
            wl = max(i for i, s in enumerate(lines) if s <= at)
            if line[0] != wl:
                return 'piece at %d is in line %r, not %r' % (at, line[0],
                                                               wl)
            for s in lines:
                if at < s < b:
                    return 'piece %r crosses the line boundary %d' % (
                        (at, b), s)
            flat.append(((at, b), it[1]['charshape_id'], ch))
            at = b
    return check_pieces(flat, rngs, starts, n, texts, label)
