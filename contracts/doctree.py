''' document trees for the bounded cross-checks: generation, events, and what
each restructuring stage is to make of a tree (written from the properties,
on trees; the code works on event streams) '''
import copy


class N(object):
    ''' an element: model, attributes, context, children '''
    __slots__ = ('m', 'a', 'c', 'k')

    def __init__(self, m, a=None, c=None, k=()):
        self.m, self.a, self.c, self.k = m, a or {}, c or {}, list(k)

    def __repr__(self):
        return '%s%s' % (self.m.__name__,
                         '(%s)' % ' '.join(map(repr, self.k))
                         if self.k else '')


def clone(n, memo=None):
    # (contexts may be shared, and stay so)
    memo = {} if memo is None else memo
    if id(n.c) not in memo:
        memo[id(n.c)] = copy.deepcopy(n.c)
    return N(n.m, copy.deepcopy(n.a), memo[id(n.c)],
             [clone(k, memo) for k in n.k])


def events(nodes, S, E):
    out = []

    def walk(n):
        item = (n.m, n.a, n.c)
        out.append((S, item))
        for k in n.k:
            walk(k)
        out.append((E, item))
    for n in nodes:
        walk(n)
    return out


class NotNested(Exception):
    pass


def parse(evs, S, E):
    ''' the trees of an event stream; refuses what is not well nested '''
    root = N(None)
    stack = [root]
    for i, (ev, item) in enumerate(evs):
        if not isinstance(item, tuple) or len(item) != 3:
            raise NotNested('event %d has item %r' % (i, item))
        m, a, c = item
        if ev is S or ev == S:
            n = N(m)
            n.a, n.c = dict(a), c
            stack[-1].k.append(n)
            n_item = (m, a)
            stack.append(n)
            last = n_item
        elif ev is E or ev == E:
            if len(stack) == 1:
                raise NotNested('event %d ends %s, nothing is open'
                                % (i, m.__name__))
            n = stack.pop()
            if n.m is not m:
                raise NotNested('event %d ends %s, %s is open' % (
                    i, m.__name__, n.m.__name__))
            if dict(a) != n.a:
                # attributes may be completed while the element is open
                if any(k in a and a[k] != v for k, v in n.a.items()
                       if k != 'rowcols'):
                    raise NotNested('event %d ends another %s' % (
                        i, m.__name__))
                n.a = dict(a)
        else:
            raise NotNested('event %d is %r' % (i, ev))
    if len(stack) > 1:
        raise NotNested('%s is not ended' % stack[-1].m.__name__)
    return root.k


def differ(got, want, path=''):
    ''' first difference of two forests, or None '''
    for i, (g, w) in enumerate(zip(got, want)):
        p = '%s/%s[%d]' % (path, w.m.__name__, i)
        if g.m is not w.m:
            return '%s: there is %s' % (p, g.m.__name__)
        ga, wa = plain(g.a), plain(w.a)
        if ga != wa:
            return '%s: attributes %r, not %r' % (p, ga, wa)
        if plain(g.c) != plain(w.c):
            return '%s: context %r, not %r' % (p, g.c, w.c)
        d = differ(g.k, w.k, p)
        if d:
            return d
    if len(got) != len(want):
        return '%s: %d children %r, not %d %r' % (
            path, len(got), [k.m.__name__ for k in got][:20], len(want),
            [k.m.__name__ for k in want][:20])
    return None


def plain(a):
    return dict((k, v) for k, v in a.items())


def models(need):
    ''' the model classes by name '''
    class M(object):
        pass
    M = M()
    x = need('hwp5.xmlmodel')
    b = need('hwp5.binmodel')
    for n in ('Paragraph', 'ParaText', 'ParaCharShape', 'ParaLineSeg',
              'ParaRangeTag', 'LineSeg', 'Text', 'ControlChar', 'Control',
              'ListHeader', 'TableBody', 'TableCell', 'TableCaption',
              'TextboxParagraphList', 'Field', 'SectionDef', 'ColumnsDef',
              'TableControl', 'GShapeObjectControl', 'ShapeComponent',
              'RecordModel'):
        v = getattr(b, n, None) or getattr(x, n, None)
        if v is None:
            v = find(n)
        setattr(M, n, v)
    M.FieldHyperLink = find('FieldHyperLink')
    M.FieldClickHere = find('FieldClickHere')
    M.BookmarkControl = find('BookmarkControl')
    M.Note = find('Note') or M.BookmarkControl
    M.HeaderFooterParagraphList = find('HeaderFooterParagraphList') \
        or M.ListHeader
    M.TableRow = need('hwp5.xmlmodel', 'TableRow')
    M.ColumnSet = need('hwp5.xmlmodel', 'ColumnSet')
    t = need('hwp5.treeop')
    M.S, M.E = t.STARTEVENT, t.ENDEVENT

    class Unknown(object):
        pass
    M.Unknown = Unknown

    class CtrlData(M.RecordModel):
        pass
    M.CtrlData = CtrlData
    return M


def find(name):
    import sys
    for k, m in sorted(sys.modules.items()):
        if k.startswith('hwp5.') and isinstance(getattr(m, name, None), type):
            return getattr(m, name)
    raise LookupError(name)


# -- generation ---------------------------------------------------------------

class Gen(object):
    ''' a random section: paragraphs with text and controls as the record
    parser gives them '''

    def __init__(self, rng, M, depth=3, fields=True, budget=40,
                 loose=False, scale=1):
        # scale: of long texts, sections and lists of lines
        self.scale = scale
        self.rng, self.M, self.depth = rng, M, depth
        self.one = dict(version=(5, 0, 2, 4), k=0) if rng.random() < .5 \
            else None
        self.fields = fields
        self.n = 0
        self.budget = budget * scale
        self.loose = loose      # fields are not always ended

    def attrs(self, **kw):
        self.n += 1
        kw['uid'] = self.n
        return kw

    def ctx(self):
        # (the record parser gives all elements one context)
        if self.one:
            return self.one
        return dict(version=(5, 0, 2, 4), k=self.rng.randrange(3))

    def node(self, m, k=(), **a):
        return N(m, self.attrs(**a), self.ctx(), k)

    def noise(self, p=0.15):
        r = self.rng
        M = self.M
        if r.random() < p:
            return [self.node(r.choice((M.Unknown, M.CtrlData)),
                              [self.node(M.Unknown)] * (r.random() < .3))]
        return []

    def section(self):
        r = self.rng
        # (now and then one without a section definition)
        paras = self.paragraphs(self.depth, r.randrange(1, 5) * self.scale,
                                first=r.random() < .9)
        if self.scale > 1:
            return [self.node(self.M.Unknown)
                    for i in range(r.randrange(300))] + paras
        return paras

    def paragraphs(self, depth, n, first=False):
        return [self.paragraph(depth, first and i == 0) for i in range(n)]

    def paragraph(self, depth, first=False):
        ''' raw: text, char shapes, line segments, controls '''
        r, M = self.rng, self.M
        split = 0
        if first:
            split = 3
        elif r.random() < .2:
            split = r.choice((2, 4, 6, 8, 1))
        p = self.node(M.Paragraph, split=split)
        units = []          # chunks
        controls = []
        pos = 0
        chunks = []

        def char(code, width):
            nonlocal pos
            d = dict(code=code, uid=self.n)
            chunks.append(((pos, pos + width), d))
            pos += width

        def text(s):
            nonlocal pos
            n = len(s.encode('utf-16le')) // 2
            chunks.append(((pos, pos + n), s))
            pos += n
        openfields = []
        if first:
            char(2, 8)
            controls.append(self.node(M.SectionDef, [
                self.node(M.Unknown)] * r.randrange(
                    3 if self.scale == 1 else 300)))
            char(2, 8)
            controls.append(self.node(M.ColumnsDef))
        for i in range(r.randrange(0, 6) * (
                1 if r.random() < .9 else self.scale)):
            self.budget -= 1
            w = r.random()
            if w < .4:
                text(r.choice(('a', 'bc', '가나다', 'x\U0001f600y', 'abc가12 ',
                               '漢字あ', ' ')))
            elif w < .5:
                char(r.choice((9, 10, 24, 30, 31)), 1)
                if chunks[-1][1]['code'] == 9:
                    (a, b), d = chunks[-1]
                    chunks[-1] = ((a, a + 8), d)
                    pos += 7
            elif w < .6 and self.fields:
                char(3, 8)
                f = self.node(r.choice((M.FieldHyperLink, M.FieldClickHere,
                                        M.Field)), self.noise(.3),
                              command='c%d' % r.randrange(3))
                controls.append(f)
                openfields.append(f)
            elif w < .7 and (openfields or self.loose):
                char(4, 8)
                if openfields:
                    openfields.pop()
            elif depth > 0 and self.budget > 0:
                char(r.choice((0xb, 0x10, 0x11, 0xf)), 8)
                controls.append(self.control(depth - 1))
            else:
                char(0x16, 8)
                controls.append(self.node(M.BookmarkControl, self.noise()))
        while openfields:
            if not self.loose or r.random() < .4:
                char(4, 8)
            openfields.pop()
        if r.random() < .9:
            char(13, 1)
        k = []
        notext = not chunks or (not controls and r.random() < .1)
        if not notext:
            k.append(self.node(M.ParaText, chunks=chunks))
        else:
            controls = []
            pos = 0
        # char shapes
        marks = sorted(set([0] + [r.randrange(pos + 3)
                                  for i in range(r.randrange(
                                      4 * self.scale))]))
        marks = [b for b in marks
                 if not any(a < b < e and isinstance(c, dict)
                            for (a, e), c in chunks)]
        k.append(self.node(M.ParaCharShape, charshapes=[
            (b, r.randrange(5)) for b in marks]))
        if r.random() < .85:
            marks = sorted(set([0] + [r.randrange(pos + 3)
                                      for i in range(r.randrange(
                                          3 * self.scale))]))
            marks = [b for b in marks
                     if not any(a < b < e and isinstance(c, dict)
                                for (a, e), c in chunks)]
            k.append(self.node(M.ParaLineSeg, linesegs=[
                dict(chpos=b, y=i, uid=self.n) for i, b in enumerate(marks)]))
        if r.random() < .2:
            k.append(self.node(M.ParaRangeTag))
        k += self.noise()
        for c in controls:
            k.append(c)
            k += self.noise(.05)
        p.k = k
        return p

    def listed(self, m, depth, n=None, **a):
        ''' a list header followed by its paragraphs (siblings) '''
        r = self.rng
        if n is None:
            n = r.choice((0, 1, 1, 1, 2, 3))
        return [self.node(m, self.noise(.1), **a)] \
            + self.paragraphs(depth, n)

    def control(self, depth):
        r, M = self.rng, self.M
        w = r.random()
        if w < .5:
            return self.table(depth)
        if w < .75:
            k = []
            if r.random() < .3:
                k += self.listed(M.ListHeader, depth)
            box = self.node(M.ShapeComponent, self.noise(.1) + self.listed(
                M.TextboxParagraphList, depth) + self.noise(.4))
            if r.random() < .3:
                box = self.node(M.ShapeComponent, [box, self.node(
                    M.ShapeComponent)])
            return self.node(M.GShapeObjectControl, k + [box])
        m = r.choice((M.Note, M.BookmarkControl))
        return self.node(m, self.listed(
            r.choice((M.ListHeader, M.HeaderFooterParagraphList)), depth))

    def table(self, depth):
        r, M = self.rng, self.M
        k = self.noise(.1)
        if r.random() < .3:
            k += self.listed(M.TableCaption, depth)
        rows = [r.choice((0, 1, 1, 2, 2, 3, 4))
                for i in range(r.randrange(0, 4))]
        k.append(self.node(M.TableBody, self.noise(.1), rowcols=tuple(rows)))
        for n in rows:
            for j in range(n):
                k += self.listed(M.TableCell, depth, r.choice((0, 1, 1, 2)))
        return self.node(M.TableControl, k)


# -- what the stages make of a tree -------------------------------------------

def merged(nodes, M, lang=None):
    ''' text, char shapes and line segments merged into lines '''
    out = []
    for n in nodes:
        if n.m in (M.ParaText, M.ParaCharShape, M.ParaLineSeg,
                   M.ParaRangeTag):
            continue
        r = N(n.m, n.a, n.c, merged(n.k, M))
        if n.m is M.Paragraph:
            parts = dict((k.m, k) for k in n.k)
            r.k += lines(n, parts, M)
        out.append(r)
    return out


def lines(p, parts, M):
    import importlib
    from pyvc.concrete import need
    CC = M.ControlChar
    text = parts.get(M.ParaText)
    seg = parts.get(M.ParaLineSeg)
    if text is not None:
        chunks, tctx = text.a['chunks'], text.c
    else:
        chunks, tctx = [((0, 0), '')], dict(p.c)
    if seg is not None:
        linesegs, sctx = seg.a['linesegs'], seg.c
    else:
        linesegs, sctx = [dict(chpos=0, y=0, height=0, height2=0, height85=0,
                               space_below=0, x=0, width=0, a8=0,
                               flags=0)], {}
    shapes = parts[M.ParaCharShape].a['charshapes']

    def at(marks, pos):
        r = None
        for i, (b, v) in enumerate(marks):
            if b <= pos:
                r = i
        return r
    lmarks = [(l['chpos'], l) for l in linesegs]
    pieces = []     # (line, shape, chunk)
    for (a, b), ch in chunks:
        if isinstance(ch, dict):
            pieces.append((at(lmarks, a), at(shapes, a), ch))
            continue
        u = ch.encode('utf-16le', 'surrogatepass')
        cuts = [a] + [i for i in range(a + 1, b)
                      if (at(lmarks, i), at(shapes, i))
                      != (at(lmarks, i - 1), at(shapes, i - 1))] + [b]
        for x, y in zip(cuts, cuts[1:]):
            pieces.append((at(lmarks, x), at(shapes, x),
                           u[2 * (x - a):2 * (y - a)].decode(
                               'utf-16le', 'surrogatepass')))
    out = []
    last = None
    for li, si, ch in pieces:
        if not out or li != last:
            out.append(N(M.LineSeg, linesegs[li], sctx))
        last = li
        shape = shapes[si][1]
        if isinstance(ch, dict):
            code = ch['code']
            a = dict(name=CC.get_name_by_code(code), code=code,
                     kind=CC.kinds[chr(code)], charshape_id=shape)
            if code in (9, 10, 13):
                a['char'] = chr(code)
            out[-1].k.append(N(CC, a, tctx))
        else:
            out[-1].k.append(N(M.Text, dict(text=ch, charshape_id=shape),
                               tctx))
    return out


def inlined(nodes, M):
    ''' controls moved to their control characters '''
    def para(p):
        # (paragraphs inside the controls have their own)
        pending = []

        def collect(n):
            ''' children without controls '''
            ks = []
            for k in n.k:
                if issubclass(k.m, M.Control):
                    pending.append(k)
                else:
                    ks.append(walk(k))
            return ks

        def walk(n):
            if n.m is M.Paragraph:
                return para(n)
            return N(n.m, n.a, n.c, collect(n))
        # controls of the paragraph come before its lines
        r = N(p.m, p.a, p.c, collect(p))

        def place(n):
            ks = []
            for k in n.k:
                if k.m is M.ControlChar \
                        and k.a['kind'] is M.ControlChar.EXTENDED:
                    c = pending.pop(0)
                    ks.append(N(c.m, c.a, c.c, inlined(c.k, M)))
                else:
                    if k.m is not M.Paragraph:
                        place(k)
                    ks.append(k)
            n.k = ks
        place(r)
        return r
    out = []
    for n in nodes:
        if n.m is M.Paragraph:
            out.append(para(n))
        else:
            out.append(N(n.m, n.a, n.c, inlined(n.k, M)))
    return out


def fields(nodes, M, stack=None):
    ''' fields enclose what is between their start and end, line by line '''
    stack = [] if stack is None else stack

    def line(n):
        root = N(n.m, n.a, n.c)
        cur = [root]
        mine = list(stack)
        for f in mine:
            x = N(f.m, f.a, f.c)
            cur[-1].k.append(x)
            cur.append(x)

        def run(ks):
            for k in ks:
                if issubclass(k.m, M.Field):
                    x = N(k.m, k.a, k.c)
                    cur[-1].k.append(x)
                    cur.append(x)
                    mine.append(k)
                    stack[:] = mine
                    run(k.k)
                elif k.m is M.ControlChar and k.a['name'] == 'FIELD_END':
                    if mine:
                        mine.pop()
                        stack[:] = mine
                        cur.pop()
                else:
                    cur[-1].k.append(N(k.m, k.a, k.c,
                                       fields(k.k, M, stack)))
        run(n.k)
        # what is left open in lines inside of this one is gone
        stack[:] = mine
        return root
    out = []
    for n in nodes:
        if n.m is M.LineSeg:
            out.append(line(n))
        else:
            out.append(N(n.m, n.a, n.c, fields(n.k, M, stack)))
    return out


def listed(nodes, M, parent, child):
    ''' the child elements that follow a parent element become its children
    '''
    out = []
    cur = None
    for n in nodes:
        r = N(n.m, n.a, n.c, listed(n.k, M, parent, child))
        if cur is not None and n.m is child and not issubclass(n.m, parent):
            cur.k.append(r)
            continue
        cur = None
        out.append(r)
        if issubclass(n.m, parent):
            cur = r
    return out


def rows(nodes, M):
    ''' the cells of a table body in rows '''
    out = []
    for n in nodes:
        r = N(n.m, n.a, n.c, rows(n.k, M))
        if n.m is M.TableBody:
            r.a = dict(n.a)
            counts = [c for c in r.a.pop('rowcols') if c > 0]
            ks, row = [], None
            for k in r.k:
                if k.m is not M.TableCell:
                    (ks if row is None else row.k).append(k)
                    continue
                if row is None:
                    row = N(M.TableRow, {}, dict(n.c))
                    ks.append(row)
                    left = counts.pop(0)
                row.k.append(k)
                left -= 1
                if left == 0:
                    row = None
            r.k = ks
        out.append(r)
    return out


def tokenised(nodes, M, tokenize):
    out = []
    for n in nodes:
        if n.m is M.Text:
            for lang, t in tokenize(n.a['text']):
                out.append(N(n.m, dict(charshape_id=n.a['charshape_id'],
                                       lang=lang, text=t), n.c))
        else:
            out.append(N(n.m, n.a, n.c, tokenised(n.k, M, tokenize)))
    return out


def sectioned(nodes, M, sid=None):
    ''' the first section definition encloses everything '''
    found = []

    def cut(ns):
        out = []
        for n in ns:
            if not found and n.m is M.SectionDef:
                found.append(n)
                continue
            if found:
                out.append(n)
            else:
                out.append(N(n.m, n.a, n.c, cut(n.k)))
        return out
    rest = cut(nodes)
    if not found:
        return rest
    d = found[0]
    a = dict(d.a)
    if sid is not None:
        a['section_id'] = sid
    return [N(d.m, a, d.c, d.k + rest)]


def columned(nodes, M):
    ''' from a paragraph with a new column definition on, everything is in a
    column set, up to the next one or the end of the list '''
    out = []
    cur = out
    for n in nodes:
        r = N(n.m, n.a, n.c, columned(n.k, M))
        if n.m is M.Paragraph and n.a['split'] & 2:
            s = N(M.ColumnSet)
            out.append(s)
            cur = s.k
        cur.append(r)
    return out


def order_of(nodes, skip=()):
    ''' the uids of the elements in document order '''
    out = []

    def walk(n):
        if n.m not in skip:
            u = n.a.get('uid')
            if u is not None:
                out.append(u)
        for k in n.k:
            walk(k)
    for n in nodes:
        walk(n)
    return out
