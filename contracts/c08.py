''' C08 XML output '''
from pyvc.unit import unit
from . import flat, attributes, mains  # noqa

LEVEL = 'proof'
BOUNDS = ('every code point in text and attribute values; seeded random '
          'event streams of up to 30 elements with arbitrary texts (markup, '
          'quotes, line ends, controls, surrogates), in five encodings; '
          'elements of structures with members of every type the output '
          'knows; the fixtures of the repository')
ASSUMPTIONS = [
    'xml.sax.saxutils.escape and quoteattr escape markup, quotes and the '
    'given characters; codecs.iterencode encodes the text once (cross-checked '
    'with two XML parsers)',
    'names of elements and attributes are XML names (they are names of the '
    'classes and members in the source)',
]
NOTE = ('the serialiser is proved to put every element, attribute and text '
        'in its place, escaped and cleaned, for every event stream, and '
        'startelement to give every member of an element its attribute or '
        'element, and expanded_xmlattribute to write the value of every type; '
        'drop_nonxml_chars (a regular expression) is checked on every code '
        'point')


class Attrs(object):
    def __init__(self, it):
        self.it = it

    def items(self):
        return self.it


@unit('C08', funcs=['hwp5.xmlformat.xmlevents_to_textchunks'],
      covers=['element', 'attribute', 'text', 'end', 'finished'],
      notes=['drop_nonxml_chars by its contract (all code points, below)'])
def textchunks(E):
    ''' every start event becomes <name a="v"...> with all its attributes,
    every end event </name>, every text its escaped characters '''
    import xml.sax.saxutils as X
    from .common import (fresh_int, fresh_list, SVal, SIter, ti, V, prove_eq,
                         mkint, Rope, View, Base)
    from pyvc.core import Unsupported
    from hwp5 import xmlformat
    from hwp5.treeop import STARTEVENT, ENDEVENT
    from hwp5.binmodel import Text
    import z3
    I = z3.IntSort()
    n = fresh_int('n', 0)
    kind = z3.Function('kind', I, I)
    cnt = z3.Function('attributes', I, I)
    box = {}

    def elem(i):
        t = ti(i)
        E.assume(z3.And(kind(t) >= 0, kind(t) <= 2, cnt(t) >= 0))
        if E.branch(kind(t) == 0):
            at = SIter(fresh_list(E, 'attrs', mkint(cnt(t)), lambda j, tag: (
                SVal('aname', j), SVal('value', j))), name='attributes')
            box['attrs'] = at
            x = (SVal('name', i), Attrs(at))
            ev = STARTEVENT
        elif E.branch(kind(t) == 1):
            ev, x = Text, SVal('text', i, truth=V.SBool(
                z3.Function('nonempty', I, z3.BoolSort())(t)))
        else:
            ev, x = ENDEVENT, SVal('name', i)
        return V.elemtuple(box['b'], i, (ev, x))
    b = Base('events', 'list', ti(n), elem)
    box['b'] = b
    it = SIter(Rope('list', [View(b, 0, ti(n))]), name='events')

    def tag(x, what):
        f, _, flags = x._base.partition('+')
        if what in flags:
            raise Unsupported('%s twice' % what)
        return SVal(f + '+' + ''.join(sorted(flags + what)), x._idx)

    def has(entities, want):
        for ch, refs in want.items():
            if entities.get(ch) not in refs:
                E.fail('%r is written as a reference' % ch)

    def quoteattr(v, entities={}):
        if not isinstance(v, SVal):
            raise Unsupported('quoteattr of %r' % (v,))
        for k, r in entities.items():
            if not (r.startswith('&#') and r.endswith(';') and chr(
                    int(r[3:-1], 16) if r[2] == 'x' else int(r[2:-1])) == k):
                E.fail('references to the characters themselves', repr(
                    (k, r)))
        return tag(v, 'q')

    def escape(v, entities={}):
        if not isinstance(v, SVal):
            raise Unsupported('escape of %r' % (v,))
        has(entities, {'\r': ('&#13;', '&#xD;', '&#xd;', '&#x0d;')})
        if set(entities) - set('\r\n\t'):
            raise Unsupported('other entities')
        return tag(v, 'e')
    E.models[X.quoteattr] = quoteattr
    E.models[X.escape] = escape
    E.contracts['hwp5.xmlformat.drop_nonxml_chars'] = lambda v: tag(v, 'c')
    G = E.G
    G.declare(k=0, st=0, a=0)

    def inv(L):
        if L.it is it:
            L.ghostlet('k', L.pos)
            L.ghostlet('st', 0)
            L.ghostlet('a', 0)
        else:
            L.ghostlet('a', L.pos)
            L.ghostlet('st', 2)
    E.hints.append((lambda L: True, inv, {'peel': 0}))

    def cur():
        k = mkint(ti(it.pos) - 1)
        prove_eq(E, G.k, k, 'events in order')
        return k

    def literal(text):
        for ch in text:
            st = G.st
            if not isinstance(st, int):
                raise Unsupported('state')
            if ch == '<' and st == 0:
                cur()
                G.st = 1
            elif ch == '/' and st == 1:
                G.st = 6
            elif ch in ' \n' and st in (2, 3):
                G.st = 3
            elif ch == '=' and st == 4:
                G.st = 5
            elif ch == '>' and st in (2, 3, 7):
                if st != 7:
                    E.prove(ti(G.a) == cnt(ti(G.k)), 'all its attributes')
                    E.cover('element')
                else:
                    E.cover('end')
                G.a = 0
                G.st = 0
                G.k = G.k + 1
            else:
                E.fail('well-formed output', '%r in state %d' % (ch, st))
    for x in xmlformat.xmlevents_to_textchunks(it):
        if isinstance(x, str):
            literal(x)
            continue
        if not isinstance(x, SVal):
            raise Unsupported('output %r' % (x,))
        k = cur()
        f = x._base
        if f == 'name':
            prove_eq(E, x._idx, k, 'the name of the element')
            if G.st == 1:
                E.prove(kind(ti(k)) == 0, 'a start event starts')
                G.st = 2
            elif G.st == 6:
                E.prove(kind(ti(k)) == 2, 'an end event ends')
                G.st = 7
            else:
                E.fail('the name in its place')
        elif f == 'aname':
            if G.st != 3:
                E.fail('an attribute follows a space')
            prove_eq(E, x._idx, G.a, 'attributes in order')
            G.st = 4
        elif f == 'value+cq':
            if G.st != 5:
                E.fail('a value follows its name')
            prove_eq(E, x._idx, G.a, 'the value of the attribute')
            G.st = 2
            G.a = G.a + 1
            E.cover('attribute')
        elif f == 'text+ce':
            if G.st != 0:
                E.fail('text outside tags')
            prove_eq(E, x._idx, k, 'the text of the event')
            E.prove(kind(ti(k)) == 1, 'a text event')
            G.k = G.k + 1
            E.cover('text')
        else:
            E.fail('escaped and cleaned values', f)
    prove_eq(E, G.k, n, 'every event')
    E.cover('finished')


@unit('C08', funcs=['hwp5.xmlmodel.modelevents_to_xmlevents'],
      covers=['start', 'end', 'finished'],
      notes=['startelement: what it yields passes unchanged'])
def modelevents(E):
    ''' a start gives the start element of its model and attributes, an end
    the end with the name of its model '''
    from .common import (SVal, SIter, ti, V, prove_eq, mkint, fresh_int,
                         fresh_list, Rope, View, Base)
    from hwp5 import xmlmodel
    from hwp5.treeop import STARTEVENT, ENDEVENT
    import z3
    I = z3.IntSort()
    n = fresh_int('n', 0)
    start = z3.Function('start', I, z3.BoolSort())
    cnt = z3.Function('cnt', I, I)
    box = {}

    class Model(SVal):
        pass

    def elem(i):
        ev = STARTEVENT if E.branch(start(ti(i))) else ENDEVENT
        m = SVal('model', i)
        m._fields['__name__'] = SVal('name', i)
        m.__dict__['__name__'] = SVal('name', i)
        x = (m, SVal('attrs', i), SVal('ctx', i))
        return V.elemtuple(box['b'], i, (ev, x))
    b = Base('events', 'list', ti(n), elem)
    box['b'] = b
    it = SIter(Rope('list', [View(b, 0, ti(n))]), name='events')

    def startelement(ctx, ma):
        i = mkint(ti(it.pos) - 1)
        prove_eq(E, ctx, SVal('ctx', i), 'with its context')
        prove_eq(E, ma[0], SVal('model', i), 'of its model')
        prove_eq(E, ma[1], SVal('attrs', i), 'with its attributes')
        E.prove(start(ti(i)), 'for a start')
        E.assume(cnt(ti(i)) >= 1)
        return SIter(fresh_list(E, 'made', mkint(cnt(ti(i))),
                                lambda j, tag: SVal('made', j)), name='made')
    E.contracts['hwp5.xmlformat.startelement'] = startelement
    G = E.G
    G.declare(k=0, t=0)

    def inv(L):
        if L.it is it:
            if L.mode == 'check':
                i = mkint(ti(it.pos) - 1)
                if E.branch(start(ti(i))):
                    prove_eq(E, G.t, mkint(cnt(ti(i))), 'the whole element')
                    prove_eq(E, G.k, i, 'in order')
                    G.t = 0
                    G.k = G.k + 1
            L.ghostlet('k', L.pos)
            L.ghostlet('t', 0)
        else:
            L.ghostlet('t', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for x in xmlmodel.modelevents_to_xmlevents(it):
        if isinstance(x, SVal):
            prove_eq(E, x, SVal('made', G.t), 'in order')
            G.t = G.t + 1
            E.cover('start')
            continue
        i = mkint(ti(it.pos) - 1)
        prove_eq(E, G.k, i, 'events in order')
        E.prove(z3.Not(start(ti(i))), 'for an end')
        if x[0] is not ENDEVENT:
            E.fail('an end')
        prove_eq(E, x[1], SVal('name', i), 'the name of the model')
        G.k = G.k + 1
        E.cover('end')
    prove_eq(E, G.k, n, 'every event')
    E.cover('finished')


@unit('C08', funcs=['hwp5.xmlformat.element'], covers=['inside', 'ended'],
      notes=['startelement by its contract'])
def whole_element(E):
    ''' an element: what startelement gives, then the end of the element '''
    from .common import (SVal, SIter, ti, prove_eq, mkint, fresh_int,
                         fresh_list)
    from hwp5 import xmlformat
    from hwp5.treeop import ENDEVENT
    n = fresh_int('n', 0)
    m = SVal('model', 0)
    m.__dict__['__name__'] = SVal('name', 0)
    ctx, attrs = SVal('ctx', 0), SVal('attrs', 0)
    made = SIter(fresh_list(E, 'made', n, lambda j, t: SVal('made', j)),
                 name='made')

    def startelement(c, ma):
        E.prove(c is ctx and ma[0] is m and ma[1] is attrs,
                'the element given')
        return made
    E.contracts['hwp5.xmlformat.startelement'] = startelement
    G = E.G
    G.declare(k=0)

    def inv(L):
        L.ghostlet('k', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    ended = 0
    for x in xmlformat.element(ctx, (m, attrs)):
        if ended:
            E.fail('nothing after the end')
        if isinstance(x, SVal):
            prove_eq(E, x, SVal('made', G.k), 'in order')
            G.k = G.k + 1
            E.cover('inside')
            continue
        prove_eq(E, G.k, n, 'after everything inside')
        if x[0] is not ENDEVENT:
            E.fail('an end')
        prove_eq(E, x[1], SVal('name', 0), 'of the element')
        ended = 1
        E.cover('ended')
    if not ended:
        E.fail('the element is ended')


@unit('C08', funcs=['hwp5.xmlformat.separate_plainvalues',
                    'hwp5.xmlformat.is_complex_type'],
      covers=['plain', 'inside', 'margin', 'finished'])
def separated(E):
    ''' members which are structures, or arrays of structures or colours, are
    kept in order to become elements; all others become attributes, each
    under its name '''
    from .common import (SVal, SIter, ti, prove_eq, mkint, fresh_int,
                         fresh_list, Rope, View, Base, V, SList)
    from hwp5 import xmlformat as x, binmodel, dataio as d
    from hwp5.binmodel._shared import Coord, Border
    import z3
    I = z3.IntSort()
    types = [d.UINT16, d.BSTR, binmodel.COLORREF, x.Margin,
             d.ARRAY(d.UINT8, 3), d.N_ARRAY(d.UINT16, binmodel.COLORREF),
             d.N_ARRAY(d.UINT16, d.WORD), d.ARRAY(Coord, 2),
             Border, d.HexBytes(3), int, str]
    inside = [Border]
    arrays = [types[5], types[7]]
    n = fresh_int('n', 0)
    kind = z3.Function('type', I, I)
    # how many of the members before i are elements, and which is the j-th
    cnt = z3.Function('elements', I, I)
    which = z3.Function('which', I, I)
    E.assume(cnt(0) == 0)

    def value(i, t):
        if t in (x.Margin, Border):
            v = {'left': SVal('member', i)}
            E.born(v)
            return v
        v = SVal('value', i, truth='any')
        v._fields['_type'] = object
        return v

    def is_el(i):
        return z3.Or([kind(i) == k for k, t in enumerate(types)
                      if t in inside + arrays])

    def step(i):
        E.assume(z3.And(kind(i) >= 0, kind(i) < len(types)))
        E.assume(z3.Implies(i >= 0, z3.And(
            cnt(i) >= 0, cnt(i) <= i,
            cnt(i + 1) == cnt(i) + z3.If(is_el(i), 1, 0))))
        E.assume(z3.Implies(is_el(i), which(cnt(i)) == i))
    box = {}

    def elem(i):
        t = ti(i)
        step(t)
        for k in range(len(types) - 1):
            if E.branch(kind(t) == k):
                break
        else:
            k = len(types) - 1
        typ = types[k]
        item = (typ, value(i, typ))
        return V.elemtuple(box['b'], i, (SVal('name', i, truth='any'), item))
    b = box['b'] = Base('members', 'list', ti(n), elem)
    it = SIter(Rope('list', [View(b, 0, ti(n))]), name='members')
    G = E.G
    G.declare(put=0)
    made = {}

    class Plain(object):
        def __setitem__(self, name, item):
            i = ti(it.pos) - 1
            prove_eq(E, G.put, 0, 'once')
            prove_eq(E, name, SVal('name', mkint(i)), 'under its name')
            E.prove(z3.Not(is_el(i)), 'a plain value')
            e = b.elem(mkint(i))[1]
            if not isinstance(item, tuple) or len(item) != 2 \
                    or item[0] is not e[0] or item[1] is not e[1]:
                E.fail('type and value of the member')
            G.put = 1

    def new(*a, **k):
        if a or k:
            return dict(*a, **k)
        made['p'] = Plain()
        return made['p']
    E.models[dict] = new
    elems = Base('elements', 'list', cnt(ti(n)), lambda j: b.elem(
        mkint(which(ti(j)))))

    def inv(L):
        pos = ti(L.pos)
        if L.mode == 'check':
            i = pos - 1
            step(i)
            E.prove(ti(G.put) == z3.If(is_el(i), 0, 1),
                    'an attribute, if it is none')
            if E.branch(is_el(i)):
                E.cover('inside')
            elif E.branch(kind(i) == types.index(x.Margin)):
                E.cover('margin')
            else:
                E.cover('plain')
        step(pos)
        L.ghost_havoc.add('put') if hasattr(L.ghost_havoc, 'add') else \
            L.ghost_havoc.update(['put'])
        if L.mode != 'init':
            G.put = 0
        L.contents(L.the(lambda v: isinstance(v, SList), 'elements', 'd')
                   and L.the_list('d'),
                   Rope('list', [View(elems, 0, cnt(pos))]))
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    got = x.separate_plainvalues(it)
    E.prove(isinstance(got, tuple) and len(got) == 2, 'both')
    if got[1] is not made.get('p'):
        E.fail('the plain values')
    prove_eq(E, Rope('list', list(V.segs_of(got[0]))),
             Rope('list', [View(elems, 0, cnt(ti(n)))]),
             'the elements, in order')
    E.cover('finished')


@unit('C08', funcs=['hwp5.xmlformat.startelement'],
      covers=['structure', 'other', 'text', 'no text', 'member',
              'array', 'item', 'colour', 'finished'],
      notes=['typed_struct_attributes, separate_plainvalues, '
             'xmlattributes_for_plainvalues, xmlattrval and element (for the '
             'elements inside) by their contracts'])
def start_of_element(E):
    ''' an element starts with the attributes of its plain values, then its
    text, then elements for its members in order '''
    from .common import (SVal, SIter, ti, prove_eq, mkint, fresh_int, Rope,
                         fresh_list, View, Base, V, fresh_text, SInt)
    from pyvc.hooks import format_percent
    from hwp5 import xmlformat as x, binmodel, dataio as d
    from hwp5.treeop import STARTEVENT, ENDEVENT
    from hwp5.binmodel._shared import Coord
    import z3
    I = z3.IntSort()
    model = [binmodel.BorderFill, binmodel.Text, Other][E.choose(3)]
    struct = model is binmodel.BorderFill
    ctx = SVal('ctx', 0)
    G = E.G
    # part: 0 nothing, 1 started, 2 text given; k: members done; phase of the
    # array: 0 not begun, 1 inside; j: items done; t: events of the item
    G.declare(part=0, k=0, phase=0, j=0, t=0)
    made = {}
    nattr = fresh_int('attributes', 0)
    if struct:
        attrs = SVal('attrs', 0)
        members = SIter(fresh_list(E, 'typed', nattr, lambda i, t: E.born(
            dict(name=SVal('name', i), type=SVal('type', i),
                 value=SVal('value', i), level=0))), name='typed')
        E.cover('structure')

        def typed(m, a, c):
            if m is not model or a is not attrs or c is not ctx:
                E.fail('the members of the element')
            return members
        E.contracts['hwp5.dataio.typed_struct_attributes'] = typed
        want_type = lambda i: SVal('type', i)       # noqa
    else:
        E.cover('other')

        class Attrs(object):
            def items(self):
                b = Base('attributes', 'list', ti(nattr), lambda i: V.elemtuple(
                    b, i, (SVal('name', i), val(i))))
                return SIter(Rope('list', [View(b, 0, ti(nattr))]),
                             name='attributes')
        attrs = Attrs()

        def val(i):
            v = SVal('value', i)
            v._fields['_type'] = d.UINT16
            return v
        want_type = lambda i: d.UINT16              # noqa
    nel = fresh_int('members', 0)
    kind = z3.Function('kind', I, I)        # 0 structure, 1 array, 2 colours
    cnt = z3.Function('items', I, I)
    ev = z3.Function('events', I, I, I)     # of item j of member k
    col = z3.Function('colour', I, I, I)
    box = {}
    ARR = d.N_ARRAY(d.UINT16, Coord)
    COL = d.N_ARRAY(d.UINT16, binmodel.COLORREF)

    def member(i):
        k = ti(i)
        E.assume(z3.And(kind(k) >= 0, kind(k) <= 2, cnt(k) >= 0))
        name = SVal('mname', i)
        if E.branch(kind(k) == 0):
            v = E.born({'left': SVal('left', i)})
            item = (SVal('mtype', i), v)
        elif E.branch(kind(k) == 1):
            item = (ARR, V.SList(fresh_list(
                E, 'array', mkint(cnt(k)),
                lambda j, t: SVal('item', j)).segs))
        else:
            def colour(j, t):
                c = col(k, ti(j))
                return SInt(c)
            item = (COL, V.SList(fresh_list(E, 'colours', mkint(cnt(k)),
                                            colour).segs))
        return V.elemtuple(box['b'], i, (name, item))
    b = box['b'] = Base('members', 'list', ti(nel), member)
    sep = V.SList(Rope('list', [View(b, 0, ti(nel))]).segs)
    text = fresh_text('text')
    has = E.choose(2) if model is not binmodel.Text else 1
    typ = SVal('text type', 0)

    class Plain(object):
        popped = None

        def __contains__(self, k):
            if k == '<text>':
                return bool(has) and model is not binmodel.Text
            if k == 'text':
                return model is binmodel.Text
            E.fail('something else is looked for', repr(k))

        def pop(self, k, *a):
            if k not in self and a:
                return a[0]
            if k not in self or self.popped:
                E.fail('the text, once')
            self.popped = k
            return (typ, text)

        def __getitem__(self, k):
            if k not in self:
                raise KeyError(k)
            return (typ, text)

        def __delitem__(self, k):
            self.pop(k)
    plain = Plain()

    def separate(got):
        if not isinstance(got, SIter):
            got = SIter(Rope('list', list(V.segs_of(got))))
        prove_eq(E, mkint(ti(got.n())), nattr, 'all the members')
        i = fresh_int('any', 0)
        E.assume(ti(i) < ti(nattr))
        g = V.index_segs(got.segs(), i)
        if not isinstance(g, tuple) or len(g) != 2 or len(g[1]) != 2:
            E.fail('name, type and value')
        prove_eq(E, g[0], SVal('name', i), 'its name')
        t = want_type(i)
        if isinstance(t, type):
            E.prove(g[1][0] is t, 'its type')
        else:
            prove_eq(E, g[1][0], t, 'its type')
        prove_eq(E, g[1][1], SVal('value', i), 'its value')
        return sep, plain
    E.contracts['hwp5.xmlformat.separate_plainvalues'] = separate
    E.contracts['hwp5.xmlformat.is_complex_type'] = None
    del E.contracts['hwp5.xmlformat.is_complex_type']
    final = SVal('xml attributes', 0)

    def plainvalues(c, p):
        if c is not ctx or p is not plain:
            E.fail('the plain values of the element')
        if has and not plain.popped:
            E.fail('the text is no attribute')
        return final
    E.contracts['hwp5.xmlformat.xmlattributes_for_plainvalues'] = plainvalues

    def element(c, ma):
        if c is not ctx:
            E.fail('in the same context')
        k = ti(G.k)
        prove_eq(E, G.t, 0, 'once')
        t, v = ma
        if E.branch(kind(k) == 0):
            E.prove(ti(G.phase) == 0, 'in its place')
            prove_eq(E, t, SVal('mtype', mkint(k)), 'the type of the member')
            if set(v) != {'left', 'attribute-name'}:
                E.fail('the members of the structure', repr(v))
            prove_eq(E, v['left'], SVal('left', mkint(k)), 'its members')
            prove_eq(E, v['attribute-name'], SVal('mname', mkint(k)),
                     'the name of the member')
            if set(b.elem(mkint(k))[1][1]) != {'left'}:
                E.fail('the value of the member is not changed')
            j = z3.IntVal(0)
        else:
            E.prove(z3.And(kind(k) == 1, ti(G.phase) == 1),
                    'an item of an array')
            if t is not Coord:
                E.fail('the type of the items')
            prove_eq(E, v, SVal('item', G.j), 'every item in turn')
            j = ti(G.j)
            E.cover('item')
        E.assume(ev(k, j) >= 2)
        made['inner'] = SIter(fresh_list(
            E, 'inner', mkint(ev(k, j)), lambda i, tag: SVal('event', i)),
            name='inner')
        return made['inner']
    E.contracts['hwp5.xmlformat.element'] = element

    def hexa(v):
        return ('hex of', v)
    E.contracts['hwp5.xmlformat.xmlattrval'] = hexa

    def colorref(v):
        return ('colour', v)
    E.models[binmodel.COLORREF] = colorref

    def inv(L):
        it = L.it
        if it is made.get('inner'):
            L.ghostlet('t', L.pos)
            return
        if getattr(it, 'name', None) in ('typed', 'attributes'):
            return      # before the element starts
        over = [s.base for s in it.segs() if not s.lit] \
            if isinstance(it, SIter) else []
        if b in over or (isinstance(it, SIter) and it.seq is sep):
            if L.mode == 'check':
                k = ti(L.pos) - 1
                if E.branch(kind(k) == 0):
                    prove_eq(E, G.t, mkint(ev(k, 0)), 'the whole element')
                    prove_eq(E, G.k, mkint(k), 'in order')
                    G.t = 0
                    G.k = mkint(k + 1)
                    E.cover('member')
                elif E.branch(kind(k) == 2):
                    prove_eq(E, G.j, mkint(cnt(k)), 'all the colours')
                    prove_eq(E, G.k, mkint(k), 'in order')
                    G.j = 0
                    G.k = mkint(k + 1)
            L.ghostlet('k', L.pos)
            for g in 'phase', 'j', 't':
                L.ghostlet(g, 0)
            return
        if L.mode == 'check' and E.branch(kind(ti(G.k)) == 1):
            j = ti(L.pos) - 1
            prove_eq(E, G.t, mkint(ev(ti(G.k), j)), 'the whole item')
            prove_eq(E, G.j, mkint(j), 'in order')
            G.t = 0
            G.j = mkint(j + 1)
        L.ghostlet('j', L.pos)
        L.ghostlet('t', 0)
        L.ghostlet('phase', mkint(z3.If(kind(ti(G.k)) == 1, 1, 0)))
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for got in x.startelement(ctx, (model, attrs)):
        if isinstance(got, SVal):
            E.prove(ti(G.part) >= 1, 'inside the element')
            prove_eq(E, got, SVal('event', G.t), 'in order')
            G.t = G.t + 1
            continue
        what, v = got
        if what is binmodel.Text:
            prove_eq(E, G.part, 1, 'the text after the start')
            prove_eq(E, G.k, 0, 'before the members')
            if not has:
                E.fail('there is no text')
            prove_eq(E, v, text, 'the text')
            G.part = 2
            E.cover('text')
            continue
        if what is STARTEVENT and E.branch(ti(G.part) == 0):
            if v[0] != model.__name__:
                E.fail('the name of the model', repr(v[0]))
            if v[1] is not final:
                E.fail('the attributes')
            G.part = 1
            continue
        if not has:
            E.prove(ti(G.part) == 1, 'no text')
            E.cover('no text')
        elif E.branch(ti(G.part) == 1):
            prove_eq(E, V.mkint(ti(text.slen())), 0, 'only an empty text is '
                     'left out')
        k = ti(G.k)
        E.prove(k < ti(nel), 'of a member')
        if E.branch(kind(k) == 1):
            if what is STARTEVENT:
                prove_eq(E, G.phase, 0, 'an array starts once')
                if v[0] != 'Array' or list(v[1]) != ['name']:
                    E.fail('an array', repr(v))
                prove_eq(E, v[1]['name'], SVal('mname', mkint(k)),
                         'the name of the array')
                G.phase = 1
                E.cover('array')
            else:
                if what is not ENDEVENT or v != 'Array':
                    E.fail('the end of the array')
                prove_eq(E, G.phase, 1, 'an array ends')
                prove_eq(E, G.j, mkint(cnt(k)), 'after all items')
                G.phase = G.j = 0
                G.k = mkint(k + 1)
            continue
        E.prove(kind(k) == 2, 'colours')
        if what is STARTEVENT:
            prove_eq(E, G.phase, 0, 'a colour starts')
            prove_eq(E, v[0], SVal('mname', mkint(k)), 'name of the colours')
            a = v[1]
            c = col(k, ti(G.j))
            if set(a) != {'r', 'g', 'b', 'alpha', 'hex'}:
                E.fail('the parts of a colour', repr(sorted(a)))
            for s, name in enumerate(('r', 'g', 'b', 'alpha')):
                w = (c / (1 << 8 * s)) % 256
                number(E, a[name], w, name + ' is byte %d' % s)
            h = a['hex']
            if not (isinstance(h, tuple) and h[0] == 'hex of'
                    and isinstance(h[1], tuple) and h[1][0] == 'colour'):
                E.fail('the colour as a whole', repr(h))
            prove_eq(E, h[1][1], mkint(c), 'the colour as a whole')
            G.phase = 2
            E.cover('colour')
        else:
            if what is not ENDEVENT:
                E.fail('an end')
            prove_eq(E, G.phase, 2, 'a colour ends')
            prove_eq(E, v, SVal('mname', mkint(k)), 'name of the colours')
            G.phase = 0
            G.j = G.j + 1
    E.prove(ti(G.part) >= 1, 'the element starts')
    if has and E.branch(ti(G.part) == 1):
        prove_eq(E, V.mkint(ti(text.slen())), 0,
                 'only an empty text is left out')
    prove_eq(E, G.k, nel, 'all the members')
    E.cover('finished')


class Other(object):
    pass


def number(E, text, n, what):
    ''' a text is the decimal form of n '''
    from .common import prove_eq, mkint
    f = getattr(text.segs[0].base, 'fmt', None) \
        if hasattr(text, 'segs') and len(text.segs) == 1 \
        and not text.segs[0].lit else None
    if f is not None and f[0] == '%d':
        prove_eq(E, f[1], mkint(n), what)
        return
    if isinstance(text, str):
        E.prove(n == int(text), what)
        return
    E.fail(what, repr(text))


@unit('C08', funcs=['hwp5.xmlmodel.XmlEvents.bytechunks',
                    'hwp5.xmlmodel.XmlEvents.dump',
                    'hwp5.xmlmodel.XmlEvents.open',
                    'hwp5.xmlmodel.XmlEvents.__iter__',
                    'hwp5.xmlformat.xmlevents_to_bytechunks',
                    'hwp5.xmlformat.encode_textchunks'],
      covers=['declared', 'bare', 'dumped', 'opened', 'failed', 'chunks'],
      notes=['modelevents_to_xmlevents and xmlevents_to_textchunks by their '
             'contracts; codecs.iterencode is trusted'])
def output(E):
    ''' the bytes of a document: the declaration, which names the encoding,
    and the text of the events, encoded as one; written in order; a file to
    read them from, at its start '''
    import codecs
    import tempfile
    from .common import (SVal, SIter, ti, prove_eq, mkint, fresh_int,
                         fresh_list, V, Rope, segs_of, each)
    from hwp5 import xmlformat as xf, xmlmodel as x
    events = SVal('events', 0)
    xml = SIter(fresh_list(E, 'xml', fresh_int('xml', 0),
                           lambda i, t: SVal('xml event', i)))
    n, m = fresh_int('texts', 0), fresh_int('bytes', 0)
    G = E.G
    G.declare(k=0)
    made = {}

    def to_xml(ev):
        E.prove(ev is events, 'the events given')
        return xml
    E.contracts['hwp5.xmlmodel.modelevents_to_xmlevents'] = to_xml

    def texts(src):
        if src is not xml:
            E.prove(isinstance(src, x.XmlEvents) and src.__iter__() is xml,
                    'the events of the document')
        made['texts'] = SIter(fresh_list(E, 'texts', n, lambda i, t: SVal(
            'text', i)), name='texts')
        return made['texts']
    E.contracts['hwp5.xmlformat.xmlevents_to_textchunks'] = texts
    declared = [False]

    def iterencode(chunks, encoding, errors='strict'):
        if 'encoded' in made:
            E.fail('encoded as one')
        if encoding != enc:
            E.fail('the encoding', repr(encoding))
        if errors != 'xmlcharrefreplace':
            E.fail('characters that cannot be encoded', repr(errors))
        if not isinstance(chunks, SIter):
            chunks = SIter(Rope('list', list(segs_of(chunks))))
        segs = V.cut(chunks.segs(), chunks.pos)[1] \
            if not (isinstance(chunks.pos, int) and chunks.pos == 0) \
            else chunks.segs()
        got = Rope('list', segs)
        if E.branch(ti(V.seqlen(segs)) == ti(n) + 1):
            want = '<?xml version="1.0" encoding="%s"?>\n' % enc
            if got[0] != want:
                E.fail('the declaration', repr(got[0]))
            declared[0] = True
            got = got[1:]
        prove_eq(E, got, fresh(), 'the text of the events')
        made['encoded'] = SIter(fresh_list(E, 'bytes', m, lambda i, t: SVal(
            'bytes', i)), name='bytes')
        return made['encoded']

    def fresh():
        return Rope('list', list(segs_of(made['texts'].seq)))
    E.models[codecs.iterencode] = iterencode

    def inv(L):
        L.ghostlet('k', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))

    class Out(object):
        state = ''

        def write(self, b):
            prove_eq(E, b, SVal('bytes', G.k), 'the bytes in order')
            if self.fails:
                if E.branch(ti(G.k) == 3):
                    raise IOError('disk full')
            G.k = G.k + 1
            E.cover('chunks')

        def seek(self, *a):
            prove_eq(E, G.k, m, 'all is written')
            if a not in ((0,), (0, 0)):
                E.fail('at its start', repr(a))
            self.state += 'seek'

        def close(self):
            self.state += 'close'

        fails = False
    how = E.choose(7)
    enc = ['utf-8', 'utf-16', 'euc-kr', 'utf-8', 'utf-8', 'utf-8',
           'ascii'][how]
    doc = x.XmlEvents(events)
    if how == 6:
        for b in each(xf.xmlevents_to_bytechunks(xml, enc)):
            prove_eq(E, b, SVal('bytes', G.k), 'the bytes in order')
            G.k = G.k + 1
        prove_eq(E, G.k, m, 'all the bytes')
        E.prove(not declared[0], 'no declaration')
        return
    if how < 3:
        kw = {} if how == 0 else dict(xml_encoding=enc)
        if how == 2:
            kw['xml_declaration'] = False
        for b in each(doc.bytechunks(**kw)):
            prove_eq(E, b, SVal('bytes', G.k), 'the bytes in order')
            G.k = G.k + 1
        prove_eq(E, G.k, m, 'all the bytes')
        E.prove(declared[0] == (how != 2), 'declared, if it should be')
        E.cover('bare' if how == 2 else 'declared')
        return
    out = Out()
    # (dump takes the bytes by the contract just shown)
    options = [{}, dict(xml_encoding='utf-16')][E.choose(2)]

    def chunks(self, **kw):
        if self is not doc or kw != options:
            E.fail('the bytes of the document', repr(kw))
        return SIter(fresh_list(E, 'bytes', m, lambda i, t: SVal(
            'bytes', i)), name='bytes')
    E.contracts['hwp5.xmlmodel.XmlEvents.bytechunks'] = chunks
    if how == 3:
        if E.choose(2):
            def flush():
                out.state += 'flush'
                prove_eq(E, G.k, m, 'all is written')
            out.flush = flush
        doc.dump(out, **options)
        prove_eq(E, G.k, m, 'all the bytes')
        E.prove(out.state == ('flush' if hasattr(out, 'flush') else ''),
                'flushed')
        E.cover('dumped')
        return
    out.fails = how == 5

    def temp(*a, **k):
        if a or k:
            E.fail('a file for bytes')
        return out
    E.models[tempfile.TemporaryFile] = temp
    try:
        f = doc.open(**options)
    except IOError:
        E.prove(how == 5, 'no other failure')
        E.prove(out.state == 'close', 'the file is closed')
        E.cover('failed')
        return
    if f is not out:
        E.fail('the file written')
    E.prove(out.state == 'seek', 'it is read from its start')
    prove_eq(E, G.k, m, 'all the bytes')
    E.cover('opened')


@unit('C08', funcs=['hwp5.xmlformat.expanded_xmlattribute',
                    'hwp5.xmlformat.xmlattrval'],
      covers=['text', 'number', 'unit', 'colour', 'version', 'binary',
              'margin', 'no character', 'symbol', 'character', 'flags',
              'enumeration', 'float', 'type'],
      notes=['FlagsType.dictvalue by its contract (C11)'])
def attribute_values(E):
    ''' the text of an attribute for a value of every type '''
    from .common import (SVal, prove_eq, fresh_int, fresh_text, V, ti, mkint)
    from hwp5 import xmlformat as x, dataio as d, binmodel
    from hwp5.filestructure import VERSION
    from .c11 import discover
    name = 'some_name'

    def expand(t, v):
        return list(x.expanded_xmlattribute((name, (t, v))))

    def one(t, v):
        got = expand(t, v)
        if len(got) != 1 or got[0][0] != name:
            E.fail('one attribute of its name', repr(got))
        return got[0][1]
    how = E.choose(11)
    if how == 0:
        s = fresh_text('text')
        t = [d.BSTR, str, d.HexBytes(3)][E.choose(3)]
        prove_eq(E, one(t, s), s, 'the text')
        prove_eq(E, x.xmlattrval(s), s, 'the text')
        E.cover('text')
    elif how == 1:
        v = fresh_int('v', -(1 << 31), (1 << 32) - 1)
        t = [d.UINT16, d.INT32, d.UINT8, int][E.choose(4)]
        number(E, one(t, v), v.t, 'the number')
        number(E, x.xmlattrval(v), v.t, 'the number')
        E.cover('number')
    elif how == 2:
        v = fresh_int('v', -(1 << 31), (1 << 32) - 1)
        t = [d.HWPUNIT, d.SHWPUNIT, d.HWPUNIT16][E.choose(3)]
        number(E, one(t, v), v.t, 'the number')
        E.cover('unit')
    elif how == 3:
        v = fresh_int('v', -(1 << 31), (1 << 32) - 1)

        def val(c):
            if not isinstance(c, tuple) or c[0] != 'colour':
                E.fail('a colour')
            return ('text of', c[1])
        E.contracts['hwp5.xmlformat.xmlattrval'] = val
        E.models[binmodel.COLORREF] = lambda v: ('colour', v)
        got = one(binmodel.COLORREF, v)
        if not isinstance(got, tuple):
            E.fail('a colour')
        prove_eq(E, got[1], v, 'the colour')
        E.cover('colour')
    elif how == 4:
        # (values of every number of digits; which parts, is what counts)
        got = one(VERSION, (5, 0, 255, 17))
        E.prove(got == '5.0.255.17', 'all the parts of a version')
        E.cover('version')
    elif how == 5:
        from pyvc.hooks import format_percent
        v = fresh_int('v', 0, 0xffff)
        prove_eq(E, one(binmodel.BinStorageId, v),
                 'BIN' + format_percent('%04X', v), 'the name of the file')
        E.cover('binary')
    elif how == 6:
        v = dict((k, fresh_int(k, 0, 0xffff))
                 for k in ('left', 'right', 'top', 'bottom'))
        got = expand(x.Margin, dict(v))
        E.prove(sorted(k for k, _ in got) == sorted(
            name + '-' + k for k in v), 'the sides of a margin')
        for k, w in got:
            number(E, w, v[k[len(name) + 1:]].t, 'the side of the margin')
        E.cover('margin')
    elif how == 7:
        v = fresh_int('v', 0, 0xffff)
        got = one(d.WCHAR, v)
        if E.branch(v.t == 0):
            E.prove(got == '', 'no character')
            E.cover('no character')
            return
        for k, s in x.PUA_SYMBOLS.items():
            if E.branch(v.t == k):
                E.prove(got == s, 'the symbol')
                E.cover('symbol')
                return
        prove_eq(E, V.mkint(ti(V.kind_len(got)) if hasattr(V, 'kind_len')
                            else ti(got.slen())), 1, 'one character')
        prove_eq(E, V.index_segs(got.segs, 0), v, 'the character')
        E.cover('character')
    elif how == 8:
        flags = discover()[0]
        keys = sorted(flags)
        t = flags[keys[E.choose(len(keys))]]
        v = fresh_int('v', 0, (1 << 8 * t.basetype.fixed_size) - 1)
        from pyvc.hooks import format_percent
        fields = [('first_field', fresh_int('f', 0)),
                  ('x', fresh_text('g'))]

        def dictvalue(w):
            prove_eq(E, w, v, 'the fields of the value')
            return dict(fields)
        E.models[t.dictvalue] = dictvalue
        E.models[t] = lambda w: w
        got = expand(t, v)
        prove_eq(E, got[0][1], format_percent(
            '%%0%dX' % (t.basetype.fixed_size * 2), v), 'all the bits')
        E.prove(got[0][0] == name and [k for k, _ in got[1:]] == [
            k for k, _ in fields], 'every field under its name')
        number(E, got[1][1], fields[0][1].t, 'a field')
        prove_eq(E, got[2][1], fields[1][1], 'a field')
        E.cover('flags')
    elif how == 9:
        Color = d.Enum(RED=1, GREEN=2, DEEP_BLUE=5)
        for i, want in ((1, 'red'), (2, 'green'), (5, 'deep_blue'),
                        (0, '0'), (77, '77')):
            for got in (x.xmlattrval(Color(i)), one(Color, Color(i))):
                E.prove(got == want, 'the name, or the number without one')
        E.cover('enumeration')
    else:
        for f in (0.1, 1e22, -2.5, 1 / 3.0):
            E.prove(x.xmlattrval(f) == repr(f) == one(d.DOUBLE, f),
                    'all the digits')
        E.cover('float')
        E.prove(one(type, d.UINT16) == 'UINT16', 'the name of a type')
        E.cover('type')


@unit('C08', funcs=['hwp5.xmlformat.xmlattr_uniqnames'],
      covers=['passed', 'refused', 'finished'])
def unique_names(E):
    ''' attributes pass in order; a name is never given twice '''
    from .common import (SVal, SIter, ti, prove_eq, mkint, fresh_int,
                         fresh_list, Rope, View, Base, V)
    from hwp5 import xmlformat as x
    import z3
    I = z3.IntSort()
    n = fresh_int('n', 0)
    idx = z3.Function('name_of', I, I)
    box = {}

    def elem(i):
        return V.elemtuple(box['b'], i, (SVal('name', mkint(idx(ti(i)))),
                                         SVal('value', i)))
    b = box['b'] = Base('attributes', 'list', ti(n), elem)
    it = SIter(Rope('list', [View(b, 0, ti(n))]), name='attributes')
    G = E.G
    G.declare(k=0)
    # seen(i): is the name of attribute i among those before it?
    seen = z3.Function('seen', I, z3.BoolSort())
    made = {}

    class Names(object):
        ''' the names of the attributes so far '''

        def __contains__(self, name):
            i = ti(it.pos) - 1
            prove_eq(E, name, SVal('name', mkint(idx(i))), 'this name')
            return E.branch(seen(i))

        def add(self, name):
            i = ti(it.pos) - 1
            prove_eq(E, name, SVal('name', mkint(idx(i))), 'this name')
            prove_eq(E, G.k2, mkint(i), 'every name once')
            G.k2 = mkint(i + 1)
    G.declare(k2=0)
    E.models[set] = lambda *a: Names()

    def inv(L):
        L.ghostlet('k', L.pos)
        L.ghostlet('k2', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    try:
        for got in x.xmlattr_uniqnames(it):
            i = ti(it.pos) - 1
            prove_eq(E, G.k, mkint(i), 'in order')
            E.prove(z3.Not(seen(i)), 'a new name')
            prove_eq(E, got[0], SVal('name', mkint(idx(i))), 'its name')
            prove_eq(E, got[1], SVal('value', mkint(i)), 'its value')
            G.k = G.k + 1
            E.cover('passed')
    except AssertionError:
        E.prove(seen(ti(it.pos) - 1), 'only a name twice is refused')
        E.cover('refused')
        return
    prove_eq(E, G.k, n, 'all of them')
    E.cover('finished')


@unit('C08', funcs=['hwp5.xmlformat.xmlattr_dashednames'],
      covers=['passed', 'finished'])
def dashed_names(E):
    ''' attributes pass in order, with every _ of their names made a - '''
    from .common import (SVal, SIter, ti, prove_eq, mkint, fresh_int, Rope,
                         View, Base, V, each)
    from hwp5 import xmlformat as x
    n = fresh_int('n', 0)
    box = {}

    class Name(object):
        def __init__(self, i):
            self.i = i

        def replace(self, a, b):
            E.prove(a == '_' and b == '-', 'every _ is made a -')
            return SVal('dashed', self.i)

    def elem(i):
        return V.elemtuple(box['b'], i, (Name(i), SVal('value', i)))
    b = box['b'] = Base('attributes', 'list', ti(n), elem)
    it = SIter(Rope('list', [View(b, 0, ti(n))]), name='attributes')
    G = E.G
    G.declare(k=0)

    def inv(L):
        L.ghostlet('k', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for got in each(x.xmlattr_dashednames(it)):
        i = ti(it.pos) - 1
        prove_eq(E, G.k, mkint(i), 'in order')
        prove_eq(E, got[0], SVal('dashed', mkint(i)), 'its name')
        prove_eq(E, got[1], SVal('value', mkint(i)), 'its value')
        G.k = G.k + 1
        E.cover('passed')
    prove_eq(E, G.k, n, 'all of them')
    E.cover('finished')


@unit('C08', funcs=['hwp5.xmlformat.xmlattributes_for_plainvalues'],
      covers=['attributes'],
      notes=['expanded_xmlattribute, xmlattr_dashednames and '
             'xmlattr_uniqnames by their contracts'])
def plain_values(E):
    ''' the attributes are those of every plain value, in order, under dashed
    names, of which none is given twice '''
    from .common import (SVal, SIter, ti, prove_eq, mkint, fresh_int, Rope,
                         View, Base, V)
    from pyvc.hooks import Spread
    from pyvc.core import Unsupported
    from hwp5 import xmlformat as x
    import itertools
    n = fresh_int('n', 0)
    ctx = SVal('ctx', 0)
    box = {}
    b = box['b'] = Base('values', 'list', ti(n), lambda i: V.elemtuple(
        box['b'], i, (SVal('name', i), (SVal('type', i), SVal('value', i)))))

    class Plain(object):
        def items(self):
            return SIter(Rope('list', [View(b, 0, ti(n))]), name='values')

    def expand(ntv):
        name, (t, v) = ntv
        i = name._idx
        for w, base in (name, 'name'), (t, 'type'), (v, 'value'):
            prove_eq(E, w, SVal(base, i), 'name, type and value of one')
        return SVal('expanded', i)
    E.contracts['hwp5.xmlformat.expanded_xmlattribute'] = expand
    done = []

    def chain(*its):
        if len(its) != 1 or not isinstance(its[0], Spread):
            raise Unsupported('chain')
        return whole(its[0].it)

    def whole(it):
        if not isinstance(it, SIter):
            it = SIter(Rope('list', list(V.segs_of(it))))
        prove_eq(E, mkint(ti(it.n())), n, 'all the values')
        i = fresh_int('any', 0)
        E.assume(ti(i) < ti(n))
        g = V.index_segs(it.segs(), i)
        prove_eq(E, g, SVal('expanded', i), 'in order')
        return SVal('attributes', 0)
    E.models[itertools.chain] = chain
    E.models[itertools.chain.from_iterable] = whole

    def dashed(attrs):
        prove_eq(E, attrs, SVal('attributes', 0), 'of all values')
        return SVal('dashed', 0)

    def unique(attrs):
        prove_eq(E, attrs, SVal('dashed', 0), 'of the names given')
        return SVal('unique', 0)
    E.contracts['hwp5.xmlformat.xmlattr_dashednames'] = dashed
    E.contracts['hwp5.xmlformat.xmlattr_uniqnames'] = unique

    def make(*a):
        if len(a) != 1 or not isinstance(a[0], SVal):
            return dict(*a)
        prove_eq(E, a[0], SVal('unique', 0), 'none twice')
        return SVal('final', 0)
    E.models[dict] = make
    got = x.xmlattributes_for_plainvalues(ctx, Plain())
    prove_eq(E, got, SVal('final', 0), 'the attributes')
    E.cover('attributes')


# -- cross-check --------------------------------------------------------------

TEXTS = ['', 'a', '<', '>', '&', '"', "'", ']]>', '&amp;', '&#10;', '\n',
         '\r', '\t', '\r\n', ' ', '  a  ', '\0', '\x01', '\x0b', '\x1f',
         '\x7f', '\x80', '\x85', '\u2028', '\ufffe', '\uffff', '\ud800',
         '\udfff', '\ud83d\ude00', '\U0001f600', '\U0010ffff', '가나다',
         '漢字', '\ue000', '\ufeff', '\u0301', '<!-- -->', '<![CDATA[x]]>',
         '<?pi?>', '%s', '\\', '\x00<\x00&\x00"']
ENC = ['utf-8', 'utf-16', 'euc-kr', 'ascii', 'utf-16le']


def clean(s):
    import re
    return re.sub('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]',
                  '', s)


def cases(rng, tier):
    for a in range(0, 0x110000, 0x4000):
        yield ('chars', a)
    for t in TEXTS:
        for u in TEXTS[:20]:
            yield ('pair', t, u)
    for i in range(500 if tier == 'quick' else 20000):
        yield ('stream', rng.randrange(1 << 30))
    for i in range(400 if tier == 'quick' else 10000):
        yield ('typed', rng.randrange(1 << 30))
    for i in range(200 if tier == 'quick' else 4000):
        yield ('text', rng.randrange(1 << 30))
    yield ('names',)
    yield ('structures',)
    from .c26 import FIXTURES
    for f in FIXTURES:
        yield ('fixture', f)
        yield ('commands', f)


def parse(data):
    ''' the event stream of a document by expat: [(kind, ...)] '''
    import xml.parsers.expat as X
    out = []
    p = X.ParserCreate()
    p.buffer_text = True
    p.ordered_attributes = True

    def start(name, attrs):
        out.append(['start', name, dict(zip(attrs[::2], attrs[1::2]))])

    def end(name):
        out.append(['end', name])

    def text(t):
        if out and out[-1][0] == 'text':
            out[-1][1] += t
        else:
            out.append(['text', t])
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = text
    p.Parse(data, True)
    return out


def joined(evs):
    out = []
    for e in evs:
        if e[0] == 'text':
            if not e[1]:
                continue
            if out and out[-1][0] == 'text':
                out[-1][1] += e[1]
                continue
        out.append(list(e))
    return out


def random_text(rng):
    w = rng.random()
    if w < .2:
        return ''
    if w < .6:
        return ''.join(rng.choice(TEXTS) for i in range(rng.randrange(5)))
    return ''.join(chr(rng.choice((rng.randrange(0x80), rng.randrange(
        0x3000), rng.randrange(0x10000), rng.randrange(0x110000))))
        for i in range(rng.randrange(20)))


def serialise(evs, x, encoding='utf-8', decl=True):
    data = b''.join(x(iter(evs), encoding) if encoding != 'utf-8'
                    else x(iter(evs)))
    return data


def check_case(case):
    import random
    from pyvc.concrete import need
    import xml.parsers.expat as X
    if case[0] == 'commands':
        from . import commands
        return commands.check_xml_command(case[1])
    if case[0] == 'structures':
        return attributes.check_all()
    bc = need('hwp5.xmlformat', 'xmlevents_to_bytechunks')
    t = need('hwp5.treeop')
    S, E = t.STARTEVENT, t.ENDEVENT
    Text = need('hwp5.binmodel', 'Text')

    def run(evs, want):
        data = b''.join(bc(iter(evs)))
        try:
            got = parse(data)
        except X.ExpatError as e:
            return 'not well-formed: %s: %r' % (e, data[:300])
        if got != joined(want):
            return first_difference(got, joined(want))
        return lxml_check(data, want)
    if case[0] == 'chars':
        for a in range(case[1], case[1] + 0x4000, 0x400):
            s = ''.join(chr(c) for c in range(a, a + 0x400))
            msg = run([(S, ('a', {'v': s})), (Text, s), (E, 'a')],
                      [['start', 'a', {'v': clean(s)}], ['text', clean(s)],
                       ['end', 'a']])
            if msg:
                return 'U+%04X..: %s' % (a, msg)
        return None
    if case[0] == 'pair':
        a, b = case[1:]
        return run([(S, ('a', {'v': a, 'w': b})), (Text, a),
                    (S, ('b', {})), (E, 'b'), (Text, b), (E, 'a')],
                   [['start', 'a', {'v': clean(a), 'w': clean(b)}],
                    ['text', clean(a)], ['start', 'b', {}], ['end', 'b'],
                    ['text', clean(b)], ['end', 'a']])
    if case[0] == 'names':
        return check_names(need)
    if case[0] == 'fixture':
        return check_fixture(case, need)
    rng = random.Random(case[1])
    if case[0] == 'text':
        return check_texts(rng, need)
    if case[0] == 'typed':
        return check_typed(rng, need)
    evs, want = [], []

    def gen(d):
        name = rng.choice(('a', 'b', 'LongName', 'x-y', 'c'))
        attrs = dict((k, random_text(rng)) for k in rng.sample(
            ('p', 'q', 'r-s', 't', 'unparsed', 'x1'), rng.randrange(5)))
        evs.append((S, (name, attrs)))
        want.append(['start', name, dict((k, clean(v))
                                         for k, v in attrs.items())])
        for i in range(rng.randrange(4)):
            if rng.random() < .5 or d == 0:
                s = random_text(rng)
                evs.append((Text, s))
                want.append(['text', clean(s)])
            else:
                gen(d - 1)
        evs.append((E, name))
        want.append(['end', name])
    gen(4)
    return run(evs, want)


def first_difference(got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return 'parses back to %r, not %r' % (a, b)
    return 'parses back to %d events, not %d: %r' % (
        len(got), len(want), (got[len(want):] or want[len(got):])[:3])


def lxml_check(data, want):
    import xml.etree.ElementTree as ET
    root = ET.fromstring(data)
    n = sum(1 for w in want if w[0] == 'start')
    if sum(1 for e in root.iter()) != n:
        return 'other elements'
    return None


def check_texts(rng, need):
    ''' documents with declarations and encodings, from model events '''
    import xml.parsers.expat as X
    import xml.etree.ElementTree as ET
    import io
    x = need('hwp5.xmlmodel')
    t = need('hwp5.treeop')
    Text = need('hwp5.binmodel', 'Text')
    S, E = t.STARTEVENT, t.ENDEVENT

    class Plain(object):
        pass

    class Other(object):
        pass
    evs, want = [], []
    ctx = dict(version=(5, 0, 2, 4))

    def gen(d):
        m = rng.choice((Plain, Other))
        attrs = dict((k, random_text(rng)) for k in rng.sample(
            ('p', 'q_r', 's', 'a_b_c'), rng.randrange(4)))
        w = dict((k.replace('_', '-'), clean(v)) for k, v in attrs.items())
        txt = None
        if rng.random() < .3:
            txt = random_text(rng)
            attrs['<text>'] = txt
        evs.append((S, (m, attrs, ctx)))
        want.append(['start', m.__name__, w])
        if txt:
            want.append(['text', clean(txt)])
        for i in range(rng.randrange(4) if d else 0):
            if rng.random() < .4:
                s = random_text(rng)
                item = (Text, dict(text=s, charshape_id=3, lang='ko'), ctx)
                evs.append((S, item))
                evs.append((E, item))
                want.append(['start', 'Text', {'charshape-id': '3',
                                               'lang': 'ko'}])
                want.append(['text', clean(s)])
                want.append(['end', 'Text'])
            else:
                gen(d - 1)
        evs.append((E, (m, attrs, ctx)))
        want.append(['end', m.__name__])
    gen(3)
    want = joined(want)
    for enc in [None] + ENC:
        for decl in (True, False):
            if not decl and enc not in (None, 'utf-8', 'ascii'):
                continue
            xe = x.XmlEvents(iter(evs))
            kw = {}
            if enc:
                kw['xml_encoding'] = enc
            if not decl:
                kw['xml_declaration'] = False
            how = rng.choice(('chunks', 'dump', 'open'))
            if how == 'chunks':
                data = b''.join(xe.bytechunks(**kw))
            elif how == 'dump':
                f = io.BytesIO()
                xe.dump(f, **kw)
                data = f.getvalue()
            else:
                f = xe.open(**kw)
                data = f.read()
                f.close()
            e = enc or 'utf-8'
            text = data.decode(e)
            if decl and ('encoding="%s"' % e not in text.split('?>')[0]
                         or not text.startswith('<?xml')):
                return 'no declaration of %s: %r' % (e, text[:60])
            if not decl and text.startswith('<?xml'):
                return 'a declaration'
            body = text.split('?>', 1)[1] if decl else text
            try:
                got = parse(body.encode('utf-8'))
                if e == 'utf-8':
                    got2 = parse(data)
                    if got2 != got:
                        return 'the declaration changes the text'
                elif e not in ('utf-16le', 'euc-kr', 'cp949'):
                    # (expat itself does not know multi-byte encodings)
                    ET.fromstring(data)
            except (X.ExpatError, ET.ParseError) as ex:
                return '%s: not well-formed: %s: %r' % (e, ex, data[:200])
            if got != want:
                return '%s: %s' % (e, first_difference(got, want))
    return None


def check_typed(rng, need):
    ''' elements of structures '''
    d = need('hwp5.dataio')
    fmt = need('hwp5.xmlformat')
    b = need('hwp5.binmodel')
    Margin, COLORREF = b.Margin, b.COLORREF
    from hwp5.binmodel import BinStorageId
    from hwp5.filestructure import VERSION
    S, E = need('hwp5.treeop').STARTEVENT, need('hwp5.treeop').ENDEVENT
    Color = d.Enum(RED=1, GREEN=2, BLUE=5)
    FL = d.Flags(d.UINT16, 0, 1, Color, 'hue', 2, 'bit_two', 3, 7, 'count',
                 8, 15, 'rest')

    class Inner(d.Struct):
        def attributes():
            yield d.UINT8, 'in_a'
            yield d.BSTR, 'in_b'
        attributes = staticmethod(attributes)

    r = rng.randrange
    txt = lambda: random_text(rng)   # noqa
    many = lambda: rng.choice((0, 0, 0, 0, 0, 0, 0, 1200))   # noqa
    types = {
        'u8': (d.UINT8, lambda: r(256), lambda n, v: {n: str(v)}),
        'i32': (d.INT32, lambda: r(-1 << 31, 1 << 31),
                lambda n, v: {n: str(v)}),
        'hu': (d.HWPUNIT, lambda: r(1 << 32), lambda n, v: {n: str(v)}),
        'sh': (d.SHWPUNIT, lambda: -r(1 << 31), lambda n, v: {n: str(v)}),
        'hu16': (d.HWPUNIT16, lambda: r(-1 << 15, 1 << 15),
                 lambda n, v: {n: str(v)}),
        'bstr': (d.BSTR, txt, lambda n, v: {n: clean(v)}),
        'dbl': (d.DOUBLE, lambda: rng.uniform(-1e9, 1e9) * 10 ** r(-20, 20),
                lambda n, v: {n: repr(v)}),
        'ver': (VERSION, lambda: tuple(r(256) for i in range(4)),
                lambda n, v: {n: '%d.%d.%d.%d' % v}),
        'wch': (d.WCHAR, lambda: rng.choice((0, 0x41, 0xac00, 0x26, 0xf06c,
                                             1, 0xd800, 0xfffe)),
                lambda n, v: {n: clean('\u25cf' if v == 0xf06c else
                                       chr(v) if v else '')}),
        'bid': (BinStorageId, lambda: r(1 << 16),
                lambda n, v: {n: 'BIN%04X' % v}),
        'col': (COLORREF, lambda: r(-1 << 31, 1 << 31), lambda n, v: {
            n: '#%02x%02x%02x' % (v & 255, v >> 8 & 255, v >> 16 & 255)}),
        'enm': (Color, lambda: Color(rng.choice((1, 2, 5, 0, 77))),
                lambda n, v: {n: {1: 'red', 2: 'green', 5: 'blue'}.get(
                    int(v), str(int(v)))}),
        'flg': (FL, lambda: FL(r(1 << 16)), lambda n, v: {
            n: '%04X' % v, 'hue': {1: 'red', 2: 'green'}.get(
                int(v) & 3, str(int(v) & 3)),
            'bit-two': str(int(v) >> 2 & 1), 'count': str(int(v) >> 3 & 31),
            'rest': str(int(v) >> 8)}),
        'mar': (Margin, lambda: dict(left=r(99), right=r(99), top=r(99),
                                     bottom=r(99)),
                lambda n, v: dict((n + '-' + k, str(v[k])) for k in v)),
    }
    nested = {
        'sub': (Inner, lambda: dict(in_a=r(256), in_b=txt())),
        'arr': (d.ARRAY(Inner, 2), lambda: tuple(
            dict(in_a=r(256), in_b=txt()) for i in range(2))),
        'narr': (d.N_ARRAY(d.UINT16, Inner), lambda: [
            dict(in_a=r(256), in_b=txt()) for i in range(r(4) or many())]),
        'cols': (d.N_ARRAY(d.UINT32, COLORREF), lambda: [
            r(-1 << 31, 1 << 31) for i in range(r(4) or many())]),
        # arrays of anything else are values
    }
    names = rng.sample(sorted(types) + sorted(nested), r(1, 9))
    members, values, attrs, inner = [], {}, {}, []
    for k in names:
        n = k + rng.choice(('', '_x', '_y_z'))
        if k in types:
            t, g, w = types[k]
            v = g()
            attrs.update(w(n.replace('_', '-'), v))
        else:
            t, g = nested[k]
            v = g()
            inner.append((n, k, v))
        members.append((t, n))
        values[n] = v
    extra = {}
    if rng.random() < .3:
        values['more_one'] = v = txt()
        attrs['more-one'] = clean(v)
    if rng.random() < .2:
        values['num_two'] = 12
        attrs['num-two'] = '12'

    def attributes():
        for m in members:
            yield m
    Outer = type(d.Struct)('Outer', (d.Struct,),
                           dict(attributes=staticmethod(attributes)))

    def el(name, a, k=()):
        return [['start', name, a]] + list(k) + [['end', name]]

    def inn(v, **kw):
        return el('Inner', dict({'in-a': str(v['in_a']),
                                 'in-b': clean(v['in_b'])}, **kw))
    order = [n for t, n in members]
    want = [['start', 'Outer', attrs]]
    for n, k, v in sorted(inner, key=lambda x: order.index(x[0])):
        if k == 'sub':
            want += inn(v, **{'attribute-name': n})
        elif k == 'cols':
            for c in v:
                want += el(n, dict(
                    r=str(c & 255), g=str(c >> 8 & 255),
                    b=str(c >> 16 & 255), alpha=str(c >> 24 & 255),
                    hex='#%02x%02x%02x' % (c & 255, c >> 8 & 255,
                                           c >> 16 & 255)))
        else:
            want += el('Array', {'name': n},
                       [e for i in v for e in inn(i)])
    import copy
    before = copy.deepcopy(values)
    evs = list(fmt.startelement(dict(version=(5, 0, 2, 4)),
                                (Outer, dict(values))))
    if values != before:
        return 'the values of the element were changed'
    evs.append((E, 'Outer'))
    want.append(['end', 'Outer'])
    data = b''.join(fmt.xmlevents_to_bytechunks(iter(evs)))
    import xml.parsers.expat as X
    try:
        got = parse(data)
    except X.ExpatError as ex:
        return 'not well-formed: %s: %r' % (ex, data[:300])
    if got != want:
        return first_difference(got, want)
    return None


def check_names(need):
    ''' an element never has two attributes of one name: it is refused '''
    fmt = need('hwp5.xmlformat')

    class Plain(object):
        pass
    for attrs in ({'a_b': 1, 'a-b': 2}, {'a_b_c': 'x', 'a-b_c': 'x'}):
        try:
            evs = list(fmt.startelement({}, (Plain, attrs)))
        except Exception:
            continue
        data = b''.join(fmt.xmlevents_to_bytechunks(
            evs + [(need('hwp5.treeop').ENDEVENT, 'Plain')]))
        parse(data)     # refuses duplicates
        return 'attributes %r: one is lost: %r' % (attrs, data)
    return None


def check_fixture(case, need):
    import io
    import os
    import xml.etree.ElementTree as ET
    root = os.environ.get('PYVC_REPO') or '/repo'
    p = root + '/tests/hwp5_tests/fixtures/' + case[1]
    if not os.path.exists(p):
        p = '/repo/tests/hwp5_tests/fixtures/' + case[1]
    if not os.path.exists(p):
        return None
    Hwp5File = need('hwp5.xmlmodel', 'Hwp5File')
    t = need('hwp5.treeop')
    f = Hwp5File(p)
    out = io.BytesIO()
    f.xmlevents().dump(out)
    got = parse(out.getvalue())
    f.close()
    f = Hwp5File(p)
    n = 0
    want = []
    Text = need('hwp5.binmodel', 'Text')
    for ev, item in f.xmlevents():
        if ev is t.STARTEVENT:
            want.append(['start', item[0], dict(
                (k, clean(v)) for k, v in item[1].items())])
        elif ev is t.ENDEVENT:
            want.append(['end', item])
        elif ev is Text:
            want.append(['text', clean(item)])
    f.close()
    got = [g for g in got if g != ['text', '\n']]
    if got != joined(want):
        return first_difference(got, joined(want))
    flat = need('hwp5.xmldump_flat', 'xmldump_flat')
    from hwp5.binmodel import Hwp5File as BF
    f = BF(p)
    out = io.BytesIO()
    flat(f, out)
    f.close()
    from .flat import expected
    f = BF(p)
    want = [w if w[0] == 'end' else
            ['start', w[1], dict((k, clean(v)) for k, v in w[2].items())]
            for w in expected(f)]
    f.close()
    got = [g for g in parse(out.getvalue()) if g != ['text', '\n']]
    if got != want:
        return 'flat: ' + first_difference(got, want)
    return None
