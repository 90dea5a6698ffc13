''' The flat XML events (hwp5proc xml --format=flat): every event of the
models gives the event of its element, properly closed. '''
from pyvc.unit import unit

M = 'hwp5.xmldump_flat.'


@unit('C08', funcs=[M + 'xmlevents_from_modelevents'],
      covers=['record', 'array', 'struct', 'item', 'flags', 'enum named',
              'enum unnamed', 'finished'],
      notes=['the expanded events by the contract of expand_item_values',
             'bit fields: of four values of every flags type; their fields '
             'are read by BitGroupDescriptor (C11)'],
      max_seconds=200)
def flat_events(E):
    ''' each event of the models, in order, gives the start or the end of
    its record, array or structure, or one whole item; the bits of an item
    are inside it '''
    from .common import SVal, SIter, fresh_int, fresh_list, prove_eq, each, V
    from hwp5 import xmldump_flat as x
    from hwp5 import dataio as d
    from hwp5.binmodel import CharShape, BinData
    from hwp5.treeop import STARTEVENT, ENDEVENT
    n = fresh_int('events', 0)
    G = E.G
    G.declare(k=0)
    box = {}
    E0, E1 = d.Enum('no', 'yes'), d.Enum(LAST=7)
    types = dict(
        array=[d.N_ARRAY(d.UINT16, d.UINT32), d.ARRAY(d.UINT8, 3),
               d.X_ARRAY(d.UINT8, lambda c, v: 1)],
        struct=[CharShape, d.SelectiveType(lambda c, v: 0, {0: d.UINT8})],
        item=[d.UINT16, d.BSTR, E0],
        flags=[d.Flags(d.UINT16, 0, 3, E0, 'a', 4, 'b', 8, 15, 'c'),
               d.Flags(d.UINT32, 0, 2, E1, 'a', 31, 'b'),
               d.Flags(d.BYTE, 0, 'a'), d.Flags(d.UINT8)])
    options = [('record', 0)] + [(k, j) for k in ('array', 'struct', 'item',
                                                  'flags')
                                 for j in range(len(types[k]))]

    def text(family, i):
        return SVal(family, i, as_text=SVal('text of ' + family, i),
                    truth='any')

    def want_of(kind, ev, data, i):
        if kind == 'record':
            if ev is ENDEVENT:
                return [(ENDEVENT, 'Record')]
            r = data['record']
            return [(STARTEVENT, ('Record', dict(
                tagname=r['tagname'], **dict(
                    (k, SVal('text of ' + k, i))
                    for k in ('tagid', 'seqno', 'level', 'size')))))]
        if kind in ('array', 'struct'):
            if ev is ENDEVENT:
                return [(ENDEVENT, kind)]
            at = {} if kind == 'array' else {'type': data['type'].__name__}
            if 'name' in data:
                at['name'] = data['name']
            return [(STARTEVENT, (kind, at))]
        at = {'type': data['type'].__name__}
        if 'bin_type' in data:
            at['type'] = data['bin_type'].__name__
        at['value'] = (str(int(data['value'])) if kind == 'flags'
                       else SVal('text of value', i))
        for a, b in (('name', 'name'), ('bin_offset', 'offset'),
                     ('bin_value', 'bin_value')):
            if a in data:
                at[b] = (data[a] if a == 'name'
                         else SVal('text of ' + a, i))
        out = [(STARTEVENT, ('item', at))]
        if kind == 'flags':
            t, v = data['type'], int(data['value'])
            size = t.basetype.fixed_size
            out.append((STARTEVENT, ('bitflags', {
                'hex': '%0*x' % (size * 2, v),
                'bin': format(v, '0%db' % (size * 8))})))
            for name, f in t.bitfields.items():
                got = v >> f.lsb & (1 << (f.msb - f.lsb + 1)) - 1
                out.append((STARTEVENT, ('bits', {
                    'type': t.basetype.__name__, 'name': name,
                    'msb': str(f.msb), 'lsb': str(f.lsb),
                    'value': str(got)})))
                if f.valuetype in (E0, E1):
                    at = {'type': f.valuetype.__name__}
                    names = {E0: {0: 'no', 1: 'yes'}, E1: {7: 'LAST'}}
                    if got in names[f.valuetype]:
                        at['value'] = names[f.valuetype][got]
                        E.cover('enum named')
                    else:
                        E.cover('enum unnamed')
                    out.append((STARTEVENT, ('enum', at)))
                    out.append((ENDEVENT, 'enum'))
                out.append((ENDEVENT, 'bits'))
            out.append((ENDEVENT, 'bitflags'))
        out.append((ENDEVENT, 'item'))
        return out

    def elem(i, tag):
        kind, j = options[E.choose(len(options))]
        if kind == 'record':
            data = {'record': dict(
                (k, text(k, i)) for k in ('tagid', 'seqno', 'level', 'size',
                                          'tagname')),
                    'type': CharShape}
        else:
            data = {'type': types[kind][j]}
        ev = None
        if kind in ('record', 'array', 'struct'):
            ev = (STARTEVENT, ENDEVENT)[E.choose(2)]
        if kind != 'record' and E.choose(2):
            data['name'] = SVal('name', i)
        if kind == 'item':
            data['value'] = text('value', i)
            if E.choose(2):
                data['bin_offset'] = text('bin_offset', i)
            if E.choose(2):
                data['bin_value'] = text('bin_value', i)
                data['bin_type'] = d.INT8
        if kind == 'flags':
            top = (1 << 8 * data['type'].basetype.fixed_size) - 1
            data['value'] = data['type'](
                (0, 1, 0x57 & top, top)[E.choose(4)])
        box[id(data)] = (kind, ev, data, i)
        box['last'] = (kind, ev, data, i)
        return V.elemtuple('event', i, (ev, data))
    events = SIter(fresh_list(E, 'events', n, elem), name='events')

    given = SVal('given', 0)

    def expanded(evs):
        E.prove(evs is given, 'the events given')
        return events
    E.contracts[M + 'expand_item_values'] = expanded
    todo = []

    def inv(L):
        if L.mode == 'check':
            E.prove(not todo, 'every element which is started is closed')
        L.ghostlet('k', L.pos)
        if L.mode != 'check':
            del todo[:]
            box.pop('last', None)
    E.hints.append((lambda L: L.it is events, inv, {'peel': 0}))
    for ev, item in each(x.xmlevents_from_modelevents(given)):
        if not todo:
            if 'last' not in box:
                E.fail('an event of no event')
            kind, e, data, i = box.pop('last')
            prove_eq(E, i, G.k, 'events in order')
            todo.extend(want_of(kind, e, data, i))
            G.k = G.k + 1
            E.cover(kind)
        we, wi = todo.pop(0)
        E.prove(ev is we, 'start or end')
        if isinstance(wi, str):
            E.prove(type(item) is str and item == wi, 'the element closed')
            continue
        E.prove(isinstance(item, tuple) and item[0] == wi[0], 'the element')
        at = item[1]
        E.prove(sorted(at) == sorted(wi[1]), 'the attributes of %s' % wi[0])
        for k in wi[1]:
            prove_eq(E, at[k], wi[1][k], 'attribute %s of %s' % (k, wi[0]))
    E.prove(not todo, 'every element which is started is closed')
    prove_eq(E, G.k, n, 'every event')
    E.cover('finished')


@unit('C08', funcs=[M + 'expand_item_value', M + 'expand_item_values'],
      covers=['text', 'character', 'other', 'empty', 'all'],
      max_seconds=120)
def flat_texts(E):
    ''' the value of a paragraph text is its pieces, each at its place '''
    from .common import (SVal, fresh_int, fresh_list, prove_eq, each, mkint,
                         ti, V)
    from hwp5 import xmldump_flat as x
    from hwp5.dataio import UINT16
    from hwp5.binmodel import ParaTextChunks, Text, ControlChar
    from hwp5.treeop import STARTEVENT, ENDEVENT
    G = E.G
    G.declare(k=0)
    n = fresh_int('pieces', 0)
    off = fresh_int('offset', 0)
    if E.choose(2):
        # every event is expanded in its turn
        events = fresh_list(E, 'events', n, lambda i, tag: V.elemtuple(
            'event', i, (SVal('ev', i), SVal('data', i))))

        def expanded(ev, data):
            prove_eq(E, ev, SVal('ev', G.k), 'events in order')
            prove_eq(E, data, SVal('data', G.k), 'with their data')
            yield 'first', G.k
            yield 'second', G.k
        E.contracts[M + 'expand_item_value'] = expanded

        def every(L):
            L.ghostlet('k', L.pos)
        E.hints.append((lambda L: True, every, {'peel': 0}))
        want = 'first'
        for what, k in each(x.expand_item_values(events)):
            E.prove(what == want, 'every event it gives')
            prove_eq(E, k, G.k, 'in its place')
            if what == 'second':
                G.k = G.k + 1
                want = 'first'
            else:
                want = 'second'
        prove_eq(E, G.k, n, 'every event')
        E.cover('all')
        return
    if E.choose(2):
        ev = [None, STARTEVENT, ENDEVENT][E.choose(3)]
        data = {'type': [UINT16, ParaTextChunks][E.choose(2)],
                'value': SVal('value', 0)}
        if ev is None:
            data['type'] = UINT16
        got = list(x.expand_item_value(ev, data))
        E.prove(len(got) == 1 and got[0][0] is ev and got[0][1] is data,
                'other events are left as they are')
        E.cover('other')
        return
    import z3
    f = z3.Function(E.fresh('start'), z3.IntSort(), z3.IntSort())

    def elem(i, tag):
        s = mkint(f(ti(i)))
        item = ['text', SVal('char', i, _type=dict)][E.choose(2)]
        return V.elemtuple('piece', i, (
            V.elemtuple('range', i, (s, SVal('end', i))), item))
    pieces = fresh_list(E, 'pieces', n, elem)
    data = {'type': ParaTextChunks, 'value': pieces, 'bin_offset': off}

    def inv(L):
        L.ghostlet('k', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    state = ['before']
    for ev, item in each(x.expand_item_value(None, data)):
        if ev is STARTEVENT:
            E.prove(state[0] == 'before' and item is data, 'begins')
            state[0] = 'in'
            continue
        if ev is ENDEVENT:
            E.prove(state[0] == 'in' and item is data, 'ends')
            prove_eq(E, G.k, n, 'every piece')
            state[0] = 'after'
            continue
        E.prove(ev is None and state[0] == 'in', 'a piece')
        prove_eq(E, item['bin_offset'], off + mkint(f(ti(G.k))) * 2,
                 'the place of the piece')
        v = item['value']
        if isinstance(v, str):
            E.prove(item['type'] is Text and v == 'text', 'a text')
            E.cover('text')
        else:
            E.prove(item['type'] is ControlChar, 'a character')
            prove_eq(E, v, SVal('char', G.k), 'of its place')
            E.cover('character')
        G.k = G.k + 1
    E.prove(state[0] == 'after', 'ends')
    E.cover('empty')


@unit('C08', funcs=[M + 'xmlevents_from_hwp5file'],
      covers=['done'],
      notes=['xmlevents_from_modelevents by its contract (flat_events)'],
      max_seconds=120)
def flat_document(E):
    ''' the document holds the header, the document information and every
    section in the order of the body, each around the elements of its own
    events '''
    from .common import (SVal, SIter, fresh_int, fresh_list, prove_eq, each,
                         mkint, ti, V)
    import z3
    from hwp5 import xmldump_flat as x
    from hwp5.filestructure import FileHeader
    from hwp5.treeop import STARTEVENT, ENDEVENT
    G = E.G
    G.declare(s=0, t=0)
    n = fresh_int('sections', 0)
    size = z3.Function(E.fresh('size'), z3.IntSort(), z3.IntSort())
    nh, nd = fresh_int('header events', 0), fresh_int('docinfo events', 0)
    log = []

    class Opened(object):
        def __enter__(self):
            log.append('opened')
            return self

        def __exit__(self, *a):
            log.append('closed')
    opened = Opened()

    class Header(object):
        version = (5, 1, 20, 3)

        def open(self):
            return opened

    class Stream(object):
        def __init__(self, kind, i):
            self.kind, self.i = kind, i

        def parse_model_events(self):
            return ('events', self.kind, self.i)

    class Body(object):
        def __iter__(self):
            return iter(SIter(fresh_list(
                E, 'names', n, lambda i, tag: SVal('name', i)),
                name='names'))

        def __getitem__(self, k):
            if not isinstance(k, SVal) or k._base != 'name':
                E.fail('a section of the body')
            return Stream('section', k._idx)

    class Doc(object):
        fileheader = Header()
        docinfo = Stream('docinfo', 0)
        bodytext = Body()

    def resolver(f):
        E.prove(f is opened and log == ['opened'], 'the header is open')
        return 'resolver'

    def typed(tp, context, values):
        E.prove(tp is FileHeader and context == {} and values == 'resolver',
                'the members of the header')
        return ('events', 'header', 0)
    E.contracts['hwp5.bintype.resolve_values_from_stream'] = resolver
    E.contracts['hwp5.bintype.resolve_type_events'] = typed

    def events(given):
        if not isinstance(given, tuple) or given[0] != 'events':
            E.fail('the events of the models')
        what, kind, i = given
        if kind == 'section':
            E.assume(size(ti(i)) >= 0)
        m = {'header': nh, 'docinfo': nd}.get(kind)
        if m is None:
            m = mkint(size(ti(i)))
        it = SIter(fresh_list(E, kind, m, lambda j, tag: V.elemtuple(
            ('e', kind), j, (SVal(kind, i), SVal(kind + ' event', j)))),
            name=kind)
        it.part = kind
        it.m = m
        return it
    E.contracts[M + 'xmlevents_from_modelevents'] = events

    def inner(L):
        L.ghostlet('t', L.pos)

    def kind_of(L):
        return getattr(L.it, 'part', None)

    def outer(L):
        L.ghostlet('s', L.pos)
        L.ghostlet('t', 0)
    E.hints.append((lambda L: kind_of(L) is not None, inner, {'peel': 0}))
    E.hints.append((lambda L: getattr(L.it, 'name', None) == 'names', outer,
                    {'peel': 0}))
    state = ['nothing']
    sizes = {'header': nh, 'docinfo': nd}
    after = {'header': 'header done', 'docinfo': 'sections'}
    for ev, item in each(x.xmlevents_from_hwp5file(Doc())):
        if isinstance(ev, SVal):
            # an event of a part
            kind = ev._base
            E.prove(state[0] == kind, 'in its element')
            prove_eq(E, item, SVal(kind + ' event', G.t), 'in order')
            prove_eq(E, ev._idx, 0 if kind != 'section' else G.s,
                     'of the section')
            G.t = G.t + 1
            continue
        if ev is STARTEVENT:
            name, at = item
            if name == 'Hwp5Doc':
                E.prove(state[0] == 'nothing' and at == {
                    'version': '5.1.20.3', 'hexversion': '05011403'},
                    'the document and its version')
                state[0] = 'start'
            elif name == 'FileHeader':
                E.prove(state[0] == 'start' and not at, 'then the header')
                state[0] = 'header'
            elif name == 'DocInfo':
                E.prove(state[0] == 'header done' and not at,
                        'then the document information')
                state[0] = 'docinfo'
            elif name == 'Section':
                E.prove(state[0] == 'sections' and sorted(at) == ['name'],
                        'then the sections')
                prove_eq(E, at['name'], SVal('name', G.s), 'in order')
                state[0] = 'section'
            else:
                E.fail('the elements of the document')
            G.t = 0
            continue
        E.prove(ev is ENDEVENT, 'an event')
        if item == 'Hwp5Doc':
            E.prove(state[0] == 'sections', 'ends after the sections')
            prove_eq(E, G.s, n, 'every section')
            state[0] = 'end'
        elif item == 'Section':
            E.prove(state[0] == 'section', 'a section ends')
            prove_eq(E, G.t, mkint(size(ti(G.s))), 'with all of its events')
            state[0] = 'sections'
            G.s = G.s + 1
            G.t = 0
        else:
            kind = {'FileHeader': 'header', 'DocInfo': 'docinfo'}.get(item)
            E.prove(kind is not None and state[0] == kind, 'its end')
            prove_eq(E, G.t, sizes[kind], 'with all of its events')
            state[0] = after[kind]
            G.t = 0
    E.prove(state[0] == 'end', 'the document ends')
    E.prove(log == ['opened', 'closed'], 'the header is closed')
    E.cover('done')


# -- as it is -----------------------------------------------------------------

def given(ev, data):
    ''' what an event of the models gives '''
    from pyvc.concrete import need
    d = need('hwp5.dataio')
    t = need('hwp5.treeop')
    binmodel = need('hwp5.binmodel')
    if data.get('record'):
        if ev is t.ENDEVENT:
            return [['end', 'Record']]
        r = data['record']
        return [['start', 'Record', dict(
            (k, str(r[k])) for k in ('tagname', 'tagid', 'seqno', 'level',
                                     'size'))]]
    tp = data['type']
    name = {'name': data['name']} if 'name' in data else {}
    if ev is not None:
        kind = 'array' if isinstance(tp, (d.ArrayType, d.X_ARRAY)) \
            else 'struct'
        if ev is t.ENDEVENT:
            return [['end', kind]]
        if kind == 'struct':
            name['type'] = tp.__name__
        return [['start', kind, name]]
    v = data['value']
    if tp is binmodel.ParaTextChunks:
        out = [['start', 'array', name]]
        for (a, b), item in v:
            x = ('Text' if isinstance(item, str) else 'ControlChar')
            out += [['start', 'item', dict(type=x, value=str(item), offset=str(
                data['bin_offset'] + 2 * a))], ['end', 'item']]
        return out + [['end', 'array']]
    at = dict(name, type=tp.__name__, value=str(v))
    if 'bin_offset' in data:
        at['offset'] = str(data['bin_offset'])
    if 'bin_value' in data:
        at['bin_value'] = str(data['bin_value'])
    if 'bin_type' in data:
        at['type'] = data['bin_type'].__name__
    out = [['start', 'item', at]]
    if isinstance(tp, d.FlagsType):
        size = tp.basetype.fixed_size
        v = int(v)
        out.append(['start', 'bitflags', {
            'hex': '%0*x' % (size * 2, v),
            'bin': format(v, '0%db' % (size * 8))}])
        for k, f in tp.bitfields.items():
            got = v >> f.lsb & (1 << (f.msb - f.lsb + 1)) - 1
            out.append(['start', 'bits', dict(
                type=tp.basetype.__name__, name=k, msb=str(f.msb),
                lsb=str(f.lsb), value=str(got))])
            if isinstance(f.valuetype, d.EnumType):
                at = {'type': f.valuetype.__name__}
                names = [x for x in f.valuetype.__dict__.values()
                         if isinstance(x, f.valuetype) and int(x) == got]
                if names:
                    at['value'] = names[0].name
                out += [['start', 'enum', at], ['end', 'enum']]
            out.append(['end', 'bits'])
        out.append(['end', 'bitflags'])
    return out + [['end', 'item']]


def expected(f):
    ''' the elements of the flat XML of a file '''
    import io
    from pyvc.concrete import need
    b = need('hwp5.bintype')
    header = need('hwp5.filestructure', 'FileHeader')
    version = tuple(f.fileheader.version)
    out = [['start', 'Hwp5Doc', {
        'version': '%d.%d.%d.%d' % version,
        'hexversion': '%02x%02x%02x%02x' % version}]]

    def part(name, at, events):
        out.append(['start', name, at])
        for ev, data in events:
            out.extend(given(ev, data))
        out.append(['end', name])
    with f.fileheader.open() as fp:
        part('FileHeader', {}, list(b.resolve_type_events(
            header, {}, b.resolve_values_from_stream(fp))))
    part('DocInfo', {}, f.docinfo.parse_model_events())
    for name in f.bodytext:
        part('Section', {'name': name},
             f.bodytext[name].parse_model_events())
    return out + [['end', 'Hwp5Doc']]
