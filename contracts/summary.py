''' C16: the document summary and its listings '''
from pyvc.core import Unsupported
from pyvc.unit import unit

ACCESSORS = [('title', 2), ('subject', 3), ('author', 4), ('keywords', 5),
             ('comments', 6), ('lastSavedBy', 8), ('revisionNumber', 9),
             ('lastPrintedTime', 11), ('createdTime', 12),
             ('lastSavedTime', 13), ('numberOfPages', 14),
             ('dateString', 0x14), ('numberOfParagraphs', 0x15)]
SUMMARY = '9fa2b660-1061-11d4-b4c6-006097c09d8c'


@unit('C16', funcs=['hwp5.filestructure.HwpSummaryInfo.' + n
                    for n, i in ACCESSORS],
      covers=[n for n, i in ACCESSORS] + ['missing'],
      notes=['looking up a property by its contract'])
def accessors(E):
    ''' each accessor gives the property of its number, or reports that it
    is missing '''
    from .common import SVal
    from hwp5 import filestructure

    class Properties(object):
        def __init__(self):
            self.asked = []

        def __getitem__(self, ident):
            self.asked.append(ident.id)
            if missing:
                raise KeyError(ident)
            return SVal('value', ident.id, truth='any')
    props = Properties()

    class Info(filestructure.HwpSummaryInfo):
        propertySet = props

        def __init__(self):
            self.wrapped = object()
            self.version = (5, 0, 2, 4)
    name, number = ACCESSORS[E.choose(len(ACCESSORS))]
    missing = E.choose(2)
    try:
        got = getattr(Info(), name)
    except KeyError:
        E.prove(bool(missing), 'it is there')
        E.cover('missing')
        return
    E.prove(not missing, 'a missing property is reported')
    E.prove(isinstance(got, SVal) and got._base == 'value' and
            got._idx == number, 'property %d is the %s' % (number, name))
    E.cover(name)


LABELS = {0: 'PID_DICTIONARY', 1: 'PID_CODEPAGE', 0x80000000: 'PID_LOCALE',
          0x80000003: 'PID_BEHAVIOR'}


@unit('C16', funcs=['hwp5.filestructure.HwpSummaryInfo.getPropertySetStream',
                    'hwp5.filestructure.HwpSummaryInfo.'
                    'getHwpSummaryInfoPropertySet'],
      covers=['read', 'broken', 'summary', 'other'],
      notes=['PropertySetStreamReader.read by its contract'])
def summary_stream(E):
    ''' the properties are read from the stream, which is closed again
    afterwards; those of the summary are the first set of a stream of its
    class '''
    import uuid
    from .common import SVal
    from hwp5 import filestructure
    closed = []

    class File(object):
        def close(self):
            closed.append(1)
    f = File()
    broken = E.choose(2)
    other = E.choose(2)
    clsid = uuid.UUID(SUMMARY)
    first = SVal('set', 0)
    result = SVal('stream', 0, clsid=uuid.UUID(int=5) if other else clsid,
                  propertysets=[first, SVal('set', 1)])

    def read(reader, stream):
        E.prove(stream is f, 'the stream of the summary')
        E.prove(not closed, 'while it is open')
        fmts = reader.propertySetFormats
        E.prove(list(fmts) == [clsid], 'with the format of the summary')
        labels = fmts[clsid].idLabels
        E.prove(set(range(2, 0x16)) <= set(labels) and all(
            labels.get(k) == v for k, v in LABELS.items()),
            'all its properties are known')
        if broken:
            raise ValueError('broken')
        return result
    E.contracts['hwp5.msoleprops.PropertySetStreamReader.read'] = read

    class Info(filestructure.HwpSummaryInfo):
        def __init__(self):
            self.wrapped = object()
            self.version = (5, 0, 2, 4)

        def open(self):
            return f
    try:
        got = Info().getPropertySetStream()
    except ValueError:
        E.prove(bool(broken), 'what was read')
        E.prove(len(closed) == 1, 'it is closed')
        E.cover('broken')
        return
    E.prove(not broken and got is result, 'what was read')
    E.prove(len(closed) == 1, 'it is closed')
    E.cover('read')

    class Read(Info):
        propertySetStream = result
    got = Read().getHwpSummaryInfoPropertySet()
    if other:
        E.prove(got is None, 'a stream of another class')
        E.cover('other')
    else:
        E.prove(got is first, 'the first set')
        E.cover('summary')


LINES = ['Title', 'Subject', 'Author', 'Keywords', 'Comments',
         'Last saved by', 'Revision Number', 'Last Printed at', 'Created at',
         'Last saved at', 'Number of pages', 'Date', 'Number of paragraphs']


@unit('C16', funcs=['hwp5.summaryinfo.HwpSummaryInfoTextFormatter.'
                    'formatTextLines'], covers=['lines'],
      notes=['formatting a value by the format() of Python'])
def summary_lines(E):
    ''' a line with each property, whatever its value '''
    from .common import SVal, prove_eq
    from pyvc.values import fresh_text
    from hwp5.summaryinfo import HwpSummaryInfoTextFormatter

    class Info(object):
        pass
    info = Info()
    texts = []
    for name, i in ACCESSORS:
        t = fresh_text(name)
        texts.append(t)
        setattr(info, name, SVal(name, 0, as_text=t))
    k = 0
    for line in HwpSummaryInfoTextFormatter().formatTextLines(info):
        if k == len(LINES):
            E.fail('a line for each property')
        prove_eq(E, line, LINES[k] + ': ' + texts[k], 'the line of the '
                 + LINES[k])
        k += 1
    E.prove(k == len(LINES), 'a line for each property')
    E.cover('lines')


def indexed_text(E, name, *idx, size=None):
    ''' the text of the value with these indices '''
    import z3
    from pyvc.values import new_text_base, mkseq, View
    from .common import ti
    args = [ti(i) for i in idx]
    key = ('indexed text', name) + tuple(z3.simplify(a).sexpr()
                                         if hasattr(a, 'sexpr') else a
                                         for a in args)
    if key not in E.elem_cache:
        n = size
        if n is None:
            n = z3.Function('len_' + name, *[z3.IntSort()] * (len(args) + 1))(
                *args)
            E.assume(n >= 0)
        E.elem_cache[key] = mkseq('str', [View(
            new_text_base(E.fresh(name), n), 0, n)])
    return E.elem_cache[key]


@unit('C16', funcs=['hwp5.msoleprops.PropertySetStreamTextFormatter.'
                    'formatTextLines'],
      covers=['set', 'value', 'dictionary', 'entry', 'finished'],
      notes=['sorted() by its contract: the properties by their offset'])
def property_lines(E):
    ''' a line for every property of every set, with its place, number and
    value, and one for every entry of a dictionary '''
    import z3
    from .common import (SVal, SIter, Rope, View, Base, V, ti, mkint,
                         prove_eq, fresh_int)
    from pyvc.hooks import format_percent as fmt
    from pyvc.values import fresh_text
    from hwp5.msoleprops import PropertySetStreamTextFormatter
    I = z3.IntSort()
    n = fresh_int('sets', 0)
    F = lambda name, k: z3.Function(name, *[I] * (k + 1))
    COUNT, SETOFF = F('count', 1), F('set_offset', 1)
    ID, OFF, LABEL, ENTRIES = (F(x, 2) for x in (
        'id', 'offset', 'labelled', 'entries'))
    EID = F('entry_id', 3)
    made = {}
    G = E.G
    G.declare(st=0, k=0, j=0, e=0)

    def the_set(k):
        made['set'] = k
        t = indexed_text(E, 'format', k, size=36)   # the text of a UUID
        off = mkint(SETOFF(ti(k)))
        E.assume(SETOFF(ti(k)) >= 0)
        return SVal('set', k, desc=SVal('desc', k, offset=off),
                    fmtid=SVal('format', k, as_text=t),
                    properties=SVal('unsorted', k))

    def the_property(k, j):
        a, b = ti(k), ti(j)
        E.assume(z3.And(ID(a, b) >= 0, OFF(a, b) >= 0))
        label = None
        if E.branch(LABEL(a, b) > 0):
            label = indexed_text(E, 'label', k, j)
        return SVal('property', j, of=k, id=mkint(ID(a, b)), idLabel=label,
                    desc=SVal('pdesc', j, offset=mkint(OFF(a, b)),
                              id=mkint(ID(a, b))),
                    value=SVal('value', j, as_text=indexed_text(
                        E, 'value', k, j), entries=entries(k, j)))

    def entries(k, j):
        a, b = ti(k), ti(j)
        E.assume(ENTRIES(a, b) >= 0)
        base = Base('entries', 'list', ENTRIES(a, b), lambda i: SVal(
            'entry', i, id=mkint(EID(a, b, ti(i))),
            name=SVal('name', i, as_text=indexed_text(E, 'name', k, j, i))))
        it = SIter(Rope('list', [View(base, 0, ENTRIES(a, b))]),
                   name='entries')
        it.of = (k, j)
        return it

    def symbolic_sorted(xs, key=None, reverse=False):
        if not isinstance(xs, SVal) or xs._base != 'unsorted':
            raise Unsupported('sorting something else')
        k = xs._idx
        if key is None or reverse:
            E.fail('the properties are sorted by their offset')
        p = the_property(k, fresh_int('any', 0))
        prove_eq(E, key(p), p.desc.offset, 'sorted by the offset')
        E.assume(COUNT(ti(k)) >= 0)
        base = Base('properties', 'list', COUNT(ti(k)),
                    lambda j: the_property(k, j))
        return SIter(Rope('list', [View(base, 0, COUNT(ti(k)))]),
                     name='properties')
    E.models[sorted] = symbolic_sorted
    base = Base('sets', 'list', ti(n), the_set)
    order, version, system = [fresh_int(x, 0) for x in (
        'byte order', 'version', 'system')]
    clsid = fresh_text('clsid')
    stream = SVal('stream', 0, byteOrder=order, version=version,
                  systemIdentifier=system, clsid=SVal('clsid', 0,
                                                      as_text=clsid),
                  propertysets=SIter(Rope('list', [View(base, 0, ti(n))]),
                                     name='sets'))
    state = {}

    def inv(L):
        name = L.it.name
        if L.mode == 'check':
            # the part just finished is complete
            if name == 'entries':
                E.prove(ti(G.st) == 3, 'an entry per line')
            elif name == 'properties':
                k = ti(G.k)
                j = ti(L.pos) - 1
                isdict = ID(k, j) == 0
                E.prove(z3.If(isdict, z3.And(ti(G.st) == 3, ti(G.e) ==
                                             ENTRIES(k, j)),
                              ti(G.st) == 2), 'all lines of the property')
                prove_eq(E, G.j, mkint(j + 1), 'a line per property')
                G.st = 2
                G.e = 0
            else:
                k = ti(L.pos) - 1
                E.prove(ti(G.st) == 2, 'the lines of the set')
                prove_eq(E, G.j, mkint(COUNT(k)), 'all its properties')
                prove_eq(E, G.k, mkint(k), 'in order')
                G.k = mkint(k + 1)
                G.st = 1
                G.j = 0
        if name == 'entries':
            L.ghostlet('e', L.pos)
        elif name == 'properties':
            L.ghostlet('j', L.pos)
            L.ghostlet('e', 0)
        else:
            L.ghostlet('k', L.pos)
            L.ghostlet('j', 0)
            L.ghostlet('e', 0)
        L.ghostlet('st', {'entries': 3, 'properties': 2, 'sets': 1}[name])
    E.hints.append((lambda L: isinstance(L.it, SIter) and L.it.name in (
        'entries', 'properties', 'sets'), inv, {'peel': 0}))
    begin = ['- ByteOrder: ' + fmt('0x%x', order),
             '- Version: ' + fmt('%d', version),
             '- SystemIdentifier: ' + fmt('0x%08x', system),
             '- CLSID: ' + clsid, '']
    seen = []

    def number_at(line, off):
        return fmt('- %08x: ', off)
    for line in PropertySetStreamTextFormatter().formatTextLines(stream):
        if len(seen) < len(begin):
            prove_eq(E, line, begin[len(seen)], 'the lines of the header')
            seen.append(1)
            if len(seen) == len(begin):
                G.st = 1
            continue
        if E.valid(ti(G.st) == 1):
            k = G.k
            prove_eq(E, line, fmt('- %08x: ', mkint(SETOFF(ti(k)))) +
                     'Property Set ' + indexed_text(E, 'format', k, size=36),
                     'the line of a set')
            G.st = 4
            continue
        if E.valid(ti(G.st) == 4):
            prove_eq(E, line, ' ' * 12 + '-' * 49, 'underlined')
            G.st = 2
            E.cover('set')
            continue
        a, b = ti(G.k), ti(G.j)
        if E.valid(ti(G.st) == 2):
            label = '' if not E.branch(LABEL(a, b) > 0) else \
                indexed_text(E, 'label', G.k, G.j)
            want = fmt('- %08x: ', mkint(SETOFF(a) + OFF(a, b))) + label + \
                fmt('(=0x%08x):', mkint(ID(a, b)))
            if E.branch(ID(a, b) == 0):
                prove_eq(E, line, want, 'the line of a dictionary')
                G.st = 3
                G.e = 0
                E.cover('dictionary')
            else:
                prove_eq(E, line, want + ' ' + indexed_text(
                    E, 'value', G.k, G.j), 'the line of a property')
                E.cover('value')
            G.j = G.j + 1
            continue
        E.prove(ti(G.st) == 3, 'a line of the listing')
        j = mkint(b - 1)
        prove_eq(E, line, ' ' * 12 + fmt('- %d: ', mkint(EID(
            a, ti(j), ti(G.e)))) + indexed_text(E, 'name', G.k, j, G.e),
            'the line of an entry')
        G.e = G.e + 1
        E.cover('entry')
    E.prove(len(seen) == len(begin), 'the lines of the header')
    prove_eq(E, G.k, n, 'all the sets')
    E.cover('finished')


# -- the summary as XML -------------------------------------------------------

GEN = 'hwp5.xmlmodel.PropertySetStreamModelEventsGenerator.'


def chained(E, want, n, part):
    ''' chain() of the events of n parts, in order; want(i) those of part i;
    the contract of all of them together is `part' '''
    import itertools
    from .common import SIter, V, ti, mkint, prove_eq, fresh_int
    from .documents import stream_of
    from pyvc.hooks import Spread

    def whole(l):
        l = stream_of(l)
        prove_eq(E, mkint(ti(l.n())), mkint(ti(n)), 'all the parts')
        if E.branch(ti(n) > 0):
            i = fresh_int('any part', 0)
            E.assume(ti(i) < ti(n))
            prove_eq(E, V.index_segs(list(l.segs()), i), want(i),
                     'the parts, in order')
        return part.events()

    def chain(*a):
        if len(a) == 1 and isinstance(a[0], Spread):
            return whole(a[0].it)
        return whole(list(a))
    E.models[itertools.chain] = chain
    E.models[itertools.chain.from_iterable] = whole


def begun(got):
    ''' the start event '''
    from .common import V
    return V.index_segs(list(got.segs()), 0)[1]


def generator():
    from .common import SVal
    from hwp5.xmlmodel import PropertySetStreamModelEventsGenerator
    context = {'other': SVal('other', 0)}
    return PropertySetStreamModelEventsGenerator(context), context


@unit('C16', funcs=[GEN + '__init__', GEN + 'generateModelEvents',
                    GEN + 'getPropertySetStreamEvents',
                    'hwp5.xmlmodel.HwpSummaryInfo.events'],
      covers=['stream', 'summary'],
      notes=['wrap_modelevents by its contract (C07)'])
def stream_events(E):
    ''' the stream is one element with its header, around the elements of
    its sets, in order '''
    from .common import SVal, SIter, Rope, View, Base, ti, fresh_int, prove_eq
    from .documents import wrapped_by_contract, wraps, Part
    from pyvc.hooks import format_percent as fmt
    from pyvc.values import fresh_text
    from hwp5 import xmlmodel as x
    wrapped_by_contract(E)
    order, version, system = [fresh_int(v, 0) for v in (
        'byte order', 'version', 'system')]
    clsid = fresh_text('clsid')
    n = fresh_int('sets', 0)
    base = Base('sets', 'list', ti(n), lambda i: SVal('set', i))
    stream = SVal('stream', 0, byteOrder=order, version=version,
                  systemIdentifier=system,
                  clsid=SVal('clsid', 0, as_text=clsid),
                  propertysets=SIter(Rope('list', [View(base, 0, ti(n))]),
                                     name='sets'))
    part = Part(E, 'all')

    def of_set(gen, s):
        if not isinstance(s, SVal) or s._base != 'set':
            E.fail('the events of the sets')
        return SVal('events', s._idx)
    E.contracts[GEN + 'getPropertySetEvents'] = of_set
    chained(E, lambda i: SVal('events', i), n, part)
    content = {'byte_order': fmt('%04x', order), 'version': fmt('%d', version),
               'system_identifier': fmt('%08x', system), 'clsid': clsid}
    if E.choose(2):
        gen, context = generator()
        got = gen.generateModelEvents(stream)
        wraps(E, got, 'PropertySetStream', content, part.rope.segs)
        E.prove(begun(got)[2] is context, 'the context')
        E.prove(part.given == 1, 'once')
        E.cover('stream')
        return
    inner = Part(E, 'stream')

    def whole(gen, s):
        E.prove(s is stream, 'the events of the stream')
        E.prove(gen.context == {'other': other}, 'the context')
        return inner.events()
    E.contracts[GEN + 'generateModelEvents'] = whole
    other = SVal('other', 0)

    class Info(x.HwpSummaryInfo):
        propertySetStream = stream

        def __init__(self):
            self.wrapped = object()
            self.version = (5, 0, 2, 4)
    got = Info().events(other=other)
    wraps(E, got, 'HwpSummaryInfo', {}, inner.rope.segs)
    E.prove(begun(got)[2] == {'other': other}, 'the context')
    E.cover('summary')


@unit('C16', funcs=[GEN + 'getPropertySetEvents'], covers=['set'],
      notes=['sorted() by its contract: the properties by their offset'])
def set_events(E):
    ''' a set is one element with its format and place, around the elements
    of its properties, sorted by their place '''
    from .common import SVal, SIter, Rope, View, Base, ti, fresh_int, prove_eq
    from .documents import wrapped_by_contract, wraps, Part
    wrapped_by_contract(E)
    n = fresh_int('properties', 0)
    fmtid = SVal('format', 0)
    off = fresh_int('offset', 0)
    the_set = SVal('set', 0, fmtid=fmtid, desc=SVal('desc', 0, offset=off),
                   properties=SVal('unsorted', 0))

    def symbolic_sorted(xs, key=None, reverse=False):
        if not isinstance(xs, SVal) or xs._base != 'unsorted':
            raise Unsupported('sorting something else')
        if key is None or reverse:
            E.fail('the properties are sorted by their offset')
        o = fresh_int('any offset', 0)
        prove_eq(E, key(SVal('property', 0, desc=SVal('d', 0, offset=o))), o,
                 'sorted by the offset')
        base = Base('sorted', 'list', ti(n), lambda i: SVal('property', i))
        return SIter(Rope('list', [View(base, 0, ti(n))]), name='sorted')
    E.models[sorted] = symbolic_sorted
    part = Part(E, 'all')

    def of_property(gen, p):
        if not isinstance(p, SVal) or p._base != 'property':
            E.fail('the events of the properties')
        return SVal('events', p._idx)
    E.contracts[GEN + 'getPropertyEvents'] = of_property
    chained(E, lambda i: SVal('events', i), n, part)
    gen, context = generator()
    got = gen.getPropertySetEvents(the_set)
    wraps(E, got, 'PropertySet', {'fmtid': fmtid, 'offset': off},
          part.rope.segs)
    E.prove(begun(got)[2] is context, 'the context')
    E.prove(part.given == 1, 'once')
    E.cover('set')


@unit('C16', funcs=[GEN + 'getPropertyEvents', GEN + 'getDictionaryEvents',
                    GEN + 'getDictionaryEntryEvents',
                    'hwp5.msoleprops.TypedPropertyValue.vt_type'],
      covers=['value', 'dictionary', 'entries', 'entry'])
def property_events(E):
    ''' a property is one element with its number, place, label, type and
    value; a dictionary is one around the elements of its entries '''
    from .common import SVal, SIter, Rope, View, Base, ti, fresh_int, prove_eq
    from .documents import wrapped_by_contract, wraps, Part
    from pyvc.hooks import format_percent as fmt
    from pyvc.values import fresh_text
    from hwp5 import msoleprops as M
    wrapped_by_contract(E)
    gen, context = generator()
    which = E.choose(3)
    if which == 0:
        number, text = fresh_int('id', 0), fresh_text('name')
        got = gen.getDictionaryEntryEvents(SVal('entry', 0, id=number,
                                                name=text))
        wraps(E, got, 'DictionaryEntry', {'id': number, 'name': text}, [])
        E.prove(begun(got)[2] is context, 'the context')
        E.cover('entry')
        return
    part = Part(E, 'all')
    if which == 1:
        n = fresh_int('n', 0)
        base = Base('entries', 'list', ti(n), lambda i: SVal('entry', i))
        d = SVal('dictionary', 0, entries=SIter(Rope('list', [
            View(base, 0, ti(n))]), name='entries'))

        def of_entry(gen, e):
            if not isinstance(e, SVal) or e._base != 'entry':
                E.fail('the events of the entries')
            return SVal('events', e._idx)
        E.contracts[GEN + 'getDictionaryEntryEvents'] = of_entry
        chained(E, lambda i: SVal('events', i), n, part)
        got = gen.getDictionaryEvents(d)
        prove_eq(E, Rope('list', list(got.segs())),
                 Rope('list', list(part.rope.segs)), 'those of the entries')
        E.prove(part.given == 1, 'once')
        E.cover('entries')
        return
    number, off = fresh_int('id', 0), fresh_int('offset', 0)
    label = [None, fresh_text('label')][E.choose(2)]
    code = [None, 3, 0x1f, 0x40][E.choose(4)]
    tp = None if code is None else M.TypedPropertyValue(code)
    value = SVal('value', 0, truth='any')
    p = SVal('property', 0, id=number, idLabel=label, type=tp, value=value,
             desc=SVal('desc', 0, id=number, offset=off))
    given = []

    def of_dictionary(gen, d):
        E.prove(d is value, 'the entries of the dictionary')
        given.append(1)
        return part.events()
    E.contracts[GEN + 'getDictionaryEvents'] = of_dictionary
    got = gen.getPropertyEvents(p)
    want = {'id': number, 'offset': off}
    if label is not None:
        want['id_label'] = label
    if tp is not None:
        want['type'] = {3: 'VT_I4', 0x1f: 'VT_LPWSTR', 0x40: 'VT_FILETIME'}[
            code]
        want['type_code'] = fmt('0x%04x', code)
    if E.branch(ti(number) == 0):
        E.prove(len(given) == 1, 'the entries')
        wraps(E, got, 'Property', want, part.rope.segs)
        E.cover('dictionary')
    else:
        E.prove(not given, 'not a dictionary')
        want['value'] = value
        wraps(E, got, 'Property', want, [])
        E.cover('value')
    E.prove(begun(got)[2] is context, 'the context')
