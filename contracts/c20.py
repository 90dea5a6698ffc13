''' C20 embedded binary data '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('all sizes of data up to 200 bytes and around multiples of 48 up to '
          '100000 bytes; all storage types with all flags in seeded random '
          'streams of up to 12 elements; storage numbers 0, 1, 9, 10, 255, '
          '256, 0xabcd, 0xffff')
ASSUMPTIONS = [
    'base64.b64encode is the RFC 4648 encoding: 4 characters of ASCII per '
    'started 3 bytes, without line breaks (checked by the cross-check)',
]


@unit('C20', funcs=['hwp5.xmlmodel.embed_bindata'],
      covers=['embedded', 'passed', 'finished', 'no data', 'other storage'])
def embed(E):
    ''' every embedded item gets the encoded bytes of its stream in lines of
    at most 64 characters; everything passes in order '''
    import base64
    from .common import (fresh_int, fresh_bytes, fresh_text, ti, V, SIter,
                         SInt, prove_eq, event_stream, all_models, same_item,
                         mkint, kind_of, segs_of, Rope, each)
    from pyvc.core import Unsupported
    from pyvc.hooks import format_percent
    from hwp5 import xmlmodel
    from hwp5.treeop import STARTEVENT
    from hwp5.binmodel import BinData
    import z3
    ST = BinData.StorageType

    class FlagsOf(object):
        def __init__(self, storage):
            self.storage = storage

    sid = fresh_int('sid', 0, 0xffff)
    ext = fresh_text('ext')
    name = 'BIN' + format_percent('%04X', sid) + '.' + ext
    n = fresh_int('n', 0)
    data = fresh_bytes('data', n)
    m = mkint(4 * ((ti(n) + 2) / 3))
    coded = fresh_text('base64', m, lo=43, hi=122)
    lines = mkint((ti(m) + 63) / 64)
    joined_text = fresh_text('joined')
    G = E.G
    G.declare(out=0, k=0)
    log = dict(opened=0, closed=0)

    class Stream(object):
        def __init__(self):
            self.f = V.SFile(data)

        def read(self, *a):
            return self.f.read(*a)

        def close(self):
            log['closed'] += 1

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    class Item(object):
        def open(self):
            log['opened'] += 1
            return Stream()

    class Storage(object):
        def __getitem__(self, nm):
            prove_eq(E, nm, name, 'the stream named by number and extension')
            return Item()

    class Coded(object):
        ''' ASCII bytes '''
        def decode(self, encoding='utf-8', errors='strict'):
            if encoding.lower().replace('-', '') not in (
                    'ascii', 'utf8', 'latin1', 'usascii'):
                raise Unsupported(encoding)
            return coded

        def __len__(self):
            raise Unsupported('length of the encoded bytes')

    def b64encode(x, *a):
        if a:
            raise Unsupported('base64 with another alphabet')
        prove_eq(E, x, data, 'the bytes of the whole stream are encoded')
        return Coded()
    E.models[base64.b64encode] = b64encode

    def line(i):
        t = 64 * ti(i)
        return coded[mkint(t):mkint(z3.If(t + 64 <= ti(m), t + 64, ti(m)))]

    # the lines, as an uninterpreted list with those items
    want = Rope('list', [V.View(V.Base('lines', 'list', ti(lines), line), 0,
                                ti(lines))])

    def joiner(sep, it):
        if not (isinstance(sep, str) and sep == '\n') \
                or kind_of(it) != 'list':
            return None
        prove_eq(E, it, want, 'all the lines, of 64 characters each but the '
                 'last')
        return joined_text
    E.joiners.append(joiner)

    # a stream whose items may be any models
    def fields(i, ev, model):
        f = FlagsOf(V.SClass([ST.LINK, ST.EMBEDDING, ST.STORAGE], 'storage'))
        inner = V.elemdict(V.Base('bindata', 'list', ti(1), lambda i: None),
                           i)
        inner.update(storage_id=sid, ext=ext)
        E.born(inner)
        return dict(flags=f, bindata=inner)
    stream, N, elem = event_stream(E, 'events', all_models(), fields)
    it = SIter(stream, name='events')

    def inv(L):
        if L.it is it:
            L.ghostlet('out', L.pos)
            L.ghostlet('k', 0)
            return
        if L.it is not None:
            raise Unsupported('a loop')
        # over the encoded text
        if L.mode == 'check':
            G.k = G.k + 1
        k = L.ghost('k', 0, lines)
        t = z3.If(64 * ti(k) <= ti(m), 64 * ti(k), ti(m))
        L.let(L.the(lambda v: kind_of(v) == 'str', 'the text', 'b64'),
              coded[mkint(t):])
        nm = L.the(lambda v: kind_of(v) == 'list' or isinstance(v, list),
                   'the lines', 'truncated')
        L.new_list(nm, want[:k])
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for ev, item in xmlmodel.embed_bindata(it, Storage()):
        prove_eq(E, mkint(ti(it.pos)), G.out + 1, 'in order')
        want_ev, want_item = it.seq[G.out]
        E.prove(V.tb(V.same(ev, want_ev)), 'the event passes')
        same_item(E, item, want_item, 'the item passes')
        model, attrs, ctx = item
        b = attrs['bindata']
        if E.branch(V.tb(V.same(ev, STARTEVENT))) \
                and E.branch(V.tb(V.same(model, BinData))):
            if E.branch(V.tb(V.same(attrs['flags'].storage, ST.EMBEDDING))):
                if '<text>' not in b or b.get('inline') != 'true':
                    E.fail('the data is embedded')
                none = E.branch(ti(n) == 0)
                # line breaks around the lines do not matter
                g = [x for x in segs_of(b['<text>']) if not (
                    x.lit and set(x.items) <= set([10]))]
                prove_eq(E, V.mkseq('str', g), '' if none else joined_text,
                         'the lines of encoded data')
                if log['opened'] != 1 or log['closed'] != 1:
                    E.fail('the stream is read once and closed')
                E.cover('embedded')
                if none:
                    E.cover('no data')
            else:
                if '<text>' in b or 'inline' in b:
                    E.fail('only embedded items get data')
                E.cover('other storage')
        elif '<text>' in b or 'inline' in b:
            E.fail('only binary data gets data')
        else:
            E.cover('passed')
        log['opened'] = log['closed'] = 0
        G.k = 0
        G.out = G.out + 1
    prove_eq(E, G.out, N, 'everything passes')
    E.cover('finished')


# -- cross-check --------------------------------------------------------------

SIZES = [47, 48, 49, 95, 96, 97, 1000, 4096, 4799, 4800, 4801, 65536, 100000]
IDS = [0, 1, 9, 10, 15, 255, 256, 0xabcd, 0xffff]
EXTS = ['jpg', '', 'PNG', '한글', 'a.b', 'x' * 50]


def cases(rng, tier):
    for n in list(range(0, 201)) + SIZES:
        yield ('one', rng.randbytes(n), rng.choice(IDS), rng.choice(EXTS))
    for i in IDS:
        for e in EXTS:
            yield ('one', rng.randbytes(rng.randrange(100)), i, e)
    for i in range(1000 if tier == 'quick' else 30000):
        yield ('stream', tuple(
            (rng.choice(('bin', 'bin', 'bin', 'other', 'twin')),
             rng.randrange(4), rng.randrange(1 << 16), rng.choice(IDS),
             rng.choice(EXTS), rng.randbytes(rng.choice((0, 1, 47, 48, 49,
                                                         96, 200))))
            for k in range(rng.randrange(12))))
    for i in range(20 if tier == 'quick' else 200):
        yield ('docinfo', tuple(
            (rng.choice((0, 1, 2)), rng.choice(IDS), rng.choice(EXTS[:3]),
             rng.randbytes(rng.randrange(150)))
            for k in range(rng.randrange(6))))


class Store(object):
    def __init__(self):
        self.d = {}
        self.log = []

    def __getitem__(self, name):
        return Opener(self, name, self.d[name])


class Opener(object):
    def __init__(self, s, name, data):
        self.s, self.name, self.data = s, name, data

    def open(self):
        import io
        self.s.log.append(self.name)
        return io.BytesIO(self.data)


class Other(object):
    pass


def text_ok(text, data):
    import base64
    try:
        if base64.b64decode(text.replace('\n', ''), validate=True) != data \
                or base64.b64decode(text) != data:
            return 'the text decodes to other bytes'
    except ValueError as e:
        return 'the text does not decode: %s' % e
    for l in text.split('\n'):
        if len(l) > 64:
            return 'a line of %d characters' % len(l)
    if text.strip('\n').count('\n') != max(0, (
            (len(data) + 2) // 3 * 4 + 63) // 64 - 1):
        return 'lines are broken elsewhere'
    return None


def check_case(case):
    import copy
    from pyvc.concrete import need
    x = need('hwp5.xmlmodel')
    embed_bindata, = need('hwp5.xmlmodel', 'embed_bindata'),
    BinData, = need('hwp5.binmodel', 'BinData'),
    STARTEVENT = need('hwp5.treeop', 'STARTEVENT')
    ENDEVENT = need('hwp5.treeop', 'ENDEVENT')
    if case[0] == 'docinfo':
        return check_docinfo(case, x)
    if case[0] == 'one':
        case = ('stream', (('bin', 1, 0, case[2], case[3], case[1]),))

    class Twin(object):
        pass
    Twin.__name__ = 'BinData'
    store = Store()
    items, want, used = [], [], {}
    for what, storage, flags, sid, ext, data in case[1]:
        name = 'BIN%s.%s' % (hex(0x10000 + sid)[3:].upper(), ext)
        model = {'bin': BinData, 'other': Other, 'twin': Twin}[what]
        # same stream twice: the same bytes
        if what == 'bin' and storage == 1:
            data = store.d.setdefault(name, data)
        f = BinData.Flags((flags & ~0xf) | storage)
        if storage == 1:
            b = dict(storage_id=sid, ext=ext)
        elif storage == 0:
            b = dict(abspath='x', relpath='y')
        elif storage == 2:
            b = dict(storage_id=sid)
        else:
            b = dict()
        attrs = dict(flags=f, bindata=b, rec=(1, 2))
        ctx = dict(a=1)
        items.append((model, attrs, ctx))
        want.append((copy.deepcopy(b), data, model is BinData
                     and storage == 1, name))
    # siblings and one nested in the other
    events = []
    for k, it in enumerate(items):
        if k % 3 == 1:
            events.insert(len(events) - 1, (STARTEVENT, it))
            events.insert(len(events) - 1, (ENDEVENT, it))
        else:
            events += [(STARTEVENT, it), (ENDEVENT, it)]
    got = list(embed_bindata(iter(events), store))
    if len(got) != len(events):
        return '%d events of %d' % (len(got), len(events))
    for a, b in zip(got, events):
        if a[0] is not b[0] and a[0] != b[0] or a[1][0] is not b[1][0] \
                or a[1][2] != b[1][2]:
            return 'event %r became %r' % (b, a)
    final = {}
    for ev, (model, attrs, ctx) in got:
        if ev is STARTEVENT or ev == STARTEVENT:
            final.setdefault(id(attrs), attrs)
    k = 0
    for ev, (model, attrs, ctx) in got:
        if ev != STARTEVENT:
            continue
        j = [i for i, it in enumerate(items)
             if it[1]['rec'] is attrs.get('rec') and it[1] is attrs]
        src = j[0] if j else None
        if src is None:
            # a copy is fine: find by order
            src = [i for i, e in enumerate(order(events, STARTEVENT))][k]
            src = items.index(order(events, STARTEVENT)[k])
        k += 1
        b, data, embedded, name = want[src]
        new = dict(attrs['bindata'])
        if embedded:
            text = new.pop('<text>', None)
            if text is None or new.pop('inline', None) != 'true':
                return 'item %s is not embedded' % name
            msg = text_ok(text, data)
            if msg:
                return msg
        if new != b:
            return 'an item with %r got %r' % (b, attrs['bindata'])
    for nm in store.log:
        if nm not in [w[3] for w in want if w[2]]:
            return 'stream %r is opened' % nm
    return None


def order(events, S):
    return [it for ev, it in events if ev == S]


def check_docinfo(case, x):
    ''' through the record parser and the XML output '''
    import io
    import struct
    import xml.etree.ElementTree as ET
    from pyvc.concrete import need
    dump = need('hwp5.recordstream', 'dump_record')
    DocInfo = need('hwp5.xmlmodel', 'DocInfo')
    out = io.BytesIO()
    store = Store()
    want = []
    for storage, sid, ext, data in case[1]:
        name = 'BIN%04X.%s' % (sid, ext)

        def bstr(s):
            e = s.encode('utf-16le')
            return struct.pack('<H', len(e) // 2) + e
        payload = struct.pack('<H', storage)
        if storage == 0:
            payload += bstr('abs') + bstr('rel')
        else:
            payload += struct.pack('<H', sid)
            if storage == 1:
                payload += bstr(ext)
                data = store.d.setdefault(name, data)
        want.append((storage, data))
        dump(out, dict(tagid=0x12, level=0, size=len(payload),
                       payload=payload))

    class Src(object):
        def open(self):
            return io.BytesIO(out.getvalue())
    doc = DocInfo(Src(), (5, 0, 2, 4))
    xml = b''.join(doc.xmlevents(embedbin=store).bytechunks())
    root = ET.fromstring(xml)
    bins = [e for e in root.iter() if e.tag == 'BinData']
    if len(bins) != len(want):
        return '%d elements of %d items' % (len(bins), len(want))
    for e, (storage, data) in zip(bins, want):
        texts = [t for c in e.iter() for t in [c.text] if t and t.strip('\n')]
        if storage != 1 or not data:
            if texts:
                return 'text %r' % texts
            continue
        if len(texts) != 1:
            return 'an item has %d texts' % len(texts)
        msg = text_ok(texts[0], data)
        if msg:
            return msg
    return None
