''' C22 JSON listings '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('arrays of 0..8 arbitrary JSON values; record streams of 0..6 '
          'records of arbitrary tags, levels and payloads, as records and as '
          'models, through the command lines too; the streams of sample files; '
          'reads of any size')
ASSUMPTIONS = [
    'the JSON text of one item is valid JSON (the json module)',
    'the JSON text of an item depends on the item and the options only',
]


def grammar(E, G, text, n, family):
    ''' one piece of output: only the array around the tokens '''
    from .common import SVal, ti, V
    import z3
    if isinstance(text, SVal):
        if text._base != family:
            E.fail('only the JSON of the items', repr(text))
        E.prove(ti(text._idx) == ti(G.out), 'the items in order')
        E.prove(z3.Or(ti(G.st) == 1, ti(G.st) == 3),
                'an item follows [ or a comma')
        G.out = G.out + 1
        G.st = 2
        return
    if not isinstance(text, str):
        E.fail('text', repr(type(text)))
    for ch in text:
        if ch in ' \n\t\r':
            continue
        if ch == '[':
            E.prove(ti(G.st) == 0, 'one array')
            G.st = 1
        elif ch == ',':
            E.prove(ti(G.st) == 2, 'a comma follows an item')
            G.st = 3
        elif ch == ']':
            E.prove(z3.Or(ti(G.st) == 2, ti(G.st) == 1),
                    '] follows [ or an item')
            G.st = 4
        else:
            E.fail('only brackets, commas and items', repr(ch))


@unit('C22', funcs=['hwp5.utils.generate_json_array'],
      covers=['no items', 'items'])
def array(E):
    ''' [ items separated by commas ] for any number of items '''
    from .common import fresh_int, fresh_list, SVal, ti, SIter, prove_eq
    from hwp5 import utils
    import z3
    n = fresh_int('n', 0)
    it = SIter(fresh_list(E, 'tokens', n, lambda i, tag: SVal('token', i)),
               name='tokens')
    G = E.G
    G.declare(out=0, st=0)
    start = []

    def inv(L):
        if L.mode == 'init':
            start[:] = [G.st]
        out = L.ghost('out', 0, n)
        st = L.ghost('st', 0, 4)
        L.fact(ti(out) == ti(L.pos), 'an item per token')
        L.fact(ti(st) == z3.If(ti(out) > 0, 2, ti(start[0])),
               'the array is begun')
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for text in utils.generate_json_array(it):
        grammar(E, G, text, n, 'token')
    prove_eq(E, G.out, n, 'no item is lost')
    prove_eq(E, G.st, 4, 'the array is closed')
    if n == 0:
        E.cover('no items')
    else:
        E.cover('items')


@unit('C22', funcs=['hwp5.utils.JsonObjects.__init__',
                    'hwp5.utils.JsonObjects.generate',
                    'hwp5.utils.JsonObjects.dump',
                    'hwp5.utils.JsonObjects.open'],
      covers=['generated', 'dumped', 'opened'],
      notes=['generate_json_array by its contract'])
def objects(E):
    ''' the tokens are the JSON of the objects in order; dump and open give
    the generated text '''
    from .common import (fresh_int, fresh_list, SVal, ti, SIter, prove_eq,
                         mkint, each)
    from hwp5 import utils
    n = fresh_int('n', 0)
    it = SIter(fresh_list(E, 'objects', n, lambda i, tag: SVal('object', i)),
               name='objects')
    opts = dict(extra='x')

    def to_json(o, *args, **kw):
        if not isinstance(o, SVal) or o._base != 'object':
            E.fail('the JSON of the objects')
        if args or kw.get('extra') != 'x':
            E.fail('the options are passed')
        kw.pop('extra')
        if set(kw) - set(('sort_keys', 'indent')):
            E.fail('only the usual options are added', repr(kw))
        return SVal('token', o._idx)
    which = E.choose(3)
    m = fresh_int('chunks', 0)

    def chunk(i, tag):
        return SVal('chunk', i, encode=lambda enc='utf-8', *a: SVal(
            'encoded', i) if enc.lower().replace('-', '') == 'utf8'
            and not a else E.fail('UTF-8'))
    chunks = fresh_list(E, 'chunks', m, chunk)
    G = E.G
    G.declare(out=0)

    def generate_json_array(tokens):
        k = 0
        G.out = mkint(0 * ti(n))

        for t in each(tokens):
            if not isinstance(t, SVal) or t._base != 'token':
                E.fail('the JSON of the objects', repr(t))
            E.prove(ti(t._idx) == ti(G.out), 'in order')
            G.out = G.out + 1
        prove_eq(E, G.out, n, 'every object')
        G.out = 0
        return SIter(chunks, name='chunks')
    E.contracts['hwp5.utils.generate_json_array'] = generate_json_array

    def inv(L):
        L.ghostlet('out', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    j = utils.JsonObjects(it, to_json)
    if which == 0:
        got = j.generate(**opts)
        for c in each(got):
            prove_eq(E, c, SVal('chunk', G.out), 'the generated text')
            G.out = G.out + 1
        prove_eq(E, G.out, m, 'all of it')
        E.cover('generated')
    elif which == 1:
        class Out(object):
            def write(self, c):
                prove_eq(E, c, SVal('chunk', G.out), 'written in order')
                G.out = G.out + 1
        j.dump(Out(), **opts)
        prove_eq(E, G.out, m, 'all is written')
        E.cover('dumped')
    else:
        def reader(gen):
            for c in each(gen):
                prove_eq(E, c, SVal('encoded', G.out), 'read in order')
                G.out = G.out + 1
            prove_eq(E, G.out, m, 'all is read')
            return 'reader'
        E.contracts['hwp5.utils.GeneratorReader'] = reader
        if j.open(**opts) != 'reader':
            E.fail('a reader of the text')
        E.cover('opened')


class Item(object):
    pass


@unit('C22', funcs=['hwp5.recordstream.record_to_json',
                    'hwp5.binmodel.model_to_json'],
      covers=['record', 'model', 'unparsed', 'events'],
      notes=['dumpbytes by its contract; json.dumps is trusted'])
def item_json(E):
    ''' the JSON of a record or model is that of its members: the payload
    (and the remainder) as hexadecimal lines, the type by its name, the rest
    as they are; the options are passed; the model is not changed '''
    import json
    from .common import SVal, prove_eq
    from hwp5 import recordstream, binmodel
    payload = SVal('payload', 0, truth='any')
    unparsed = SVal('unparsed', 0, truth='any')
    events = SVal('events', 0, truth='any')
    members = dict((k, SVal(k, 0, truth='any')) for k in
                   ('tagid', 'tagname', 'level', 'size', 'seqno'))
    members['payload'] = payload
    is_model = E.choose(2)
    if is_model:
        members['content'] = SVal('content', 0, truth='any')
        members['type'] = type(str('Model'), (object,), {})
        if E.choose(2):
            members['unparsed'] = unparsed
            E.cover('unparsed')
        if E.choose(2):
            members['binevents'] = events
            E.cover('events')
    calls = []

    def lines(data):
        for v in (payload, unparsed):
            if data is v:
                return ['line of', v]
        E.fail('only bytes are dumped', repr(data))
    E.contracts['hwp5.dataio.dumpbytes'] = lambda data, crust=False: iter(
        lines(data)) if crust is False else E.fail('no decorations')

    def dumps(obj, *args, **kw):
        calls.append((obj, args, kw))
        return 'the JSON'
    E.models[json.dumps] = dumps
    item = dict(members)
    opts = {'indent': 2, 'sort_keys': True}
    fn = binmodel.model_to_json if is_model else recordstream.record_to_json
    got = fn(item, **dict(opts))
    E.prove(got == 'the JSON', 'the JSON of the item')
    E.prove(len(calls) == 1, 'one item')
    obj, args, kw = calls[0]
    E.prove(args == (), 'no other options')
    cls = kw.pop('cls', None)
    E.prove(kw == opts, 'the options')
    want = dict(members)
    want['payload'] = ['line of', payload]
    if is_model:
        E.prove(cls is binmodel.ModelJsonEncoder, 'the encoder of models')
        want['type'] = 'Model'
        want.pop('binevents', None)
        if 'unparsed' in want:
            want['unparsed'] = ['line of', unparsed]
    E.prove(type(obj) is dict and set(obj) == set(want), 'its members',
            repr(sorted(obj)))
    for k in sorted(want):
        g = obj[k]
        if isinstance(want[k], list):
            g = list(g)
            E.prove(len(g) == 2 and g[0] == want[k][0] and g[1] is want[k][1],
                    'the lines of ' + k)
        elif k == 'type':
            prove_eq(E, g, want[k], 'the name of the type')
        else:
            E.prove(g is want[k], 'the ' + k)
    if is_model:
        E.prove(set(item) == set(members) and
                all(item[k] is members[k] for k in members),
                'the model is not changed')
    E.cover('model' if is_model else 'record')


@unit('C22', funcs=['hwp5.recordstream.RecordStream.records_json',
                    'hwp5.recordstream.RecordStream.open_records_json',
                    'hwp5.recordstream.RecordStream.other_formats',
                    'hwp5.binmodel.ModelStream.models_json',
                    'hwp5.binmodel.ModelStream.open_models_json',
                    'hwp5.binmodel.ModelStream.other_formats'],
      covers=['records', 'models', 'opened records', 'opened models'],
      notes=['records() and models() by their contracts (C02, C26)'])
def listings(E):
    ''' the listings are of the items asked for, each by its JSON '''
    from .common import SVal, each
    from hwp5 import recordstream, binmodel
    kind = E.choose(2)
    how = E.choose(3)
    items = SVal('items', 0)
    log = []
    made = []

    def items_of(name):
        def method(self, **kw):
            log.append((name, kw))
            return items
        return method

    class Stream((recordstream.RecordStream, binmodel.ModelStream)[kind]):
        records = items_of('records')
        models = items_of('models')

        def __init__(self):
            self.wrapped = Item()

    class Objects(object):
        def __init__(self, objects, object_to_json):
            made.append((objects, object_to_json))

        def open(self, **kw):
            E.prove(kw == {}, 'the usual options')
            return 'the text'
    E.contracts['hwp5.utils.JsonObjects'] = Objects
    s = Stream()
    models = kind == 1 and E.choose(2) == 1
    opts = {}
    if how == 0:
        opts = {'treegroup': SVal('treegroup', 0, truth='any')}
        fn = s.models_json if models else s.records_json
        got = fn(**dict(opts))
        E.prove(isinstance(got, Objects), 'a listing')
    elif how == 1:
        got = s.open_models_json() if models else s.open_records_json()
        E.prove(got == 'the text', 'its text')
    else:
        fs = s.other_formats()
        names = ['.records', '.models'][:kind + 1]
        E.prove(sorted(fs) == sorted(names), 'the formats of the stream')
        got = fs['.models' if models else '.records']()
        E.prove(got == 'the text', 'its text')
    E.prove(len(made) == 1 and made[0][0] is items, 'the items')
    name = 'models' if models else 'records'
    E.prove(len(log) == 1 and log[0][0] == name, 'the %s' % name)
    got = log[0][1]
    E.prove(set(got) == set(opts) and all(got[k] is opts[k] for k in opts),
            'those asked for')
    # each by its own JSON
    to_json = made[0][1]
    seen = []
    E.contracts['hwp5.recordstream.record_to_json'] = \
        lambda r, *a, **k: seen.append(('records', r, a, k))
    E.contracts['hwp5.binmodel.model_to_json'] = \
        lambda r, *a, **k: seen.append(('models', r, a, k))
    if to_json is (binmodel.model_to_json if models else
                   recordstream.record_to_json):
        E.cover(('opened ' if how else '') + name)
        return
    to_json(items, indent=2)
    E.prove(len(seen) == 1 and seen[0][0] == name and seen[0][1] is items and
            seen[0][2:] == ((), {'indent': 2}), 'the JSON of the item')
    E.cover(('opened ' if how else '') + name)


@unit('C22', funcs=['hwp5.binmodel.ModelJsonEncoder.default'],
      covers=['bytes', 'others'])
def encoder(E):
    ''' any bytes become the text of the same code points '''
    from .common import SVal
    from hwp5 import binmodel
    e = binmodel.ModelJsonEncoder()
    if E.choose(2):
        def decode(encoding='utf-8', errors='strict'):
            if encoding.lower().replace('-', '').replace('_', '') not in (
                    'latin1', 'iso88591', 'l1'):
                E.fail('a text for any bytes', encoding)
            return text
        text = SVal('text', 0)
        b = SVal('data', 0, _type=bytes, decode=decode)
        E.prove(e.default(b) is text, 'as text')
        E.cover('bytes')
    else:
        try:
            e.default(object())
        except TypeError:
            E.cover('others')
        else:
            E.fail('other objects are refused')


# -- cross-check --------------------------------------------------------------

VALUES = [None, True, 0, -1, 1.5, '', ']', '[', ',', '"', '\n', '가', [],
          [[]], {}, {'a': [1]}, '\\', [1, 2, 3]]


def record(rng, simple=False):
    if simple:
        # any payload makes a model of these
        tag = rng.choice((0, 9, 0x43, 200, 200, 1023))
        n = rng.choice((0, 0, 1, 15, 16, 17, 32, 33, 100))
        if tag == 0x43:
            return (tag, rng.choice((0, 0, 1, 2)),
                    'a가\r'.encode('utf-16le') * (n // 2))
        return (tag, rng.choice((0, 0, 1, 1, 2, 3)), rng.randbytes(n))
    tag = rng.choice((0, 0x10, 0x11, 0x12, 0x13, 0x42, 0x43, 0x44, 0x47,
                      0x50, 200, 1023))
    return (tag, rng.choice((0, 0, 1, 1, 2, 3)),
            rng.randbytes(rng.choice((0, 0, 1, 15, 16, 17, 32, 33, 100))))


def cases(rng, tier):
    import itertools
    for n in range(3):
        for vs in itertools.product(range(len(VALUES)), repeat=n):
            yield ('values', vs)
    for i in range(300 if tier == 'quick' else 3000):
        yield ('values', tuple(rng.randrange(len(VALUES))
                               for k in range(rng.randrange(3, 9))))
    yield ('values', (1,) * 5000)
    for i in range(400 if tier == 'quick' else 3000):
        n = rng.randrange(7)
        recs = [record(rng, i % 3) for k in range(n)]
        yield ('records', tuple(recs), rng.randrange(1000))
    yield ('records', (), 0)
    for name in FILES:
        yield ('file', name)


FILES = ('sample-5017.hwp', 'shapepict-scaled.hwp', 'borderfill.hwp',
         'shapecontainer-2.hwp', 'facename.hwp', 'footnote-endnote.hwp',
         'multicolumns-widths.hwp', 'table.hwp', 'viewtext.hwp',
         'lists-bullet.hwp', 'matrix.hwp', 'textbox.hwp',
         'issue144-fields-crossing-lineseg-boundary.hwp')


def records_of(data):
    ''' of a record stream, decoded here '''
    import struct
    out = []
    i = 0
    while i + 4 <= len(data):
        h, = struct.unpack_from('<I', data, i)
        i += 4
        n = h >> 20
        if n == 0xfff:
            n, = struct.unpack_from('<I', data, i)
            i += 4
        out.append((h & 1023, h >> 10 & 1023, bytes(data[i:i + n])))
        i += n
    return out


def check_file(name):
    import os
    from pyvc.concrete import need
    path = os.path.join('/repo/tests/hwp5_tests/fixtures', name)
    if not os.path.exists(path):
        return None
    f = need('hwp5.binmodel', 'Hwp5File')(path)
    streams = [f.docinfo] + [f.text.section(i)
                             for i in f.text.section_indexes()]
    for s in streams:
        recs = records_of(s.open().read())
        msg = check_records(('records', recs, len(recs)), f.header.version,
                            True)
        if msg:
            return '%s: %s' % (name, msg)
    return None


def read_all(f, rng):
    out = []
    while True:
        d = f.read(rng.choice((1, 2, 5, 100, 4096)))
        if not d:
            break
        out.append(d)
    return b''.join(out).decode('utf-8')


def check_case(case):
    import io
    import json
    import random
    from pyvc.concrete import need
    JsonObjects = need('hwp5.utils', 'JsonObjects')
    if case[0] == 'values':
        gja = need('hwp5.utils', 'generate_json_array')
        vs = [VALUES[i] for i in case[1]]
        text = ''.join(gja(iter([json.dumps(v) for v in vs])))
        try:
            got = json.loads(text)
        except ValueError as e:
            return 'not valid JSON (%s): %r' % (e, text[:200])
        if got != vs or list(map(repr, got)) != list(map(repr, vs)):
            return '%r gives %r' % (vs, got)
        for kw in ({}, {'indent': None}, {'sort_keys': False},
                   {'indent': 4, 'sort_keys': True}):
            for how in ('generate', 'dump', 'open'):
                j = JsonObjects(iter(vs), lambda o, **k: json.dumps(o, **k))
                if how == 'generate':
                    text = ''.join(j.generate(**kw))
                elif how == 'dump':
                    f = io.StringIO()
                    j.dump(f, **kw)
                    text = f.getvalue()
                else:
                    text = read_all(j.open(**kw), random.Random(1))
                try:
                    got = json.loads(text)
                except ValueError as e:
                    return '%s: not valid JSON (%s): %r' % (how, e,
                                                            text[:200])
                if list(map(repr, got)) != list(map(repr, vs)):
                    return '%s: %r gives %r' % (how, vs, got)
        return None
    if case[0] == 'file':
        return check_file(case[1])
    return check_records(case)


def check_records(case, version=(5, 0, 2, 4), real=False):
    import contextlib
    import io
    import json
    import random
    import sys
    from pyvc.concrete import need
    rng = random.Random(case[2])
    recs = case[1]
    dump = need('hwp5.recordstream', 'dump_record')
    out = io.BytesIO()
    for tag, level, payload in recs:
        dump(out, dict(tagid=tag, level=level, size=len(payload),
                       payload=payload))
    raw = out.getvalue()

    class Src(object):
        def open(self):
            return io.BytesIO(raw)
    RecordStream = need('hwp5.recordstream', 'RecordStream')
    ModelStream = need('hwp5.binmodel', 'ModelStream')

    def check(text, what, pick=slice(None), models=False):
        try:
            got = json.loads(text)
        except ValueError as e:
            return '%s: not valid JSON (%s): %r' % (what, e, text[:300])
        if not isinstance(got, list):
            return '%s: not an array' % what
        want = list(enumerate(recs))[pick]
        if len(got) != len(want):
            return '%s: %d items of %d' % (what, len(got), len(want))
        for g, (i, (tag, level, payload)) in zip(got, want):
            if (g['seqno'], g['tagid'], g['level'], g['size']) != (
                    i, tag, level, len(payload)):
                return '%s: item %d is %r' % (what, i, g)
            if bytes.fromhex(' '.join(g['payload'])) != payload:
                return '%s: payload %r of %r' % (what, g['payload'], payload)
            if models:
                if not isinstance(g['type'], str):
                    return '%s: type %r' % (what, g['type'])
                if 'unparsed' in g and not payload.endswith(
                        bytes.fromhex(' '.join(g['unparsed']))):
                    return '%s: unparsed %r' % (what, g['unparsed'])
        return None
    rs = lambda: RecordStream(Src(), version)
    ms = lambda: ModelStream(Src(), version)

    def dumped(j):
        f = io.StringIO()
        j.dump(f)
        return f.getvalue()
    n = len(recs)
    a = rng.randrange(n + 2)
    b = rng.randrange(n + 3)
    msg = check(dumped(rs().records_json()), 'records') \
        or check(read_all(rs().records_json().open(), rng), 'records') \
        or check(read_all(rs().other_formats()['.records'](), rng),
                 '.records') \
        or check(dumped(rs().records_json(range=(a, b))), 'records range',
                 slice(a, b)) \
        or check(dumped(rs().records_json(range=(a, a + 1))), 'record',
                 slice(a, a + 1))
    if msg:
        return msg
    # trees
    starts = [i for i, r in enumerate(recs) if i == 0 or r[1] == 0]
    few = starts if len(starts) < 5 else rng.sample(starts, 4)
    for k, s in enumerate(starts):
        if s not in few:
            continue
        e = starts[k + 1] if k + 1 < len(starts) else n
        msg = check(dumped(rs().records_json(treegroup=k)), 'records of tree',
                    slice(s, e))
        if msg:
            return msg
    # models: payloads that do not parse are a parse error (not this
    # property); take those that do
    ParseError = need('hwp5.dataio', 'ParseError')
    command = check_command(recs, raw, rng, check, 'records', version)
    if command:
        return command
    try:
        list(ms().models())
    except Exception:
        if real:
            raise
        return None
    msg = check(dumped(ms().models_json()), 'models', models=True) \
        or check(read_all(ms().models_json().open(), rng), 'models',
                 models=True) \
        or check(read_all(ms().other_formats()['.models'](), rng),
                 '.models', models=True)
    if msg:
        return msg
    for k, s in enumerate(starts):
        if s not in few:
            continue
        e = starts[k + 1] if k + 1 < len(starts) else n
        msg = check(dumped(ms().models_json(treegroup=k)), 'models of tree',
                    slice(s, e), models=True)
        if msg:
            return msg
    return check_command(recs, raw, rng, check, 'models', version)


def check_command(recs, raw, rng, check, which, version):
    import argparse
    import contextlib
    import io
    import sys
    from pyvc.concrete import need
    n = len(recs)
    a = rng.randrange(n + 2)
    b = rng.randrange(n + 3)
    starts = [i for i, r in enumerate(recs) if i == 0 or r[1] == 0]
    main = need('hwp5.proc.' + which, 'main')
    if which == 'models':
        picks = [({}, slice(None)), ({'seqno': str(a)}, slice(a, a + 1))]
    else:
        picks = [({}, slice(None)), ({'range': str(a)}, slice(a, a + 1))]
        if a <= b:
            picks.append(({'range': '%d-%d' % (a, b)}, slice(a, b)))
    few = starts if len(starts) < 5 else rng.sample(starts, 4)
    for k, s in enumerate(starts):
        if s not in few:
            continue
        e = starts[k + 1] if k + 1 < len(starts) else n
        picks.append(({'treegroup': str(k)}, slice(s, e)))
    for opts, pick in picks:
        args = dict(hwp5file=None, record_stream=None, simple=False,
                    json=True, treegroup=None)
        if which == 'models':
            args.update(format=None, events=False, seqno=None,
                        file_format_version='.'.join(map(str, version)))
        else:
            args.update(range=None, raw=False, raw_header=False,
                        raw_payload=False)
        args.update(opts)

        class In(object):
            buffer = io.BytesIO(raw)
        old = sys.stdin
        f = io.TextIOWrapper(io.BytesIO(), encoding='utf-8')
        sys.stdin = In()
        try:
            with contextlib.redirect_stdout(f):
                main(argparse.Namespace(**args))
        finally:
            sys.stdin = old
        f.flush()
        msg = check(f.buffer.getvalue().decode('utf-8'), 'command %s %r' % (which, opts), pick,
                    models=which == 'models')
        if msg:
            return msg
    return None
