''' The commands of hwp5proc: what they print is what the library gives. '''
import contextlib
import sys

from pyvc.unit import unit


class Std(object):
    ''' standard output or input '''

    def __init__(self, buffer, write=None):
        self.buffer = buffer
        if write is not None:
            self.write = write

    def flush(self):
        pass


@contextlib.contextmanager
def std(stdin=None, stdout=None):
    old = sys.stdin, sys.stdout
    if stdin is not None:
        sys.stdin = stdin
    if stdout is not None:
        sys.stdout = stdout
    try:
        yield
    finally:
        sys.stdin, sys.stdout = old


class Args(object):
    pass


@unit('C02', funcs=['hwp5.proc.records.main'],
      covers=['raw', 'header', 'payload', 'json', 'file', 'stdin', 'range',
              'one', 'all', 'tree', 'record'])
def records_command(E):
    ''' for any records selected: each one is written once, in order, in the
    form asked for, and they are those of the range asked for '''
    from .common import ti, prove_eq, SVal, SIter
    from .c02 import recs
    from hwp5.proc import records
    rs, N = recs(E)
    G = E.G
    G.declare(out=0)
    mode = ['raw', 'header', 'payload', 'json'][E.choose(4)]
    E.cover(mode)
    args = Args()
    args.simple = args.json = args.raw = args.raw_header = False
    args.raw_payload = False
    setattr(args, {'raw': 'raw', 'header': 'raw_header', 'json': 'json',
                   'payload': 'raw_payload'}[mode], True)
    which = ['range', 'one', 'all', 'tree'][E.choose(4)]
    E.cover(which)
    args.range = {'range': '3-17', 'one': '12'}.get(which)
    args.treegroup = '7' if which == 'tree' else None
    want = {'range': dict(range=(3, 17)), 'one': dict(range=(12, 13)),
            'all': {}, 'tree': dict(treegroup=7)}[which]
    asked = []
    dumped = []

    def one(i, x, what):
        E.prove(ti(i) < ti(N), 'no record is invented')
        prove_eq(E, x, SVal(what, i), 'the records in order')
        E.cover('record')
        G.out = G.out + 1

    class Binary(object):
        def write(self, x):
            if not isinstance(x, SVal) or mode == 'raw':
                E.fail('the %s of a record is written' % mode)
            one(G.out, x, 'payload' if mode == 'payload' else 'encoded')

        def flush(self):
            pass
    binary = Binary()
    stdout = Std(binary, lambda s: E.fail('nothing else is printed'))
    stdin = Std(object())

    class Json(object):
        def dump(self, f):
            E.prove(f is stdout, 'printed to standard output')
            dumped.append(f)

    class Stream(object):
        def records(self, **opts):
            asked.append(opts)
            return SIter(rs, name='records')

        def records_json(self, **opts):
            asked.append(opts)
            return Json()
    stream = Stream()

    def dump_record(f, record):
        E.prove(mode == 'raw' and f is binary, 'dumped to standard output')
        one(G.out, record['payload'], 'payload')
    E.contracts['hwp5.recordstream.dump_record'] = dump_record
    E.contracts['hwp5.recordstream.encode_record_header'] = \
        lambda r: SVal('encoded', r['seqno'])
    hwpfile = object()
    if E.choose(2):
        E.cover('file')
        args.hwp5file = 'name'
        args.record_stream = 'docinfo'

        def opened(name):
            E.prove(name == 'name', 'the file named')
            return hwpfile

        def find(f, name):
            E.prove(f is hwpfile and name == 'docinfo', 'the stream named')
            return stream
        E.contracts['hwp5.binmodel.Hwp5File'] = opened
        E.contracts['hwp5.recordstream.Hwp5File'] = opened
        E.contracts['hwp5.cli.parse_recordstream_name'] = find
    else:
        E.cover('stdin')
        args.hwp5file = None

        def of(item, version):
            E.prove(item.open() is stdin.buffer, 'standard input is read')
            return stream
        E.contracts['hwp5.recordstream.RecordStream'] = of

    def inv(L):
        L.ghostlet('out', L.pos)
    E.hints.append((lambda L: True, inv, {}))
    with std(stdin, stdout):
        records.main(args)
    E.prove(len(asked) == 1 and asked[0] == want, 'the records asked for')
    if mode == 'json':
        E.prove(len(dumped) == 1, 'as JSON, once')
    else:
        prove_eq(E, G.out, N, 'every record')


@unit('C02', funcs=['hwp5.cli.parse_recordstream_name'],
      covers=['docinfo', 'section', 'item'])
def stream_names(E):
    ''' a stream is the document's DocInfo, its section of that number, or
    the item of that name '''
    from hwp5 import cli
    got = []

    class Body(object):
        def section(self, n):
            got.append(n)
            return 'the section'

    class File(object):
        docinfo = 'the docinfo'
        bodytext = Body()
    f = File()

    def item(x, name):
        got.append((x is f, name))
        return 'the item'
    E.contracts['hwp5.storage.open_storage_item'] = item
    names = [('docinfo', 'the docinfo', [])] + \
        [('bodytext/%d' % n, 'the section', [n]) for n in (0, 3, 12)] + \
        [(n, 'the item', [(True, n)])
         for n in ('DocInfo', 'BodyText/Section0', 'bodytext', 'bodytext/x',
                   'bodytext/1/2', 'x/1', 'docinfo/1')]
    name, want, log = names[E.choose(len(names))]
    E.cover(want.split()[1])
    r = cli.parse_recordstream_name(f, name)
    E.prove(r == want and got == log, 'the stream named')


@unit('C25', funcs=['hwp5.proc.cat.main', 'hwp5.cli.open_hwpfile'],
      covers=['ole', 'file', 'extra', 'copied'])
def cat_command(E):
    ''' the whole stream is printed, whatever its length '''
    from .common import fresh_bytes, prove_eq, SFile, SOut, V, ti, mkint
    from hwp5.proc import cat
    import z3
    data = fresh_bytes('data')
    segs = V.segs_of(data)
    f = SFile(data)
    out = SOut()
    args = Args()
    args.hwp5file = 'name'
    args.stream = 'path'
    args.ole = bool(E.choose(2))
    args.vstreams = False if args.ole else bool(E.choose(2))
    E.cover('ole' if args.ole else 'extra' if args.vstreams else 'file')
    log = []

    def ole(name):
        log.append(('ole', name))
        return 'ole'

    def hwp5(name):
        log.append(('file', name))
        return 'file'

    def extra(x):
        log.append(('extra', x))
        return 'extra'
    E.contracts['hwp5.storage.ole.OleStorage'] = ole
    E.contracts['hwp5.xmlmodel.Hwp5File'] = hwp5
    E.contracts['hwp5.storage.ExtraItemStorage'] = extra

    class Item(object):
        def open(self):
            log.append('open')
            return f

    def find(stg, path):
        log.append((stg, path))
        return Item()
    E.contracts['hwp5.storage.open_storage_item'] = find
    total = mkint(V.seqlen(segs)) if not isinstance(V.seqlen(segs), int) \
        else V.seqlen(segs)
    G = E.G
    # at: how much is read; done: how much of it is printed
    G.declare(at=0, done=0)
    ahead = []

    def inv(L):
        if L.mode == 'init':
            # (a part may have been read before the loop)
            ahead[:] = [k for k, v in L.env.items() if V.kind_of(v) == 'bytes'
                        and k in L.loop.modified]
        L.ghost_havoc.update(['at', 'done'])
        if L.mode == 'havoc':
            L.ghost('at', 0, total)
            if ahead:
                L.ghost('done', 0, total)
            else:
                G.done = G.at
            f.pos = V.lval(ti(G.at))
            out.segs = V.normal(V.segs_of(data[0:G.done]))
            L.havocked(f)
            L.havocked(out)
        else:
            G.at = mkint(ti(f.pos))
            G.done = mkint(ti(V.seqlen(V.segs_of(out.value()))))
            prove_eq(E, out.value(), data[0:G.done],
                     'what is read is printed')
        if len(ahead) == 1:
            L.fact(ti(G.done) <= ti(G.at), 'read before')
            L.fact(z3.Implies(ti(G.done) == ti(G.at),
                              ti(G.at) == ti(total)), 'up to the end')
            L.let(ahead[0], data[G.done:G.at])
        elif L.mode != 'havoc':
            prove_eq(E, G.done, G.at, 'what is read is printed')
    E.hints.append((lambda L: L.iswhile, inv, {}))
    with std(None, Std(out)):
        cat.main(args)
    prove_eq(E, out.value(), data, 'the whole stream')
    E.cover('copied')
    kind = 'ole' if args.ole else 'file'
    want = [(kind, 'name')]
    if args.vstreams:
        want.append(('extra', 'file'))
        kind = 'extra'
    E.prove(log == want + [(kind, 'path'), 'open'],
            'the item of the storage asked for')


@unit('C25', funcs=['hwp5.utils.cached_property.__init__',
                    'hwp5.utils.cached_property.__get__',
                    'hwp5.utils.cached_property.__set__'],
      covers=['value', 'falsy', 'set', 'two', 'class'])
def cached(E):
    ''' a cached property is computed once for each object, whatever its
    value, and not at all once it is set '''
    from .common import SVal
    from hwp5.utils import cached_property
    calls = []
    falsy = [None, False, 0, (), '']
    pick = E.choose(len(falsy) + 1)
    E.cover('falsy' if pick < len(falsy) else 'value')

    class X(object):
        def get(self):
            calls.append(self)
            if pick < len(falsy):
                return falsy[pick]
            return SVal('value', len(calls))
        p = cached_property(get)
        q = cached_property(lambda self: 'q')
    a, b = X(), X()
    E.prove(isinstance(X.p, cached_property), 'it is itself in the class')
    E.cover('class')
    first = a.p
    E.prove(a.p is first and a.p is first, 'the same value each time')
    E.prove(calls == [a], 'it is computed once')
    E.prove(a.q == 'q' and a.p is first, 'each property is its own')
    b.p
    E.prove(len(calls) == 2 and calls[1] is b, 'for each object')
    E.cover('two')
    c = X()
    v = SVal('value', 99)
    c.p = v
    E.prove(c.p is v and len(calls) == 2, 'a value set is the value')
    E.cover('set')


@unit('C25', funcs=['hwp5.filestructure.PreviewText.__init__',
                    'hwp5.filestructure.PreviewText.other_formats',
                    'hwp5.filestructure.PreviewText.open_utf8',
                    'hwp5.filestructure.PreviewText.get_utf8',
                    'hwp5.filestructure.PreviewText.get_text'],
      covers=['utf8', 'text', 'listed'])
def preview(E):
    ''' the preview text: the stream transcoded, opened anew each time and
    closed; its UTF-8 form is listed '''
    from .common import SVal
    from hwp5 import filestructure
    files = []

    class File(object):
        closed = False

        def __init__(self, what):
            self.what = what

        def read(self, *n):
            E.prove(not self.closed and not n, 'read whole')
            return self.what

        def close(self):
            self.closed = True

    class Raw(object):
        def decode(self, enc):
            E.prove(enc.replace('-', '').replace('_', '').lower()
                    == 'utf16le', 'UTF-16, little endian')
            return text
    raw, text = Raw(), SVal('text', 0)
    utf8 = SVal('utf8', 0)

    class Item(object):
        def open(self):
            files.append(File(raw))
            return files[-1]

    def transcode(f, backend_encoding, frontend_encoding, errors='strict'):
        E.prove(isinstance(f, File), 'the stream is transcoded')
        E.prove((backend_encoding, frontend_encoding, errors)
                == ('utf-16le', 'utf-8', 'strict'), 'from UTF-16 to UTF-8')
        r = File(utf8)
        files.append(r)
        return r
    E.contracts['hwp5.utils.transcode'] = transcode
    p = filestructure.PreviewText(Item())
    E.prove(not files, 'nothing is opened yet')
    how = E.choose(3)
    if how == 0:
        E.cover('text')
        E.prove(p.text is text and p.text is text, 'the text decoded')
        E.prove(all(f.closed for f in files), 'the stream is closed')
    elif how == 1:
        E.cover('utf8')
        E.prove(p.utf8 is utf8 and p.utf8 is utf8, 'the text transcoded')
        E.prove(files[-1].closed, 'the stream is closed')
    else:
        E.cover('listed')
        d = p.other_formats()
        E.prove(list(d) == ['.utf8'], 'one format')
        a, b = d['.utf8'](), d['.utf8']()
        E.prove(a is not b and a.read() is utf8 and b.read() is utf8,
                'opened anew each time')


@unit('C16', funcs=['hwp5.proc.summaryinfo.main',
                    'hwp5.filestructure.HwpSummaryInfo.open_text',
                    'hwp5.filestructure.HwpSummaryInfo.plaintext_lines'],
      covers=['command', 'item', 'line'])
def summary_text(E):
    ''' every line of the formatted summary is printed, each followed by a
    line end, in order '''
    from .common import prove_eq, SVal, SIter, fresh_list, fresh_int, ti
    from hwp5.proc import summaryinfo
    from hwp5 import filestructure
    import io
    n = fresh_int('lines', 0)
    G = E.G
    G.declare(out=0)

    class Line(SVal):
        def encode(self, enc):
            E.prove(enc == 'utf-8', 'UTF-8')
            return Coded(self._idx, '')

    class Coded(object):
        def __init__(self, i, end):
            self.i, self.end = i, end

        def __add__(self, x):
            E.prove(self.end == '' and x == b'\n', 'a line end')
            return Coded(self.i, '\n')
    lines = fresh_list(E, 'lines', n, lambda i, tag: Line('line', i))
    pending = []

    class Out(object):
        def write(self, x):
            if isinstance(x, Coded):
                E.prove(not pending, 'every line is ended')
                prove_eq(E, x.i, G.out, 'the lines in order')
                if x.end:
                    G.out = G.out + 1
                    E.cover('line')
                else:
                    pending.append(x)
            else:
                E.prove(bool(pending) and x == b'\n', 'a line end')
                del pending[:]
                G.out = G.out + 1
                E.cover('line')

        def seek(self, n):
            E.prove(n == 0, 'from the beginning')
            self.rewound = True

        def flush(self):
            pass
        rewound = False
    out = Out()
    stream = object()
    closed = []

    def inv(L):
        L.ghostlet('out', L.pos)
    E.hints.append((lambda L: True, inv, {}))
    if E.choose(2):
        E.cover('command')

        class File(object):
            summaryinfo = stream

            def close(self):
                closed.append(self)

        class Formatter(object):
            def formatTextLines(self, x):
                E.prove(x is stream, 'of the summary information')
                return SIter(lines, name='lines')

        def opened(name):
            E.prove(name == 'name', 'the file named')
            return File()
        E.contracts['hwp5.filestructure.Hwp5File'] = opened
        E.contracts['hwp5.xmlmodel.Hwp5File'] = opened
        E.contracts['hwp5.summaryinfo.HwpSummaryInfoTextFormatter'] = \
            Formatter
        args = Args()
        args.hwp5file = 'name'
        with std(None, Std(out)):
            summaryinfo.main(args)
        E.prove(len(closed) == 1, 'the file is closed')
    else:
        E.cover('item')

        class Info(filestructure.HwpSummaryInfo):
            wrapped = object()
            propertySetStream = stream

            def __init__(self):
                pass

        class Formatter(object):
            def formatTextLines(self, x):
                E.prove(x is stream, 'of the summary information')
                return SIter(lines, name='lines')
        E.contracts['hwp5.msoleprops.PropertySetStreamTextFormatter'] = \
            Formatter
        E.models[io.BytesIO] = lambda *a: out
        got = Info().open_text()
        E.prove(got is out and out.rewound, 'ready to be read')
    prove_eq(E, G.out, n, 'every line')
    E.prove(not pending, 'the last line is ended')


@unit('C13', funcs=['hwp5.proc.diststream.main'],
      covers=['digest', 'key', 'decoded', 'raw', 'hex'])
def diststream_command(E):
    ''' the command gives the digest, the key or the decoded stream '''
    import shutil
    from hwp5.proc import diststream
    args = Args()
    what = ['digest', 'key', 'decoded'][E.choose(3)]
    E.cover(what)
    args.sha1 = what == 'digest'
    args.key = what == 'key'
    args.raw = bool(E.choose(2))
    E.cover('raw' if args.raw else 'hex')
    digest = bytes(bytearray(range(200, 220)))
    key = bytes(bytearray(range(7, 23)))
    payload, source, result = object(), object(), object()
    log = []

    class Out(object):
        def write(self, x):
            log.append(x)

        def flush(self):
            pass
    out = Out()

    def read_record(f, seqno):
        E.prove(f is source, 'standard input is read')
        return dict(payload=payload)

    def hexed(b):
        return ''.join('%02x' % x for x in bytearray(b))

    def to_sha1(p):
        E.prove(p is payload, 'of the header')
        return hexed(digest).encode('utf-16le')

    def to_key(p):
        E.prove(p is payload, 'of the header')
        return key

    def decode(f):
        E.prove(f is source, 'standard input is decoded')
        return result

    def copy(a, b, *n):
        E.prove(a is result and b is out, 'the decoded stream is printed')
        log.append('copied')
    E.contracts['hwp5.recordstream.read_record'] = read_record
    E.contracts['hwp5.distdoc.decode_head_to_sha1'] = to_sha1
    E.contracts['hwp5.distdoc.decode_head_to_key'] = to_key
    E.contracts['hwp5.distdoc.decode'] = decode
    E.models[shutil.copyfileobj] = copy
    with std(Std(source), Std(out)):
        diststream.main(args)
    want = {'digest': digest, 'key': key, 'decoded': 'copied'}[what]
    if not args.raw and what != 'decoded':
        want = hexed(want).encode('ascii')
    E.prove(log == [want], 'the %s' % what)


@unit('C14', funcs=['hwp5.proc.rawunz.main'], covers=['copied'])
def rawunz_command(E):
    ''' the command copies the decompressed stream '''
    import shutil
    from hwp5.proc import rawunz
    source, result, out = object(), object(), object()
    log = []

    def reader(f):
        E.prove(f is source, 'standard input is decompressed')
        return result

    def copy(a, b, *n):
        E.prove(a is result and b is out, 'what it gives is printed')
        log.append('copied')
    E.contracts['hwp5.zlib_raw_codec.StreamReader'] = reader
    E.models[shutil.copyfileobj] = copy
    with std(Std(source), Std(out)):
        rawunz.main(Args())
    E.prove(log == ['copied'], 'once')
    E.cover('copied')


@unit('C26', funcs=['hwp5.proc.models.main', 'hwp5.proc.models.stream_from_args',
                    'hwp5.proc.models.models_from_args',
                    'hwp5.proc.models.print_models_from_args',
                    'hwp5.proc.models.print_models_json',
                    'hwp5.proc.models.print_models_with_print_model'],
      covers=['simple', 'json', 'file', 'stdin', 'all', 'tree', 'one',
              'model', 'nothing'])
def models_command(E):
    ''' for any models of a stream: those asked for are printed, each once,
    in order '''
    from .common import ti, prove_eq, SVal, SIter, fresh_list, fresh_int, each
    from hwp5.proc import models
    N = fresh_int('models', 0)
    ms = fresh_list(E, 'models', N, lambda i, tag: SVal('model', i))
    G = E.G
    args = Args()
    mode = ['simple', 'json'][E.choose(2)]
    E.cover(mode)
    which = ['all', 'tree', 'one'][E.choose(3)]
    E.cover(which)
    first = {'all': 0, 'tree': 0, 'one': 12}[which]
    G.declare(out=first)
    args.events = False
    args.simple = mode == 'simple'
    args.format = None
    args.treegroup = '7' if which == 'tree' else None
    args.seqno = '12' if which == 'one' else None
    asked = []
    printed = []

    class Stream(object):
        def models(self, **kw):
            asked.append(kw)
            return SIter(ms, name='models')
    stream = Stream()
    stdin = Std(object())
    if E.choose(2):
        E.cover('file')
        args.hwp5file = 'name'
        args.record_stream = 'docinfo'
        hwpfile = object()

        def opened(name):
            E.prove(name == 'name', 'the file named')
            return hwpfile

        def find(f, name):
            E.prove(f is hwpfile and name == 'docinfo', 'the stream named')
            return stream
        for m in ('filestructure', 'recordstream', 'binmodel', 'xmlmodel'):
            E.contracts['hwp5.%s.Hwp5File' % m] = opened
        E.contracts['hwp5.cli.parse_recordstream_name'] = find
    else:
        E.cover('stdin')
        args.hwp5file = None
        given = E.choose(2)
        args.file_format_version = '5.1.2.30' if given else None
        version = (5, 1, 2, 30) if given else (5, 0, 0, 0)

        def of(item, v):
            E.prove(item.open() is stdin.buffer, 'standard input is read')
            E.prove(v == version, 'the version given')
            return stream
        E.contracts['hwp5.binmodel.ModelStream'] = of

    def one(m, what='model'):
        E.prove(ti(G.out) < ti(N), 'no model is invented')
        prove_eq(E, m, SVal(what, G.out), 'the models in order')
        G.out = G.out + 1
        E.cover('model')
    E.contracts['hwp5.proc.models.print_model_simple'] = one
    E.contracts['hwp5.binmodel.model_to_json'] = \
        lambda m, **kw: SVal('json', m._idx)

    def array(tokens):
        for t in each(tokens):
            one(t, 'json')
        printed.append('array')
        return ['the array']
    E.contracts['hwp5.utils.generate_json_array'] = array
    E.hints.append((lambda L: True, inv_of(first), {}))
    with std(stdin, Std(object(), printed.append)):
        models.main(args)
    want = dict(treegroup=7) if which == 'tree' else {}
    E.prove(len(asked) == 1 and asked[0] == want, 'the models asked for')
    if which == 'one':
        import z3
        if E.branch(ti(N) > 12):
            prove_eq(E, G.out, 13, 'the model of that number')
        else:
            prove_eq(E, G.out, 12, 'no model')
            E.cover('nothing')
    else:
        prove_eq(E, G.out, N, 'every model')
    E.prove(printed == (['array', 'the array'] if mode == 'json' else []),
            'nothing else is printed')


def inv_of(first):
    from .common import ti, mkint

    def inv(L):
        L.ghostlet('out', mkint(ti(L.pos) + first))
    return inv


@unit('C25', funcs=['hwp5.recordstream.RecordStream.other_formats',
                    'hwp5.binmodel.ModelStream.other_formats',
                    'hwp5.xmlmodel.ModelEventStream.other_formats',
                    'hwp5.xmlmodel.XmlEventsMixin.open_xml',
                    'hwp5.xmlmodel.XmlEventsMixin.xmlevents',
                    'hwp5.xmlmodel.XmlEvents.__init__',
                    'hwp5.xmlmodel.Sections.other_formats',
                    'hwp5.filestructure.Sections.other_formats',
                    'hwp5.filestructure.VersionSensitiveItem.other_formats',
                    'hwp5.filestructure.VersionSensitiveItem.__init__',
                    'hwp5.filestructure.HwpFileHeader.other_formats',
                    'hwp5.filestructure.HwpSummaryInfo.other_formats'],
      covers=['records', 'models', 'xml', 'sections', 'plain', 'txt',
              'header'])
def virtual_formats(E):
    ''' the formats of every item: their names, and each opens its own
    content of its own item, anew each time '''
    from hwp5 import filestructure, recordstream, binmodel, xmlmodel
    count = []

    def content(what):
        def fn(self, *a, **kw):
            E.prove(not a and not kw, 'without options')
            count.append(what)
            return (what, self, len(count))
        return fn
    E.contracts['hwp5.xmlmodel.XmlEvents.open'] = \
        lambda self, **kw: ('.xml', self.events, len(count), kw,
                            count.append('.xml'))[:4]
    events = object()

    class Item(object):
        open = staticmethod(lambda: None)

    def with_events(cls):
        class C(cls):
            open_records_json = content('.records')
            open_models_json = content('.models')
            open_text = content('.txt')

            def events(self, **kw):
                E.prove(not kw, 'the events, without options')
                return (events, self)
        return C
    version = (5, 0, 3, 0)
    kinds = [
        (with_events(recordstream.RecordStream), ['.records'], 'records'),
        (with_events(binmodel.ModelStream), ['.models', '.records'], 'models'),
        (with_events(xmlmodel.Section), ['.models', '.records', '.xml'],
         'xml'),
        (with_events(xmlmodel.DocInfo), ['.models', '.records', '.xml'],
         'xml'),
        (with_events(filestructure.VersionSensitiveItem), [], 'plain'),
        (with_events(filestructure.Sections), [], 'sections'),
        (with_events(xmlmodel.Sections), ['.xml'], 'sections'),
        (with_events(filestructure.HwpFileHeader), ['.txt'], 'header'),
        (with_events(filestructure.HwpSummaryInfo), ['.txt'], 'txt'),
    ]
    cls, names, what = kinds[E.choose(len(kinds))]
    E.cover(what)
    item = cls(Item()) if what == 'header' \
        else cls(Item(), version)
    if issubclass(cls, filestructure.VersionSensitiveItem):
        E.prove(item.version == version, 'of the version of the document')
    d = item.other_formats()
    E.prove(sorted(d) == names, 'the formats of an item')
    for name in names:
        for k in range(2):
            got = d[name]()
            E.prove(got[0] == name and got[2] in (len(count), len(count) - 1),
                    'a format opens its own content, anew')
            if name == '.xml':
                E.prove(got[1][0] is events and got[1][1] is item
                        and got[3] == {}, 'of its own item')
            else:
                E.prove(got[1] is item, 'of its own item')
    E.prove(len(count) == 2 * len(names), 'each time')


# -- cross-check --------------------------------------------------------------

FIXTURES = '/repo/tests/hwp5_tests/fixtures'


def run(command, argv, stdin=b''):
    ''' run a command of hwp5proc; what it prints: bytes '''
    import argparse
    import io
    from pyvc.concrete import need
    main, argparser = need('hwp5.proc.' + command, 'main',
                           command + '_argparser')
    p = argparse.ArgumentParser()
    argparser(p.add_subparsers(), lambda s: s)
    args = p.parse_args([command] + list(argv))
    out = io.TextIOWrapper(io.BytesIO(), 'utf-8', newline='')
    with std(Std(io.BytesIO(stdin)), out):
        main(args)
    out.flush()
    return out.buffer.getvalue()


def listing(tree, where=''):
    out = []
    for n in sorted(tree):
        if isinstance(tree[n], dict):
            out += listing(tree[n], where + n + '/')
        else:
            out.append((where + n, tree[n]))
    return out


def is_storage(x):
    return hasattr(x, '__iter__') and hasattr(x, '__getitem__')


def content_of(stg):
    out = {}
    for n in stg:
        x = stg[n]
        if is_storage(x):
            out[n] = content_of(x)
        elif hasattr(x, 'open'):
            f = x.open()
            out[n] = f.read()
            if hasattr(f, 'close'):
                f.close()
    return out


def compare_listing(path, option, tree):
    want = listing(tree)
    got = run('ls', option + [path]).decode('utf-8').splitlines()
    if got != [n.encode('unicode_escape').decode('ascii') for n, d in want]:
        return 'ls %s prints %r' % (option, got)
    for n, data in want:
        got = run('cat', option + [path, n])
        if isinstance(data, str):
            data = data.encode('utf-8')
        if got != data:
            return 'cat %s %r prints %d bytes of %d' % (option, n, len(got),
                                                        len(data))
    return None


def check_ole_commands(seed):
    ''' ls and cat of a compound file '''
    import os
    import random
    import tempfile
    from . import cfb
    rng = random.Random(seed)
    tree = {}
    for size in (0, 1, 4095, 4096, 4097, 8192, 20000):
        tree['s%d' % size] = bytes(bytearray(
            rng.randrange(256) for i in range(size)))
    tree['\x05x'] = b'5'
    tree['d'] = {'a': b'abc', 'e': {'b': bytes(5000)}}
    with tempfile.TemporaryDirectory(prefix='c25-') as d:
        p = os.path.join(d, 'x.hwp')
        with open(p, 'wb') as f:
            f.write(cfb.write(tree, rng))
        return compare_listing(p, ['--ole'], tree)


def check_file_commands(name):
    ''' ls and cat of a document '''
    import os
    from pyvc.concrete import need
    File, Extra = need('hwp5.xmlmodel', 'Hwp5File'), need(
        'hwp5.storage', 'ExtraItemStorage')
    path = os.path.join(FIXTURES, name)
    if not os.path.exists(path):
        return None
    return compare_listing(path, [], content_of(File(path))) \
        or compare_listing(path, ['--vstreams'],
                           content_of(Extra(File(path))))


def check_header_commands(name):
    ''' version and header of a document '''
    import os
    from pyvc.concrete import need
    path = os.path.join(FIXTURES, name)
    if not os.path.exists(path):
        return None
    File, Ole = need('hwp5.xmlmodel', 'Hwp5File'), need(
        'hwp5.storage.ole', 'OleStorage')
    f = Ole(path)['FileHeader'].open()
    raw = f.read()
    f.close()
    version = tuple(bytearray(raw[32:36]))[::-1]
    flags = int.from_bytes(raw[36:40], 'little')
    text = '%d.%d.%d.%d' % version
    got = run('version', [path]).decode('ascii')
    if got != text + '\n':
        return 'version prints %r of a document of version %s' % (got, text)
    lines = dict(x.split(': ', 1) for x in run('header', [path]).decode(
        'utf-8').splitlines())
    want = dict(version=text, signature='HWP Document File',
                compressed=str(flags & 1), password=str(flags >> 1 & 1),
                distributable=str(flags >> 2 & 1))
    for k, v in want.items():
        if lines.get(k) != v:
            return 'header prints %r for %s, not %r' % (lines.get(k), k, v)
    f = File(path)
    for x in [f.docinfo, f.text] + [f.text.section(i)
                                    for i in f.text.section_indexes()]:
        if tuple(x.version) != version:
            return 'a stream of version %r in a document of version %r' % (
                x.version, version)
    return None


def check_summary_command(name):
    import os
    from pyvc.concrete import need
    path = os.path.join(FIXTURES, name)
    if not os.path.exists(path):
        return None
    File, F = need('hwp5.filestructure', 'Hwp5File'), need(
        'hwp5.summaryinfo', 'HwpSummaryInfoTextFormatter')
    want = ''.join(x + '\n' for x in F().formatTextLines(
        File(path).summaryinfo)).encode('utf-8')
    got = run('summaryinfo', [path])
    if got != want:
        return 'summaryinfo prints %r, not %r' % (got[:300], want[:300])
    T = need('hwp5.msoleprops', 'PropertySetStreamTextFormatter')
    info = File(path).summaryinfo
    want = ''.join(x + '\n' for x in T().formatTextLines(
        info.propertySetStream)).encode('utf-8')
    d = info.other_formats()
    if sorted(d) != ['.txt'] or d['.txt']().read() != want \
            or d['.txt']().read() != want:
        return 'the text of the summary differs'
    return None


def check_dist_command(raw, digest, key, want):
    given = [([], want), (['--key', '--raw'], key),
             (['--key'], ''.join('%02x' % b for b in bytearray(key))
              .encode('ascii'))]
    if digest:
        given += [(['--sha1', '--raw'], digest[0]), (['--sha1'], digest[1])]
    for argv, w in given:
        got = run('diststream', argv, raw)
        if got != w:
            return 'diststream %s gives %r, not %r' % (
                ' '.join(argv), got[:80], w[:80])
    return None


def check_xml_command(name):
    ''' the XML written is that of the document '''
    import io
    import os
    import tempfile
    from pyvc.concrete import need
    path = os.path.join(FIXTURES, name)
    if not os.path.exists(path):
        return None
    File, flat = need('hwp5.xmlmodel', 'Hwp5File'), need(
        'hwp5.xmldump_flat', 'xmldump_flat')
    decl = b'<?xml version="1.0" encoding="utf-8"?>\n'
    with tempfile.TemporaryDirectory(prefix='c08-') as d:
        out = os.path.join(d, 'out.xml')
        for fmt in None, 'nested', 'flat':
            for embed in (False, True):
                for bare in (False, True):
                    if fmt == 'flat' and embed:
                        continue
                    argv = ['--no-validate-wellformed', '--output', out]
                    argv += ['--format', fmt] if fmt else []
                    argv += ['--embedbin'] if embed else []
                    argv += ['--no-xml-decl'] if bare else []
                    run('xml', argv + [path])
                    with open(out, 'rb') as f:
                        got = f.read()
                    g = io.BytesIO()
                    if fmt == 'flat':
                        flat(File(path), g, xml_declaration=False)
                    else:
                        File(path).xmlevents(embedbin=embed).dump(
                            g, xml_declaration=False)
                    w = g.getvalue()
                    if not bare:
                        if not got.startswith(decl[:-1]):
                            return 'xml %r: no declaration' % argv[3:]
                        got = got[len(decl) - 1:].lstrip(b'\n')
                    if got != w:
                        return 'xml %r writes other XML: %r, not %r' % (
                            argv[3:], got[:80], w[:80])
    return None
