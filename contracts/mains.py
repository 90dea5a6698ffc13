''' Smaller commands and adapters. '''
from pyvc.unit import unit
from .commands import Args, Std, std


@unit('C17', funcs=['hwp5.proc.unpack.main'],
      covers=['given', 'default', 'new', 'there'])
def unpack_command(E):
    ''' the file is unpacked into the directory given, or the one named like
    the file, which is made if it is not there '''
    import os
    from hwp5.proc import unpack
    names = [('x.hwp', 'x'), ('some/where/a.b.hwp', 'a.b'),
             ('/abs/y.HWP', 'y'), ('../noext', 'noext')]
    name, stem = names[E.choose(len(names))]
    args = Args()
    args.hwp5file = name
    args.out_directory = 'out/dir' if E.choose(2) else None
    want = args.out_directory or stem
    E.cover('given' if args.out_directory else 'default')
    there = bool(E.choose(2))
    E.cover('there' if there else 'new')
    log = []
    opened = object()

    def open_file(a):
        E.prove(a is args, 'the file asked for')
        return opened

    def exists(p):
        E.prove(p == want, 'the directory')
        return there or ('mkdir', p) in log

    def mkdir(p, *mode):
        log.append(('mkdir', p))

    def unpacked(stg, p):
        E.prove(stg is opened, 'the file opened')
        log.append(('unpack', p))
    E.contracts['hwp5.cli.open_hwpfile'] = open_file
    E.contracts['hwp5.storage.unpack'] = unpacked
    E.models[os.path.exists] = exists
    E.models[os.path.isdir] = exists
    E.models[os.mkdir] = mkdir
    E.models[os.makedirs] = mkdir
    unpack.main(args)
    E.prove(log == ([] if there else [('mkdir', want)]) +
            [('unpack', want)], 'unpacked there', repr(log))


@unit('C04', funcs=['hwp5.xmlmodel.prefix_binmodels_with_event',
                    'hwp5.xmlmodel.ModelEventStream.modelevents'],
      covers=['item', 'version', 'events'],
      notes=['prefix_event by its contract (levels)'])
def model_levels(E):
    ''' the events of a stream are those of its models at their levels, each
    with its type and content, in the context given '''
    from .common import fresh_int, fresh_list, SVal, SIter, prove_eq, ti, each
    from hwp5 import xmlmodel as x
    n = fresh_int('models', 0)
    asked = []
    level = fresh_list(E, 'models', n, lambda i, t: E.born(
        dict(level=SVal('level', i), type=SVal('type', i),
             content=SVal('content', i), seqno=i)))

    class Stream(x.ModelEventStream):
        version = 'the version'

        def __init__(self):
            self.wrapped = object()

        def models(self, **kw):
            asked.append(kw)
            return SIter(level, name='models')
    own = {} if E.choose(2) else dict(version='another')
    own['more'] = 'more'
    G = E.G
    G.declare(k=0)
    made = object()

    def prefix(items, root_item=None):
        if root_item is not None:
            E.fail('the root')
        for got in each(items):
            if not isinstance(got, tuple) or len(got) != 2 or \
                    len(got[1]) != 3:
                E.fail('an item with its level')
            i = G.k
            prove_eq(E, got[0], SVal('level', i), 'its level')
            prove_eq(E, got[1][0], SVal('type', i), 'its type')
            prove_eq(E, got[1][1], SVal('content', i), 'its content')
            c = got[1][2]
            E.prove(c == dict(own, version=own.get(
                'version', 'the version')), 'the context', repr(c))
            G.k = G.k + 1
            E.cover('item')
        prove_eq(E, G.k, n, 'all the models')
        return made
    E.contracts['hwp5.treeop.prefix_event'] = prefix

    def inv(L):
        L.ghostlet('k', L.pos)
    E.hints.append((lambda L: True, inv, {}))
    r = Stream().modelevents(**own)
    E.prove(r is made, 'their events')
    E.cover('events')
    E.prove(len(asked) == 1 and asked[0].get('more') == 'more',
            'the models in the context')
    E.cover('version')


class Lines(object):
    ''' standard output which keeps what is printed '''

    def __init__(self):
        self.out = []

    def write(self, s):
        self.out.append(s)

    def flush(self):
        pass


@unit('C18', funcs=['hwp5.proc.version.main', 'hwp5.proc.header.main'],
      covers=['version', 'header'])
def header_commands(E):
    ''' the version and the text of the file header of the file named '''
    import io
    from .common import fresh_bytes, prove_eq, SFile, SOut
    from hwp5.proc import version, header
    args = Args()
    args.hwp5file = 'name'
    text = fresh_bytes('text')
    log = []

    class Header(object):
        version = (5, 0, 3, 12)

        def open_text(self):
            log.append('text')
            return SFile(text)

    class Doc(object):
        header = fileheader = Header()

        def close(self):
            log.append('close')

    def opened(name):
        E.prove(name == 'name', 'the file named')
        return Doc()
    E.contracts['hwp5.filestructure.Hwp5File'] = opened
    if E.choose(2):
        import builtins
        printed = []

        def show(*a, **kw):
            if kw:
                E.fail('printed')
            printed.append(a)
        E.models[builtins.print] = show
        out = Lines()
        with std(None, out):
            version.main(args)
        E.prove(printed == [('5.0.3.12',)] or
                ''.join(out.out) == '5.0.3.12\n', 'the version',
                repr((printed, out.out)))
        E.cover('version')
    else:
        import shutil
        out = SOut()

        def copy(f, g, *size):
            E.prove(g is out, 'to standard output')
            out.write(f.read())
        E.models[shutil.copyfileobj] = copy
        with std(None, Std(out)):
            header.main(args)
        prove_eq(E, out.value(), text, 'the whole text')
        E.prove(log == ['text', 'close'], 'the header of the file')
        E.cover('header')


class LsPath(object):
    ''' a path: the texts it is made of '''
    opaque_order = True

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        return LsPath(self.parts +
                      (o.parts if isinstance(o, LsPath) else (o,)))

    def __radd__(self, o):
        return LsPath((o,) + self.parts)

    def encode(self, encoding):
        from pyvc.core import Unsupported
        if encoding != 'unicode_escape':
            raise Unsupported('an encoding')
        return LsEscaped(self)


class LsEscaped(object):
    def __init__(self, path, text=False):
        self.path, self.text = path, text

    def decode(self, encoding):
        from pyvc.core import Unsupported
        if encoding not in ('utf-8', 'ascii', 'latin1'):
            raise Unsupported('an encoding')
        return LsEscaped(self.path, True)


@unit('C25', funcs=['hwp5.storage.printstorage', 'hwp5.proc.ls.main',
                    'hwp5.storage.is_storage', 'hwp5.storage.is_stream'],
      covers=['storage', 'stream', 'top', 'below', 'finished'])
def listing_command(E):
    ''' every item is listed once: a stream by its path (escaped), a storage
    by its own items below its path '''
    import builtins
    import z3
    from .c17 import SubStg, Leaf
    from .common import (fresh_int, fresh_list, SVal, SIter, ti, prove_eq)
    from hwp5 import storage
    from hwp5.proc import ls
    n = fresh_int('n', 0)
    kinds = z3.Function('isstg', z3.IntSort(), z3.BoolSort())
    names = fresh_list(E, 'names', n, lambda i, tag: E.born(
        LsPath((SVal('name', i),))))
    G = E.G
    G.declare(k=0)
    order = []

    class Stg(object):
        def __iter__(self):
            return SIter(names, name='names')

        def __getitem__(self, name):
            i = name.parts[0]._idx
            E.prove(len(name.parts) == 1, 'an item by its name')
            if E.branch(kinds(ti(i))):
                return SubStg(i)
            return Leaf(E, i)
    top = bool(E.choose(2))
    E.cover('top' if top else 'below')
    base = '' if top else LsPath(('base',))

    def the(path, *more):
        E.prove(isinstance(path, LsPath), 'a path')
        parts = tuple(p for p in path.parts if p != '')
        want = len(parts) == (0 if top else 1) + 1 + len(more) and \
            parts[:-1 - len(more)] == (() if top else ('base',)) and \
            parts[len(parts) - len(more):] == more
        E.prove(bool(want), 'the name below the path of the storage')
        i = parts[0 if top else 1]._idx
        E.prove((order[-1](ti(G.k)) if order else ti(G.k)) == ti(i),
                'every item in turn')
        G.k = G.k + 1
        return i

    def again(stg, path=''):
        if isinstance(stg, Stg):
            E.prove(path == '', 'the paths from the top')
            G.declare(all=1)
            return None
        E.prove(isinstance(stg, SubStg), 'a storage')
        prove_eq(E, the(path, '/'), stg.i, 'the items of that storage')
        E.cover('storage')

    def shown(*a, **kw):
        E.prove(len(a) == 1 and isinstance(a[0], LsEscaped) and a[0].text
                and not kw, 'a line')
        i = the(a[0].path)
        E.prove(z3.Not(kinds(ti(i))), 'a stream')
        E.cover('stream')
    E.models[builtins.print] = shown
    real = storage.printstorage
    if top:
        args = Args()
        opened = Stg()
        E.contracts['hwp5.cli.open_hwpfile'] = lambda a: opened
        called = []

        def whole(stg, path=''):
            E.prove(stg is opened and path == '', 'the whole file')
            called.append(1)
        E.contracts['hwp5.storage.printstorage'] = whole
        ls.main(args)
        E.prove(called == [1], 'the file is listed')
    E.contracts['hwp5.storage.printstorage'] = again

    def inv(L):
        from pyvc.values import segs_of
        segs = L.it.segs() if isinstance(L.it, SIter) else segs_of(L.it)
        b = segs[0].base if segs and not segs[0].lit else None
        if getattr(b, 'sorted_of', None):
            order[:] = [b.sorted_of[1]]
        L.ghostlet('k', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    if top:
        real(Stg())
    else:
        real(Stg(), base)
    prove_eq(E, G.k, n, 'every item is listed')
    E.cover('finished')


@unit('C08', funcs=['hwp5.proc.xml.main', 'hwp5.proc.xml.xmldump_nested',
                    'hwp5.utils.make_open_dest_file',
                    'hwp5.utils.wrap_open_dest',
                    'hwp5.utils.wrap_open_dest_for_tty',
                    'hwp5.utils.cascade_contextmanager_filters'],
      covers=['flat', 'nested', 'file', 'stdout', 'terminal', 'validated',
              'as it is'],
      notes=['the filters (xmllint, pager, highlighting) are trusted: '
             'what is written to them comes out'])
def xml_command(E):
    ''' the XML of the file asked for, in the format asked for, is written
    where it is asked for, through the filters, which are all closed '''
    import builtins
    import contextlib
    import io
    from hwp5.proc import xml
    args = Args()
    args.format = (None, 'nested', 'flat')[E.choose(3)]
    args.no_xml_decl = bool(E.choose(2))
    args.embedbin = bool(E.choose(2))
    args.no_validate_wellformed = bool(E.choose(2))
    args.output = ('out.xml', None)[E.choose(2)]
    args.hwp5file = 'x.hwp'
    tty = args.output is None and bool(E.choose(2))
    E.cover('flat' if args.format == 'flat' else 'nested')
    E.cover('file' if args.output else 'stdout')
    if tty:
        E.cover('terminal')
    E.cover('as it is' if args.no_validate_wellformed else 'validated')
    written, closed = [], []

    class Sink(object):
        def __init__(self, to=None):
            self.to = to

        def isatty(self):
            return tty

        def write(self, data):
            pass

        def flush(self):
            pass

        def close(self):
            closed.append(self)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            closed.append(self)
    last = Sink()

    def opened(path, mode='r', *a, **k):
        E.prove(path == 'out.xml' and mode == 'wb', 'the file asked for')
        return last
    E.models[builtins.open] = opened
    E.models[io.open] = opened

    def a_filter(*a, **k):
        @contextlib.contextmanager
        def filtered(out):
            E.prove(isinstance(out, Sink) and out not in closed,
                    'to an open file')
            s = Sink(out)
            try:
                yield s
            finally:
                closed.append(s)
                E.prove(out not in closed, 'filters are closed in order')
        return filtered
    for f in 'xmllint', 'pager', 'syntaxhighlight':
        E.contracts['hwp5.utils.%s' % f] = a_filter

    class File(object):
        def __init__(self, name):
            E.prove(name == 'x.hwp', 'the file asked for')

        def xmlevents(self, embedbin=False):
            return Events(embedbin)

    class Events(object):
        def __init__(self, embedbin):
            self.embedbin = embedbin

        def dump(self, out, xml_declaration=True):
            written.append(('nested', self.embedbin, xml_declaration, out))

    def flat(f, out, xml_declaration=True):
        E.prove(isinstance(f, File), 'the file asked for')
        written.append(('flat', args.embedbin, xml_declaration, out))
    E.contracts['hwp5.xmlmodel.Hwp5File'] = File
    E.contracts['hwp5.xmldump_flat.xmldump_flat'] = flat
    with std(stdout=Std(last)):
        xml.main(args)
    E.prove(len(written) == 1, 'written once')
    kind, embed, decl, out = written[0]
    E.prove(kind == (args.format or 'nested'), 'in the format asked for')
    E.prove(bool(embed) == args.embedbin, 'with or without binary data')
    E.prove(bool(decl) == (not args.no_xml_decl), 'declared or not')
    while isinstance(out, Sink) and out is not last:
        E.prove(out in closed, 'the filters are closed')
        out = out.to
    E.prove(out is last, 'where it is asked for')
    E.prove((last in closed) == (args.output is not None),
            'the file is closed')
