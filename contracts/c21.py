''' C21 the ODT package '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('cross-checks: seeded random packages of up to 1500 files, by path or '
          'by stream, with paths and media types of any characters XML and '
          'zip allow, contents up to 200 kB; packages of the sample files')
ASSUMPTIONS = [
    'the paths inserted are different from each other and, like the media '
    'types, consist of characters XML allows; no NUL',
    'ZipFile.writestr(path, data) stores exactly data under path (trusted)',
    'XMLGenerator writes well-formed XML for properly nested calls, with the '
    'attribute values given (trusted)',
]
TRUSTED = ['zipfile.ZipFile', 'xml.sax.saxutils.XMLGenerator', 'io.BytesIO']
MANIFEST = 'urn:oasis:names:tc:opendocument:xmlns:manifest:1.0'
ODT = 'application/vnd.oasis.opendocument.text'


class Zip(object):
    def __init__(self):
        self.log = []

    def writestr(self, path, data):
        self.log.append((path, data))

    def close(self):
        self.log.append('close')


class In(object):
    ''' a stream '''

    def __init__(self, data):
        self.data = data
        self.done = False

    def read(self, *a):
        from pyvc.core import Unsupported
        if a or self.done:
            raise Unsupported('read(%r)' % (a,))
        self.done = True
        return self.data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def entries(E):
    ''' any number of files inserted before '''
    from .common import fresh_int, fresh_list, SVal
    n = fresh_int('files', 0)

    def elem(i, tag):
        d = dict(full_path=SVal('path', i, truth='any'),
                 media_type=SVal('type', i, truth='any'))
        E.born(d)
        return d
    return n, fresh_list(E, 'files', n, elem)


def package(E, z):
    from .common import SList, segs_of
    from hwp5.hwp5odt import ODTPackage
    from pyvc.core import Unsupported
    p = ODTPackage(z)
    lists = [k for k, v in p.__dict__.items() if isinstance(v, (list, SList))]
    if len(lists) != 1:
        raise Unsupported('state of a package: %r' % sorted(p.__dict__))
    E.prove(len(p.__dict__[lists[0]]) == 0, 'empty at first')
    E.prove(z.log == [], 'nothing is stored at first')
    n, files = entries(E)
    setattr(p, lists[0], SList(list(segs_of(files))))
    return p, lists[0], n, files


def check_insert(E, p, attr, n, files, z, path, data, media):
    from .common import segs_of, V, prove_eq, ti, mkint
    E.prove(len(z.log) == 1, 'stored once')
    prove_eq(E, z.log[0][0], path, 'under its path')
    E.prove(z.log[0][1] is data, 'exactly its bytes')
    now = getattr(p, attr)
    prove_eq(E, mkint(ti(V.seqlen(segs_of(now)))), mkint(ti(n) + 1),
             'one more file to list')
    e = now[n]
    E.prove(isinstance(e, dict) and set(e) == {'full_path', 'media_type'},
            'what is listed')
    prove_eq(E, e['full_path'], path, 'its path is listed')
    E.prove(e['media_type'] is media, 'its media type is listed')
    if E.branch(ti(n) > 0):
        from .common import fresh_int
        i = fresh_int('i', 0)
        E.assume(ti(i) < ti(n))
        E.prove(now[i] is files[i], 'the others stay listed')
        E.cover('more')
    else:
        E.cover('first')


@unit('C21', funcs=['hwp5.hwp5odt.ODTPackage.__init__',
                    'hwp5.hwp5odt.ODTPackage.insert_stream',
                    'hwp5.hwp5odt.ODTPackage.insert_path'],
      covers=['first', 'more', 'by path'])
def insert(E):
    ''' inserting stores the bytes under the path and adds one entry to what
    will be listed, keeping the others '''
    import io
    from .common import fresh_text, SVal
    z = Zip()
    p, attr, n, files = package(E, z)
    path, media = fresh_text('path'), SVal('newtype', 0, truth='any')
    data = SVal('data', 0, truth='any')
    src = SVal('file', 0)

    def opened(f, mode='r', *a, **k):
        E.prove(f is src and mode == 'rb', 'the file is opened')
        E.cover('by path')
        return In(data)
    E.models[io.open] = opened
    if E.choose(2):
        p.insert_path(src, path, media)
    else:
        p.insert_stream(In(data), path, media)
    check_insert(E, p, attr, n, files, z, path, data, media)


@unit('C21', funcs=['hwp5.hwp5odt.ODTPackage.close'], covers=['closed'])
def closing(E):
    ''' closing stores the manifest of all the files inserted and the mimetype,
    once, then closes '''
    from .common import SVal, Rope, segs_of, V, prove_eq, fresh_bytes
    z = Zip()
    p, attr, n, files = package(E, z)
    text = fresh_bytes('manifest')
    got = []

    def manifest_xml(f, fs):
        got.append(fs)
        f.write(text)
    E.contracts['hwp5.hwp5odt.manifest_xml'] = manifest_xml
    lst = getattr(p, attr)
    p.close()
    E.prove(len(got) == 1, 'one manifest')
    prove_eq(E, got[0], files, 'of all the files inserted')
    E.prove(z.log[-1] == 'close' and z.log.count('close') == 1,
            'closed at the end')
    log = dict(x for x in z.log if x != 'close')
    E.prove(len(z.log) == 3 and set(log) == {
        'META-INF/manifest.xml', 'mimetype'}, 'the manifest and the mimetype')
    E.prove(log['mimetype'] in (ODT, ODT.encode()), 'the mimetype')
    prove_eq(E, log['META-INF/manifest.xml'], text, 'the whole manifest')
    E.cover('closed')


@unit('C21', funcs=['hwp5.hwp5odt.manifest_xml'],
      covers=['root', 'file', 'finished'])
def manifest(E):
    ''' the manifest lists the package and every file once, in order, each
    element closed '''
    from xml.sax.saxutils import XMLGenerator
    from .common import SVal, prove_eq, ti, fresh_int, SIter
    from hwp5 import hwp5odt
    n, files = entries(E)
    G = E.G
    G.declare(k=0, phase=0)     # phase: 0 before, 1 in the manifest, 2 in an
    out = SVal('output', 0)     # entry, 3 after, 4 ended

    class Gen(object):
        def startDocument(self):
            E.prove(ti(G.phase) == 0, 'first')

        def startPrefixMapping(self, prefix, uri):
            E.prove(prefix == 'manifest' and uri == MANIFEST, 'namespace')

        def endPrefixMapping(self, prefix):
            E.prove(prefix == 'manifest', 'namespace')

        def endDocument(self):
            E.prove(ti(G.phase) == 3, 'last')
            G.phase = 4

        def startElementNS(self, name, qname, attrs):
            E.prove(name[0] == MANIFEST
                    and qname == 'manifest:' + name[1], 'a manifest element')
            a = dict((k[1], v) for k, v in attrs.items())
            E.prove(all(k[0] == MANIFEST for k in attrs), 'its attributes')
            if name[1] == 'manifest':
                E.prove(ti(G.phase) == 0, 'the manifest, once')
                G.phase = 1
                G.k = -1
                return
            E.prove(name[1] == 'file-entry', 'an entry')
            E.prove(ti(G.phase) == 1, 'entries are in the manifest')
            if E.branch(ti(G.k) == -1):
                E.prove(a.get('full-path') == '/'
                        and a.get('media-type') == ODT, 'the package')
                E.cover('root')
            else:
                E.prove(ti(G.k) < ti(n), 'nothing else is listed')
                E.prove(set(a) == {'full-path', 'media-type'}, 'attributes')
                f = files[G.k]
                E.prove(a['full-path'] == f['full_path'], 'the path')
                E.prove(a['media-type'] == f['media_type'], 'the media type')
                E.cover('file')
            G.phase = 2

        def endElementNS(self, name, qname):
            if name[1] == 'manifest':
                E.prove(ti(G.phase) == 1, 'properly nested')
                G.phase = 3
                return
            E.prove(name == (MANIFEST, 'file-entry')
                    and qname == 'manifest:file-entry', 'properly nested')
            E.prove(ti(G.phase) == 2, 'properly nested')
            G.phase = 1
            G.k = G.k + 1

    def gen(o=None, encoding='iso-8859-1', *a):
        E.prove(o is out, 'to the file given')
        E.prove(encoding.lower() == 'utf-8', 'UTF-8')
        return Gen()
    E.models[XMLGenerator] = gen

    def inv(L):
        L.ghostlet('k', L.pos)
        L.ghostlet('phase', 1)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    hwp5odt.manifest_xml(out, files)
    E.prove(ti(G.phase) == 4, 'the manifest is complete')
    prove_eq(E, G.k, n, 'every file is listed')
    E.cover('finished')


@unit('C21', funcs=['hwp5.hwp5odt.ODTTransform.transform_hwp5_to_package',
                    'hwp5.hwp5odt.ODTTransform.transform_xhwp5_into_package'],
      covers=['embedded', 'none', 'finished'])
def parts(E):
    ''' the package of a document: its styles, content, metadata and every
    embedded file '''
    from contextlib import contextmanager
    from .common import SVal, prove_eq, ti, fresh_int, fresh_list, SIter
    from pyvc.core import Unsupported
    from hwp5 import hwp5odt
    n = fresh_int('embedded', 0)
    names = fresh_list(E, 'names', n, lambda i, tag: Name(i))
    has = E.choose(2)
    log = []
    G = E.G
    G.declare(k=0)

    class Bin(object):
        def __iter__(self):
            return SIter(names, name='names')

        def __getitem__(self, name):
            if not isinstance(name, Name):
                raise Unsupported('another name')
            return Item(name.i)

    class Item(object):
        def __init__(self, i):
            self.i = i

        def open(self):
            return In(SVal('content', self.i, truth='any'))

    class Doc(object):
        def __contains__(self, name):
            E.prove(name == 'BinData', 'embedded files')
            return bool(has)

        def __getitem__(self, name):
            E.prove(name == 'BinData' and bool(has), 'embedded files')
            return Bin()

    class Package(object):
        def insert_stream(self, f, path, media_type):
            if isinstance(path, str):
                log.append((path, media_type, f.read()))
                return
            E.prove(isinstance(path, Joined) and path.prefix == 'bindata/'
                    and isinstance(f, In), 'an embedded file')
            prove_eq(E, path.i, G.k, 'every embedded file in turn')
            x = f.read()
            E.prove(isinstance(x, SVal) and x._base == 'content', 'content')
            prove_eq(E, x._idx, G.k, 'its own content')
            E.cover('embedded')
            G.k = G.k + 1

        def insert_path(self, src, path, media_type):
            log.append((path, media_type, src))

    class T(object):
        @contextmanager
        def transformed_xhwp5_at_temp(self, doc):
            yield 'xml'

        @contextmanager
        def transformed_styles_at_temp(self, path):
            yield ('styles of', path)

        @contextmanager
        def transformed_content_at_temp(self, path):
            yield ('content of', path)

        def transform_xhwp5_into_package(self, path, pkg):
            log.append('document')
    cls = hwp5odt.ODTTransform
    pkg = Package()

    def inv(L):
        L.ghostlet('k', L.pos)
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    if E.choose(2):
        cls.transform_hwp5_to_package(T(), Doc(), pkg)
        E.prove(log == ['document'], 'the document')
        if has:
            prove_eq(E, G.k, n, 'every embedded file')
            E.cover('finished')
        else:
            prove_eq(E, G.k, 0, 'nothing embedded')
            E.cover('none')
    else:
        f = cls.transform_xhwp5_into_package.fget(T())
        f('xml', pkg)
        E.prove(sorted(x[0] for x in log) == [
            'content.xml', 'manifest.rdf', 'styles.xml'], 'the parts')
        for path, media, src in log:
            if path == 'manifest.rdf':
                E.prove(media == 'application/rdf+xml', 'media type')
            else:
                E.prove(media == 'text/xml', 'media type')
                E.prove(src == (path[:-4] + ' of', 'xml'), 'the part')


class Name(object):
    def __init__(self, i):
        self.i = i

    def __radd__(self, prefix):
        return Joined(prefix, self.i)


class Joined(object):
    def __init__(self, prefix, i):
        self.prefix, self.i = prefix, i


# -- cross-check --------------------------------------------------------------

ODD = ['<', '>', '&', '"', "'", ' ', '\t', '\n', '\r', '\uac00', '\U0001f600',
       '\u00e9', '\ufffd', ']]>', '&amp;', '%', '\\', '{', '\u2028', '\x85',
       '\x7f']


def word(rng):
    return ''.join(rng.choice(ODD) if rng.random() < .4 else
                   chr(rng.randrange(0x20, 0x7f))
                   for i in range(rng.randrange(1, 12)))


def cases(rng, tier):
    n = 6000 if tier == 'thorough' else 500
    for i in range(n):
        yield ('package', rng.randrange(1 << 30))
        if i % 3 == 0:
            yield ('parts', rng.randrange(1 << 30))


def read_manifest(data):
    import xml.etree.ElementTree as ET
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        return 'the manifest is not well-formed: %s: %r' % (e, data[:500])
    q = '{%s}' % MANIFEST
    if root.tag != q + 'manifest':
        return 'root %s' % root.tag
    out = []
    for e in root:
        if e.tag != q + 'file-entry' or len(e):
            return 'element %s' % e.tag
        out.append((e.get(q + 'full-path'), e.get(q + 'media-type')))
    return out


def check_package(data, files):
    import io
    import zipfile
    z = zipfile.ZipFile(io.BytesIO(data))
    names = z.namelist()
    want = [f[0] for f in files] + ['META-INF/manifest.xml', 'mimetype']
    if sorted(names) != sorted(want):
        return 'entries %r, not %r' % (sorted(names), sorted(want))
    for path, media, content in files:
        if z.read(path) != content:
            return 'content of %r' % path
    if z.read('mimetype') != ODT.encode():
        return 'mimetype %r' % z.read('mimetype')
    m = read_manifest(z.read('META-INF/manifest.xml'))
    if isinstance(m, str):
        return m
    want = [('/', ODT)] + [f[:2] for f in files]
    if sorted(m) != sorted(want):
        return 'listed %r, not %r' % (sorted(m), sorted(want))
    return None


def check_case(case):
    import io
    import os
    import random
    import tempfile
    from pyvc.concrete import need
    Package = need('hwp5.hwp5odt', 'ODTPackage')
    rng = random.Random(case[1])
    if case[0] == 'parts':
        return check_parts(rng)
    files = []
    seen = set()
    for i in range(rng.choice([0, 1, 3, 60]) if rng.random() < .97
                   else 1500):
        path = word(rng).replace('\\', '/') if rng.random() < .7 \
            else 'Pictures/%d.png' % i
        if path in seen or path in ('META-INF/manifest.xml', 'mimetype'):
            continue
        seen.add(path)
        files.append((path, rng.choice((word(rng), 'image/png', '')),
                      rng.randbytes(rng.choice([0, 1, 9, 3000, 70000]))))
    byname = rng.random() < .3
    with tempfile.TemporaryDirectory(prefix='c21-') as d:
        dest = os.path.join(d, 'x.odt') if byname else io.BytesIO()
        if byname:
            p = Package(dest)
        else:
            import zipfile
            p = Package(zipfile.ZipFile(dest, 'w'))
        for path, media, content in files:
            if rng.random() < .3:
                src = os.path.join(d, 'src')
                with open(src, 'wb') as f:
                    f.write(content)
                p.insert_path(src, path, media)
            else:
                p.insert_stream(io.BytesIO(content), path, media)
        p.close()
        if byname:
            with open(dest, 'rb') as f:
                data = f.read()
        else:
            data = dest.getvalue()
    return check_package(data, files)


def check_parts(rng):
    import io
    import zipfile
    from contextlib import contextmanager
    from pyvc.concrete import need
    Package, cls = need('hwp5.hwp5odt', 'ODTPackage', 'ODTTransform')
    import os
    import tempfile
    styles, content = b'<s/>' + bytes(rng.randrange(65, 90) for i in range(
        rng.randrange(50))), b'<c/>'
    embedded = dict((word(rng).replace('\\', '/').replace('\n', '_'), rng.randbytes(
        rng.choice([0, 5, 70000])))
        for i in range(rng.randrange(5)))

    class Item(object):
        def __init__(self, b):
            self.b = b

        def open(self):
            return io.BytesIO(self.b)
    doc = {}
    if embedded or rng.random() < .5:
        doc['BinData'] = dict((k, Item(v)) for k, v in embedded.items())
    with tempfile.TemporaryDirectory(prefix='c21-') as d:
        class T(cls):
            def __init__(self):
                pass

            @contextmanager
            def transformed_xhwp5_at_temp(self, hwp5file):
                yield 'xml'

            @contextmanager
            def transformed_styles_at_temp(self, path):
                with open(os.path.join(d, 's'), 'wb') as f:
                    f.write(styles)
                yield os.path.join(d, 's')

            @contextmanager
            def transformed_content_at_temp(self, path):
                with open(os.path.join(d, 's'), 'wb') as f:
                    f.write(content)
                yield os.path.join(d, 's')
        out = io.BytesIO()
        p = Package(zipfile.ZipFile(out, 'w'))
        T().transform_hwp5_to_package(doc, p)
        p.close()
    z = zipfile.ZipFile(io.BytesIO(out.getvalue()))
    rdf = z.read('manifest.rdf')
    import xml.etree.ElementTree as ET
    try:
        ET.fromstring(rdf)
    except ET.ParseError as e:
        return 'manifest.rdf is not well-formed: %s' % e
    files = [('styles.xml', 'text/xml', styles),
             ('content.xml', 'text/xml', content),
             ('manifest.rdf', 'application/rdf+xml', rdf)]
    files += [('bindata/' + k, 'application/octet-stream', v)
              for k, v in embedded.items()]
    return check_package(out.getvalue(), files)
