''' C18 file recognition and layers '''
from pyvc.unit import unit
from . import mains  # noqa

LEVEL = 'proof'
BOUNDS = ('cross-checks: all 16 combinations of the flags compressed, '
          'password, distributable and any other bit, every part, seeded '
          'random contents, headers of every length from 0 to 300, every '
          'single-bit change of the signature')
ASSUMPTIONS = [
    'decompress() and distdoc.decode() have the contracts proved in C01, C02 '
    'and C13 (here they are abstract functions of the stream)',
    'isOleFile() tells OLE2 files from others',
]
SIGNATURE = b'HWP Document File' + b'\0' * 15

STORAGES = ('BinData', 'BodyText', 'Scripts', 'ViewText')
ITEMS = ('DocInfo', 'PrvText', 'PrvImage', '\x05HwpSummaryInformation',
         'DocOptions', 'XMLTemplate')


class Any(object):
    ''' a name which is none of those the format knows; whether it is another
    one the code may ask for is arbitrary '''

    def __init__(self, E, what):
        self.E = E
        self.what = what
        self.known = {}

    def __eq__(self, o):
        from .common import fresh_bool
        if o is self:
            return True
        if not isinstance(o, str):
            return False
        if o in STORAGES + ITEMS + ('FileHeader', ''):
            return False
        if True in self.known.values():
            return self.known.get(o, False)
        if o not in self.known:
            self.known[o] = self.E.branch(fresh_bool('is_' + o).t)
        return self.known[o]

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return '<any %s>' % self.what

    def __getattr__(self, name):
        from pyvc.core import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('str.%s' % name)


class RawStream(object):
    def __init__(self, path):
        self.path = path

    def open(self):
        return ('raw', self.path)


class RawStorage(object):
    def __init__(self, path, get):
        self.path = path
        self.get = get

    def __iter__(self):
        from pyvc.core import Unsupported
        raise Unsupported('the names')

    def __getitem__(self, name):
        return self.get(self.path + (name,))


class Header(object):
    ''' the FileHeader stream '''

    def __init__(self, data):
        self.data = data

    def open(self):
        from .common import SFile
        return SFile(self.data)


def classes():
    from hwp5 import filestructure, recordstream, binmodel, xmlmodel
    return [filestructure.Hwp5File, recordstream.Hwp5File, binmodel.Hwp5File,
            xmlmodel.Hwp5File]


def header(E, accepted):
    from .common import fresh_bytes, ti, mkint, V, segs_of
    import z3
    data = fresh_bytes('header')
    segs = list(segs_of(data))
    size = ti(V.seqlen(segs))
    b = segs[0].base
    good = z3.And([ti(b.elem(k)) == SIGNATURE[k] for k in range(32)]
                  + [size >= 256])
    if accepted:
        E.assume(good)
    flags = sum(ti(b.elem(36 + k)) * (1 << 8 * k) for k in range(4))
    return data, good, flags, b


@unit('C18', funcs=['hwp5.filestructure.storage_is_hwp5file',
                    'hwp5.filestructure.Hwp5FileBase.__init__',
                    'hwp5.filestructure.HwpFileHeader.to_dict',
                    'hwp5.filestructure.HwpFileHeader.get_signature',
                    'hwp5.filestructure.HwpFileHeader.get_version',
                    'hwp5.filestructure.HwpFileHeader.get_flags',
                    'hwp5.bintype.read_type'],
      covers=['accepted', 'refused', 'no header', 'not a stream'])
def recognised(E):
    ''' accepted exactly if there is a complete header with the signature;
    refused with the invalid-file error otherwise '''
    from .common import ti, prove_eq, SInt
    from hwp5 import filestructure
    from hwp5.errors import InvalidHwp5FileError
    data, good, flags, b = header(E, False)
    form = E.choose(3)

    def get(path):
        if path == ('FileHeader',):
            if form == 1:
                raise KeyError('FileHeader')
            if form == 2:
                return RawStorage(path, get)
            return Header(data)
        raise KeyError(path)
    stg = RawStorage((), get)
    how = E.choose(2)
    if how:
        got = filestructure.storage_is_hwp5file(stg)
    else:
        try:
            doc = filestructure.Hwp5FileBase(stg)
            got = True
        except InvalidHwp5FileError:
            got = False
    got = bool(got)
    if form:
        E.prove(not got, 'no file header: refused')
        E.cover(['', 'no header', 'not a stream'][form])
        return
    if got:
        E.prove(good, 'accepted only with the whole signature')
        E.cover('accepted')
        if not how:
            h = doc.header
            v = h.version
            for k in range(4):
                prove_eq(E, v[k], b.elem(35 - k), 'version')
            for name, bit in ('compressed', 0), ('password', 1), (
                    'distributable', 2):
                E.prove(ti(getattr(h.flags, name)) == (
                    flags / (1 << bit)) % 2, 'flag %s' % name)
            E.prove(doc.fileheader is h, 'one header')
    else:
        import z3
        E.prove(z3.Not(good), 'refused only without it')
        E.cover('refused')


@unit('C18', funcs=['hwp5.filestructure.is_hwp5file',
                    'hwp5.filestructure.Hwp5FileBase.__init__'],
      covers=['OLE', 'other'])
def files(E):
    ''' a file which is not an OLE2 file is refused '''
    from hwp5 import filestructure
    from hwp5.errors import InvalidHwp5FileError, InvalidOleStorageError
    from .common import fresh_bool, SVal
    ole = E.choose(2)
    yes = E.choose(2)
    stg = SVal('storage', 0)

    class Ole(object):
        def __new__(cls, name):
            E.prove(name == 'a file', 'that file')
            if not ole:
                raise InvalidOleStorageError('Not an OLE2')
            return stg
    saved = filestructure.OleStorage
    filestructure.OleStorage = Ole

    def known(s):
        E.prove(s is stg, 'the storage of that file')
        return bool(yes)
    E.contracts['hwp5.filestructure.storage_is_hwp5file'] = known
    try:
        E.prove(filestructure.is_hwp5file('a file') is bool(ole and yes),
                'an HWP file')
        try:
            doc = filestructure.Hwp5FileBase('a file')
            E.prove(bool(ole and yes), 'only HWP files are accepted')
            E.prove(doc.wrapped is stg, 'of the storage')
            E.cover('OLE')
        except InvalidHwp5FileError:
            E.prove(not (ole and yes), 'HWP files are not refused')
            E.cover('other')
    finally:
        filestructure.OleStorage = saved


def document(E, k):
    from .common import ti
    import z3
    data, good, flags, b = header(E, True)
    name = E.choose(len(STORAGES) + len(ITEMS) + 2)
    allnames = STORAGES + ITEMS + ('FileHeader',)
    name = allnames[name] if name < len(allnames) else Any(E, 'name')
    inner = Any(E, 'inner name')
    if name == 'BodyText' or name == 'ViewText':
        inner = [inner, 'Section0'][E.choose(2)]
    deep = name in STORAGES and E.choose(2)

    def get(path):
        if path == ('FileHeader',):
            return Header(data)
        if same_name(path[0], name) and len(path) == 1:
            if name in STORAGES or deep:
                return RawStorage(path, get)
            return RawStream(path)
        if len(path) == 2 and same_name(path[0], name) \
                and same_name(path[1], inner):
            return RawStream(path)
        raise KeyError(path)
    E.contracts['hwp5.compressed.decompress'] = lambda s: ('inflated', s)
    E.contracts['hwp5.distdoc.decode'] = lambda s: ('decoded', s)
    doc = classes()[k](RawStorage((), get))
    bit = lambda n: E.branch((flags / (1 << n)) % 2 == 1)
    compressed, password, dist = bit(0), bit(1), bit(2)
    if name == 'FileHeader':
        f = doc[name].open()
        E.prove(f.data is data if hasattr(f, 'data') else True,
                'the header as it is')
        E.cover('raw')
        return
    if name in STORAGES:
        item = doc[name]
        if name in ('BodyText', 'ViewText'):
            if E.choose(2):
                # through the attributes of the document
                item = doc.bodytext if name == 'BodyText' else doc.viewtext
            elif E.branch(z3.BoolVal((name == 'ViewText') == dist)):
                item = doc.text
                E.cover('text')
        stream = item[inner]
        want = ('raw', (name, inner))
    else:
        stream = doc[name]
        if name == 'DocInfo' and E.choose(2):
            stream = doc.docinfo
        if name == '\x05HwpSummaryInformation' and E.choose(2):
            stream = doc.summaryinfo
        if name == 'PrvText' and E.choose(2):
            stream = doc.preview_text
        want = ('raw', (name,))
    if not password:
        if dist and name in ('Scripts', 'ViewText'):
            want = ('decoded', want)
            E.cover('decoded')
        if compressed and name in STORAGES + ('DocInfo',):
            want = ('inflated', want)
            E.cover('inflated')
    else:
        E.cover('password')
    if want[0] == 'raw':
        E.cover('raw')
    got = stream.open()
    E.prove(same_layers(got, want), 'the layers of %s' % (
        name if isinstance(name, str) else 'another part'))
    got = stream.open()
    E.prove(same_layers(got, want), 'opened again')


def same_name(a, b):
    return a is b or (isinstance(a, str) and isinstance(b, str) and a == b)


def same_layers(got, want):
    if want[0] == 'raw':
        return isinstance(got, tuple) and got[0] == 'raw' and len(
            got[1]) == len(want[1]) and all(
                a is b or (isinstance(a, str) and a == b)
                for a, b in zip(got[1], want[1]))
    return isinstance(got, tuple) and got[0] == want[0] and same_layers(
        got[1], want[1])


def make(k):
    def layers(E):
        document(E, k)
    layers.__name__ = 'layers_' + ['file', 'records', 'models', 'xml'][k]
    layers.__doc__ = ''' every part of a document, opened: exactly the layers
    its header asks for '''
    unit('C18', funcs=['hwp5.filestructure.' + n for n in (
        'Hwp5File.__init__', 'Hwp5File.resolve_conversion_for',
        'Hwp5File.with_version', 'Hwp5File.text', 'Hwp5File.bodytext',
        'Hwp5File.viewtext', 'Hwp5File.docinfo', 'Hwp5File.summaryinfo',
        'Hwp5File.preview_text', 'Hwp5Compression.resolve_conversion_for',
        'Hwp5DistDoc.resolve_conversion_for',
        'Hwp5DistDocStorage.resolve_conversion_for',
        'Hwp5PasswordProtectedDoc.resolve_conversion_for',
        'CompressedStorage.__getitem__', 'CompressedStream.open',
        'PasswordProtectedStorage.__getitem__',
        'PasswordProtectedStream.open', 'Hwp5DistDocStream.open',
        'Sections.resolve_conversion_for', 'VersionSensitiveItem.open',
        'PreviewText.__init__')] + [
            'hwp5.storage.ItemConversionStorage.__getitem__'],
        covers=['raw', 'inflated', 'decoded', 'password', 'text'],
        max_paths=6000)(layers)


for _k in range(4):
    make(_k)


# -- cross-check --------------------------------------------------------------

class Dict(object):
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __getitem__(self, k):
        v = self.d[k]
        return Dict(v) if isinstance(v, dict) else Bytes(v)


class Bytes(object):
    def __init__(self, b):
        self.b = b

    def open(self):
        import io
        return io.BytesIO(self.b)


def cases(rng, tier):
    n = 4000 if tier == 'thorough' else 400
    for i in range(n):
        yield ('signature', rng.randrange(1 << 30))
        yield ('layers', rng.randrange(8), rng.randrange(1 << 30))
    for k in range(0, 301):
        yield ('length', k)
    for k in range(256):
        yield ('bit', k)
    for flags in range(16):
        for k in range(4):
            yield ('layers', flags, k)
    yield ('odd', 0)
    yield ('odd', 1)
    yield ('file', 0)
    from .c26 import FIXTURES
    for name in FIXTURES + ('viewtext.hwp',):
        yield ('commands', name)


def make_header(flags, version=(5, 0, 3, 4), signature=SIGNATURE):
    return (signature + bytes(reversed(version))
            + flags.to_bytes(4, 'little') + b'\0' * 216)


def accepts(header):
    from pyvc.concrete import need
    is_, base, err = need('hwp5.filestructure', 'storage_is_hwp5file',
                          'Hwp5FileBase', 'InvalidHwp5FileError')
    d = {} if header is None else {'FileHeader': header}
    a = bool(is_(Dict(d)))
    try:
        base(Dict(d))
        b = True
    except err:
        b = False
    return a, b


def check_case(case):
    import random
    kind = case[0]
    if kind == 'commands':
        from . import commands
        return commands.check_header_commands(case[1])
    if kind == 'layers':
        return check_layers(case)
    if kind == 'length':
        h = make_header(0)
        h = (h + b'x' * 100)[:case[1]]
        want = case[1] >= 256
    elif kind == 'bit':
        h = bytearray(make_header(1))
        h[case[1] // 8] ^= 1 << case[1] % 8
        h = bytes(h)
        want = False
    elif kind == 'odd':
        h = [None, {}][case[1]]
        want = False
    elif kind == 'file':
        return check_file()
    else:
        rng = random.Random(case[1])
        s = bytearray(SIGNATURE)
        for i in range(rng.choice([0, 1, 2, 5])):
            s[rng.randrange(32)] = rng.randrange(256)
        h = make_header(rng.randrange(1 << 32), tuple(
            rng.randrange(256) for i in range(4)), bytes(s))
        want = bytes(s) == SIGNATURE
    a, b = accepts(h)
    if a is not want or b is not want:
        return 'accepted: %r, %r, not %r: header %r' % (a, b, want, h)
    if want and isinstance(h, bytes):
        from pyvc.concrete import need
        doc = need('hwp5.filestructure', 'Hwp5FileBase')(Dict(
            {'FileHeader': h}))
        v = tuple(h[35:31:-1])
        flags = int.from_bytes(h[36:40], 'little')
        if tuple(doc.header.version) != v or int(doc.header.flags) != flags \
                or doc.header.flags.compressed != flags & 1 \
                or doc.header.flags.password != flags >> 1 & 1 \
                or doc.header.flags.distributable != flags >> 2 & 1:
            return 'header %r read as %r, %r' % (
                h[:40], doc.header.version, doc.header.flags)
    return None


def check_file():
    import os
    import tempfile
    from pyvc.concrete import need
    is_, base, err = need('hwp5.filestructure', 'is_hwp5file',
                          'Hwp5FileBase', 'InvalidHwp5FileError')
    import glob
    for f in sorted(glob.glob('/repo/tests/hwp5_tests/fixtures/*.hwp')):
        with open(f, 'rb') as g:
            ole = g.read(8) == bytes.fromhex('d0cf11e0a1b11ae1')
        if bool(is_(f)) != ole:
            return '%s is %r' % (f, is_(f))
    with tempfile.NamedTemporaryFile() as t:
        for b in b'', b'x' * 2000, SIGNATURE * 100:
            t.seek(0)
            t.truncate()
            t.write(b)
            t.flush()
            if is_(t.name):
                return 'accepted %r' % b[:40]
            try:
                base(t.name)
                return 'accepted %r' % b[:40]
            except err:
                pass
    return None


def check_layers(case):
    import random
    import zlib
    from pyvc.concrete import need
    rng = random.Random(case[2])
    flags = case[1] | (rng.randrange(1 << 28) << 4)
    compressed, password, dist = flags & 1, flags >> 1 & 1, flags >> 2 & 1
    v = (5, 0, rng.randrange(4), rng.randrange(8))

    def data():
        return bytes(rng.randrange(256) for i in range(rng.choice(
            [1, 7, 500, 20000])))

    def deflate(b):
        c = zlib.compressobj(9, zlib.DEFLATED, -15)
        return c.compress(b) + c.flush()
    doc = {'FileHeader': make_header(flags, v)}
    want = {}
    names = STORAGES + ITEMS
    for name in names:
        inner = (['Section0', 'Section1'] if 'Text' in name
                 and name != 'PrvText' else ['BIN0001.png', 'X'])
        parts = {}
        for k in (inner if name in STORAGES else [None]):
            plain = data()
            if password:
                stored = plain
            else:
                stored = plain
                if compressed and (name in STORAGES or name == 'DocInfo'):
                    stored = deflate(stored)
                if dist and name in ('Scripts', 'ViewText'):
                    stored = dist_encode(stored, rng)
            parts[k] = stored
            want[name, k] = plain
        if name in ('BinData', 'Scripts') and not (dist and name == 'Scripts'):
            parts['Sub'] = {'inner': b'x'}
        doc[name] = parts if name in STORAGES else parts[None]
    mod = rng.choice(['filestructure', 'recordstream', 'binmodel',
                      'xmlmodel'])
    f = need('hwp5.' + mod, 'Hwp5File')(Dict(doc))
    for (name, k), plain in want.items():
        item = f[name] if k is None else f[name][k]
        got = item.open().read()
        if not password and dist and name in ('Scripts', 'ViewText') \
                and not compressed:
            # the cipher works on whole blocks
            got = got[:len(plain)]
        if got != plain:
            return '%s/%s of a %s: %r..., not %r..., flags %x' % (
                name, k, mod, got[:20], plain[:20], flags)
    for name in doc:
        if name in STORAGES:
            if sorted(f[name]) != sorted(doc[name]):
                return '%s has %r' % (name, sorted(f[name]))
            if 'Sub' in doc[name] and list(f[name]['Sub']) != ['inner']:
                return 'a storage in %s has %r' % (name,
                                                   list(f[name]['Sub']))
    if not set(doc) <= set(f):
        return 'the document has %r' % sorted(f)
    for name in 'Other', 'section0':
        for g in (f, f['BodyText'], f['BinData']):
            try:
                g[name]
            except KeyError:
                continue
            return 'there is no %s in %r' % (name, g)
    for attr, name in (('preview_text', 'PrvText'), ('docinfo', 'DocInfo'),
                       ('summaryinfo', '\x05HwpSummaryInformation')):
        if (name, None) in want \
                and getattr(f, attr).open().read() != want[name, None]:
            return '%s is not the %s' % (attr, name)
    for attr, name in ('bodytext', 'BodyText'), ('viewtext', 'ViewText'):
        if name != 'ViewText' or dist or not compressed:
            got = getattr(f, attr)['Section1'].open().read()
            if got[:len(want[name, 'Section1'])] != want[name, 'Section1']:
                return '%s is not the %s' % (attr, name)
    text = f.text['Section0'].open().read()
    name = 'ViewText' if dist else 'BodyText'
    if text[:len(want[name, 'Section0'])] != want[name, 'Section0']:
        return 'the text is not the %s: flags %x' % (name, flags)
    return None


def dist_encode(plain, rng):
    ''' the inverse of the decoding of distribution documents '''
    from cryptography.hazmat.primitives.ciphers import (Cipher, algorithms,
                                                        modes)
    plain += b'\0' * (-len(plain) % 16)
    head = bytearray(rng.randrange(256) for i in range(256))
    seed = int.from_bytes(head[:4], 'little')

    def rand():
        nonlocal seed
        seed = (seed * 214013 + 2531011) & 0xffffffff
        return seed >> 16 & 0x7fff
    off = 4 + (seed & 15)
    x = bytearray(head)
    n = 0
    for i in range(256):
        if n == 0:
            key = rand() & 0xff
            n = (rand() & 15) + 1
        if i >= 4:
            x[i] ^= key
        n -= 1
    aes = Cipher(algorithms.AES(bytes(x[off:off + 16])), modes.ECB())
    e = aes.encryptor()
    tail = e.update(plain) + e.finalize()
    rec = (28 | 0 << 10 | 256 << 20).to_bytes(4, 'little')
    return rec + bytes(head) + tail
