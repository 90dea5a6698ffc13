''' C13 distribution documents '''
from . import commands  # noqa
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('cross-checks: random distribution headers of 256 bytes (every '
          'seed nibble, digests at every offset) and other lengths, random '
          'tails of 0..40 blocks, streams which do not begin with a '
          'distribution header')
ASSUMPTIONS = [
    'the AES-128-ECB primitive of the cryptography package is right '
    '(cross-checked with an independent implementation on random blocks)',
    'read_record has the contract proved in C01',
]
TRUSTED = ['cryptography.hazmat (AES-128-ECB)']


def spec(E, prefix=''):
    ''' the seeded generator, and the state before each of the 256 bytes:
    S the seed, K the key byte, N how many bytes it is still good for '''
    import z3
    I = z3.IntSort()
    S, K, N = [z3.Function(prefix + x, I, I) for x in 'SKN']

    NEXT = z3.Function(prefix + 'next', I, I)
    VAL = z3.Function(prefix + 'value', I, I)

    def step(s):
        ''' one draw: new seed and value; what these are is the contract of
        Random, proved in the unit `generator' '''
        s2 = NEXT(s)
        E.assume(z3.And(VAL(s2) >= 0, VAL(s2) < 32768))
        return s2, VAL(s2)

    def msvc(s):
        s2 = (s * 214013 + 2531011) % (1 << 32)
        return s2, (s2 / (1 << 16)) % (1 << 15)

    def unfold(i):
        ''' the definition of the state before byte i + 1, given i '''
        s1, r1 = step(S(i))
        s2, r2 = step(s1)
        draw = N(i) == 0
        E.assume(z3.And(
            K(i + 1) == z3.If(draw, r1 % 256, K(i)),
            S(i + 1) == z3.If(draw, s2, S(i)),
            N(i + 1) == z3.If(draw, r2 % 16 + 1, N(i)) - 1))
    return S, K, N, step if prefix else msvc, unfold


@unit('C13', funcs=['hwp5.distdoc.Random.__init__',
                    'hwp5.distdoc.Random.rand'])
def generator(E):
    ''' rand() of the MSVC runtime, for every seed '''
    from .common import fresh_int, prove_eq, mkint
    from hwp5.distdoc import Random
    s = fresh_int('s', 0, (1 << 32) - 1)
    S, K, N, step, unfold = spec(E)
    r = Random(s)
    got = r.rand()
    s2, v = step(s.t)
    prove_eq(E, got, mkint(v), 'the value')
    got2 = r.rand()
    s3, v3 = step(s2)
    prove_eq(E, got2, mkint(v3), 'the next value')


class Rng(object):
    ''' contract of Random '''

    def __init__(self, seed, step):
        self.seed = seed
        self.step = step

    def rand(self):
        from .common import ti, mkint
        from pyvc.core import engine
        s2, v = self.step(ti(self.seed))
        engine().touch(self, 'seed')
        self.seed = mkint(s2)
        return mkint(v)


@unit('C13', funcs=['hwp5.distdoc.decode_head_to_sha1',
                    'hwp5.distdoc.decode_head_to_key'],
      covers=['decoded', 'refused', 'digest', 'key'], max_seconds=90)
def header(E):
    ''' the digest of every header: bytes [4 + seed % 16, + 80) of the
    header with byte i >= 4 XORed with its key byte; the key is the first 16
    of these; a header of another length is refused '''
    import z3
    from .common import (fresh_int, fresh_bytes, prove_eq, ti, mkint, Rope,
                         View, Base, SList, SIter, SInt, segs_of, V,
                         fresh_list)
    from hwp5 import distdoc
    n = fresh_int('size', 0)
    data = fresh_bytes('payload', n)
    fn, what = [(distdoc.decode_head_to_sha1, 'digest'),
                (distdoc.decode_head_to_key, 'key')][E.choose(2)]
    if not E.branch(ti(n) == 256):
        E.cover('refused')
        try:
            fn(data)
        except Exception:
            E.prove(True, 'a header of another length is refused')
            return
        E.fail('a header of another length is refused')

    S, K, N, step, unfold = spec(E, 'h')
    source = segs_of(data)[0].base

    def byte(i):
        return ti(source.elem(mkint(i)))
    E.assume(S(0) == sum(byte(z3.IntVal(k)) * (1 << 8 * k)
                         for k in range(4)))
    E.assume(z3.And(N(0) == 0, S(0) >= 0))
    unfold(z3.IntVal(0))

    def decoded(i):
        i = ti(i)
        unfold(i)
        E.assume(z3.And(K(i) >= 0, K(i) < 256, K(i + 1) >= 0, K(i + 1) < 256))
        b = SInt(byte(i))
        x = b ^ SInt(K(i + 1))
        return mkint(z3.If(i < 4, b.t, ti(x)))
    dec = Base(E.fresh('decoded'), 'list', z3.IntVal(256), decoded)
    dec.ext = True
    made = []

    def Random(seed):
        r = Rng(seed, step)
        E.born(r)
        made.append(r)
        return r
    E.contracts['hwp5.distdoc.Random'] = Random

    def symbolic_range(*a):
        if len(a) == 1:
            a = (0,) + a
        if len(a) == 2 and all(isinstance(x, int) for x in a) \
                and a[1] - a[0] > 16:
            lo = a[0]
            m = fresh_int('range')
            E.assume(m.t == a[1] - a[0])
            r = fresh_list(E, 'range', m, lambda i, tag: mkint(ti(i) + lo))
            it = SIter(r, name='range')
            it.first = lo
            return it
        return range(*a)
    E.models[range] = symbolic_range

    def byte_list(x):
        return SList(segs_of(x))
    E.models[bytearray] = byte_list

    def inv(L):
        # bytes 0..i-1 are done, the rest are as in the header
        first = L.it.first
        i = z3.simplify(ti(L.pos) + first)
        unfold(z3.simplify(i - 1))
        unfold(i)
        arr = L.the_list('data')
        L.contents(arr, Rope('list', V.normal(
            [View(dec, 0, i)] + list(segs_of(data[mkint(i):])))))
        for r in made:
            L.attr(r, 'seed', SInt(S(i)))
        L.int_candidate('the key byte', lambda x: ti(x) == K(i))
        L.int_candidate('what is left of the run', lambda x: ti(x) == N(i))
        L.int_candidate('from 0', lambda x: ti(x) >= 0)
        L.int_candidate('a byte', lambda x: ti(x) < 256)
    E.hints.append((lambda L: isinstance(L.it, SIter) and
                    L.it.name == 'range', inv, {}))
    got = fn(data)
    E.cover('decoded')
    E.cover(what)
    off = 4 + S(0) % 16
    want = V.cut(list(segs_of(Rope('list', [View(dec, 0, z3.IntVal(256))]))),
                 V.lval(off))[1]
    want = V.cut(want, 80 if what == 'digest' else 16)[0]
    E.prove(V.segs_eq(segs_of(got), want, True), 'the %s is the decoded '
            'bytes' % what)


@unit('C13', funcs=['hwp5.distdoc.decode', 'hwp5.distdoc.decrypt_tail'],
      covers=['decoded', 'another record', 'no record'])
def whole(E):
    ''' decode() decrypts all that follows the header record with the key
    of its payload; without a header record it is refused '''
    import io
    from .common import (fresh_int, fresh_bytes, prove_eq, ti, mkint, SVal,
                         SInt, V, SFile, same_item)
    from hwp5 import distdoc
    from hwp5.tagids import HWPTAG_DISTRIBUTE_DOC_DATA as TAG
    E.prove(TAG == 0x1c, 'the tag of a distribution header')
    tag = fresh_int('tag', 0, 1023)
    size = fresh_int('size', 0)
    payload = fresh_bytes('payload', size)
    tail = fresh_bytes('tail')
    f = SFile(tail)
    has = E.choose(2)
    key = SVal('key', 0)
    out = fresh_bytes('decrypted')
    log = []

    def read_record(stream, seqno=None):
        if stream is not f:
            E.fail('the header is read from the stream')
        log.append('header')
        if not has:
            return None
        return dict(tagid=tag, tagname='X', level=0, size=size,
                    payload=payload, seqno=seqno)
    E.contracts['hwp5.recordstream.read_record'] = read_record

    def to_key(p):
        E.prove(p is payload or V.same(p, payload), 'the key is that of the '
                'header payload')
        if E.choose(2):
            raise ValueError('payload size must be 256 bytes')
        return key
    E.contracts['hwp5.distdoc.decode_head_to_key'] = to_key

    def decrypt(k, data):
        E.prove(k is key, 'the key of the header is used')
        E.prove(log == ['header'], 'the header is read first, once')
        prove_eq(E, data, tail, 'all that follows the header is decrypted')
        log.append('decrypted')
        return out
    E.contracts['hwp5.plat.get_aes128ecb_decrypt'] = lambda: decrypt
    E.models[io.BytesIO] = lambda x: SFile(x)
    try:
        got = distdoc.decode(f)
    except Exception as ex:
        if has and E.valid(ti(tag) == TAG) and not isinstance(ex, ValueError):
            raise
        if not has:
            E.cover('no record')
        elif not E.valid(ti(tag) == TAG):
            E.cover('another record')
            E.prove(ti(tag) != TAG, 'a header record is not refused')
        E.prove('decrypted' not in log, 'nothing is decrypted')
        return
    E.prove(bool(has), 'a stream without a header is refused')
    E.prove(ti(tag) == TAG, 'another record is refused')
    E.cover('decoded')
    E.prove(log == ['header', 'decrypted'], 'it is decrypted')
    prove_eq(E, got.read(), out, 'what was decrypted, from its beginning')


@unit('C13', funcs=['hwp5.filestructure.Hwp5DistDocStream.open',
                    'hwp5.filestructure.Hwp5DistDocStream.head_record',
                    'hwp5.filestructure.Hwp5DistDocStream.head',
                    'hwp5.filestructure.Hwp5DistDocStream.head_stream',
                    'hwp5.filestructure.Hwp5DistDocStream.head_sha1',
                    'hwp5.filestructure.Hwp5DistDocStream.head_key',
                    'hwp5.filestructure.Hwp5DistDocStream.tail',
                    'hwp5.filestructure.Hwp5DistDocStream.tail_stream',
                    'hwp5.filestructure.Hwp5DistDocStream.tail_decrypted'],
      covers=['open', 'head', 'head_stream', 'head_sha1', 'head_key', 'tail',
              'tail_stream', 'tail_decrypted'],
      notes=['decode, read_record and the decoding of the header by their '
             'contracts'])
def stream_parts(E):
    ''' the parts of a distribution stream: header, key, what follows the
    header, decrypted with the key of this header '''
    import io
    from .common import (fresh_int, fresh_bytes, prove_eq, ti, mkint, SVal,
                         V, SFile, Rope, segs_of)
    from hwp5 import filestructure
    payload = fresh_bytes('payload', 256)
    head = fresh_bytes('record header', 4)
    tail = fresh_bytes('tail')
    whole = head + payload + tail
    opened = []

    class Item(object):
        def open(self):
            f = SFile(whole)
            opened.append(f)
            return f
    level = fresh_int('level', 0, 1023)

    def read_record(f, seqno=None):
        if not any(f is g for g in opened):
            E.fail('the stream is read')
        prove_eq(E, f.tell(), 0, 'the header is the first record')
        f.read(4)
        got = f.read(256)
        return dict(tagid=0x1c, tagname='HWPTAG_DISTRIBUTE_DOC_DATA',
                    level=level, size=256, payload=got, seqno=seqno)
    E.contracts['hwp5.recordstream.read_record'] = read_record
    key = fresh_bytes('key', 16)
    digest = fresh_bytes('digest', 80)
    out = fresh_bytes('decrypted')

    def of_header(value):
        def model(p):
            prove_eq(E, p, payload, 'of the payload of the header')
            return value
        return model
    E.contracts['hwp5.distdoc.decode_head_to_key'] = of_header(key)
    E.contracts['hwp5.distdoc.decode_head_to_sha1'] = of_header(digest)

    def decrypt(k, data):
        prove_eq(E, k, key, 'the key of this header')
        prove_eq(E, data, tail, 'what follows the header')
        return out
    E.contracts['hwp5.distdoc.decrypt_tail'] = decrypt

    def decode(f):
        if not any(f is g for g in opened):
            E.fail('the stream is decoded')
        prove_eq(E, f.tell(), 0, 'from its beginning')
        return SFile(out)
    E.contracts['hwp5.distdoc.decode'] = decode
    E.models[io.BytesIO] = lambda x: SFile(x)
    names = ['open', 'head', 'head_stream', 'head_sha1', 'head_key', 'tail',
             'tail_stream', 'tail_decrypted']
    want = [out, payload, payload, digest, key, tail, tail, out]
    which = E.choose(len(names))
    s = filestructure.Hwp5DistDocStream(Item(), None)
    # twice: nothing depends on what was read before
    for i in range(2):
        got = getattr(s, names[which])()
        if names[which] == 'open' or names[which].endswith('_stream'):
            got = got.read()
        prove_eq(E, got, want[which], names[which])
    E.cover(names[which])


# -- cross-checks -------------------------------------------------------------

def reference_digest(payload):
    data = list(bytearray(payload))
    seed = data[0] + 256 * (data[1] + 256 * (data[2] + 256 * data[3]))
    off = seed & 15
    state = [seed]

    def rand():
        state[0] = (state[0] * 214013 + 2531011) % 2 ** 32
        return state[0] // 65536 % 32768
    pads = []
    while len(pads) < 256:
        k = rand() % 256
        n = rand() % 16 + 1
        pads += [k] * n
    dec = data[:4] + [a ^ b for a, b in zip(data[4:], pads[4:])]
    return bytes(bytearray(dec[4 + off:4 + off + 80]))


def _tables():
    # the AES S-box, from its definition
    sbox = [0] * 256
    p = q = 1
    while True:
        p = p ^ (p << 1) & 0xff ^ (0x1b if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 0x09
        x = q
        for s in (1, 2, 3, 4):
            x ^= (q << s | q >> (8 - s)) & 0xff
        sbox[p] = x ^ 0x63
        if p == 1:
            break
    sbox[0] = 0x63
    inv = [0] * 256
    for i, v in enumerate(sbox):
        inv[v] = i
    return sbox, inv


def mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


def reference_aes_decrypt(key, data):
    sbox, inv = _tables()
    key = bytearray(key)
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    rcon = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [sbox[x] for x in t[1:] + t[:1]]
            t[0] ^= rcon
            rcon = mul(rcon, 2)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    rk = [sum(w[4 * i:4 * i + 4], []) for i in range(11)]
    out = bytearray()
    data = bytearray(data)
    for o in range(0, len(data), 16):
        s = [a ^ b for a, b in zip(data[o:o + 16], rk[10])]
        for r in range(9, -1, -1):
            t = [0] * 16
            for c in range(4):
                for i in range(4):
                    t[4 * ((c + i) % 4) + i] = s[4 * c + i]
            s = [inv[a] ^ b for a, b in zip(t, rk[r])]
            if r:
                t = []
                for c in range(4):
                    col = s[4 * c:4 * c + 4]
                    for i in range(4):
                        t.append(mul(col[i], 14) ^ mul(col[(i + 1) % 4], 11) ^
                                 mul(col[(i + 2) % 4], 13) ^
                                 mul(col[(i + 3) % 4], 9))
                s = t
        out += bytearray(s)
    return bytes(out)


def cases(rng, tier):
    n = 4000 if tier == 'thorough' else 400
    for nib in range(16):
        yield ('header', nib, nib)
    for i in range(n):
        yield ('header', rng.randrange(1 << 30), None)
    for size in list(range(0, 20)) + [80, 100, 255, 257, 512, 256 * 3]:
        yield ('length', size)
    for blocks in (0, 1, 2, 3, 7, 40):
        for i in range(4):
            yield ('stream', rng.randrange(1 << 30), blocks)
    for i in range(n // 4):
        yield ('refused', rng.randrange(1 << 30))
    yield ('long', 7, 1 << 17)
    for name in ('', '_cryptography', '_openssl'):
        for blocks in (1, 2, 5, 0):
            yield ('aes', name, blocks)
    yield ('random', 0)
    for i in range(n // 20):
        yield ('random', rng.randrange(1 << 32))


def some_header(seed, nib):
    import random
    rng = random.Random(seed)
    data = bytearray(rng.randrange(256) for i in range(256))
    kind = rng.randrange(4)
    if kind == 0:
        data[:4] = bytearray([255] * 4)
    elif kind == 1:
        data[:4] = bytearray(4)
    if nib is not None:
        data[0] = data[0] & 0xf0 | nib
    return bytes(data)


def record(tag, level, payload):
    import struct
    n = len(payload)
    if n < 0xfff:
        return struct.pack('<I', tag | level << 10 | n << 20) + payload
    return struct.pack('<II', tag | level << 10 | 0xfff << 20, n) + payload


class MemItem(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        import io
        return io.BytesIO(self.data)


class MemDir(object):
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(sorted(self.items))

    def __getitem__(self, name):
        return self.items[name]


def check_case(case):
    import io
    import random
    from pyvc.concrete import need
    dd = need('hwp5.distdoc')
    if case[0] == 'aes':
        return check_aes(*case[1:])
    if case[0] == 'random':
        r = need('hwp5.distdoc', 'Random')(case[1])
        s = case[1]
        for i in range(100):
            s = (s * 214013 + 2531011) % 2 ** 32
            if r.rand() != s // 65536 % 32768:
                return 'value %d from seed %d' % (i, case[1])
        return None
    if case[0] == 'header':
        data = some_header(case[1], case[2])
        want = reference_digest(data)
        for d in (data, bytearray(data)):
            got = bytes(dd.decode_head_to_sha1(d))
            if got != want:
                return 'digest of %r: %r, not %r' % (data, got, want)
            if bytes(dd.decode_head_to_key(d)) != want[:16]:
                return 'key of %r: %r' % (data, dd.decode_head_to_key(d))
            if bytes(d) != data:
                return 'the header is changed'
        return None
    if case[0] == 'length':
        data = bytes(bytearray(i % 256 for i in range(case[1])))
        for fn in (dd.decode_head_to_sha1, dd.decode_head_to_key):
            try:
                got = fn(data)
            except Exception:
                continue
            return 'a header of %d bytes gives %r' % (case[1], got)
        body = bytes(32)
        try:
            got = dd.decode(io.BytesIO(record(0x1c, 0, data) + body))
        except Exception:
            return None
        return 'a header of %d bytes is decoded' % case[1]
    if case[0] == 'stream':
        rng = random.Random(case[1])
        data = some_header(case[1], None)
        if rng.random() < .5:
            # a digest as it is: the hexadecimal digits of a SHA-1 digest
            digest = ''.join(rng.choice('0123456789ABCDEF')
                             for i in range(40)).encode('utf-16le')
            off = 4 + bytearray(data)[0] % 16
            new = bytearray(data)
            for i, b in enumerate(bytearray(reference_digest(data))):
                new[off + i] ^= b ^ bytearray(digest)[i]
            data = bytes(new)
            if reference_digest(data) != digest:
                raise AssertionError('harness: the digest')
        tail = bytes(bytearray(rng.randrange(256)
                               for i in range(16 * case[2])))
        key = reference_digest(data)[:16]
        want = reference_aes_decrypt(key, tail)
        level = rng.choice([0, 0, 1])
        raw = record(0x1c, level, data) + tail
        got = dd.decode(io.BytesIO(raw)).read()
        if got != want:
            return 'decoded %r, not %r' % (got[:60], want[:60])
        if bytes(dd.decrypt_tail(key, tail)) != want:
            return 'decrypt_tail'
        digest = reference_digest(data)
        return check_item(raw, data, tail, key, want) \
            or commands.check_dist_command(
                raw, (bytes(bytearray.fromhex(digest.decode('utf-16le'))),
                      digest.decode('utf-16le').encode('ascii').lower())
                if is_hex(digest) else None, key, want)
    if case[0] == 'long':
        # the reference on the first and the last blocks, and each block
        # decrypted as an equal block elsewhere is
        data = some_header(case[1], None)
        rng = random.Random(3)
        blocks = [bytes(bytearray(rng.randrange(256) for i in range(16)))
                  for j in range(13)]
        tail = b''.join(blocks[i % 13] for i in range(case[2]))
        key = reference_digest(data)[:16]
        want = [reference_aes_decrypt(key, b) for b in blocks]
        got = dd.decode(io.BytesIO(record(0x1c, 0, data) + tail)).read()
        if got != b''.join(want[i % 13] for i in range(case[2])):
            return 'a tail of %d bytes is decoded to %d bytes' % (
                len(tail), len(got))
        return None
    if case[0] == 'refused':
        rng = random.Random(case[1])
        tag = rng.choice([0, 0x10, 0x1b, 0x1d, 0x3ff, 0x11c,
                          rng.randrange(1024)])
        if tag == 0x1c:
            tag = 0x1d
        data = some_header(case[1], None)
        raw = record(tag, 0, data) + bytes(16 * rng.randrange(3))
        if rng.randrange(3) == 0:
            raw = raw[:rng.choice([0, 1, 3])]
        elif rng.randrange(3) == 0:
            raw = record(0x1c, 0, data)[:rng.choice([4, 10, 100, 259])]
        try:
            got = dd.decode(io.BytesIO(raw))
        except Exception:
            return None
        return 'a stream without a distribution header is decoded: %r' % (
            raw[:20],)
    raise ValueError(case)


def check_aes(name, blocks):
    ''' every implementation of the cipher which is there '''
    import random
    from pyvc.concrete import need
    get = need('hwp5.plat', 'get_aes128ecb_decrypt' + name)
    try:
        decrypt = get()
    except (NotImplementedError, ImportError):
        if name:
            return None
        raise
    rng = random.Random(blocks)
    for key in (bytes(16), bytes(bytearray(range(240, 256))),
                bytes(bytearray(rng.randrange(256) for i in range(16)))):
        data = bytes(bytearray(rng.randrange(256)
                               for i in range(16 * blocks)))
        got = decrypt(key, data)
        if got != reference_aes_decrypt(key, data):
            return 'get_aes128ecb_decrypt%s: %d bytes with key %r: %r' % (
                name, len(data), key, got[:60])
    return None


def is_hex(digest):
    try:
        return len(bytearray.fromhex(digest.decode('utf-16le'))) > 0
    except ValueError:
        return False


def check_item(raw, header, tail, key, want):
    ''' the same through the storage layer '''
    from pyvc.concrete import need
    fs = need('hwp5.filestructure')
    need('hwp5.filestructure', 'Hwp5DistDocStream', 'Hwp5DistDoc')
    it = fs.Hwp5DistDocStream(MemItem(raw), None)
    doc = fs.Hwp5DistDoc(MemDir({
        'ViewText': MemDir({'Section0': MemItem(raw)}),
        'Scripts': MemDir({'DefaultJScript': MemItem(raw)}),
        'BodyText': MemDir({'Section0': MemItem(raw)}),
        'DocInfo': MemItem(raw)}))
    for x in (it, doc['ViewText']['Section0'],
              doc['Scripts']['DefaultJScript']):
        for i in range(2):
            if x.open().read() != want:
                return 'reading a distribution stream'
        for name, w in (('head', header), ('tail', tail), ('head_key', key),
                        ('head_sha1', reference_digest(header)),
                        ('tail_decrypted', want)):
            if not hasattr(x, name):
                continue
            if bytes(getattr(x, name)()) != w:
                return '%s() of a distribution stream' % name
        if x.tail_stream().read() != tail or x.head_stream().read() != header:
            return 'streams of parts'
    for x in (doc['BodyText']['Section0'], doc['DocInfo']):
        if x.open().read() != raw:
            return 'a stream of another part is decoded'
    return None
