''' C14 decompression '''
from . import commands  # noqa
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('cross-checks: data of 0..200000 bytes (repetitive, random, '
          'mixed), compressed at levels 0..9 with and without sync flushes, '
          'cut into pieces of 0, 1, 7, 8195..8197 and random sizes; reads of '
          '0..10^6 bytes and without size')
ASSUMPTIONS = [
    'contract of zlib: a decompressobj fed with consecutive pieces of a '
    'stream gives consecutive pieces of its data, and after the whole stream '
    'is fed and flush() is called, all of it; a compressobj gives consecutive '
    'pieces of a zlib stream, which is a raw stream with 2 bytes before and 4 '
    'after, the first 2 bytes in the first piece and the last 4 in what '
    'flush() gives; zlib.compress/decompress are their one-shot forms '
    '(exercised by the cross-checks)',
    'the streams read from give as many bytes as asked unless they end '
    '(decompress_experimental)',
    'the history of an object is a sequence of calls: the invariant proved '
    'for one call holds after any sequence of them',
]
TRUSTED = ['zlib']


def model(E):
    ''' a raw stream and its data; `at` bytes of the stream are fed, `em`
    bytes of the data are given out '''
    from .common import fresh_int, fresh_bytes, prove_eq, ti, mkint, V
    import z3
    import zlib
    n = fresh_int('stream', 0)
    total = fresh_int('total', 0)
    raw = fresh_bytes('raw', n)
    data = fresh_bytes('data', total)
    G = E.G
    G.declare(at=0, em=0, made=0)

    class D(object):
        def decompress(self, x, *a):
            if a:
                from pyvc.core import Unsupported
                raise Unsupported('decompress() with a limit')
            at = G.at
            k = V.lval(V.seqlen(V.segs_of(x)))
            to = mkint(ti(at) + ti(mkint(ti(k))))
            E.prove(ti(to) <= ti(n), 'no more than the stream is fed')
            prove_eq(E, x, raw[at:to], 'consecutive pieces are fed')
            G.at = to
            return self.give()

        def give(self, at_least=None):
            em = G.em
            new = fresh_int('given', 0)
            E.assume(z3.And(new.t >= ti(em), new.t <= ti(total)))
            if at_least is not None:
                E.assume(z3.Implies(at_least, new.t == ti(total)))
            G.em = new
            return data[em:new]

        def flush(self, *a):
            return self.give(ti(G.at) == ti(n))
    d = D()
    E.born(d)

    def decompressobj(wbits=15, *a, **k):
        E.prove(wbits == -15, 'raw streams are decoded')
        G.at = 0
        G.em = 0
        G.made = G.made + 1
        return d
    E.models[zlib.decompressobj] = decompressobj
    return raw, data, n, total, d


def anywhere(E, raw, data, n, total):
    ''' an arbitrary state of the decoder '''
    from .common import fresh_int
    G = E.G
    G.at = fresh_int('at', 0, n)
    G.em = fresh_int('em', 0, total)


def incremental(E, cls, kw):
    from .common import fresh_int, prove_eq, ti, mkint
    raw, data, n, total, d = model(E)
    dec = cls(**kw)
    E.prove(E.G.made == 1, 'a decoder is made')
    anywhere(E, raw, data, n, total)
    if E.choose(2):
        dec.reset()
        E.cover('reset')
        E.prove(E.G.made == 2, 'reset() starts a new stream')
        E.prove(ti(E.G.at) == 0, 'reset() starts at the beginning')
    a, e0 = E.G.at, E.G.em
    k = fresh_int('k', 0)
    E.assume(ti(a) + ti(k) <= ti(n))
    piece = raw[a:mkint(ti(a) + ti(k))]
    how = E.choose(3)
    if how == 0:
        got = dec.decode(piece)
        E.cover('piece')
    elif how == 1:
        got = dec.decode(piece, False)
    else:
        E.assume(ti(a) + ti(k) == ti(n))
        got = dec.decode(piece, True)
        E.cover('final')
        prove_eq(E, got, data[e0:total], 'the final piece gives all the rest')
    E.prove(ti(E.G.at) == ti(a) + ti(k), 'the piece is fed')
    prove_eq(E, got, data[e0:E.G.em], 'what the stream gives is returned')


@unit('C14', funcs=['hwp5.zlib_raw_codec.IncrementalDecoder.decode',
                    'hwp5.zlib_raw_codec.IncrementalDecoder.__init__',
                    'hwp5.zlib_raw_codec.IncrementalDecoder.reset'],
      covers=['piece', 'final', 'reset'])
def raw_decoder(E):
    ''' every call returns the next part of the data, the final one all the
    rest '''
    from hwp5 import zlib_raw_codec
    incremental(E, zlib_raw_codec.IncrementalDecoder, {})


@unit('C14', funcs=['hwp5.compressed.ZLibIncrementalDecoder.decode',
                    'hwp5.compressed.ZLibIncrementalDecoder.__init__',
                    'hwp5.compressed.ZLibIncrementalDecoder.reset'],
      covers=['piece', 'final', 'reset'])
def zlib_decoder(E):
    ''' the same for the other decoder '''
    from hwp5 import compressed
    incremental(E, compressed.ZLibIncrementalDecoder, dict(wbits=-15))


@unit('C14', funcs=['hwp5.zlib_raw_codec.StreamReader.__init__',
                    'hwp5.zlib_raw_codec.StreamReader.read',
                    'hwp5.zlib_raw_codec.StreamReader.tell'],
      covers=['as asked', 'what remains', 'the rest', 'new'])
def reader(E):
    ''' from every state: read(n) returns the next n bytes of the data or all
    that remains, read() all that remains; tell() is what was returned '''
    from .common import fresh_int, prove_eq, ti, mkint, SFile, V
    from pyvc.core import Unsupported
    from hwp5 import zlib_raw_codec
    import z3
    raw, data, n, total, d = model(E)
    G = E.G
    f = SFile(raw)
    r = zlib_raw_codec.StreamReader(f)
    E.cover('new')
    E.prove(ti(r.tell()) == 0, 'it starts at 0')
    prove_eq(E, mkint(ti(f.pos)), 0, 'nothing is read before')
    state = r.__dict__
    bufs = [k for k, v in state.items() if v == b'' and type(v) is bytes]
    offs = [k for k, v in state.items() if type(v) is int and v == 0]
    if len(bufs) != 1 or len(offs) != 1:
        raise Unsupported('state of the reader: %r' % sorted(state))
    buf, off = bufs[0], offs[0]
    anywhere(E, raw, data, n, total)
    out = fresh_int('out', 0)
    E.assume(ti(out) <= ti(G.em))
    f.pos = V.lval(ti(G.at))
    setattr(r, buf, data[out:G.em])
    setattr(r, off, out)

    def inv(L):
        G.declare()
        L.ghost('at', 0, n)
        L.ghost('em', out, total)
        if L.mode == 'havoc':
            f.pos = V.lval(ti(G.at))
            L.havocked(f)
        else:
            L.prove(ti(f.pos) == ti(G.at), 'what is read is fed')
        L.attr(r, buf, data[out:G.em])

        def at_end(v):
            if isinstance(v, (bool, V.SBool)):
                return z3.Implies(V.tb(v), ti(G.em) == ti(total))
            return None
        L.candidate('final only at the end', at_end)
    E.hints.append((lambda L: L.iswhile and '.read' in L.key, inv, {}))
    how = E.choose(3)
    if how == 0:
        size = fresh_int('size', 0)
        got = r.read(size)
        if E.branch(ti(out) + ti(size) <= ti(total)):
            E.cover('as asked')
            new = mkint(ti(out) + ti(size))
        else:
            E.cover('what remains')
            new = total
    else:
        if how == 1:
            got = r.read()
        else:
            size = fresh_int('size')
            E.assume(ti(size) < 0)
            got = r.read(size)
        E.cover('the rest')
        new = total
    prove_eq(E, got, data[out:new], 'the next part, as much as asked')
    prove_eq(E, r.tell(), new, 'the position is what was returned')
    prove_eq(E, getattr(r, buf), data[new:G.em], 'the rest is kept')
    E.prove(ti(f.pos) == ti(G.at), 'what is read is fed')


@unit('C14', funcs=['hwp5.compressed.decompress_gen'],
      covers=['pieces', 'all'])
def generator(E):
    ''' decompress_gen(): the pieces are consecutive parts of the data and,
    together, all of it '''
    from .common import fresh_int, prove_eq, ti, mkint, SFile, V, each
    from hwp5 import compressed
    import z3
    raw, data, n, total, d = model(E)
    G = E.G
    G.declare(out=0)
    f = SFile(raw)
    bufsize = fresh_int('bufsize', 1)

    def inv(L):
        L.ghost('at', 0, n)
        L.ghost('em', 0, total)
        L.ghostlet('out', G.em)
        if L.mode == 'havoc':
            f.pos = V.lval(ti(G.at))
            L.havocked(f)
        else:
            L.prove(ti(f.pos) == ti(G.at), 'what is read is fed')

        def at_end(v):
            if isinstance(v, (bool, V.SBool)):
                return z3.Implies(V.tb(v), ti(G.em) == ti(total))
            return None

        def not_at_end(v):
            if isinstance(v, (bool, V.SBool)):
                return z3.Implies(z3.Not(V.tb(v)), ti(G.em) == ti(total))
            return None
        L.candidate('exhausted only at the end', at_end)
        L.candidate('more until the end', not_at_end)
    E.hints.append((lambda L: L.iswhile, inv, {}))
    for x in each(compressed.decompress_gen(f, bufsize)):
        E.cover('pieces')
        prove_eq(E, x, data[G.out:G.em], 'a piece is the next part')
        G.out = G.em
    E.cover('all')
    E.prove(ti(G.out) == ti(total), 'all of the data is given')


@unit('C14', funcs=['hwp5.compressed.decompress'],
      covers=['compressed', 'not compressed'])
def stream(E):
    ''' decompress(): the data of a compressed stream, or the stream itself
    if zlib refuses it '''
    from .common import fresh_int, fresh_bytes, prove_eq, ti, mkint, SFile, V
    from hwp5 import compressed
    import io
    import zlib
    raw = fresh_bytes('raw')
    data = fresh_bytes('data')
    f = SFile(raw)
    ok = E.choose(2)

    def decompress(x, wbits=15, *a, **k):
        prove_eq(E, x, raw, 'the whole stream is decoded')
        E.prove(wbits == -15, 'as a raw stream')
        if not ok:
            raise zlib.error('Error -3')
        return data
    E.models[zlib.decompress] = decompress
    E.models[io.BytesIO] = lambda x: SFile(x)
    got = compressed.decompress(f)
    E.prove(ti(got.tell()) == 0, 'at its beginning')
    if ok:
        E.cover('compressed')
        prove_eq(E, got.read(), data, 'the data')
    else:
        E.cover('not compressed')
        prove_eq(E, got.read(), raw, 'passed through unchanged')


@unit('C14', funcs=['hwp5.zlib_raw_codec.zlib_raw_encode',
                    'hwp5.zlib_raw_codec.zlib_raw_decode',
                    'hwp5.zlib_raw_codec.Codec.encode',
                    'hwp5.zlib_raw_codec.Codec.decode'],
      covers=['encode', 'decode'])
def one_shot(E):
    ''' encode: the zlib stream without its 2 and 4 bytes; decode: the data
    of the raw stream; both report all of the input as consumed '''
    from .common import fresh_int, fresh_bytes, prove_eq, ti, mkint
    from hwp5 import zlib_raw_codec as m
    import zlib
    n = fresh_int('n', 0)
    k = fresh_int('k', 6)
    x = fresh_bytes('input', n)
    z = fresh_bytes('stream', k)

    def compress(v, *a, **kw):
        prove_eq(E, v, x, 'the whole input is coded')
        return z

    def decompress(v, wbits=15, *a, **kw):
        prove_eq(E, v, x, 'the whole input is decoded')
        E.prove(wbits == -15, 'as a raw stream')
        return z
    E.models[zlib.compress] = compress
    E.models[zlib.decompress] = decompress
    c = m.Codec() if E.choose(2) else None
    if E.choose(2):
        got, used = (c.encode if c else m.zlib_raw_encode)(x)
        E.cover('encode')
        prove_eq(E, got, z[2:mkint(ti(k) - 4)], 'the raw stream')
    else:
        got, used = (c.decode if c else m.zlib_raw_decode)(x)
        E.cover('decode')
        prove_eq(E, got, z, 'the data')
    prove_eq(E, used, n, 'all of the input is consumed')


@unit('C14', funcs=['hwp5.zlib_raw_codec.IncrementalEncoder.__init__',
                    'hwp5.zlib_raw_codec.IncrementalEncoder.encode',
                    'hwp5.zlib_raw_codec.IncrementalEncoder.reset'],
      covers=['first', 'later', 'final', 'reset', 'only'])
def raw_encoder(E):
    ''' what is returned are the consecutive parts of the zlib stream without
    its first 2 and its last 4 bytes, also after reset() '''
    from .common import fresh_int, fresh_bytes, prove_eq, ti, mkint
    from hwp5 import zlib_raw_codec as m
    import zlib
    import z3
    total = fresh_int('total', 6)
    coded = fresh_bytes('coded', total)
    G = E.G
    G.declare(em=0, made=0)
    fed = []

    class C(object):
        def compress(self, x):
            fed.append(x)
            em = G.em
            new = fresh_int('given', 2)
            E.assume(z3.And(new.t >= ti(em), new.t + 4 <= ti(total)))
            G.em = new
            return coded[em:new]

        def flush(self, *a):
            em = G.em
            G.em = total
            return coded[em:total]

    def compressobj(*a, **k):
        G.em = 0
        G.made = G.made + 1
        return C()
    E.models[zlib.compressobj] = compressobj
    enc = m.IncrementalEncoder()
    pieces = [fresh_bytes('x%d' % i) for i in range(3)]
    start = E.choose(3)
    if start:
        # some coding has gone on before
        enc.encode(pieces[0])
        E.prove(len(fed) == 1 and fed[0] is pieces[0], 'the piece is coded')
        if start == 2:
            if E.choose(2):
                enc.encode(pieces[1], True)
            enc.reset()
            E.cover('reset')
            E.prove(ti(G.em) == 0, 'reset() starts a new stream')
            E.prove(G.made == 2, 'a new stream is made')
        else:
            # at an arbitrary place
            p = fresh_int('p', 2)
            E.assume(p.t + 4 <= ti(total))
            G.em = p
    del fed[:]
    e0 = G.em
    first = start in (0, 2)
    final = E.choose(2)
    got = enc.encode(pieces[2], True) if final else enc.encode(pieces[2])
    E.prove(len(fed) == 1 and fed[0] is pieces[2], 'the piece is coded, once')
    lo = 2 if first else e0
    if final:
        E.cover('only' if first else 'final')
        hi = mkint(ti(total) - 4)
        E.prove(ti(G.em) == ti(total), 'the stream is finished')
    else:
        E.cover('first' if first else 'later')
        hi = G.em
    prove_eq(E, got, coded[lo:hi], 'the raw part of what is coded')


# -- cross-checks -------------------------------------------------------------

SIZES = (0, 1, 2, 3, 7, 100, 4095, 4096, 4097, 8195, 8196, 8197, 16392,
         70000)


def some_data(rng, n):
    kind = rng.randrange(4)
    if n == 65000:
        # repetitions as far apart as the format allows
        return rng.randbytes(32500) * 2
    if n >= 300000:
        return bytes(bytearray(rng.randrange(256) for i in range(70001))) * \
            (n // 70000 + 1)
    if kind == 0:
        return bytes(bytearray(rng.randrange(256) for i in range(n)))
    if kind == 1:
        return (b'abcdefgh' * (n // 8 + 1))[:n]
    if kind == 2:
        return bytes(n)
    half = bytes(bytearray(rng.randrange(256) for i in range(n // 2)))
    return (half + half + b'x')[:n]


def raw_stream(rng, data):
    ''' a raw stream of the data, of any make '''
    import zlib
    c = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, -15)
    out = b''
    pos = 0
    while rng.random() < .4 and pos < len(data):
        k = rng.randrange(len(data) - pos + 1)
        out += c.compress(data[pos:pos + k])
        out += c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
        pos += k
    if rng.random() < .15:
        out += c.compress(data[pos:pos + 1])
        pos += 1
        out += c.flush(zlib.Z_FULL_FLUSH)
        out += b'\x00\x00\x00\xff\xff' * rng.choice([1, 2000, 5000])
    out += c.compress(data[pos:])
    return out + c.flush()


def cut(rng, data):
    ''' pieces of the data, empty ones included '''
    pos = 0
    out = []
    way = rng.randrange(4)
    if way == 0 and len(data) < 3000:
        return [data[i:i + 1] for i in range(len(data))]
    while pos < len(data):
        k = rng.choice([0, 1, 2, 3, 5, 100, 4096, 8196, 10 ** 5]) \
            if way else rng.randrange(1 + len(data))
        out.append(data[pos:pos + k])
        pos += k
    while rng.random() < .3:
        out.append(b'')
    return out


def cases(rng, tier):
    n = 3000 if tier == 'thorough' else 220
    for size in SIZES:
        for k in range(3):
            yield ('codec', rng.randrange(1 << 30), size)
            yield ('reader', rng.randrange(1 << 30), size)
            yield ('plain', rng.randrange(1 << 30), size)
    for size in (300000, 1 << 20, 3 << 20):
        yield ('reader', size + 1, size)
        yield ('plain', size + 3, size)
    for size in (0, 5, 60000):
        yield ('stored', size)
        yield ('rawunz', size)
    for k in range(4):
        for kind in 'codec', 'reader', 'plain':
            yield (kind, rng.randrange(1 << 30), 65000)
    for i in range(n):
        size = rng.choice([rng.randrange(20), rng.randrange(3000),
                           rng.randrange(40000)])
        yield (rng.choice(['codec', 'reader', 'reader', 'plain']),
               rng.randrange(1 << 30), size)


def check_rawunz(size):
    ''' the command '''
    import argparse
    import io
    import random
    from pyvc.concrete import need
    from .commands import Std, std
    main, argparser = need('hwp5.proc.rawunz', 'main', 'rawunz_argparser')
    p = argparse.ArgumentParser()
    argparser(p.add_subparsers(), lambda s: s)
    data = some_data(random.Random(size), size)
    out = io.BytesIO()
    with std(Std(io.BytesIO(raw_stream(random.Random(size), data))),
             Std(out)):
        main(p.parse_args(['rawunz']))
    if out.getvalue() != data:
        return 'rawunz gives other data'
    return None


def check_reads(rng, r, data, tell=True):
    out = b''
    n = 0
    style = rng.randrange(4)
    while True:
        size = rng.choice([(1, 2, 0, 5, 63), (4096,), (8196, 1, 0, 8197),
                           (10 ** 6, 100, 30000)][style])
        if rng.random() < .02:
            size = None
        d = r.read() if size is None else r.read(size)
        if size is not None and len(d) > size:
            return 'read(%d) gives %d bytes' % (size, len(d))
        if data[len(out):len(out) + len(d)] != d:
            return 'read(%r) at %d gives other bytes' % (size, len(out))
        out += d
        if tell and r.tell() != len(out):
            return 'tell() is %r after %d bytes' % (r.tell(), len(out))
        if size is None and out != data:
            return 'read() ends at %d of %d' % (len(out), len(data))
        if not d and size != 0:
            break
        n += 1
        if n > 400:
            d = r.read()
            if out + d != data:
                return 'read() after %d bytes' % len(out)
            return None
    if out != data:
        return 'the reads end at %d of %d' % (len(out), len(data))
    return None


def exactly(raw, data):
    ''' is it a raw stream of the data, and nothing else? '''
    import zlib
    d = zlib.decompressobj(-15)
    try:
        got = d.decompress(raw)
        got += d.flush()
    except zlib.error as ex:
        return 'not a raw stream: %s: %r' % (ex, raw[:80])
    if got != data:
        return 'other data: %r' % raw[:80]
    if not d.eof or d.unused_data:
        return 'not just a raw stream: %r' % raw[-80:]
    return None


def check_case(case):
    import io
    import random
    import zlib
    from pyvc.concrete import need
    m = need('hwp5.zlib_raw_codec')
    c = need('hwp5.compressed')
    if case[0] == 'stored':
        # many blocks without data, then data
        data = b'x' * case[1]
        raw = b'\x00\x00\x00\xff\xff' * 5000 + m.zlib_raw_encode(data)[0]
        for size in (1, 10, 10 ** 6):
            r = m.StreamReader(io.BytesIO(raw))
            if r.read(size) != data[:size] or r.tell() != len(data[:size]):
                return 'read(%d) of a stream with empty blocks' % size
        return None
    if case[0] == 'rawunz':
        return check_rawunz(case[1])
    rng = random.Random(case[1])
    data = some_data(rng, case[2])
    raw = raw_stream(rng, data)
    if zlib.decompress(raw, -15) != data:
        raise AssertionError('harness: not a raw stream')
    if case[0] == 'codec':
        out, used = m.zlib_raw_encode(data)
        if used != len(data):
            return 'zlib_raw_encode: %d of %d consumed' % (used, len(data))
        msg = exactly(out, data)
        if msg:
            return 'zlib_raw_encode: ' + msg
        if m.zlib_raw_decode(raw) != (data, len(raw)) or \
                m.zlib_raw_decode(out)[0] != data:
            return 'zlib_raw_decode'
        k = m.Codec()
        if k.decode(k.encode(data)[0])[0] != data:
            return 'Codec'
        enc = m.IncrementalEncoder()
        for turn in range(3):
            pieces = cut(rng, data)
            out = b''
            for p in pieces:
                out += enc.encode(p)
            if rng.random() < .5 or not pieces:
                out += enc.encode(b'', True)
            else:
                enc.reset()
                out = b''.join([enc.encode(p) for p in pieces[:-1]] +
                               [enc.encode(pieces[-1], True)])
            msg = exactly(out, data)
            if msg:
                return 'IncrementalEncoder, turn %d: %s' % (turn, msg)
            enc.reset()
            if rng.random() < .3:
                enc.encode(data[:50])
                enc.reset()
        for make in (lambda: m.IncrementalDecoder(),
                     lambda: c.ZLibIncrementalDecoder(wbits=-15)):
            dec = make()
            for turn in range(3):
                got = b''
                for p in cut(rng, raw):
                    got += dec.decode(p)
                    if data[:len(got)] != got:
                        return 'an incremental decoder gives other bytes'
                got += dec.decode(b'', True)
                if got != data:
                    return 'an incremental decoder, turn %d: %d of %d' % (
                        turn, len(got), len(data))
                dec.reset()
                if rng.random() < .5:
                    dec.decode(raw[:len(raw) // 2])
                    dec.reset()
            dec = make()
            half = rng.randrange(len(raw) + 1)
            if dec.decode(raw[:half]) + dec.decode(raw[half:], True) != data:
                return 'final piece'
        return None
    if case[0] == 'reader':
        for i in range(3):
            r = m.StreamReader(io.BytesIO(raw))
            if r.tell() != 0:
                return 'tell() is %r' % r.tell()
            msg = check_reads(rng, r, data)
            if msg:
                return 'StreamReader: ' + msg
        for size in (1, 5, 1000, 4096, 65536, len(raw) or 1, len(raw) + 1):
            if size < 5 and len(raw) > 5000:
                continue
            got = b''.join(c.decompress_gen(io.BytesIO(raw), size))
            if got != data:
                return 'decompress_gen(%d)' % size
        msg = check_reads(rng, c.decompress_experimental(io.BytesIO(raw)),
                          data, False)
        if msg:
            return 'decompress_experimental: ' + msg
        msg = check_reads(rng, c.decompress(io.BytesIO(raw)), data)
        if msg:
            return 'decompress: ' + msg
        return None
    if case[0] == 'plain':
        try:
            zlib.decompress(data, -15)
            return None
        except zlib.error:
            pass
        f = c.decompress(io.BytesIO(data))
        if f.read() != data:
            return 'what is not compressed is changed'
        return check_reads(rng, c.decompress(io.BytesIO(data)), data)
    raise ValueError(case)
