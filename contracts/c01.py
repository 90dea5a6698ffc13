''' C01 record round trip '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('tags and levels: boundary values and seeded random; payload sizes '
          '0..5000 around 4094/4095/4096, 65535 and 2^20')
ASSUMPTIONS = [
    'the stream passed to the reader returns as many bytes as asked when '
    'they are there (io.RawIOBase short reads are out of scope)',
]
MAX = 1 << 32

if True:
    def tagname_contract(tagid):
        from pyvc.values import SVal
        return SVal('tagname', tagid)


@unit('C01', funcs=['hwp5.dataio.readn'],
      covers=['data', 'eof', 'nothing asked', 'short'])
def readn(E):
    ''' returns content[pos:min(pos+size, n)], advances by its length;
    raises Eof exactly if something is asked and nothing is left '''
    from .common import fresh_bytes, fresh_int, SFile, prove_eq, ti
    from hwp5 import dataio
    import z3
    content = fresh_bytes('content')
    n = content.slen()
    pos = fresh_int('pos', 0, n)
    size = fresh_int('size', 0)
    f = SFile(content)
    f.seek(pos)
    try:
        data = dataio.readn(f, size)
    except dataio.Eof:
        E.prove(z3.And(ti(pos) == ti(n), ti(size) > 0), 'Eof only at the end')
        E.prove(ti(f.tell()) == ti(pos), 'Eof consumes nothing')
        E.cover('eof')
        return
    end = z3.If(ti(pos) + ti(size) <= ti(n), ti(pos) + ti(size), ti(n))
    E.prove(z3.Or(ti(size) == 0, ti(pos) < ti(n)), 'Eof is raised at the end')
    E.prove(ti(f.tell()) == end, 'consumes what it returns')
    E.cover('data')
    if size == 0:
        E.cover('nothing asked')
        prove_eq(E, data, b'', 'returns nothing when nothing is asked')
        return
    from pyvc.values import SInt
    if SInt(end) == n:
        E.cover('short')
    prove_eq(E, data, content[pos:SInt(end)], 'returns the bytes at pos')


def _case(model, tag, level, payload):
    from .common import model_int
    n = model_int(model, payload.slen())
    if n > 1 << 22:
        return None
    fn = payload.segs[0].base.fn if payload.segs else None
    bs = bytes(model.eval(fn(i), model_completion=True).as_long() % 256
               for i in range(min(n, 64))) if fn is not None else b''
    return ('rt', model_int(model, tag), model_int(model, level),
            bs + b'x' * (n - len(bs)))


@unit('C01', funcs=['hwp5.recordstream.encode_record_header',
                    'hwp5.recordstream.decode_record_header',
                    'hwp5.recordstream.dump_record',
                    'hwp5.recordstream.read_record',
                    'hwp5.recordstream.Record'],
      covers=['short header', 'long header', 'empty payload'],
      notes=['tagname() is abstracted to an arbitrary function of the tag'])
def round_trip(E):
    ''' read_record(dump_record(tag, level, payload) ++ tail) is the record,
    consuming header and payload; header 4 or 8 bytes '''
    from .common import (fresh_bytes, fresh_int, SFile, SOut, prove_eq, ti,
                         segs_of)
    from hwp5 import recordstream
    import z3
    E.contracts['hwp5.recordstream.tagname'] = tagname_contract
    tag = fresh_int('tag', 0, 1023)
    level = fresh_int('level', 0, 1023)
    payload = fresh_bytes('payload')
    n = payload.slen()
    E.assume(ti(n) < MAX)
    tail = fresh_bytes('tail')
    seqno = fresh_int('seqno', 0)
    E.case_builder = lambda m: _case(m, tag, level, payload)
    rec = recordstream.Record(tag, level, payload)
    prove_eq(E, rec['size'], n, 'Record() knows the size')
    prove_eq(E, rec['payload'], payload, 'Record() keeps the payload')
    out = SOut()
    recordstream.dump_record(out, rec)
    blob = out.value()
    m = blob.slen() if not isinstance(blob, bytes) else len(blob)
    E.prove(ti(m) - ti(n) == z3.If(ti(n) < 4095, 4, 8), 'header size')
    if n < 4095:
        E.cover('short header')
    else:
        E.cover('long header')
    if n == 0:
        E.cover('empty payload')
    f = SFile(blob + tail)
    r = recordstream.read_record(f, seqno)
    if r is None:
        E.fail('a record is read')
    prove_eq(E, r['tagid'], tag, 'tag')
    prove_eq(E, r['level'], level, 'level')
    prove_eq(E, r['size'], n, 'size')
    prove_eq(E, r['payload'], payload, 'payload')
    prove_eq(E, r['seqno'], seqno, 'number')
    E.prove(ti(f.tell()) == ti(m), 'consumes the record and no more')


@unit('C01', funcs=['hwp5.recordstream.read_record',
                    'hwp5.recordstream.decode_record_header'],
      covers=['end'])
def end_of_stream(E):
    ''' at the end of the stream there is no record '''
    from .common import fresh_bytes, fresh_int, SFile
    from hwp5 import recordstream
    content = fresh_bytes('content')
    f = SFile(content)
    f.seek(content.slen())
    E.cover('end')
    r = recordstream.read_record(f, fresh_int('seqno', 0))
    if r is not None:
        E.fail('no record at the end of the stream')
    E.prove(True, 'no record at the end of the stream')


@unit('C01', funcs=['hwp5.recordstream.decode_record_header'],
      covers=['short', 'long'])
def any_header(E):
    ''' decoding any 4 (8) header bytes gives fields in range which encode
    to the same bytes '''
    from .common import fresh_bytes, SFile, ti
    from hwp5 import recordstream
    import z3
    content = fresh_bytes('content')
    E.assume(ti(content.slen()) >= 8)
    f = SFile(content)
    tag, level, size = recordstream.decode_record_header(f)
    b = [ti(content[i]) for i in range(8)]
    word = b[0] + 256 * b[1] + 65536 * b[2] + 16777216 * b[3]
    E.prove(ti(tag) == word % 1024, 'tag is bits 0-9')
    E.prove(ti(level) == (word / 1024) % 1024, 'level is bits 10-19')
    short = word / (1 << 20)
    if ti(f.tell()).eq(z3.IntVal(4)):
        E.cover('short')
        E.prove(z3.And(short != 4095, ti(size) == short),
                'short size is bits 20-31')
    else:
        E.cover('long')
        ext = b[4] + 256 * b[5] + 65536 * b[6] + 16777216 * b[7]
        E.prove(z3.And(short == 4095, ti(size) == ext,
                       ti(f.tell()) == 8), 'long size is the next word')


# -- cross-check on the real code ---------------------------------------------

def cases(rng, tier):
    sizes = [0, 1, 2, 3, 4, 5, 255, 256, 1023, 1024, 4093, 4094, 4095, 4096,
             4097, 5000, 8191, 65535, 65536, 1 << 20]
    edge = [0, 1, 2, 15, 16, 66, 255, 256, 511, 512, 1022, 1023]
    for t in edge:
        for lv in edge:
            for n in (0, 1, 4094, 4095, 4096):
                yield ('rtn', t, lv, n, (t * 7 + lv) % 256)
    for n in sizes:
        for t, lv in ((0, 0), (1023, 1023), (66, 0), (67, 1), (512, 512)):
            yield ('rtn', t, lv, n, n % 251)
    for t in range(0, 1024):
        yield ('rtn', t, (t * 37) % 1024, t % 7, t % 256)
    for k in range(1000 if tier == 'quick' else 20000):
        n = rng.choice([rng.randrange(0, 20), rng.randrange(4080, 4110),
                        rng.randrange(0, 10000)])
        yield ('rtn', rng.randrange(1024), rng.randrange(1024), n,
               rng.randrange(256))
    for n in range(0, 4200, 1 if tier != 'quick' else 13):
        yield ('rtn', 67, 1, n, 7)


def check_case(case):
    import io
    from pyvc.concrete import need
    dump, read, Record = need('hwp5.recordstream', 'dump_record',
                              'read_record', 'Record')
    if case[0] == 'rt':
        _, tag, level, payload = case
    else:
        _, tag, level, n, x = case
        payload = bytes((x + i * 31 + (i >> 8)) % 256 for i in range(n))
    out = io.BytesIO()
    dump(out, Record(tag, level, payload))
    blob = out.getvalue()
    n = len(payload)
    h = 4 if n < 4095 else 8
    if len(blob) != h + n:
        return 'record of %d bytes takes %d bytes' % (n, len(blob))
    if blob[h:] != payload:
        return 'payload is not stored as it is'
    tail = b'\x42\x00\x10\x00tail'
    for pre in (b'', b'PRE'):
        f = io.BytesIO(pre + blob + tail)
        f.seek(len(pre))
        r = read(f, 5)
        if r is None:
            return 'no record read'
        got = (r['tagid'], r['level'], r['size'], r['payload'], r['seqno'])
        if got != (tag, level, n, payload, 5):
            return 'read back %r' % (tuple(
                x if not isinstance(x, bytes) else x[:20] for x in got),)
        if f.tell() != len(pre) + len(blob):
            return 'stream left at %d, not %d' % (f.tell(),
                                                  len(pre) + len(blob))
    f = io.BytesIO(blob)
    read(f, 0)
    if read(f, 1) is not None:
        return 'a record at the end of the stream'
    return None
