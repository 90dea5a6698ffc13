''' C02 reading and selecting records '''
from . import commands  # noqa
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('streams of 0..12 records with payloads of 0..5000 bytes, every '
          'range and every record number; the sections and DocInfo of the '
          'documents in the test suite')
ASSUMPTIONS = [
    'read_record is used by its contract, which C01 proves: it returns the '
    'record at the position of the stream and advances to the next one',
    'itertools.islice and next() are modelled',
    'a range is a pair of natural numbers',
]


def recs(E, fields=None):
    ''' an arbitrary sequence of records '''
    from .common import fresh_int, fresh_list, SVal
    N = fresh_int('N', 0)

    def elem(i, tag):
        d = {'seqno': i, 'tagid': SVal('tagid', i), 'level': SVal('level', i),
             'payload': SVal('payload', i), 'size': SVal('size', i),
             'tagname': SVal('tagname', i)}
        E.born(d)
        return d
    return fresh_list(E, 'recs', N, elem), N


class Item(object):
    def __init__(self, token):
        self.token = token

    def open(self):
        return self.token


@unit('C02', funcs=['hwp5.recordstream.read_records'],
      covers=['record', 'end'])
def read_all(E):
    ''' yields every record of the stream once, in order, numbered from 0 '''
    from .common import fresh_int, ti, prove_eq, SVal, SInt
    from hwp5 import recordstream
    N = fresh_int('N', 0)
    token = object()
    G = E.G
    G.declare(at=0, out=0)

    def read_record(f, seqno):
        if f is not token:
            E.fail('reads the stream it was given')
        if G.at < N:
            r = made(G.at, seqno)
            G.at = G.at + 1
            return r
        return None

    def made(at, seqno):
        return {'seqno': seqno, 'rec': SVal('rec', at),
                'tagid': fresh_int('tagid', 0, 1023),
                'level': fresh_int('level', 0, 1023),
                'size': fresh_int('size', 0, (1 << 32) - 1),
                'payload': SVal('payload', at),
                'tagname': SVal('tagname', at)}
    E.contracts['hwp5.recordstream.read_record'] = read_record

    ahead = []      # the variable holding the next record, if one does

    def record(at):
        return isinstance(at, dict) and 'rec' in at

    def inv(L):
        if L.mode == 'init':
            ahead[:] = [n for n, v in L.env.items() if record(v)][:1]
            if not ahead and not (G.at < N):
                ahead[:] = [n for n, v in L.env.items() if v is None
                            and n in L.loop.modified][:1]
        L.ghost('at', 0, N)
        if not ahead:
            L.ghostlet('out', G.at)
            return
        if L.mode == 'havoc':
            some = E.choose(2)
            v = made(SInt(ti(G.at) - 1), SInt(ti(G.at) - 1)) \
                if some else None
            if some:
                E.assume(ti(G.at) >= 1)
            L.let(ahead[0], v)
        else:
            L.handled.add(ahead[0])
            v = L.env[ahead[0]]
        if v is None:
            L.fact(ti(G.at) == ti(N), 'nothing is left')
            L.ghostlet('out', G.at)
        else:
            L.ghostlet('out', SInt(ti(G.at) - 1))
            prove_eq(E, v['rec'], SVal('rec', G.out), 'the next record')
            prove_eq(E, v['seqno'], G.out, 'its number')
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for r in recordstream.read_records(token):
        E.prove(ti(G.out) < ti(N), 'no record is invented')
        prove_eq(E, r['rec'], SVal('rec', G.out), 'records in order')
        prove_eq(E, r['seqno'], G.out, 'numbered consecutively from 0')
        G.out = G.out + 1
        E.prove(ti(G.at) == ti(G.out), 'nothing is read ahead')
        E.cover('record')
    prove_eq(E, G.out, N, 'every record is given')
    E.cover('end')


def stream(E, token, rs, N):
    from hwp5 import recordstream
    from .common import SIter

    def read_records(f):
        if f is not token:
            E.fail('the records of this stream are read')
        return SIter(rs, name='records')
    E.contracts['hwp5.recordstream.read_records'] = read_records
    return recordstream.RecordStream(Item(token), None)


def check_slice(E, got, rs, lo, hi):
    from .common import ti, prove_eq, each
    G = E.G
    G.declare(k=lo)

    def inv(L):
        L.ghost('k')
        L.fact(ti(G.k) == ti(lo) + ti(L.pos), 'records given')
    E.hints.append((lambda L: True, inv, {}))
    for r in each(got):
        E.prove(ti(G.k) < ti(hi), 'no record outside the range')
        want = rs[G.k]
        for key in ('seqno', 'tagid', 'level', 'payload'):
            prove_eq(E, r[key], want[key], 'the selected record: ' + key)
        G.k = G.k + 1
        E.cover('record')
    prove_eq(E, G.k, hi, 'every record of the range')


@unit('C02', funcs=['hwp5.recordstream.RecordStream.records'],
      covers=['record', 'empty', 'clipped'])
def records_range(E):
    ''' records(range=(a, b)) are the records with a <= number < b,
    unchanged '''
    from .common import fresh_int, SInt, ti
    import z3
    rs, N = recs(E)
    token = object()
    s = stream(E, token, rs, N)
    a = fresh_int('a', 0)
    b = fresh_int('b', 0)
    hi = z3.If(ti(b) < ti(N), ti(b), ti(N))
    lo = z3.If(ti(a) < hi, ti(a), hi)
    if a >= b:
        E.cover('empty')
    if b > N:
        E.cover('clipped')
    check_slice(E, s.records(range=(a, b)), rs, SInt(lo), SInt(hi))


@unit('C02', funcs=['hwp5.recordstream.RecordStream.records'],
      covers=['record'])
def records_all(E):
    ''' records() are all the records '''
    rs, N = recs(E)
    token = object()
    s = stream(E, token, rs, N)
    check_slice(E, s.records(), rs, 0, N)


@unit('C02', funcs=['hwp5.recordstream.RecordStream.record',
                    'hwp5.recordstream.nth'],
      covers=['record', 'none'])
def one_record(E):
    ''' record(i) is the record with number i, or None '''
    from .common import fresh_int, prove_eq, ti
    rs, N = recs(E)
    token = object()
    s = stream(E, token, rs, N)
    i = fresh_int('i', 0)
    r = s.record(i)
    if r is None:
        E.prove(ti(i) >= ti(N), 'None only if there is no such record')
        E.cover('none')
        return
    E.prove(ti(i) < ti(N), 'None if there is no such record')
    want = rs[i]
    for key in ('seqno', 'tagid', 'level', 'payload'):
        prove_eq(E, r[key], want[key], 'the record with the number: ' + key)
    E.cover('record')


# -- cross-check --------------------------------------------------------------

SIZES = (0, 1, 5, 100, 4094, 4095, 4096, 5000)


def cases(rng, tier):
    for n in range(0, 13):
        for k in range(3 if tier == 'quick' else 20):
            yield ('stream', tuple(
                (rng.randrange(1024), rng.choice((0, 1, 2, 1023)),
                 rng.choice(SIZES[:3] if k == 0 else SIZES))
                for i in range(n)))
    for i in range(150 if tier == 'quick' else 3000):
        n = rng.randrange(1, 13)
        yield ('stream', tuple(
            (rng.randrange(1024), rng.choice((0, 1, 2, 3)),
             rng.choice(SIZES + (0, 0, 0))) for i in range(n)))
    yield ('stream', tuple((i % 1024, i % 3, 0) for i in range(70000)))
    for i in range(20):
        yield ('cli', tuple((rng.randrange(16, 100), rng.choice((0, 1, 2)),
                             rng.choice(SIZES)) for i in range(
                                 rng.randrange(0, 6))))


def build(spec):
    from pyvc.concrete import need
    import io
    dump, Record = need('hwp5.recordstream', 'dump_record', 'Record')
    out = io.BytesIO()
    want = []
    for i, (t, lv, n) in enumerate(spec):
        p = bytes((i * 7 + t + k * 13) % 256 for k in range(n))
        dump(out, Record(t, lv, p))
        want.append((i, t, lv, n, p))
    return out.getvalue(), want


class Bytes(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        import io
        return io.BytesIO(self.data)


def key(r):
    return (r['seqno'], r['tagid'], r['level'], r['size'], r['payload'])


def check_case(case):
    import io
    from pyvc.concrete import need
    RecordStream, read_records, dump = need(
        'hwp5.recordstream', 'RecordStream', 'read_records', 'dump_record')
    blob, want = build(case[1])
    if case[0] == 'cli':
        return cli(blob, want)
    got = list(map(key, read_records(io.BytesIO(blob))))
    if got != want:
        return 'read %r' % ([g[:4] for g in got],)
    s = RecordStream(Bytes(blob), None)
    if list(map(key, s.records())) != want:
        return 'records() differ'
    out = io.BytesIO()
    for r in s.records():
        dump(out, r)
    if out.getvalue() != blob:
        return 'written back differently'
    n = len(want)
    if n > 1000:
        rngs = [(n - 10, n - 1), (300, 1100), (n - 1, n + 5), (0, n)]
        ids = [0, 1, 255, 256, 4095, 65535, 65536, n - 1, n]
    else:
        rngs = [(a, b) for a in range(n + 2) for b in range(n + 3)]
        ids = range(n + 2)
    for a, b in rngs:
        got = list(map(key, s.records(range=(a, b))))
        if got != want[a:b]:
            return 'range %d-%d gives numbers %r' % (a, b,
                                                     [g[0] for g in got])
    for i in ids:
        r = s.record(i)
        if i < n and (r is None or key(r) != want[i]):
            return 'record %d is %r' % (i, r and r['seqno'])
        if i >= n and r is not None:
            return 'record %d exists' % i
    return None


def cli(blob, want):
    ''' hwp5proc records on standard input '''
    import argparse
    import io
    import sys
    from pyvc.concrete import need
    records = need('hwp5.proc.records')
    main, = need('hwp5.proc.records', 'main'),
    need('hwp5.proc.records', 'records_argparser')

    def run(*argv):
        p = argparse.ArgumentParser()
        sub = records.records_argparser(p.add_subparsers(), lambda s: s)
        a = p.parse_args(['records'] + list(argv))

        class Std(object):
            def __init__(self, data=b''):
                self.buffer = io.BytesIO(data)
                self.text = []

            def write(self, s):
                self.text.append(s)
        old = sys.stdin, sys.stdout
        sys.stdin, sys.stdout = Std(blob), Std()
        try:
            main(a)
            return sys.stdout.buffer.getvalue(), ''.join(sys.stdout.text)
        finally:
            sys.stdin, sys.stdout = old
    n = len(want)
    if run('--raw')[0] != blob:
        return 'records --raw differs from the stream'
    if run('--raw-payload')[0] != b''.join(w[4] for w in want):
        return 'records --raw-payload differs'
    head = run('--raw-header')[0]
    full = b''
    pos = 0
    for w in want:
        h = 4 if w[3] < 4095 else 8
        full += blob[pos:pos + h]
        pos += h + w[3]
    if head != full:
        return 'records --raw-header differs'
    for a in range(n + 1):
        for b in range(a, n + 2):
            t = run('--simple', '--range', '%d-%d' % (a, b))[1]
            nums = [int(x.split()[0]) for x in t.splitlines()]
            if nums != list(range(n))[a:b]:
                return 'records --range %d-%d gives %r' % (a, b, nums)
        t = run('--simple', '--range', '%d' % a)[1]
        nums = [int(x.split()[0]) for x in t.splitlines()]
        if nums != list(range(n))[a:a + 1]:
            return 'records --range %d gives %r' % (a, nums)
    return None
