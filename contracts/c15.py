''' C15 reading from generated data '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('all ways to cut 0..6 bytes into up to 5 pieces (empty ones '
          'included) against all sequences of up to 3 read sizes; seeded '
          'random pieces (up to 100 of up to 5000 bytes) and up to 60 reads')
ASSUMPTIONS = [
    'the generator yields pieces of the kind the reader is for (bytes, text)',
    'the history of a reader is a sequence of read() calls: the invariant '
    'proved for one call (what is buffered is exactly what was generated but '
    'not returned) holds after any sequence of them',
]


def setup(E, kind):
    ''' a reader in an arbitrary reachable state '''
    from .common import (fresh_int, fresh_list, fresh_bytes, fresh_text, ti,
                         mkint, V, SIter, segs_of)
    from pyvc.core import Unsupported
    from hwp5 import utils
    import z3
    n = fresh_int('pieces', 0)
    P = z3.Function('P', z3.IntSort(), z3.IntSort())
    total = mkint(P(ti(n)))
    E.assume(z3.And(P(0) == 0, P(ti(n)) >= 0))
    data = fresh_bytes('data', total) if kind == 'bytes' \
        else fresh_text('data', total)
    rng = lambda i: E.assume(z3.And(0 <= P(ti(i)), P(ti(i)) <= P(ti(i) + 1),
                                    P(ti(i) + 1) <= P(ti(n))))

    def upto(i):
        E.assume(z3.Implies(z3.And(ti(i) >= 0, ti(i) <= ti(n)),
                            z3.And(P(ti(i)) >= 0, P(ti(i)) <= P(ti(n)))))
        return mkint(P(ti(i)))

    def elem(i, tag):
        rng(i)
        return data[mkint(P(ti(i))):mkint(P(ti(i) + 1))]
    pieces = fresh_list(E, 'pieces', n, elem)
    gen = SIter(pieces, name='gen')

    def joined(sep, it):
        ''' the rest of the pieces '''
        if it is not gen or len(sep):
            return None
        a = upto(gen.pos)
        E.touch(gen)
        gen.pos = gen.n()
        return data[a:total]
    E.joiners.append(joined)
    cls = utils.GeneratorReader if kind == 'bytes' \
        else utils.GeneratorTextReader
    r = cls(gen)
    empty = b'' if kind == 'bytes' else ''
    names = [k for k, v in r.__dict__.items() if type(v) is type(empty)]
    if len(names) != 1 or r.__dict__[names[0]] != empty \
            or gen not in list(r.__dict__.values()):
        raise Unsupported('state of the reader: %r' % sorted(r.__dict__))
    E.prove(ti(gen.pos) == 0, 'nothing is generated before reading')
    # an arbitrary state: generated up to piece p, returned up to `out'
    p = fresh_int('p', 0, n)
    out = fresh_int('out', 0)
    upto(p)
    E.assume(ti(out) <= P(ti(p)))
    gen.pos = V.lval(ti(p))
    setattr(r, names[0], data[out:mkint(P(ti(p)))])
    G = E.G
    G.declare()

    def inv(L):
        L.fact(ti(out) <= ti(upto(L.pos)), 'nothing is returned twice')
        L.attr(r, names[0], data[out:upto(L.pos)])
    E.hints.append((lambda L: L.it is gen, inv, {'peel': 0}))
    return r, gen, data, total, out, names[0], upto


def step(E, kind, sized):
    from .common import fresh_int, ti, mkint, prove_eq
    import z3
    r, gen, data, total, out, buf, upto = setup(E, kind)
    if sized == 'sized':
        size = fresh_int('size', 0)
        got = r.read(size)
        new = mkint(z3.If(ti(out) + ti(size) <= ti(total),
                          ti(out) + ti(size), ti(total)))
        if E.branch(ti(out) + ti(size) <= ti(total)):
            E.cover('as asked')
        else:
            E.cover('what remains')
    else:
        if sized == 'negative':
            size = fresh_int('size')
            E.assume(ti(size) < 0)
            got = r.read(size)
        elif sized == 'none':
            got = r.read(None)
        else:
            got = r.read()
        new = total
        E.cover('the rest')
    prove_eq(E, got, data[out:new], 'the next part, as much as asked')
    prove_eq(E, getattr(r, buf), data[new:upto(gen.pos)],
             'what is kept is what is generated but not returned')


def make(kind):
    name = 'GeneratorReader' if kind == 'bytes' else 'GeneratorTextReader'
    for sized in ('sized', 'negative', 'none', 'default'):
        def u(E, sized=sized):
            step(E, kind, sized)
        u.__name__ = '%s_%s' % (kind, sized)
        unit('C15', funcs=['hwp5.utils.%s.read' % name,
                           'hwp5.utils.%s.__init__' % name],
             covers=['as asked', 'what remains'] if sized == 'sized'
             else ['the rest'])(u)


make('bytes')
make('str')


# -- cross-check --------------------------------------------------------------

def cuts(n, k):
    if k == 0:
        if n == 0:
            yield ()
        return
    for a in range(n + 1):
        for r in cuts(n - a, k - 1):
            yield (a,) + r


def cases(rng, tier):
    import itertools
    for n in range(0, 5 if tier == 'quick' else 7):
        for k in range(0, 4 if tier == 'quick' else 6):
            for c in cuts(n, k):
                for m in range(0, 4):
                    for reads in itertools.product((0, 1, 2, 3, None, -1),
                                                   repeat=m):
                        if rng.random() < (.15 if m == 3 else 1):
                            yield ('reads', c, reads)
    for i in range(1500 if tier == 'quick' else 20000):
        hi = rng.choice((3, 20, 300, 5000))
        c = tuple(rng.choice((0, rng.randrange(hi)))
                  for k in range(rng.randrange(0, 100)))
        reads = tuple(rng.choice((0, rng.randrange(hi), rng.randrange(
            3 * hi), rng.choice((1, 4096)), rng.choice((None, -1, -7, 5)))
            if k > 20 else (1, rng.randrange(hi), rng.randrange(2 * hi)))
            for k in range(rng.randrange(0, 60)))
        yield ('reads', c, reads)


def check_case(case):
    import random
    from pyvc.concrete import need
    R, T = need('hwp5.utils', 'GeneratorReader', 'GeneratorTextReader')
    _, sizes, reads = case
    rnd = random.Random(len(sizes))
    for cls, empty, conv in ((R, b'', bytes),
                             (T, '', lambda xs: ''.join(
                                 chr(x + (0x1f600 if x % 7 == 0 else 0xac00))
                                 for x in xs))):
        pieces = [conv(bytes(rnd.randrange(256) for k in range(n)))
                  for n in sizes]
        data = empty.join(pieces)
        pulled = [0]

        def gen():
            for p in pieces:
                pulled[0] += 1
                yield p
        f = cls(gen())
        at = 0
        for s in tuple(reads) + (None, 5, None, 0):
            got = f.read() if s is None else f.read(s)
            want = data[at:] if s is None or s < 0 else data[at:at + s]
            if type(got) is not type(empty):
                return 'read(%r) gives a %s' % (s, type(got).__name__)
            if got != want:
                return '%s.read(%r) at %d gives %r, not %r' % (
                    cls.__name__, s, at, got[:200], want[:200])
            at += len(want)
    return None
