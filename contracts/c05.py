''' C05 paragraph text chunks '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('texts of up to 3 items over every control code, characters whose '
          'bytes look like control codes and surrogate pairs; seeded random '
          'texts of up to 60 items; the texts of the documents in the test '
          'suite')
ASSUMPTIONS = [
    'decode_utf16le_with_hypua is an abstract function of the bytes in the '
    'proof (it is bytes.decode("utf-16le"), checked on the cases)',
    'an extended or inline control has all its 8 code units in the text',
]
# the format's table: code -> width in code units
EIGHT = (0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0b, 0x0c,
         0x0e, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17)


def width(code):
    import z3
    return z3.If(z3.Or([code == c for c in EIGHT]), 16, 2)


def control_at(data, i):
    ''' is there a control character at (even) position i? '''
    from pyvc.models import at_term
    from .common import segs_of
    import z3
    s = segs_of(data)
    return z3.And(at_term(s, i) < 32, at_term(s, i + 1) == 0)


@unit('C05', funcs=['hwp5.binmodel.controlchar.ControlChar.find'],
      covers=['found', 'none'])
def find(E):
    ''' the first control character at an even position from start on, with
    the width of its kind; (n, n) if there is none '''
    from .common import fresh_bytes, fresh_int, ti, V, mkint
    from pyvc.models import at_term
    from hwp5.binmodel.controlchar import ControlChar
    import z3
    m = fresh_int('m', 0)
    data = fresh_bytes('data', mkint(2 * ti(m)))
    n = 2 * ti(m)
    s = fresh_int('s', 0, m)
    start = mkint(2 * ti(s))
    q = 2 * ti(fresh_int('q'))
    E.skolems.append(q)

    def inv(L):
        L.int_candidate('passed', lambda v: z3.Implies(
            z3.And(q >= ti(start), q < ti(v)),
            z3.Not(control_at(data, q))))
        L.int_candidate('in text', lambda v: ti(v) <= n)
    E.hints.append((lambda L: True, inv, {}))
    r = ControlChar.find(data, start)
    if not isinstance(r, tuple) or len(r) != 2:
        E.fail('a pair of positions')
    a, b = ti(r[0]), ti(r[1])
    E.prove(z3.And(a >= ti(start), a <= n), 'at or after the start')
    E.prove(a % 2 == 0, 'at a code unit')
    E.prove(z3.Implies(z3.And(q >= ti(start), q < a),
                       z3.Not(control_at(data, q))),
            'no control character is missed')
    if a < n if isinstance(a, int) else E.branch(a < n):
        E.cover('found')
        E.prove(control_at(data, a), 'a control character')
        code = at_term(data.segs, a)
        E.prove(b == a + width(code), 'width of its kind')
    else:
        E.cover('none')
        E.prove(b == n, 'nothing at the end')


@unit('C05', funcs=['hwp5.binmodel.controlchar.ControlChar.decode',
                    'hwp5.binmodel.controlchar.CHID.decode'],
      covers=['char', 'tab', 'extended'])
def decode(E):
    ''' code, identifier and parameters come from the control's own bytes '''
    from .common import fresh_bytes, fresh_int, ti, prove_eq, mkint, mkseq, Lit
    from hwp5.binmodel.controlchar import ControlChar
    import z3
    code = fresh_int('code', 0, 31)
    eight = E.branch(z3.Or([ti(code) == c for c in EIGHT]))
    rest = fresh_bytes('rest', 14 if eight else 0)
    data = mkseq('bytes', [Lit((code, 0))]) + rest
    r = ControlChar.decode(data)
    prove_eq(E, r['code'], code, 'code')
    if not eight:
        if sorted(r) != ['code']:
            E.fail('a character has a code only', repr(sorted(r)))
        E.cover('char')
        return
    b = [ti(rest[i]) for i in range(14)]
    if code == 9:
        if sorted(r) != ['code', 'param']:
            E.fail('fields of a tab', repr(sorted(r)))
        p = r['param']
        prove_eq(E, p['width'], mkint(
            b[0] + 256 * b[1] + 65536 * b[2] + 16777216 * b[3]), 'tab width')
        prove_eq(E, p['unknown0'], mkint(b[4]), 'tab unknown0')
        prove_eq(E, p['unknown1'], mkint(b[5]), 'tab unknown1')
        prove_eq(E, p['unknown2'], rest[6:12], 'tab unknown2')
        E.cover('tab')
        return
    if sorted(r) != ['chid', 'code', 'param']:
        E.fail('fields of a control', repr(sorted(r)))
    prove_eq(E, r['chid'], mkseq('str', [Lit((rest[3], rest[2], rest[1],
                                              rest[0]))]), 'identifier')
    prove_eq(E, r['param'], rest[4:12], 'parameters')
    E.cover('extended')


@unit('C05', funcs=['hwp5.binmodel.tagid51_para_text.ParaTextChunks'
                    '.parse_chunks'],
      covers=['text', 'control', 'finished', 'empty'],
      notes=['ControlChar.find and decode by their contracts'])
def parse_chunks(E):
    ''' chunks tile the text; text chunks contain no control, control
    chunks are exactly the controls '''
    from .common import (fresh_bytes, fresh_int, ti, prove_eq, mkint, SVal,
                         SInt, segs_of)
    from pyvc.models import at_term
    from hwp5.binmodel.tagid51_para_text import ParaTextChunks
    import z3
    m = fresh_int('m', 0)
    data = fresh_bytes('data', mkint(2 * ti(m)))
    n = 2 * ti(m)
    q = 2 * ti(fresh_int('q'))
    if m == 0:
        E.cover('empty')

    def find(cls, d, start):
        if d is not data:
            E.fail('the text is searched')
        s = ti(start)
        E.prove(z3.And(s >= 0, s % 2 == 0, s <= n),
                'searches from a code unit of the text')
        h = z3.Int(E.fresh('half'))
        a = 2 * h
        E.assume(z3.And(a >= s, a <= n, z3.Implies(
            z3.And(q >= s, q < a), z3.Not(control_at(data, q)))))
        if E.branch(a < n):
            E.assume(control_at(data, a))
            w = width(at_term(data.segs, a))
            E.assume(a + w <= n)        # well-formed
            return mkint(a), mkint(a + w)
        return mkint(n), mkint(n)
    decoded = []

    def decode(cls, b):
        r = {'code': SVal('code', len(decoded)), 'chid': 0, 'param': 0}
        decoded.append((r, b))
        return r
    texts = []

    def totext(b):
        r = SVal('text', len(texts))
        texts.append((r, b))
        return r
    cc = 'hwp5.binmodel.controlchar.ControlChar.'
    E.contracts[cc + 'find'] = find
    E.contracts[cc + 'decode'] = decode
    E.contracts['hwp5.dataio.decode_utf16le_with_hypua'] = totext
    G = E.G
    G.declare(at=0)         # covered so far, in code units

    def inv(L):
        L.ghost('at', 0, m)
        L.int_candidate('twice', lambda v: ti(v) == 2 * ti(G.at))
        L.int_candidate('once', lambda v: ti(v) == ti(G.at))
    E.hints.append((lambda L: True, inv, {}))
    for (a, b), x in ParaTextChunks.parse_chunks(data):
        E.prove(ti(a) == ti(G.at), 'chunks are contiguous')
        E.prove(z3.And(ti(b) > ti(a), ti(b) <= ti(m)),
                'chunks are not empty')
        part = data[mkint(2 * ti(a)):mkint(2 * ti(b))]
        for r, src in decoded:
            if x is r:
                prove_eq(E, src, part, 'the control of its own range')
                E.prove(control_at(data, 2 * ti(a)),
                        'a control chunk is a control character')
                E.prove(2 * ti(b) == 2 * ti(a) + width(
                    at_term(data.segs, 2 * ti(a))), 'of its width')
                E.cover('control')
                break
        else:
            for r, src in texts:
                if x is r:
                    prove_eq(E, src, part, 'the text of its own range')
                    E.prove(z3.Implies(
                        z3.And(q >= 2 * ti(a), q < 2 * ti(b)),
                        z3.Not(control_at(data, q))),
                        'no control character in a text chunk')
                    E.cover('text')
                    break
            else:
                E.fail('a chunk is a text or a control')
        G.at = b
    E.prove(ti(G.at) == ti(m), 'the chunks cover the text')
    E.cover('finished')


# -- cross-check --------------------------------------------------------------

CHARS = [u'a', u'\ud55c', u'\u0d00', u'\u0100', u'\u1f00', u'\u0020',
         u'\u001f\u0101'[1:], u'\U0001f600', u'\ue0bc', u'\uf784',
         u'\u0a0d', u'\u0009\u0b00'[1:]]


def cases(rng, tier):
    codes = list(range(32))
    items = [('c', c, k) for c in codes for k in (0, 1)] \
        + [('t', t) for t in CHARS]
    yield ('text', ())
    for a in items:
        yield ('text', (a,))
        for b in items:
            yield ('text', (a, b))
    small = [('c', 0, 0), ('c', 9, 1), ('c', 11, 1), ('c', 13, 0),
             ('c', 0x19, 0)] + [('t', t) for t in CHARS[:8]]
    for a in small:
        for b in small:
            for c in small:
                yield ('text', (a, b, c))
    for i in range(1500 if tier == 'quick' else 40000):
        n = rng.randrange(1, 60)
        yield ('text', tuple(
            rng.choice(items) if rng.random() < .5 else
            ('c', rng.randrange(32), rng.randrange(2, 1 << 30))
            if rng.random() < .4 else
            ('t', rng.choice(CHARS) * rng.randrange(1, 5))
            for k in range(n)))
    for n in (200, 2000, 40000):
        yield ('text', (('t', u'x' * n), ('c', 11, 1), ('t', u'\u0100' * n),
                        ('c', 13, 0)))


def params(c, k):
    import random
    if c not in EIGHT:
        return b''
    if k == 0:
        body = b'\x0d\x00' * 6          # looks like controls
    elif k == 1:
        body = b' osg' + bytes(range(8))
    else:
        body = random.Random(k).getrandbits(96).to_bytes(12, 'little')
    return body + bytes((c, 0))


def check_case(case):
    from pyvc.concrete import need
    parse, = need('hwp5.binmodel.tagid51_para_text',
                  'ParaTextChunks.parse_chunks'),
    ParaTextChunks = need('hwp5.binmodel.tagid51_para_text',
                          'ParaTextChunks')
    import io
    data = b''
    want = []
    at = 0
    for it in case[1]:
        if it[0] == 'c':
            c, k = it[1:]
            p = params(c, k)
            d = bytes((c, 0)) + p
            end = at + len(d) // 2
            w = dict(code=c)
            if c == 9:
                w['param'] = dict(width=int.from_bytes(p[:4], 'little'),
                                  unknown0=p[4], unknown1=p[5],
                                  unknown2=p[6:12])
            elif p:
                w['chid'] = p[3::-1].decode('latin-1')
                w['param'] = p[4:12]
            want.append(((at, end), w))
        else:
            d = it[1].encode('utf-16le')
            end = at + len(d) // 2
            if want and isinstance(want[-1][1], str):
                (a, b), t = want.pop()
                want.append(((a, end), t + it[1]))
            else:
                want.append(((at, end), it[1]))
        data += d
        at = end
    got = [(tuple(r), x) for r, x in parse(data)]
    if got != want:
        return 'chunks %r, expected %r' % (got[:8], want[:8])
    got = [(tuple(r), x) for r, x in ParaTextChunks.read(io.BytesIO(data))]
    if got != want:
        return 'read: chunks %r' % (got[:8],)
    return None
