''' The layouts of the records: what every type of record reads from given
bytes, for every document version at which a layout changes, as written in
layouts.json.  The table says so for a parent (or none), a type of record,
a version and a payload, so it does not matter how the layout is declared.

Readings are kept as digests.  tools/layouts.py writes the table; no check
does. '''
import hashlib
import json
import logging
import os

from .c26 import CHIDS

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                     'layouts.json')

VERSIONS = [
    (5, 0, 0, 0), (5, 0, 0, 4), (5, 0, 0, 5), (5, 0, 0, 6), (5, 0, 0, 7),
    (5, 0, 0, 255), (5, 0, 1, 6), (5, 0, 1, 7), (5, 0, 2, 1), (5, 0, 2, 2),
    (5, 0, 2, 3), (5, 0, 2, 4), (5, 0, 2, 5), (5, 0, 2, 255), (5, 0, 3, 0),
    (5, 0, 3, 1), (5, 0, 3, 2), (5, 0, 3, 3), (5, 0, 3, 4), (5, 0, 3, 255),
    (5, 1, 0, 0), (5, 1, 7, 0)]
ENDS = (VERSIONS[0], VERSIONS[-1])
SIZE = 420
SCAN = 200
known = {}
SKIPPED = '....'
SHAPES = ('$rec', '$lin', '$ell', '$arc', '$pol', '$cur', '$ole', '$pic',
          '$con', '$tat', '$xyz')


def code(chid):
    return chid.encode('latin-1')[::-1]


def scenarios():
    ''' name -> [(tag, start of the payload)...], the last one is read '''
    out = {}
    for t in list(range(0x10, 0x21)) + [0x42, 0x4c, 0x4d, 0x57, 0x48, 0x5a,
                                        0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x73,
                                        0x70]:
        out['%02x' % t] = [(t, b'')]
    para = (0x42, bytes(4) + b'\0\0\0\0' + bytes(4)
            + b'\3\0\2\0\4\0' + bytes(6))
    for t in (0x44, 0x45, 0x46, 0x47):
        out['para/%02x' % t] = [para, (t, b'')]
    for c in sorted(CHIDS) + ['what']:
        ctrl = (0x47, code(c))
        out['para/47' + c] = [para, ctrl]
        for t in (0x48, 0x57):
            out['para/%s/%02x' % (c, t)] = [para, ctrl, (t, b'')]
    tbl = (0x47, code('tbl '))
    gso = (0x47, code('gso '))
    secd = (0x47, code('secd'))
    body = (0x4d, bytes(40))
    out['para/tbl/4d'] = [para, tbl, (0x4d, b'')]
    out['para/tbl/body/48'] = [para, tbl, body, (0x48, b'')]
    out['para/tbl/body/48/48'] = [para, tbl, body, (0x48, b''), (0x48, b'')]
    for t in (0x49, 0x4a, 0x4b, 0x42):
        out['para/secd/%02x' % t] = [para, secd, (t, b'')]
    out['para/eqed/58'] = [para, (0x47, code('eqed')), (0x58, b'')]
    for c in SHAPES:
        out['gso/4c' + c] = [para, gso, (0x4c, code(c) * 2)]
        top = (0x4c, code('$con') * 2)
        out['gso/$con/4c' + c] = [para, gso, top, (0x4c, code(c))]
        out['tbl/4c' + c] = [para, tbl, (0x4c, code(c))]
        up = (0x4c, code(c) * 2)
        out['gso/%s/48' % c] = [para, gso, up, (0x48, b'')]
        out['gso/%s/57' % c] = [para, gso, up, (0x57, b'')]
    for t in range(0x4e, 0x57):
        out['gso/$rec/%02x' % t] = [para, gso, (0x4c, code('$rec') * 2),
                                    (t, b'')]
        out['gso/$con/$lin/%02x' % t] = [
            para, gso, (0x4c, code('$con') * 2), (0x4c, code('$lin')),
            (t, b'')]
    return out


def noise(tell, n):
    out = b''
    k = 0
    while len(out) < n:
        out += hashlib.sha256(('%s %d' % (tell, k)).encode()).digest()
        k += 1
    return out[:n]


def sparse(tell, n, one_in):
    ''' mostly zeros, and small numbers '''
    pick = noise(tell + ' where', n)
    what = noise(tell + ' what', n)
    kind = noise(tell + ' kind', n)
    return bytes((what[i] if kind[i] % 4 == 0 else what[i] % 6)
                 if pick[i] % one_in == 0 else 0 for i in range(n))


def payloads(name, thin):
    ''' (what, payload) '''
    yield 'zeros', bytes(SIZE)
    yield 'short', bytes(11)
    for i in range(1 if thin else 3):
        yield 'few %d' % i, sparse('%s few %d' % (name, i), SIZE, 24)
    for i in range(1 if thin else 3):
        yield 'some %d' % i, sparse('%s some %d' % (name, i), SIZE, 5)
    if not thin:
        text = b''.join(bytes([65 + c % 26, 0])
                        for c in noise(name, SIZE // 2))
        yield 'text', text
        yield 'text after 4', b'\3\0\2\0' + text[4:]


def scan():
    for k in range(8):
        for b in range(8):
            yield ENDS[1], 'byte %d is %d' % (k, 1 << b), bytes(k) + bytes(
                [1 << b]) + bytes(SIZE - k - 1)
    for k in range(SCAN):
        for n, v in ((1, 1), (1, 4), (0, 1)):
            yield ENDS[n], 'byte %d is %d' % (k, v), bytes(k) + bytes(
                [v]) + bytes(SIZE - k - 1)


def readings(name, thin):
    ''' (version, what, payload of the record) '''
    chain = scenarios()[name]
    start = chain[-1][1]
    for what, p in payloads(name, thin):
        for v in VERSIONS:
            yield v, what, (start + p)[:len(p)]
    if thin or name.startswith(('gso/$con', 'tbl/', 'para/47%%')) or (
            len(chain) > 2 and chain[-1][0] in (0x48, 0x57)
            and chain[-2][1] not in (code('tbl '), b'bokm'[::-1],
                                     code('secd'), code('%clk'))
            and chain[-2][0] != 0x4d and '$rec' not in name):
        return
    if name.startswith('para/47%') and name != 'para/47%clk':
        return
    for v, what, p in scan():
        yield v, what, (start + p[len(start):])


def plain(v):
    if isinstance(v, dict):
        return sorted((str(k), plain(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).hex()
    if isinstance(v, float):
        return '%r' % v
    return str(v)


def read(chain, version, payload):
    from pyvc.concrete import need
    parse = need('hwp5.binmodel', 'parse_models')
    ParseError = need('hwp5.dataio', 'ParseError')
    records = []
    level = 0
    for i, (tag, start) in enumerate(chain):
        p = start + bytes(300)
        if i == len(chain) - 1:
            p = payload
        if i and not (chain[i - 1][0] == 0x4d or (
                tag == 0x48 and chain[i - 1][0] == 0x48)):
            level = level + 1
        records.append(dict(tagid=tag, level=level, seqno=i, payload=p,
                            size=len(p), tagname='T%d' % tag))
    try:
        m = list(parse({'version': version}, records))[-1]
    except (ParseError, UnicodeError, LookupError, ValueError):
        return 'refused'
    return [m['type'].__name__, plain(m['content']),
            m.get('unparsed', b'').hex()]


def digest(reading):
    return hashlib.sha256(json.dumps(reading).encode()).hexdigest()[:4]


def check(name, thin):
    ''' every reading of a scenario is what the table says '''
    logging.disable(logging.CRITICAL)
    if not known:
        with open(TABLE) as f:
            known.update(json.load(f))
    table = known
    chain = scenarios()[name]
    want = table['thin' if thin else 'full'][name]
    for i, (version, what, payload) in enumerate(readings(name, thin)):
        if want[4 * i:4 * i + 4] == SKIPPED:
            continue
        got = read(chain, version, payload)
        if digest(got) != want[4 * i:4 * i + 4]:
            return ('record 0x%x of %s (%s), version %s, payload %s: read '
                    'as %s, which is not its layout' % (
                        chain[-1][0], name, what,
                        '.'.join(map(str, version)),
                        payload.rstrip(b'\0').hex() or 'zeros',
                        json.dumps(got)[:1500]))
    return None
