''' C16 property sets '''
from pyvc.unit import unit
from . import summary, commands  # noqa

LEVEL = 'proof'
BOUNDS = ('cross-checks: random property set streams (0..4 sets at any '
          'offsets and order, 0..12 properties each at any offsets and '
          'order, with gaps; every value type; with and without dictionary '
          'and code page; known and unknown formats), their listing as text and as XML; times up to the year '
          '9999 (what datetime can hold)')
ASSUMPTIONS = [
    'read_type has the contract of C12 (in the units stream, dictionary)',
    'the property ids of a set are distinct (MS-OLEPS 2.18); the value types '
    'are the three which the reader knows; strings are valid UTF-16LE',
    'bytes.decode("utf-16le") is an abstract function in the proof',
]
TRUSTED = ['datetime, timedelta (modelled as microseconds), uuid.UUID']


@unit('C16', funcs=['hwp5.msoleprops.VT_I4.read_value',
                    'hwp5.msoleprops.VT_LPWSTR.read_value',
                    'hwp5.msoleprops.VT_FILETIME.read_value',
                    'hwp5.msoleprops.PropertyReader.read',
                    'hwp5.msoleprops.TypedPropertyValue.fromDict'],
      covers=['VT_I4', 'VT_LPWSTR', 'VT_FILETIME'], max_seconds=200)
def one(E):
    ''' a property is read from section offset + its offset: the type code
    and then the value of that type '''
    import z3
    from .common import (fresh_int, fresh_bytes, prove_eq, ti, mkint, SVal,
                         SInt, SFile, V, Rope, segs_of, same_item)
    from hwp5 import msoleprops as M
    data = fresh_bytes('data')
    src = segs_of(data)[0].base
    f = SFile(data, fresh_int('somewhere', 0))
    off1 = fresh_int('section', 0)
    off2 = fresh_int('property', 0)

    class Desc(object):
        pass
    psd = Desc()
    psd.offset = off1
    psd.fmtid = SVal('fmtid')
    pd = Desc()
    pd.offset = off2
    pd.id = fresh_int('id', 0)
    at = z3.simplify(off1.t + off2.t)
    size = V.seqlen(segs_of(data))
    E.assume(at + 8 <= ti(size))

    def u(k):
        return sum(ti(src.elem(mkint(at + k + j))) * (1 << 8 * j)
                   for j in range(4))
    name, code = [('VT_I4', 3), ('VT_LPWSTR', 0x1f),
                  ('VT_FILETIME', 0x40)][E.choose(3)]
    E.assume(u(0) == code)
    decoded = []

    def decode(b, enc='utf-8', *a):
        t = V.fresh_text('text')
        decoded.append((b, enc, t))
        return t
    V.ROPE_METHODS['bytes', 'decode'] = decode
    n = u(4)
    if name == 'VT_LPWSTR':
        E.assume(at + 8 + 2 * n <= ti(size))
        E.assume(n > 0)
    elif name == 'VT_FILETIME':
        E.assume(at + 12 <= ti(size))
    label = SVal('label')
    r = M.PropertyReader(psd, pd, label, None)
    p = r.read(f)
    E.cover(name)
    E.prove(p.desc is pd, 'the description')
    E.prove(p.idLabel is label, 'the label')
    prove_eq(E, p.id, pd.id, 'the id')
    prove_eq(E, p.type.code, code, 'the declared type')
    if name == 'VT_I4':
        want = z3.If(n >= 1 << 31, n - (1 << 32), n)
        prove_eq(E, p.value, mkint(want), 'a signed 32-bit integer')
        end = 8
    elif name == 'VT_FILETIME':
        E.prove(isinstance(p.value, M.FILETIME), 'a time')
        prove_eq(E, p.value.value, mkint(n + u(8) * (1 << 32)),
                 'a 64-bit number')
        end = 12
    else:
        E.prove(len(decoded) == 1, 'decoded once')
        b, enc, t = decoded[0]
        E.prove(enc.lower().replace('_', '-').replace('f1', 'f-1') in (
            'utf-16le', 'utf-16-le'), 'UTF-16LE')
        prove_eq(E, b, Rope('bytes', [V.View(src, V.lval(at + 8), V.lval(
            z3.simplify(at + 8 + 2 * n)))]), 'the bytes of the string')
        tl = V.seqlen(segs_of(t))
        if E.branch(ti(tl) > 0):
            prove_eq(E, p.value, t[:-1], 'the string without its null')
        end = 8 + 2 * n
    prove_eq(E, f.tell(), mkint(at + end), 'what is consumed')


class Micros(object):
    ''' a time difference, or a time since the year 1, in microseconds '''

    def __init__(self, us, absolute):
        self.us = us
        self.absolute = absolute

    def __add__(self, o):
        import datetime
        if isinstance(o, datetime.datetime):
            o = micros_of(o)
        if isinstance(o, datetime.timedelta):
            o = Micros(o // datetime.timedelta(microseconds=1), False)
        if not isinstance(o, Micros) or (self.absolute and o.absolute):
            raise TypeError('+')
        return Micros(self.us + o.us, self.absolute or o.absolute)
    __radd__ = __add__


def micros_of(d):
    import datetime
    return Micros((d - datetime.datetime(1, 1, 1)) // datetime.timedelta(
        microseconds=1), True)


@unit('C16', funcs=['hwp5.msoleprops.FILETIME.datetime'])
def time(E):
    ''' 100-nanosecond steps since 1601, down to the microsecond '''
    import datetime
    from .common import fresh_int, prove_eq, mkint, ti
    from hwp5.msoleprops import FILETIME
    weight = dict(days=86400 * 10 ** 6, seconds=10 ** 6, microseconds=1,
                  milliseconds=1000, minutes=60 * 10 ** 6,
                  hours=3600 * 10 ** 6, weeks=7 * 86400 * 10 ** 6)
    order = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes',
             'hours', 'weeks']

    def timedelta(*a, **kw):
        kw.update(zip(order, a))
        us = 0
        for k, x in kw.items():
            ti(x)
            us = us + x * weight[k]
        return Micros(us, False)

    def absolute(*a, **kw):
        return micros_of(datetime.datetime(*a, **kw))
    E.models[datetime.timedelta] = timedelta
    E.models[datetime.datetime] = absolute
    v = fresh_int('value', 0, (1 << 64) - 1)
    t = FILETIME(v).datetime
    E.prove(isinstance(t, Micros) and t.absolute, 'a point in time')
    base = micros_of(datetime.datetime(1601, 1, 1)).us
    prove_eq(E, t.us, mkint(base + v.t / 10), 'value div 10 microseconds '
             'after the beginning of 1601')


@unit('C16', funcs=['hwp5.msoleprops.PropertySet.__getitem__',
                    'hwp5.msoleprops.Dictionary.get'],
      covers=['found', 'missing', 'no entry', 'entry'])
def lookup(E):
    ''' the value of the property with that id; KeyError if there is none '''
    import z3
    from .common import (fresh_int, prove_eq, ti, mkint, SVal, SInt, SIter,
                         fresh_list, V)
    from hwp5 import msoleprops as M
    n = fresh_int('n', 0)
    ID = z3.Function(E.fresh('id'), z3.IntSort(), z3.IntSort())
    lst = fresh_list(E, 'props', n, lambda i, tag: SVal(
        'prop', i, id=SInt(ID(ti(i))), value=SVal('value', i),
        name=SVal('value', i)))
    want = fresh_int('wanted', 0)
    # j: the first with that id (n: there is none)
    j = fresh_int('j', 0)
    E.assume(j.t <= n.t)
    x = z3.Int('x')
    E.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < j.t),
                                       ID(x) != want.t)))
    E.assume(z3.Implies(j.t < n.t, ID(j.t) == want.t))
    E.hints.append((lambda L: isinstance(L.it, SIter),
                    lambda L: L.fact(ti(L.pos) <= j.t, 'not found yet'), {}))
    if E.choose(2):
        d = M.Dictionary(lst)
        got = d.get(want, 'default')
        if E.branch(j.t < n.t):
            E.cover('entry')
            prove_eq(E, got, SVal('value', j), 'the name of the entry')
        else:
            E.cover('no entry')
            E.prove(isinstance(got, str) and got == 'default', 'the default')
        E.prove(E.branch(j.t < n.t) or d.get(want) is None, 'None by default')
        return
    ps = M.PropertySet(None, None, lst)
    ident = M.PropertyIdentifier(id=want, label='x')
    try:
        got = ps[ident]
    except KeyError:
        E.cover('missing')
        E.prove(j.t == n.t, 'missing only if there is none')
        return
    E.cover('found')
    E.prove(j.t < n.t, 'found only if there is one')
    prove_eq(E, got, SVal('value', j), 'the value of the property')


class Formats(object):
    ''' which formats are known, and their labels '''

    def __init__(self, known):
        self.known = known

    def __getitem__(self, fmtid):
        if not bool(self.known(fmtid._idx)):
            raise KeyError(fmtid)
        i = fmtid._idx
        from .common import SVal
        return SVal('format', i, idLabels=Labels(i))

    def get(self, fmtid, default=None):
        try:
            return self[fmtid]
        except KeyError:
            return default


class Labels(object):
    def __init__(self, i):
        self.i = i

    def get(self, id, default=None):
        from .common import SVal
        return SVal('label', id)


@unit('C16', funcs=['hwp5.msoleprops.PropertySetStreamReader.read'],
      covers=['code page', 'no code page', 'dictionary', 'no dictionary',
              'known', 'unknown', 'other', 'made', 'read'], max_seconds=300)
def stream(E):
    ''' every set is read from its offset, and each property of it once,
    any number of sets and properties in any order '''
    import z3
    from .common import (fresh_int, fresh_bytes, prove_eq, ti, mkint, SVal,
                         SInt, SBool, SFile, V, Rope, View, Lit, Base, SList,
                         SIter, fresh_list, segs_of, eqterm)
    from hwp5 import msoleprops as M
    I = z3.IntSort()
    nsets = fresh_int('nsets', 0)
    OFF = z3.Function('setoffset', I, I)
    KNOWN = z3.Function('known', I, z3.BoolSort())

    def psd(i):
        return SVal('psd', i, fmtid=SVal('fmtid', i), offset=SInt(OFF(ti(i))))
    sets = fresh_list(E, 'psd', nsets, lambda i, tag: psd(i))
    f = SFile(fresh_bytes('data'))
    E.G.k = 0
    state = {}

    class Header(object):
        propsetDescList = sets

    header = Header()
    mp = 'hwp5.msoleprops.'
    raw_header = SVal('raw header')

    def read_type(tp, context, st, *a, **k):
        E.prove(st is f, 'from the stream')
        if tp is M.PropertySetStreamHeader:
            prove_eq(E, st.tell(), 0, 'the header is at the beginning')
            E.prove('header' not in state, 'one header')
            state['header'] = 1
            st.seek(fresh_int('after the header', 0))
            return raw_header
        if tp is M.PropertySetHeader:
            prove_eq(E, st.tell(), mkint(OFF(ti(E.G.k))),
                     'a set is read at its offset')
            n = fresh_int('n', 0)
            fam = E.fresh('pd')
            has1, has0 = E.choose(2), E.choose(2)
            p, q = z3.Int(E.fresh('p')), z3.Int(E.fresh('q'))
            E.assume(z3.And(p >= 0, q >= 0, p != q))
            if has1:
                E.assume(p < n.t)
            if has0:
                E.assume(q < n.t)
            E.assume(n.t >= has0 + has1)
            ID = z3.Function(E.fresh('id'), I, I)

            def pd(i):
                t = ti(i)
                E.assume(ID(t) >= 0)
                E.assume((ID(t) == 1) == (t == p if has1 else False))
                E.assume((ID(t) == 0) == (t == q if has0 else False))
                return SVal(fam, i, id=SInt(ID(t)))
            lst = fresh_list(E, fam, n, lambda i, tag: pd(i))
            state.update(n=n, fam=fam, p=p if has1 else None, pd=pd,
                         q=q if has0 else None, lst=lst)
            state.pop('descs', None)
            state.pop('props', None)
            E.cover('code page' if has1 else 'no code page')
            E.cover('dictionary' if has0 else 'no dictionary')
            st.seek(fresh_int('after a set header', 0))
            return SVal('raw set header', E.G.k)
        E.fail('what is read', repr(tp))
    E.contracts['hwp5.bintype.read_type'] = read_type

    def from1(cls, d):
        E.prove(d is raw_header, 'the header as read')
        return header
    E.contracts[mp + 'PropertySetStreamHeader.fromDict'] = from1

    def from2(cls, d):
        prove_eq(E, d, SVal('raw set header', E.G.k), 'the header as read')
        state['h'] = SVal('set header', E.G.k, propDescList=state['lst'])
        return state['h']
    E.contracts[mp + 'PropertySetHeader.fromDict'] = from2

    def rest(kind):
        ''' the items but the code page and the dictionary, each once (in
        the order of a dict: the i-th of them is item R(i)) '''
        if kind not in state:
            out = sum(state[x] is not None for x in 'pq')
            R = z3.Function('rest' + state['fam'], I, I)
            fam = state['fam']

            def elem(i, tag):
                t = R(ti(i))
                E.assume(z3.And(t >= 0, t < ti(state['n']), *[
                    t != state[x] for x in 'pq' if state[x] is not None]))
                if kind == 'descs':
                    return state['pd'](SInt(t))
                return SVal('prop' + fam, SInt(t))
            state[kind] = fresh_list(E, kind, mkint(ti(state['n']) - out),
                                     elem)
        return state[kind]

    class Map(object):
        ''' the properties by their id '''

        def __init__(self):
            self.removed = []
            E.born(self)

        def find(self, key):
            if isinstance(key, SInt):
                raise V.Unsupported('symbolic key')
            at = {1: state['p'], 0: state['q']}[key]
            return None if key in self.removed else at

        def __contains__(self, key):
            return self.find(key) is not None

        def __getitem__(self, key):
            at = self.find(key)
            if at is None:
                raise KeyError(key)
            return state['pd'](mkint(at))

        def get(self, key, default=None):
            at = self.find(key)
            return default if at is None else state['pd'](mkint(at))

        def pop(self, key, *default):
            at = self.find(key)
            if at is None:
                if not default:
                    raise KeyError(key)
                return default[0]
            E.touch(self)
            self.removed.append(key)
            return state['pd'](mkint(at))

        def values(self):
            for key in (0, 1):
                if self.find(key) is not None:
                    raise V.Unsupported('not removed before')
            return rest('descs')

    def mapper(pairs):
        i = fresh_int('any', 0)
        E.assume(i.t < state['n'].t)
        k, v = pairs[i]
        E.prove(tb_(V.same(v, state['pd'](i))), 'maps to the descriptions')
        prove_eq(E, k, state['pd'](i).id, 'by id')
        prove_eq(E, mkint(ti(V.seqlen(segs_of(pairs)))), state['n'],
                 'all of them')
        return Map()

    def tb_(x):
        return x if isinstance(x, bool) else x.t
    E.mappers.append(mapper)

    def reader(isdict):
        def make(propsetDesc, propDesc, idLabel, codepage, displayName=None):
            i = propDesc._idx
            E.prove(propDesc._base == state['fam'], 'a property of this set')
            prove_eq(E, propsetDesc, SVal('psd', E.G.k), 'the set')
            if bool(SBool(KNOWN(ti(E.G.k)))):
                E.cover('known')
                prove_eq(E, idLabel, SVal('label', propDesc.id),
                         'the label of a known property')
            else:
                E.cover('unknown')
                E.prove(idLabel is None, 'no label')
            q = state['q']
            E.prove(z3.BoolVal(False) if q is None and isdict else
                    (ti(i) == q) == isdict if q is not None else
                    z3.BoolVal(True), 'the dictionary, and nothing else, is '
                    'read as one')

            class R(object):
                def read(self, st):
                    E.prove(st is f, 'from the stream')
                    st.seek(fresh_int('after a property', 0))
                    E.cover('other')
                    v = SVal('value' + state['fam'], i)
                    if isdict:
                        v = Names()
                    return SVal('prop' + state['fam'], i, value=v)
            return R()
        return make

    class Names(object):
        def get(self, id, default=None):
            return SVal('name', id)
    E.contracts[mp + 'PropertyReader'] = reader(False)
    E.contracts[mp + 'DictionaryReader'] = reader(True)

    def head():
        out = []
        for x in (state['p'], state['q']):
            if x is not None:
                out.append(Lit([SVal('prop' + state['fam'], SInt(x))]))
        return out

    def expected(pos=None):
        r = rest('props')
        if pos is None:
            pos = r.slen()
        r = [View(segs_of(r)[0].base, 0, V.lval(ti(pos)))]
        return Rope('list', V.normal(head() + list(r)))

    def make_set(desc, header, properties):
        prove_eq(E, desc, SVal('psd', E.G.k), 'the description of the set')
        E.prove(header is state['h'], 'the header of the set')
        E.prove(V.segs_eq(segs_of(properties), segs_of(expected()), True),
                'each property is read once')
        r = SVal('set', E.G.k)
        E.G.k = E.G.k + 1
        E.cover('made')
        return r
    E.contracts[mp + 'PropertySet'] = make_set

    made = fresh_list(E, 'sets', nsets, lambda i, tag: SVal('set', i))
    mbase = segs_of(made)[0].base
    result = []

    def make_stream(header, propertysets):
        result.append((header, propertysets))
        return SVal('stream')
    E.contracts[mp + 'PropertySetStream'] = make_stream

    def outer(L):
        L.contents(L.the_list('propertysetList'), Rope('list', V.normal(
            [View(mbase, 0, V.lval(ti(L.pos)))])))
        L.ghostlet('k', L.pos)
        if L.havocking:
            f.pos = fresh_int('somewhere', 0).t
            L.havocked(f)

    def inner(L):
        lists = [v for v in L.env.values() if isinstance(v, SList)]
        got = L.the(lambda v: isinstance(v, SList) and v is not outerlist(L),
                    'the properties', 'properties')
        L.contents(got, expected(L.pos))
        if L.havocking:
            f.pos = fresh_int('somewhere', 0).t
            L.havocked(f)

    def outerlist(L):
        return L.env.get('propertysetList')

    def is_outer(L):
        return isinstance(L.it, SIter) and L.it.segs() and any(
            not g.lit and g.base is segs_of(sets)[0].base
            for g in L.it.segs())
    def is_inner(L):
        return isinstance(L.it, SIter) and 'descs' in state and any(
            not g.lit and g.base is segs_of(state['descs'])[0].base
            for g in L.it.segs())
    E.hints.append((is_outer, outer, {}))
    E.hints.append((is_inner, inner, {}))
    r = M.PropertySetStreamReader([])
    r.propertySetFormats = Formats(lambda i: SBool(KNOWN(ti(i))))
    got = r.read(f)
    E.cover('read')
    E.prove(len(result) == 1 and result[0][0] is header, 'the header')
    E.prove(V.segs_eq(segs_of(result[0][1]), segs_of(made), True),
            'all the sets in order')


def join_single(sep, it):
    ''' ''.join of a symbolic number of one-character texts '''
    from .common import SIter, Rope, View, Base, segs_of, V, mkseq
    if not (isinstance(sep, str) and sep == ''):
        return None
    if isinstance(it, SIter):
        segs = V.cut(it.segs(), it.pos)[1]
    else:
        segs = segs_of(it)
    out = []
    for g in segs:
        if g.lit:
            return None

        def one(i, src=g.base):
            x = src.elem(i)
            if V.kind_of(x) != 'str' or V.seqlen(segs_of(x)) != 1:
                raise V.Unsupported('joining')
            return V.index_segs(segs_of(x), 0)
        out.append(View(Base('chars(%s)' % g.base.name, 'str', g.base.n,
                             one), g.lo, g.hi))
    return mkseq('str', V.normal(out))


@unit('C16', funcs=['hwp5.msoleprops.DictionaryReader.read',
                    'hwp5.msoleprops.Dictionary.fromDict',
                    'hwp5.msoleprops.DictionaryEntry.fromDict',
                    'hwp5.msoleprops.nullterminated_string'])
def dictionary(E):
    ''' a dictionary is read from its place, with all its entries, their
    names without the null at the end '''
    import z3
    from .common import (fresh_int, fresh_bytes, prove_eq, ti, mkint, SVal,
                         SInt, SFile, V, fresh_list, segs_of, View, Base,
                         Rope)
    from hwp5 import msoleprops as M
    I = z3.IntSort()
    f = SFile(fresh_bytes('data'), fresh_int('somewhere', 0))
    psd = SVal('psd', 0, offset=fresh_int('section', 0))
    pd = SVal('pd', 0, offset=fresh_int('property', 0))
    n = fresh_int('n', 0)
    ID, LEN = z3.Function('id', I, I), z3.Function('len', I, I)
    BYTE = z3.Function('byte', I, I, I)

    def entry(i, tag):
        t = ti(i)
        E.assume(LEN(t) >= 1)

        def byte(j, tag):
            b = BYTE(t, ti(j))
            E.assume(z3.And(b >= 0, b < 256))
            return SInt(b)
        d = V.elemdict(box['b'], i)
        d.update(id=SInt(ID(t)), name=fresh_list(E, 'name', SInt(LEN(t)),
                                                 byte))
        return d
    box = {}
    lst = fresh_list(E, 'entries', n, entry)
    box['b'] = segs_of(lst)[0].base
    done = []

    def read_type(tp, context, st, *a, **k):
        E.prove(tp is M.Dictionary and st is f, 'a dictionary')
        prove_eq(E, st.tell(), psd.offset + pd.offset, 'from its place')
        done.append(1)
        return {'entries': lst}
    E.contracts['hwp5.bintype.read_type'] = read_type
    E.joiners.append(join_single)
    label = SVal('label')
    p = M.DictionaryReader(psd, pd, label, None).read(f)
    E.prove(len(done) == 1, 'read once')
    E.prove(p.desc is pd and p.idLabel is label, 'description and label')
    ents = p.value.entries
    prove_eq(E, mkint(ti(V.seqlen(segs_of(ents)))), n, 'all entries')
    i = fresh_int('any', 0)
    E.assume(i.t < n.t)
    e = ents[i]
    prove_eq(E, e.id, mkint(ID(i.t)), 'the id of an entry')
    prove_eq(E, mkint(ti(V.seqlen(segs_of(e.name)))), mkint(LEN(i.t) - 1),
             'the length of a name')
    if not E.branch(LEN(i.t) > 1):
        return
    j = fresh_int('character', 0)
    E.assume(j.t < LEN(i.t) - 1)
    prove_eq(E, mkint(ti(V.index_segs(segs_of(e.name), j))),
             mkint(BYTE(i.t, j.t)), 'a character of a name')


@unit('C16', funcs=['hwp5.msoleprops.PropertySetStreamHeader.fromDict',
                    'hwp5.msoleprops.PropertySetDesc.fromDict',
                    'hwp5.msoleprops.PropertySetHeader.fromDict',
                    'hwp5.msoleprops.PropertyDesc.fromDict',
                    'hwp5.msoleprops.uuid_from_bytes_tuple',
                    'hwp5.msoleprops.PropertySetFormat.idLabels'],
      covers=['stream', 'set'])
def headers(E):
    ''' the headers keep what was read; identifiers are the little-endian
    UUIDs of their 16 bytes '''
    import uuid
    import z3
    from .common import (fresh_int, prove_eq, ti, mkint, SVal, SInt, V,
                         fresh_list, segs_of, fresh_bytes)
    from hwp5 import msoleprops as M
    I = z3.IntSort()
    n = fresh_int('n', 0)
    A, B = z3.Function('a', I, I), z3.Function('b', I, I)
    BYTE = z3.Function('byte', I, I, I)
    box = {}

    def sixteen(i):
        out = []
        for k in range(16):
            b = BYTE(ti(i), z3.IntVal(k))
            E.assume(z3.And(b >= 0, b < 256))
            out.append(SInt(b))
        return tuple(out)

    class Uuid(object):
        def __init__(self, *a, **kw):
            E.prove(not a and list(kw) == ['bytes_le'], 'little-endian')
            self.bytes_le = kw['bytes_le']
    E.models[uuid.UUID] = Uuid

    def check(u, i, what):
        prove_eq(E, mkint(ti(V.seqlen(segs_of(u.bytes_le)))), 16, what)
        for k in range(16):
            prove_eq(E, mkint(ti(V.index_segs(segs_of(u.bytes_le), k))),
                     mkint(BYTE(ti(i), z3.IntVal(k))), what)
    which = E.choose(2)

    def elem(i, tag):
        d = V.elemdict(box['b'], i)
        if which == 0:
            d.update(fmtid=sixteen(i), offset=SInt(A(ti(i))))
        else:
            d.update(id=SInt(B(ti(i))), offset=SInt(A(ti(i))))
        return d
    lst = fresh_list(E, 'descs', n, elem)
    box['b'] = segs_of(lst)[0].base
    j = fresh_int('any', 0)
    E.assume(j.t < n.t)
    if which == 0:
        E.cover('stream')
        d = dict(byteOrder=fresh_int('bo', 0), version=fresh_int('v', 0),
                 systemIdentifier=fresh_int('si', 0), clsid=sixteen(-1),
                 propsetDescList=lst)
        h = M.PropertySetStreamHeader.fromDict(d)
        st = M.PropertySetStream(h, ())
        for name in ('byteOrder', 'version', 'systemIdentifier'):
            prove_eq(E, getattr(st, name), d[name], name)
        check(st.clsid, -1, 'clsid')
        got = h.propsetDescList
        check(got[j].fmtid, j, 'fmtid')
        ps = M.PropertySet(got[j], None, [])
        E.prove(ps.fmtid is got[j].fmtid, 'fmtid of the set')
    else:
        E.cover('set')
        d = dict(bytesize=fresh_int('size', 0), propDescList=lst)
        h = M.PropertySetHeader.fromDict(d)
        prove_eq(E, h.bytesize, d['bytesize'], 'bytesize')
        got = h.propDescList
        prove_eq(E, got[j].id, mkint(B(j.t)), 'the id')
    prove_eq(E, mkint(ti(V.seqlen(segs_of(got)))), n, 'all of them')
    prove_eq(E, got[j].offset, mkint(A(j.t)), 'the offset')
    fmt = M.PropertySetFormat('f', [M.PropertyIdentifier(id=k, label=str(k))
                                    for k in range(30)])
    E.prove(dict(fmt.idLabels) == {k: str(k) for k in range(30)},
            'labels by id')


# -- cross-check on the code as it is -------------------------------------------

CLSID = bytes.fromhex('60b6a29f6110d411b4c6006097c09d8c')


def cases(rng, tier):
    n = 6000 if tier == 'thorough' else 600
    for v in [0, 1, 9, 10, 11, 2 ** 32 - 1, 2 ** 32, 2 ** 32 * 10 + 7,
              2650467743999999999, 2 ** 61, 128166372000000019]:
        yield ('time', v)
    for i in range(n):
        yield ('time', rng.randrange(rng.choice([1 << 33, 1 << 58,
                                                 2650467744000000000])))
    for i in range(n):
        yield ('stream', rng.randrange(1 << 30))
    for i in range(n // 3):
        yield ('summary', rng.randrange(1 << 30))
    from .c26 import FIXTURES
    for name in FIXTURES:
        yield ('commands', name)


def random_text(rng):
    n = rng.choice([0, 0, 1, 2, 5, 40, 300])
    s = ''
    for i in range(n):
        s += rng.choice(['a', ' ', '\n', '\uac00', '\ud55c', '\x00',
                         '\U0001f600', '\ue000', chr(rng.randrange(1, 256))])
    return s


def text_units(s):
    out = []
    for c in s:
        c = ord(c)
        if c > 0xffff:
            c -= 0x10000
            out += [0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff)]
        else:
            out.append(c)
    return out


def le(v, n):
    return bytes((v >> 8 * i) & 255 for i in range(n))


def random_value(rng, kind=None):
    ''' (bytes, kind, value) '''
    kind = kind or rng.choice(['i4', 'str', 'str', 'time'])
    if kind == 'i4':
        v = rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, 65536, 255, -256,
                        rng.randrange(-2 ** 31, 2 ** 31)])
        return le(3, 4) + le(v & 0xffffffff, 4), kind, v
    if kind == 'str':
        s = random_text(rng)
        if rng.randrange(40) == 0:
            s = s * 300
        us = text_units(s) + [0]
        return (le(0x1f, 4) + le(len(us), 4)
                + b''.join(le(u, 2) for u in us), kind, s)
    v = rng.choice([0, 5, rng.randrange(1 << 60), rng.randrange(1 << 33),
                    0x100000000, 0xffffffff])
    return le(0x40, 4) + le(v & 0xffffffff, 4) + le(v >> 32, 4), kind, v


def random_section(rng, ids, with_dict, codepage):
    ''' bytes of a set; {id: (offset, kind, value)} in the listed order '''
    items = []
    for i in ids:
        items.append((i,) + random_value(rng))
    if codepage is not None:
        items.append((1,) + random_value(rng, 'i4'))
    if with_dict:
        ents = []
        b = b''
        for k in range(rng.choice([0, 1, 2, 3, 4, 4, 40])):
            name = ''.join(chr(rng.randrange(1, 256))
                           for j in range(rng.randrange(8)))
            eid = rng.choice(list(ids) + [rng.randrange(1 << 32)])
            ents.append((eid, name))
            b += le(eid, 4) + le(len(name) + 1, 4) + bytes(
                ord(c) for c in name) + b'\0'
        items.append((0, le(len(ents), 4) + b, 'dict', ents))
    rng.shuffle(items)
    order = list(range(len(items)))
    rng.shuffle(order)
    head = 8 + 8 * len(items)
    body = b''
    offs = {}
    for k in order:
        body += bytes(rng.randrange(256)
                      for j in range(rng.choice([0, 0, 1, 4, 7])))
        if rng.randrange(100) == 0:
            body += bytes(70000)
        offs[k] = head + len(body)
        body += items[k][1]
    b = le(head + len(body), 4) + le(len(items), 4)
    listed = []
    for k, it in enumerate(items):
        b += le(it[0], 4) + le(offs[k], 4)
        listed.append((it[0], offs[k], it[2], it[3]))
    return b + body, listed


def random_stream(rng, clsid=None, formats=None, ids=None, nsets=None):
    n = rng.randrange(5) if nsets is None else nsets
    clsid = clsid or bytes(rng.randrange(256) for i in range(16))
    header = (le(0xfffe, 2) + le(rng.choice([0, 1, 0x1234]), 2)
              + le(rng.randrange(1 << 32), 4) + clsid + le(n, 4))
    sets = []
    for i in range(n):
        fmt = rng.choice(formats)
        pool = [rng.randrange(2, 30) for j in range(rng.choice(
            [0, 1, 3, 5, 8, 12, 100]))]
        pool += [rng.randrange(1 << 32) for j in range(rng.randrange(2))]
        pool += [0x80000000] * rng.randrange(2)
        pool = list(ids) if ids is not None else sorted(set(pool) - {0, 1})
        b, listed = random_section(rng, pool, rng.randrange(2),
                                   1 if rng.randrange(3) == 0 else None)
        sets.append([fmt, b, listed, None])
    order = list(range(n))
    rng.shuffle(order)
    body = b''
    start = len(header) + 20 * n
    for k in order:
        body += bytes(rng.randrange(256)
                      for j in range(rng.choice([0, 0, 3, 16])))
        if rng.randrange(12) == 0:
            body += bytes(70000)
        sets[k][3] = start + len(body)
        body += sets[k][1]
    for fmt, b, listed, off in sets:
        header += fmt + le(off, 4)
    return header + body, sets


def check_value(kind, got, want):
    import datetime
    if kind == 'dict':
        return [(e.id, e.name) for e in got.entries] == want
    if kind == 'time':
        if got.value != want:
            return False
        us = ((got.datetime - datetime.datetime(1601, 1, 1))
              // datetime.timedelta(microseconds=1))
        return us == want // 10 and str(got) == str(got.datetime)
    return type(got) is type(want) and got == want


def check_case(case):
    import datetime
    import io
    import random
    import uuid
    from pyvc.concrete import need
    if case[0] == 'commands':
        return commands.check_summary_command(case[1])
    M = need('hwp5.msoleprops')
    if case[0] == 'time':
        t = need('hwp5.msoleprops', 'FILETIME')(case[1])
        want = (datetime.datetime(1601, 1, 1)
                + datetime.timedelta(days=case[1] // 864000000000)
                + datetime.timedelta(microseconds=case[1] % 864000000000
                                     // 10))
        if t.datetime != want or str(t) != str(want):
            return 'the time %d is %s, not %s' % (case[1], t, want)
        return None
    rng = random.Random(case[1])
    other = [bytes(rng.randrange(256) for i in range(16)) for j in range(2)]
    if case[0] == 'stream':
        known = [M.PropertyIdentifier(id=i, label='L%d' % i)
                 for i in list(range(0, 12)) + [0x80000000]]
        reader = M.PropertySetStreamReader([M.PropertySetFormat(
            uuid.UUID(bytes_le=f), known) for f in (CLSID, other[0])])
        data, sets = random_stream(rng, formats=[CLSID] + other)
        st = reader.read(io.BytesIO(data))
        if (st.byteOrder, st.version, st.systemIdentifier) != (
                0xfffe, data[2] + data[3] * 256,
                int.from_bytes(data[4:8], 'little')):
            return 'stream header of %r' % data
        if st.clsid != uuid.UUID(bytes_le=data[8:24]):
            return 'clsid of %r' % data
        return check_sets(M, st, sets, [CLSID, other[0]],
                          {p.id: p.label for p in known})
    if case[0] == 'summary':
        return check_summary(M, rng, other)
    raise ValueError(case)


def check_sets(M, st, sets, known, labels):
    import uuid
    if len(st.propertysets) != len(sets):
        return '%d sets, not %d' % (len(st.propertysets), len(sets))
    for ps, (fmt, b, listed, off) in zip(st.propertysets, sets):
        if ps.fmtid != uuid.UUID(bytes_le=fmt) or ps.desc.offset != off:
            return 'the description of a set'
        if sorted(p.id for p in ps.properties) != sorted(
                x[0] for x in listed):
            return 'ids %r, not %r' % ([p.id for p in ps.properties],
                                       [x[0] for x in listed])
        for i, o, kind, v in listed:
            p, = [p for p in ps.properties if p.id == i]
            code = {'i4': 3, 'str': 0x1f, 'time': 0x40, 'dict': None}[kind]
            if (p.type.code if p.type is not None else None) != code:
                return 'the type of property %d' % i
            if p.desc.offset != o:
                return 'the offset of property %d' % i
            if not check_value(kind, p.value, v):
                return 'property %d is %r, not %r' % (i, p.value, v)
            if p.idLabel != (labels.get(i) if fmt in known else None):
                return 'the label of property %d is %r' % (i, p.idLabel)
            if not check_value(kind, ps[M.PropertyIdentifier(
                    id=i, label='any')], v):
                return 'looking up property %d' % i
            if kind == 'dict':
                for e in v + [(0xfffffff0, None), (7, None)]:
                    first = [n for k, n in v if k == e[0]]
                    if p.value.get(e[0]) != (first[0] if first else None):
                        return 'looking up %r in a dictionary' % (e,)
                    if p.value.get(e[0], 'no') != (first[0] if first
                                                   else 'no'):
                        return 'looking up %r in a dictionary' % (e,)
        here = set(x[0] for x in listed)
        for i in [0, 1, 2, 3, 0x1d, 0x80000000, 0xffffffff, 77]:
            if i in here:
                continue
            try:
                got = ps[M.PropertyIdentifier(id=i, label='any')]
            except KeyError:
                continue
            return 'the missing property %d is %r' % (i, got)
    return None


ATTRS = dict(title=2, subject=3, author=4, keywords=5, comments=6,
             lastSavedBy=8, revisionNumber=9, lastPrintedTime=11,
             createdTime=12, lastSavedTime=13, numberOfPages=14,
             dateString=20, numberOfParagraphs=21)


class MemItem(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        import io
        return io.BytesIO(self.data)


def check_summary(M, rng, other):
    from pyvc.concrete import need
    fs = need('hwp5.filestructure')
    si = need('hwp5.summaryinfo')
    drop = set(rng.sample(sorted(ATTRS.values()), rng.choice([0, 0, 0, 1, 4])))
    ids = sorted(set(ATTRS.values()) - drop)
    data, sets = random_stream(rng, clsid=CLSID, formats=[CLSID], ids=ids,
                               nsets=rng.choice([1, 1, 2]))
    item = fs.HwpSummaryInfo(MemItem(data), (5, 0, 1, 0))
    fmt, b, listed, off = sets[0]
    vals = {i: (kind, v) for i, o, kind, v in listed}
    for name, i in ATTRS.items():
        try:
            got = getattr(item, name)
        except KeyError:
            if i in vals:
                return '%s is missing' % name
            continue
        if i not in vals:
            return 'the missing %s is %r' % (name, got)
        if not check_value(vals[i][0], got, vals[i][1]):
            return '%s is %r, not %r' % (name, got, vals[i][1])
    if not drop:
        lines = list(si.HwpSummaryInfoTextFormatter().formatTextLines(item))
        names = ['Title', 'Subject', 'Author', 'Keywords', 'Comments',
                 'Last saved by', 'Revision Number', 'Last Printed at',
                 'Created at', 'Last saved at', 'Number of pages', 'Date',
                 'Number of paragraphs']
        want = ['%s: %s' % (n, getattr(item, a)) for n, a in zip(names, [
            'title', 'subject', 'author', 'keywords', 'comments',
            'lastSavedBy', 'revisionNumber', 'lastPrintedTime',
            'createdTime', 'lastSavedTime', 'numberOfPages', 'dateString',
            'numberOfParagraphs'])]
        if lines != want:
            return 'the summary is %r, not %r' % (lines, want)
    msg = check_text(item, data, sets)
    if msg:
        return msg
    return check_events(need, data, sets)


def labels_of_summary(need):
    return {p.id: p.label for p in need('hwp5.summaryinfo',
                                        'HWP_PROPERTIES')}


def shown(kind, v):
    import datetime
    if kind == 'time':
        return str(datetime.datetime(1601, 1, 1)
                   + datetime.timedelta(microseconds=v // 10))
    return '%s' % (v,)


def check_text(item, data, sets):
    import uuid
    from pyvc.concrete import need
    labels = labels_of_summary(need)
    for again in range(2):
        text = item.open_text().read().decode('utf-8')
        want = ['- ByteOrder: 0xfffe',
                '- Version: %d' % (data[2] + data[3] * 256),
                '- SystemIdentifier: 0x%08x' % int.from_bytes(
                    data[4:8], 'little'),
                '- CLSID: %s' % uuid.UUID(bytes_le=data[8:24]), '']
        for fmt, b, listed, off in sets:
            title = 'Property Set %s' % uuid.UUID(bytes_le=fmt)
            want.append('- %08x: %s' % (off, title))
            want.append(' ' * 12 + '-' * len(title))
            for i, o, kind, v in sorted(listed, key=lambda x: x[1]):
                l = '- %08x: %s(=0x%08x):' % (
                    off + o, labels.get(i, '') if fmt == CLSID else '', i)
                if i == 0:
                    want.append(l)
                    want += [' ' * 12 + '- %d: %s' % e for e in v]
                else:
                    want.append(l + ' ' + shown(kind, v))
        if text != ''.join(l + '\n' for l in want):
            return 'the text is %r, not %r' % (text, want)
    return None


def check_events(need, data, sets):
    ''' the summary as XML events '''
    import uuid
    from . import doctree as T
    M = T.models(need)
    labels = labels_of_summary(need)
    info = need('hwp5.xmlmodel', 'HwpSummaryInfo')(
        MemItem(data), (5, 0, 1, 0))
    top = T.parse(list(info.events(other='x')), M.S, M.E)

    def plain(n):
        if n.c.get('other') != 'x':
            raise ValueError('the context of %r is %r' % (n.m, n.c))
        a = {k: n.a[k] for k in n.a if k != 'value'}
        if 'fmtid' in a:
            a['fmtid'] = str(a['fmtid'])
        if 'value' in n.a:
            a['value'] = str(n.a['value'])
        return (n.m.__name__, a, [plain(k) for k in n.k])
    want = []
    for fmt, b, listed, off in sets:
        props = []
        for i, o, kind, v in sorted(listed, key=lambda x: x[1]):
            a = dict(id=i, offset=o)
            if fmt == CLSID and i in labels:
                a['id_label'] = labels[i]
            if kind != 'dict':
                a['type'], a['type_code'] = {
                    'i4': ('VT_I4', '0x0003'), 'str': ('VT_LPWSTR', '0x001f'),
                    'time': ('VT_FILETIME', '0x0040')}[kind]
                a['value'] = shown(kind, v)
            props.append(('Property', a, [
                ('DictionaryEntry', dict(id=e, name=n), [])
                for e, n in v] if kind == 'dict' else []))
        want.append(('PropertySet', dict(
            fmtid=str(uuid.UUID(bytes_le=fmt)), offset=off), props))
    want = [('HwpSummaryInfo', {}, [('PropertySetStream', dict(
        byte_order='fffe', version=str(data[2] + data[3] * 256),
        system_identifier='%08x' % int.from_bytes(data[4:8], 'little'),
        clsid=str(uuid.UUID(bytes_le=data[8:24]))), want)])]
    try:
        got = [plain(n) for n in top]
    except ValueError as ex:
        return str(ex)
    if got != want:
        return 'the events of the summary are %r, not %r' % (got, want)
    return None
