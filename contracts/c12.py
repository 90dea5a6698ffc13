''' C12 typed binary reading '''
import os

from pyvc.unit import unit

LEVEL = 'proof'
SHARDS = 12
MAXCOUNT = 2
BOUNDS = ('in the proof over the types of the format, arrays whose count is '
          'in the data have at most %d items (bounded; everything else of '
          'these obligations is for all bytes, all lengths of the data and '
          'all versions); cross-checks: random structure definitions (all '
          'kinds of types, nested up to 3 deep, conditions, selectors, '
          'versions), counts up to 300, every truncation, versions in random '
          'order' % MAXCOUNT)
ASSUMPTIONS = [
    'bytes.decode("utf-16le"), b2a_hex and the value of 8 bytes as a double '
    'are abstract functions in the proof; CHID.decode and ParaTextChunks '
    'have the contracts proved in C05 and C06',
    'a selection of a selective member is not itself selective',
    'conditions, selectors and count references of the definitions are '
    'evaluated as declared (they are part of the definitions)',
]
TRUSTED = ['struct.unpack (modelled: little-endian two\'s complement)',
           'binascii.b2a_hex']


# -- the definitions, read independently of hwp5.bintype -------------------------

def members_of(tp):
    ''' [(name, type, version, condition)] as declared '''
    cls = None
    for c in tp.__mro__:
        if 'attributes' in c.__dict__:
            cls = c
            break
    if cls is None:
        return []
    out = []
    for m in cls.attributes():
        if isinstance(m, tuple):
            out.append((m[1], m[0], None, None))
        else:
            out.append((m['name'], m['type'], m.get('version'),
                        m.get('condition')))
    return out


def kind(tp):
    import hwp5.dataio as D
    if isinstance(tp, D.X_ARRAY):
        return 'xarray'
    if isinstance(tp, D.SelectiveType):
        return 'selective'
    if isinstance(tp, D.FixedArrayType):
        return 'fixed'
    if isinstance(tp, D.VariableLengthArrayType):
        return 'varlen'
    if isinstance(tp, D.FlagsType):
        return 'flags'
    if isinstance(tp, D.StructType):
        return 'struct'
    return 'value'


def subtypes(tp):
    k = kind(tp)
    if k == 'struct':
        return [m[1] for m in members_of(tp)]
    if k in ('xarray', 'fixed', 'varlen'):
        return [tp.itemtype]
    if k == 'selective':
        return list(tp.selections.values())
    return []


def thresholds(tp, seen=()):
    out = set()
    if kind(tp) == 'struct':
        for name, t, version, cond in members_of(tp):
            if version is not None:
                out.add(tuple(version))
    for t in subtypes(tp):
        out |= thresholds(t)
    return out


def versions_of(tp):
    ''' one version of each class of versions the definition tells apart,
    and versions around its thresholds '''
    ths = thresholds(tp)
    if not ths:
        return [(5, 0, 1, 3)]
    out = set()
    for t in ths:
        out.add(t)
        t = list(t)
        for k in (3, 2, 1, 0):
            if t[k] > 0:
                t[k] -= 1
                t[k + 1:] = [255] * (3 - k)
                break
        out.add(tuple(t))
    return sorted(out)


def struct_types():
    ''' the structures of the format '''
    import sys
    import hwp5.dataio as D
    out = []
    for name in sorted(sys.modules):
        if name.startswith('hwp5.') and sys.modules[name] is not None:
            for k, v in sorted(vars(sys.modules[name]).items()):
                if isinstance(v, D.StructType) and v not in out:
                    out.append(v)
    for v in list(out):
        for t in v.__dict__.values():
            if isinstance(t, D.StructType) and t not in out:
                out.append(t)
    out.sort(key=lambda v: (v.__module__, v.__name__))
    return out


HEAVY = ['ShapeComponent']


class Short(Exception):
    def __init__(self, offset):
        self.offset = offset


SCALARS = {'UINT32': (4, False), 'INT32': (4, True), 'UINT16': (2, False),
           'INT16': (2, True), 'UINT8': (1, False), 'INT8': (1, True),
           'WORD': (2, False), 'BYTE': (1, False), 'WCHAR': (2, False),
           'HWPUNIT': (4, False), 'SHWPUNIT': (4, True),
           'HWPUNIT16': (2, True)}
LETTERS = {'<I': (4, False), '<i': (4, True), '<H': (2, False),
           '<h': (2, True), '<B': (1, False), '<b': (1, True)}


def scalar(tp):
    import hwp5.dataio as D
    for name, v in SCALARS.items():
        if getattr(D, name) is tp:
            return v
    f = getattr(tp, 'binfmt', None)
    return LETTERS.get(f)


class Reader(object):
    ''' what reading a structure means: the members in declared order, each
    from the bytes after the previous one '''

    def __init__(self, context):
        self.context = context
        self.pos = 0

    def value(self, tp, values=None):
        k = kind(tp)
        if k == 'struct':
            return self.struct(tp)
        if k == 'fixed':
            return tuple(self.value(tp.itemtype) for i in range(tp.size))
        if k == 'varlen':
            n = self.value(tp.counttype)
            return [self.value(tp.itemtype) for i in range(self.count(n))]
        if k == 'xarray':
            n = tp.count_reference(self.context, values)
            return [self.value(tp.itemtype) for i in range(self.count(n))]
        if k == 'flags':
            return self.flags(tp, self.value(tp.basetype))
        return self.primitive(tp)

    def struct(self, tp):
        values = {}
        for name, t, version, condition in members_of(tp):
            if version is not None and 'version' in self.context \
                    and self.context['version'] < version:
                continue
            if kind(t) == 'selective':
                key = t.selector_reference(self.context, values)
                t = self.select(t.selections, key)
                if t is None:
                    continue
            if condition is not None and not condition(self.context, values):
                continue
            values[name] = self.value(t, values)
        return values

    def select(self, selections, key):
        return selections.get(key)


def symbolic_reader(E, data, context, maxcount, rec):
    import z3
    import hwp5.dataio as D
    from hwp5.binmodel import CHID, ParaTextChunks
    from .common import ti, mkint, V, segs_of, SInt
    segs = list(segs_of(data))
    src = segs[0].base
    size = ti(V.seqlen(segs))

    class Sym(Reader):
        def take(self, n, start=None):
            p = z3.simplify(ti(self.pos))
            if not E.branch(p + n <= size):
                raise Short(p if start is None else start)
            self.pos = z3.simplify(p + n)
            return V.Rope('bytes', V.normal([V.View(src, V.lval(p), V.lval(
                self.pos))])), [ti(src.elem(mkint(p + k)))
                                for k in range(n)] if isinstance(
                                    n, int) else None

        def primitive(self, tp):
            s = scalar(tp)
            if s:
                _, bs = self.take(s[0])
                v = sum(b * (1 << 8 * k) for k, b in enumerate(bs))
                if s[1]:
                    half = 1 << (8 * s[0] - 1)
                    v = z3.If(v >= half, v - 2 * half, v)
                return mkint(v)
            if tp is CHID:
                _, bs = self.take(4)
                return V.Rope('str', [V.Lit([mkint(b) for b in
                                             reversed(bs)])])
            if tp is D.BSTR:
                start = z3.simplify(ti(self.pos))
                _, bs = self.take(2)
                n = bs[0] + bs[1] * 256
                r, _ = self.take(z3.simplify(2 * n), start)
                return ('text', r)
            if tp is ParaTextChunks:
                p = self.pos
                self.pos = size
                return ('chunks', V.Rope('bytes', V.normal([V.View(
                    src, V.lval(ti(p)), V.lval(size))])))
            if getattr(tp, 'binfmt', None) == '<d':
                return ('double', self.take(8)[0])
            if type(tp) is D.HexBytes:
                return ('hex', self.take(tp.fixed_size)[0])
            if tp.__name__ == 'VERSION':
                _, bs = self.take(4)
                return tuple(mkint(b) for b in reversed(bs))
            if tp.__name__.startswith('BYTES('):
                return self.take(tp.fixed_size)[0]
            raise V.Unsupported('type %r' % tp)

        def flags(self, tp, v):
            return V.mktagged(v, tp)

        def count(self, n):
            for k in range(maxcount + 1):
                if E.branch(ti(n) <= k if k == 0 else ti(n) == k):
                    return k
            raise V.Unsupported('count')

        def select(self, selections, key):
            for k, t in selections.items():
                if E.branch(ti(k) == ti(key)):
                    return t
            return None

        def struct(self, tp):
            return SpecDict(Reader.struct(self, tp))

    return Sym(context)


class SpecDict(dict):
    pass


def symbolic_parent(E):
    ''' attributes of the parent model: any number of anything '''
    from .common import fresh_int

    class Attrs(dict):
        def __missing__(self, k):
            v = self[k] = fresh_int('parent_' + k)
            return v
    return Attrs()


def same_read(E, got, want, rec, what):
    ''' the value read is the one specified '''
    import z3
    from .common import prove_eq, ti, SInt, V, kind_of, segs_of, Rope
    if isinstance(want, SpecDict):
        E.prove(isinstance(got, dict) and set(got) == set(want),
                '%s: exactly the members which are there' % what)
        for k in want:
            same_read(E, got[k], want[k], rec, what)
        return
    if isinstance(want, tuple) and want and isinstance(want[0], str):
        hit = [r for r in rec if r[0] == want[0] and r[2] is got]
        E.prove(len(hit) == 1, '%s: %s' % (what, want[0]))
        prove_eq(E, hit[0][1], want[1], '%s: bytes of a %s' % (what,
                                                               want[0]))
        return
    if isinstance(want, (list, tuple)):
        E.prove(kind_of(got) == ('list' if isinstance(want, list)
                                 else 'tuple'), '%s: an array' % what)
        items = []
        for g in segs_of(got):
            if not g.lit:
                E.fail('%s: number of items' % what)
            items.extend(g.items)
        E.prove(len(items) == len(want), '%s: number of items' % what)
        for a, b in zip(items, want):
            same_read(E, a, b, rec, what)
        return
    pt = getattr(want, 'pytype', None)
    if pt is not None:
        gt = getattr(got, 'pytype', type(got))
        E.prove(gt is pt or fields(gt) == fields(pt),
                '%s: its flags type' % what)
        got = V.SInt(ti(got))
        want = V.SInt(ti(want))
    prove_eq(E, got, want, '%s: value of a member' % what)


def fields(tp):
    return sorted((k, v.lsb, v.msb, v.valuetype) for k, v in getattr(
        tp, 'bitfields', {}).items())


def read_types(E, types, only_parent=None, maxcount=MAXCOUNT,
               only_version=None):
    import binascii
    import z3
    from .common import (fresh_int, fresh_bytes, prove_eq, ti, mkint, V, SFile,
                         SInt, segs_of)
    import hwp5.dataio as D
    from hwp5 import bintype
    from hwp5.binmodel import CHID, ParaTextChunks
    from hwp5.binmodel import GShapeObjectControl, Paragraph
    tp = types[E.choose(len(types))]
    vs = [None] + versions_of(tp)
    if 'attributes' not in tp.__dict__ and len(members_of(tp)) > 2:
        # inherited as they are
        vs = vs[-1:]
    version = vs[E.choose(len(vs)) if only_version is None
                 else only_version]
    what = tp.__name__
    context = {}
    if version is not None:
        context['version'] = version
    parent = [None, GShapeObjectControl, Paragraph]
    if uses_parent(tp):
        p = parent[E.choose(3) if only_parent is None else only_parent]
        if p is not None:
            context['parent'] = ({}, {'type': p,
                                      'content': symbolic_parent(E)})
        elif needs_parent(tp):
            raise_path_end()
    data = fresh_bytes('data')
    rec = []

    def recorder(name):
        def f(b, *a):
            from .common import SVal
            v = SVal(name, len(rec))
            rec.append((name, b, v))
            return v
        return f
    E.opaque['double'] = recorder('double')
    E.models[binascii.b2a_hex] = recorder('hex')
    text = recorder('text')

    def read_bstr(f):
        # contract of BSTR.read, proved in unit bstr
        b = f.read(2)
        if not E.branch(ti(V.seqlen(segs_of(b))) == 2):
            raise D.OutOfData()
        n = ti(b[0]) + 256 * ti(b[1])
        b = f.read(mkint(2 * n))
        if not E.branch(ti(V.seqlen(segs_of(b))) == 2 * n):
            raise D.OutOfData()
        return text(b)
    E.contracts['hwp5.dataio.BSTR.read'] = read_bstr
    chunks = recorder('chunks')

    def read_chunks(*a):
        return chunks(a[-1].read())
    E.contracts['hwp5.binmodel.tagid51_para_text.ParaTextChunks.read'] = \
        read_chunks

    def small_range(*a):
        if len(a) > 1 and isinstance(a[-1], SInt):
            E.prove(len(a) == 2 and a[0] == 0, 'from 0')
            a = a[1:]
        if isinstance(a[0], SInt):
            E.assume(a[0].t <= maxcount)
            if E.branch(a[0].t <= 0):
                return range(0)
            for k in range(1, maxcount + 1):
                if E.branch(a[0].t == k):
                    return range(k)
            raise_path_end()
        return range(*a)
    E.models[range] = small_range
    f = SFile(data)
    # whatever was read before with this or another version
    other = vs[(vs.index(version) + 1) % len(vs)]
    if other is not None:
        bintype.get_compiled_typedef_with_version(tp, other)
    before = [(k, snapshot(v)) for k, v in memo(bintype, tp, version)]
    error = got = None
    ctx = dict(context)
    try:
        got = bintype.read_type(tp, ctx, f)
    except D.ParseError as e:
        error = e
    E.prove(set(ctx) == set(context) and all(
        ctx[k] is context[k] for k in ctx), '%s: the context is left' % what)
    for k, v in before:
        cur = [y for x, y in memo(bintype, tp, version) if x == k]
        E.prove(len(cur) == 1 and snapshot(cur[0]) == v,
                '%s: the compiled definitions are left as they are' % what)
    spec = symbolic_reader(E, data, context, maxcount, rec)
    try:
        want = spec.value(tp)
    except Short as s:
        E.cover('short')
        if error is None:
            E.fail('%s: data ending early is reported' % what)
        prove_eq(E, error.offset, mkint(s.offset),
                 '%s: offset of the error' % what)
        E.prove(isinstance(error.cause, Exception),
                '%s: cause of the error' % what)
        return
    if error is not None:
        E.fail('%s: no error if the data are there' % what, repr(error.cause))
    E.cover('read')
    same_read(E, got, want, rec, what)
    prove_eq(E, f.tell(), mkint(ti(spec.pos)), '%s: bytes consumed' % what)


def raise_path_end():
    from pyvc.core import PathEnd
    raise PathEnd()


def memo(bintype, tp, version):
    ''' the memoised definitions '''
    out = []
    for v, d in bintype.versioned_typedefs.items():
        if tp in d:
            out.append((v, d[tp]))
    if tp in bintype.master_typedefs:
        out.append(('master', bintype.master_typedefs[tp]))
    return out


def snapshot(events):
    out = []
    for ev, item in events:
        out.append((ev, tuple(sorted((k, id(v)) for k, v in dict(
            item).items()))))
    return out


def uses_parent(tp):
    ''' conditions or counts of the definition look at the parent '''
    if kind(tp) == 'xarray':
        return 'PARENTREC' in (tp.count_reference.__doc__ or '') \
            or uses_parent(tp.itemtype)
    if kind(tp) == 'struct':
        for name, t, version, cond in members_of(tp):
            if cond is not None and 'parent' in (cond.__doc__ or ''):
                return True
    return any(uses_parent(t) for t in subtypes(tp))


def needs_parent(tp):
    if kind(tp) == 'xarray':
        return 'PARENTREC' in (tp.count_reference.__doc__ or '')
    return any(needs_parent(t) for t in subtypes(tp))


def make_shard(k):
    def types(E):
        read_types(E, [t for t in struct_types()
                       if t.__name__ not in HEAVY][k::SHARDS])
    types.__name__ = 'types%02d' % k
    types.__doc__ = ''' every structure of the format (shard %d): the members
    present, in order, little-endian, nothing more consumed; data ending
    early gives the offset ''' % k
    return unit('C12', funcs=['hwp5.bintype.' + n for n in (
        'read_type', 'read_type_item', 'read_type_events',
        'resolve_type_events', 'get_compiled_typedef_with_version',
        'get_compiled_typedef', 'compile_type_definition',
        'bintype_map_events', 'filter_with_version', 'static_to_mutable',
        'make_items_immutable', 'pop_subevents', 'resolve_typedefs',
        'resolve_values_from_stream', 'resolve_value_from_stream',
        'evaluate_bin_values', 'construct_composite_values',
        'eval_typedef_events', 'log_events')] + [
            'hwp5.dataio.readn', 'hwp5.dataio.BSTR.read'],
        covers=['read', 'short'], max_paths=60000, max_seconds=400,
        notes=['arrays of at most %d items (bounded)' % MAXCOUNT])(types)


HEAVY_NOTE = ['arrays of at most 1 item (bounded)']


def make_heavy(p, v):
    def heavy(E):
        read_types(E, [t for t in struct_types() if t.__name__ in HEAVY],
                   only_parent=p, maxcount=1, only_version=v)
    heavy.__name__ = 'heavy_%s_%s' % (
        ['alone', 'in_shape', 'in_paragraph'][p], ['any', 'old', 'new'][v])
    heavy.__doc__ = ''' the same of %s ''' % ', '.join(HEAVY)
    return unit('C12', covers=['read', 'short'], max_paths=60000,
                max_seconds=600, notes=HEAVY_NOTE)(heavy)


make_heavy(1, 0)
make_heavy(1, 1)
make_heavy(1, 2)
make_heavy(2, 2)
if os.environ.get('VERIF_TIER') == 'thorough':
    make_heavy(0, 0)
    make_heavy(0, 1)
    make_heavy(0, 2)
    make_heavy(2, 0)
    make_heavy(2, 1)


for _k in range(SHARDS):
    make_shard(_k)


@unit('C12', funcs=['hwp5.dataio.BSTR.read', 'hwp5.dataio.readn'],
      covers=['empty', 'text', 'short'])
def bstr(E):
    ''' the contract of BSTR.read: the length, then so many code units;
    never less '''
    from .common import (fresh_bytes, fresh_int, prove_eq, ti, mkint, V, SFile,
                         segs_of, SVal)
    import hwp5.dataio as D
    data = fresh_bytes('data')
    segs = list(segs_of(data))
    size = ti(V.seqlen(segs))
    src = segs[0].base
    p = fresh_int('p', 0)
    E.assume(p.t <= size)
    f = SFile(data)
    f.seek(p)
    rec = []

    def text(b):
        v = SVal('text', len(rec))
        rec.append((b, v))
        return v
    E.contracts['hwp5.dataio.decode_utf16le_with_hypua'] = text
    got = error = None
    try:
        got = D.BSTR.read(f)
    except Exception as e:
        error = e
    if not E.branch(p.t + 2 <= size):
        E.cover('short')
        E.prove(error is not None, 'no length: an error')
        return
    n = ti(src.elem(mkint(p.t))) + 256 * ti(src.elem(mkint(p.t + 1)))
    if not E.branch(p.t + 2 + 2 * n <= size):
        E.cover('short')
        E.prove(error is not None, 'cut short: an error')
        return
    E.prove(error is None, 'no error if it is there')
    prove_eq(E, f.tell(), mkint(p.t + 2 + 2 * n), 'bytes consumed')
    if E.branch(n == 0):
        E.cover('empty')
        E.prove(isinstance(got, str) and got == '' or (
            len(rec) == 1 and got is rec[0][1]), 'the empty text')
        return
    E.cover('text')
    E.prove(len(rec) == 1 and got is rec[0][1], 'the text of its bytes')
    prove_eq(E, rec[0][0], V.Rope('bytes', V.normal([V.View(
        src, V.lval(z3_simplify(p.t + 2)),
        V.lval(z3_simplify(p.t + 2 + 2 * n)))])), 'its bytes')


def z3_simplify(t):
    import z3
    return z3.simplify(t)


@unit('C12', funcs=['hwp5.dataio.BitGroupDescriptor.__get__',
                    'hwp5.dataio.BitGroupDescriptor.get_int_value'],
      covers=['field'], max_paths=4000)
def bit_fields(E):
    ''' a field of a flags word is its bits lsb..msb, whatever the word '''
    import hwp5.dataio as D
    from .common import fresh_int, ti, V, SInt
    lsb = E.choose(32)
    msb = lsb + E.choose(32 - lsb)
    v = fresh_int('v', 0)
    E.assume(v.t < 2 ** 32)
    d = D.BitGroupDescriptor((lsb, msb) if lsb != msb else lsb)
    got = d.get_int_value(v)
    E.cover('field')
    E.prove(ti(got) == (v.t / 2 ** lsb) % 2 ** (msb + 1 - lsb),
            'bits %s' % 'lsb..msb')
    got = d.__get__(v, None)
    E.prove(ti(got) == (v.t / 2 ** lsb) % 2 ** (msb + 1 - lsb),
            'value of the field')


@unit('C12', funcs=['hwp5.bintype.get_compiled_typedef_with_version',
                    'hwp5.bintype.get_compiled_typedef'],
      covers=['new', 'kept'])
def history(E):
    ''' the compiled definition used depends on the type and the version
    only, whatever was read before '''
    from hwp5 import bintype

    class T(object):
        pass

    class U(object):
        pass

    def compiled(item):
        E.prove(set(item) == {'type'}, 'compiled from the type')
        return ('compiled', item['type'])

    def filtered(events, version):
        return ('filtered', events, version)
    E.contracts['hwp5.bintype.compile_type_definition'] = compiled
    E.contracts['hwp5.bintype.static_to_mutable'] = lambda e: e
    E.contracts['hwp5.bintype.make_items_immutable'] = lambda e: e
    E.contracts['hwp5.bintype.filter_with_version'] = filtered
    saved = (dict(bintype.master_typedefs), dict(bintype.versioned_typedefs))
    try:
        bintype.master_typedefs.clear()
        bintype.versioned_typedefs.clear()
        v1, v2 = (5, 0, 1, 0), (5, 0, 3, 0)
        want = {}
        # any history of up to three uses
        for k in range(4):
            t = (T, U)[E.choose(2)]
            v = (None, v1, v2)[E.choose(3)]
            if v is None:
                got = bintype.get_compiled_typedef(t)
                w = ('compiled', t)
            else:
                got = bintype.get_compiled_typedef_with_version(t, v)
                w = tuple(('filtered', ('compiled', t), v))
            E.prove(got == w, 'of this type and this version')
            E.cover('kept' if (t, v) in want else 'new')
            want[t, v] = w
    finally:
        bintype.master_typedefs.clear()
        bintype.versioned_typedefs.clear()
        bintype.master_typedefs.update(saved[0])
        bintype.versioned_typedefs.update(saved[1])


# -- cross-checks: random definitions -------------------------------------------

NUMBERS = {'UINT32': '<I', 'INT32': '<i', 'UINT16': '<H', 'INT16': '<h',
           'UINT8': '<B', 'INT8': '<b', 'WORD': '<H', 'BYTE': '<B',
           'DOUBLE': '<d', 'HWPUNIT': '<I', 'SHWPUNIT': '<i',
           'HWPUNIT16': '<h', 'WCHAR': '<H'}
UNSIGNED = ['UINT8', 'BYTE', 'UINT16']
VERSIONS = [(5, 0, 0, 0), (5, 0, 1, 7), (5, 0, 1, 255), (5, 0, 2, 4),
            (5, 0, 3, 0), (5, 1, 0, 0)]


def random_struct(rng, depth, name='S'):
    members = []
    ints = []
    for i in range(rng.randrange(0, 6) if depth < 3 else rng.randrange(1, 7)):
        m = 'm%d' % i
        cond = ver = None
        if rng.random() < .3:
            ver = rng.choice(VERSIONS)
        if ints and rng.random() < .3:
            cond = [rng.choice(ints), rng.choice([1, 2, 16, 128])]
        kinds = ['num', 'num', 'uint', 'uint', 'flags', 'bstr', 'hex']
        if depth:
            kinds += ['struct', 'fixed', 'varlen']
            if ints:
                kinds += ['xarray', 'selective', 'selective']
        k = rng.choice(kinds)
        if k == 'selective':
            t = ['selective', rng.choice(ints), rng.choice([1, 3]),
                 [[j, random_type(rng, depth - 1)] for j in range(
                     rng.randrange(0, 4))]]
        elif k == 'xarray':
            t = ['xarray', rng.choice(ints), random_type(rng, depth - 1)]
        elif k == 'uint':
            t = ['num', rng.choice(UNSIGNED)]
            if ver is None and cond is None:
                ints.append(m)
        else:
            t = random_type(rng, depth, k)
        members.append([m, t, ver, cond])
    return ['struct', members]


def random_type(rng, depth, k=None):
    if k is None:
        k = rng.choice(['num', 'flags', 'bstr', 'hex'] + (
            ['struct', 'struct', 'fixed', 'varlen'] if depth > 0 else []))
    if k == 'num':
        return ['num', rng.choice(sorted(NUMBERS))]
    if k == 'bstr':
        return ['bstr']
    if k == 'hex':
        return ['hex', rng.randrange(1, 9)]
    if k == 'flags':
        out = ['flags', rng.choice(['UINT32', 'UINT16', 'BYTE']), []]
        bits = {'UINT32': 32, 'UINT16': 16, 'BYTE': 8}[out[1]]
        for j in range(rng.randrange(1, 4)):
            lsb = rng.randrange(bits)
            out[2].append([lsb, rng.randrange(lsb, bits)])
        return out
    if k == 'fixed':
        return ['fixed', rng.randrange(0, 4), random_type(rng, depth - 1)]
    if k == 'varlen':
        return ['varlen', rng.choice(UNSIGNED),
                random_type(rng, depth - 1)]
    return random_struct(rng, depth - 1)


def build(spec):
    import hwp5.dataio as D
    k = spec[0]
    if k == 'num':
        return getattr(D, spec[1])
    if k == 'bstr':
        return D.BSTR
    if k == 'hex':
        return D.HexBytes(spec[1])
    if k == 'flags':
        args = []
        for j, (lsb, msb) in enumerate(spec[2]):
            args += [lsb] + ([msb] if msb != lsb else []) + ['f%d' % j]
        return D.Flags(getattr(D, spec[1]), *args)
    if k == 'fixed':
        return D.ARRAY(build(spec[2]), spec[1])
    if k == 'varlen':
        return D.N_ARRAY(getattr(D, spec[1]), build(spec[2]))
    if k == 'xarray':
        return D.X_ARRAY(build(spec[2]), D.ref_member(spec[1]))
    if k == 'selective':
        def selector(context, values, spec=spec):
            return values[spec[1]] % (spec[2] + 1)
        return D.SelectiveType(selector, dict(
            (j, build(t)) for j, t in spec[3]))
    members = []
    for name, t, ver, cond in spec[1]:
        m = dict(name=name, type=build(t))
        if ver is not None:
            m['version'] = tuple(ver)
        if cond is not None:
            def f(context, values, cond=cond):
                ''' condition '''
                return values[cond[0]] >= cond[1]
            m['condition'] = f
        members.append(m if ver or cond else (m['type'], name))
    return D.StructType(str('S'), (D.Struct,), dict(
        attributes=classmethod(lambda cls: iter(members))))


class End(Exception):
    pass


class Plain(object):
    ''' reading per the definition, from bytes '''

    def __init__(self, data, version):
        self.data = data
        self.pos = 0
        self.version = version
        self.left = 1500

    def take(self, n, start=None):
        if self.pos + n > len(self.data):
            raise End(self.pos if start is None else start)
        b = self.data[self.pos:self.pos + n]
        self.pos += n
        return b

    def read(self, spec, values=None):
        import struct
        k = spec[0]
        if k == 'num':
            f = NUMBERS[spec[1]]
            return struct.unpack(f, self.take(struct.calcsize(f)))[0]
        if k == 'bstr':
            start = self.pos
            n = int.from_bytes(self.take(2), 'little')
            return self.take(2 * n, start).decode('utf-16le')
        if k == 'hex':
            return self.take(spec[1]).hex().encode('ascii')
        if k == 'flags':
            return Fl(self.read(['num', spec[1]]), spec[2])
        self.left -= 1
        if self.left < 0:
            raise Odd()
        if k == 'fixed':
            return tuple(self.read(spec[2]) for i in range(spec[1]))
        if k == 'varlen':
            n = self.read(['num', spec[1]])
            if n > 300:
                raise Odd()
            return [self.read(spec[2]) for i in range(n)]
        if k == 'xarray':
            if values[spec[1]] > 300:
                raise Odd()
            return [self.read(spec[2]) for i in range(values[spec[1]])]
        values = {}
        for name, t, ver, cond in spec[1]:
            if ver is not None and self.version is not None \
                    and self.version < tuple(ver):
                continue
            if t[0] == 'selective':
                t = dict((j, u) for j, u in t[3]).get(
                    values[t[1]] % (t[2] + 1))
                if t is None:
                    continue
            if cond is not None and not values[cond[0]] >= cond[1]:
                continue
            values[name] = self.read(t, values)
        return values


class Fl(object):
    def __init__(self, v, groups):
        self.v = v
        self.groups = groups

    def __getattr__(self, k):
        for g in self.groups:
            if g[0] == k:
                return g[3]((self.v >> g[1]) % (1 << (g[2] - g[1] + 1)))
        raise AttributeError(k)

    def __eq__(self, other):
        return self.v == other

    def __hash__(self):
        return hash(self.v)


def same_plain(got, want):
    if isinstance(want, Fl):
        return got == want.v and all(
            getattr(got, 'f%d' % j) == (want.v >> lsb) % (
                1 << (msb - lsb + 1))
            for j, (lsb, msb) in enumerate(want.groups))
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(
            same_plain(got[k], want[k]) for k in want)
    if isinstance(want, (list, tuple)):
        return isinstance(got, type(want)) and len(got) == len(want) \
            and all(same_plain(a, b) for a, b in zip(got, want))
    if isinstance(want, float) and want != want:
        return got != got
    return type(got) is type(want) and got == want


def random_data(rng, n):
    mode = rng.randrange(4)
    if mode == 0:
        return bytes(rng.randrange(256) for i in range(n))
    if mode == 1:
        return bytes(rng.choice([0, 0, 0, 1, 2, 3]) for i in range(n))
    if mode == 2:
        return bytes(rng.choice([0, 1, 0, 2, 255, 0x80, 7])
                     for i in range(n))
    return bytes(rng.randrange(256) if rng.random() < .2 else
                 rng.randrange(3) for i in range(n))


def cases(rng, tier):
    from . import layouts
    for name in layouts.scenarios():
        yield ('layout', name)
    n = 120000 if tier == 'thorough' else 12000
    for i in range(n):
        yield ('random', rng.randrange(1 << 30))
        if i % 3 == 0:
            yield ('format', rng.randrange(1 << 30))
        if i % 10 == 0:
            yield ('flags', rng.randrange(1 << 30))


def check_case(case):
    import random
    kind_, seed = case
    if kind_ == 'layout':
        from . import layouts
        return layouts.check(seed, False)
    rng = random.Random(seed)
    try:
        return globals()['case_' + kind_](rng)
    except Wrong as e:
        return str(e)


class Wrong(Exception):
    pass


def ensure(cond, message):
    if not cond:
        raise Wrong(message)


def case_random(rng):
    import io
    from hwp5 import bintype
    from hwp5.dataio import ParseError
    spec = random_struct(rng, 3)
    tp = build(spec)
    versions = [None] + VERSIONS
    for k in range(4):
        version = rng.choice(versions)
        data = random_data(rng, rng.choice([0, 3, 10, 40, 200, 1500]))
        try:
            p = Plain(data, version)
            want = p.read(spec)
        except (UnicodeDecodeError, Odd):
            continue
        except End:
            want = None
        lens = [len(data)]
        if want is not None:
            lens += [rng.randrange(p.pos) for i in range(4) if p.pos]
        for n in lens:
            part = data[:n]
            p = Plain(part, version)
            try:
                want = p.read(spec)
                end = None
            except End as e:
                end = e.args[0]
            except (UnicodeDecodeError, Odd):
                continue
            context = {'x': 1}
            if version is not None:
                context['version'] = version
            before = dict(context)
            f = io.BytesIO(part)
            try:
                got = bintype.read_type(tp, context, f)
            except ParseError as e:
                ensure(end is not None,
                     'reading %r: %r, version %r, data %s'
                     % (spec, e.cause, version, part.hex()))
                ensure(e.offset == end and e.cause is not None,
                     'offset of the error %r != %r: %r, version %r, data %s'
                     % (e.offset, end, spec, version, part.hex()))
                continue
            ensure(end is None, 'data ending early accepted: %r, version %r, '
                 'data %s' % (spec, version, part.hex()))
            ensure(same_plain(got, want), 'read %r for %r, version %r, data %s'
                 % (got, spec, version, part.hex()))
            ensure(f.tell() == p.pos, 'consumed %d, not %d, for %r, version %r'
                 % (f.tell(), p.pos, spec, version))
            ensure(context == before, 'the context is changed')


def case_format(rng):
    ''' the structures of the format, with random bytes, whatever else was
    read before '''
    import io
    from hwp5 import bintype
    from hwp5.dataio import ParseError
    import hwp5.binmodel
    tps = [t for t in struct_types() if members_of(t)]
    tp = rng.choice(tps)
    shape = hwp5.binmodel.GShapeObjectControl
    for k in range(3):
        version = rng.choice(versions_of(tp) + [None])
        data = random_data(rng, rng.choice([5, 60, 400]))
        context = {'parent': ({}, {'type': rng.choice(
            [shape, hwp5.binmodel.Paragraph]), 'content': Counts(rng)})}
        if version is not None:
            context['version'] = version
        r = FormatReader(context, data)
        end = None
        try:
            want = r.value(tp)
        except Short as e:
            end = e.offset
        except Odd:
            continue
        f = io.BytesIO(data)
        try:
            got = bintype.read_type(tp, context, f)
        except ParseError as e:
            ensure(end is not None and e.offset == end,
                 'reading %s: %r at %r, not %r; version %r, data %s'
                 % (tp.__name__, e.cause, e.offset, end, version,
                    data.hex()))
            continue
        ensure(end is None, 'data ending early accepted: %s, version %r, data '
             '%s' % (tp.__name__, version, data.hex()))
        ensure(same_format(got, want), 'read %r, not %r, for %s, version %r, '
             'data %s' % (got, want, tp.__name__, version, data.hex()))
        ensure(f.tell() == r.pos, 'consumed %d, not %d, for %s, version %r'
             % (f.tell(), r.pos, tp.__name__, version))


class Odd(Exception):
    ''' of another property '''


class Counts(dict):
    def __init__(self, rng):
        dict.__init__(self)
        self.rng = rng

    def __missing__(self, k):
        self[k] = self.rng.choice([0, 1, 2, 7, 300])
        return self[k]


class FormatReader(Reader):
    def __init__(self, context, data):
        Reader.__init__(self, context)
        self.data = data
        self.left = 3000

    def take(self, n, start=None):
        if self.pos + n > len(self.data):
            raise Short(self.pos if start is None else start)
        b = self.data[self.pos:self.pos + n]
        self.pos += n
        return b

    def primitive(self, tp):
        import struct
        import hwp5.dataio as D
        from hwp5.binmodel import CHID
        s = scalar(tp)
        if s:
            return int.from_bytes(self.take(s[0]), 'little', signed=s[1])
        if tp is CHID:
            return bytes(reversed(self.take(4))).decode('latin-1')
        if tp is D.BSTR:
            start = self.pos
            n = int.from_bytes(self.take(2), 'little')
            try:
                return self.take(2 * n, start).decode('utf-16le')
            except UnicodeDecodeError:
                raise Odd()
        if getattr(tp, 'binfmt', None) == '<d':
            return struct.unpack('<d', self.take(8))[0]
        if type(tp) is D.HexBytes:
            return self.take(tp.fixed_size).hex().encode('ascii')
        if tp.__name__ == 'VERSION':
            return tuple(reversed(self.take(4)))
        if tp.__name__.startswith('BYTES('):
            return self.take(tp.fixed_size)
        raise Odd()

    def flags(self, tp, v):
        return Fl(v, fields(tp))

    def count(self, n):
        if n > 300:
            raise Odd()
        self.left -= max(n, 0)
        if self.left < 0:
            raise Odd()
        return n if n > 0 else 0


def same_format(got, want):
    if isinstance(want, Fl):
        for name, lsb, msb, vt in want.groups:
            x = getattr(got, name)
            if int(x) != (want.v >> lsb) % (1 << (msb - lsb + 1)) \
                    or not isinstance(x, vt):
                return False
        return got == want.v
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(
            same_format(got[k], want[k]) for k in want)
    if isinstance(want, (list, tuple)):
        return isinstance(got, type(want)) and len(got) == len(want) \
            and all(same_format(a, b) for a, b in zip(got, want))
    if isinstance(want, float) and want != want:
        return got != got
    return got == want


def case_flags(rng):
    ''' every field of every flags word, as declared '''
    import hwp5.dataio as D
    bits = []
    args = []
    for j in range(rng.randrange(1, 9)):
        lsb = rng.randrange(32)
        msb = rng.randrange(lsb, 32)
        args += [lsb] + ([msb] if msb != lsb or rng.random() < .5 else [])
        vt = int
        if rng.random() < .4:
            vt = D.Enum('a', 'b', 'c', z=7)
            args.append(vt)
        args.append('n%d' % j)
        bits.append((lsb, msb, vt))
    F = D.Flags(D.UINT32, *args)
    for v in [0, 0xffffffff, rng.randrange(1 << 32), rng.randrange(1 << 32)]:
        w = F(v)
        d = w.dictvalue()
        ensure(set(d) == set('n%d' % j for j in range(len(bits))),
             'fields of %r' % (args,))
        for j, (lsb, msb, vt) in enumerate(bits):
            want = (v >> lsb) % (1 << (msb - lsb + 1))
            x = getattr(w, 'n%d' % j)
            ensure(x == want and isinstance(x, vt) and d['n%d' % j] == x,
                 'field %d..%d of %x is %r' % (lsb, msb, v, x))
            if vt is not int:
                ensure(x.name == {0: 'a', 1: 'b', 2: 'c', 7: 'z'}.get(want),
                     'name of %r' % (want,))
