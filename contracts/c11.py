''' C11 bit fields, enumerations, colours

contracts/c11_table.json is the contract of the declarations: for each
bit-field type, its base width and the bits and the type of each field, and
for each enumeration, the value of each name. '''
import json
import os

from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('cross-checks: every field of every bit-field type at 0, all ones, '
          'every single bit and its complement and random values; every '
          'enumeration at all values up to 600, at the limits of 32 bits and '
          'at random ones; colours: each byte at all its 256 values, and '
          'random 32-bit values')
ASSUMPTIONS = [
    'contracts/c11_table.json, written from the declarations at the pinned '
    'commit, is the format',
    'int.__new__(cls, n) makes an instance of cls equal to n',
    'the "#rrggbb" text of a colour is checked by execution, for every value '
    'of each of its bytes; that its bytes are the right ones is proved',
]
TRUSTED = ['int.__new__', 'dict lookup']
NOTE = ('BinData.Flags.access is declared at bits 16..17 of a 16-bit value, '
        'so it reads 0 always; the contract takes the declaration as it is')

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'c11_table.json')) as f:
    TABLE = json.load(f)


def describe_enum(t):
    ''' name of each value (the first one), and value of each name '''
    if not hasattr(t, 'names'):
        return t.__name__
    names = sorted(t.names)
    return dict(values={str(int(i)): i.name for i in t.instances},
                names={n: int(getattr(t, n)) for n in names})


def discover():
    ''' the bit-field types and the enumerations, by class and attribute '''
    import importlib
    import pkgutil
    import hwp5
    from hwp5.dataio import FlagsType, EnumType, StructType
    flags, enums = {}, {}
    mods = ['hwp5.filestructure', 'hwp5.summaryinfo', 'hwp5.dataio',
            'hwp5.msoleprops', 'hwp5.bintype']
    import hwp5.binmodel
    for m in pkgutil.walk_packages(hwp5.binmodel.__path__, 'hwp5.binmodel.'):
        mods.append(m.name)
    mods.append('hwp5.binmodel')
    seen = set()
    for name in mods:
        try:
            m = importlib.import_module(name)
        except ImportError:
            continue
        for k, v in sorted(vars(m).items()):
            if isinstance(v, FlagsType):
                flags.setdefault(k, v)
            elif isinstance(v, EnumType):
                enums.setdefault(k, v)
            elif isinstance(v, type) and v not in seen \
                    and (v.__module__ or '').startswith('hwp5.'):
                seen.add(v)
                for a, b in sorted(vars(v).items()):
                    if isinstance(b, FlagsType):
                        flags.setdefault('%s.%s' % (k, a), b)
                    elif isinstance(b, EnumType):
                        enums.setdefault('%s.%s' % (k, a), b)
    # types of members which have no name of their own
    for cls in sorted(seen, key=lambda c: (c.__module__, c.__name__)):
        for mem in vars(cls).get('members') or ():
            t = mem.get('type')
            if isinstance(t, FlagsType) and t not in flags.values():
                flags['%s/%s' % (cls.__name__, mem['name'])] = t
            elif isinstance(t, EnumType) and t not in enums.values():
                enums['%s/%s' % (cls.__name__, mem['name'])] = t
    return flags, enums


# -- proofs -------------------------------------------------------------------

@unit('C11', funcs=['hwp5.dataio.BitGroupDescriptor.__init__',
                    'hwp5.dataio.BitGroupDescriptor.get_int_value'],
      covers=['one bit', 'several bits'])
def bits(E):
    ''' for all 0 <= lsb <= msb < 32 and every value v of up to 32 bits,
    the field is (v div 2^lsb) mod 2^(msb - lsb + 1) '''
    from .common import fresh_int, prove_eq, SInt, mkint
    from hwp5.dataio import BitGroupDescriptor
    v = fresh_int('v', 0, (1 << 32) - 1)
    for lsb in range(32):
        for msb in range(lsb, 32):
            args = [(lsb, msb), (lsb, msb, str)]
            if lsb == msb:
                args.append(lsb)
            for a in args:
                d = BitGroupDescriptor(a)
                got = d.get_int_value(v)
                want = mkint((v.t / (1 << lsb)) % (1 << (msb - lsb + 1)))
                prove_eq(E, got, want, 'the field is the number formed by '
                         'its own bits')
                E.prove(d.valuetype is (str if a == (lsb, msb, str)
                                                 else int),
                                 'the declared type is kept')
                E.cover('one bit' if lsb == msb else 'several bits')


@unit('C11', funcs=['hwp5.dataio.BitGroupDescriptor.__get__',
                    'hwp5.dataio.BitGroupDescriptor.get_int_value',
                    'hwp5.dataio.FlagsType.__new__',
                    'hwp5.dataio._parse_flags_args',
                    'hwp5.dataio.Flags'],
      covers=['field'])
def fields(E):
    ''' every field of every declared bit-field type, for every value of its
    base type: the declared type applied to the number formed by the
    declared bits '''
    from .common import fresh_int, prove_eq, mkint
    flags, enums = discover()
    for key, decl in sorted(TABLE['flags'].items()):
        ft = flags.get(key)
        if ft is None:
            continue
        hi = (1 << decl['bits']) - 1
        v = fresh_int('v', 0, hi)
        for name, (lsb, msb, vt) in sorted(decl['fields'].items()):
            b = ft.bitfields.get(name)
            if b is None:
                E.fail('the declared fields are there', '%s.%s' % (key, name))
            E.cover('field')
            given = []

            def stub(n, given=given):
                given.append(n)
                return stub
            want = mkint((v.t / (1 << lsb)) % (1 << (msb - lsb + 1)))
            real = b.valuetype
            b.valuetype = stub
            try:
                got = type(b).__get__(b, v, ft)
            finally:
                b.valuetype = real
            E.prove(got is stub and len(given) == 1,
                             'the value is converted to the declared type')
            prove_eq(E, given[0], want, '%s.%s is formed by its own bits' %
                     (key, name))
            E.prove(type(ft.__dict__[name]) is type(b) and
                             ft.__dict__[name] is b,
                             'the field is the descriptor of its name')


@unit('C11', funcs=['hwp5.dataio.EnumType.__new__.<locals>.__new__'],
      covers=['defined', 'undefined'])
def enums(E):
    ''' for every enumeration and every integer, the defined instance for a
    defined value, else a plain number; the tables are not changed '''
    from .common import fresh_int, SInt, V
    import z3
    flags, found = discover()
    every = dict(found)
    for key, decl in sorted(TABLE['flags'].items()):
        if key in flags:
            for name, b in sorted(flags[key].bitfields.items()):
                if isinstance(b.valuetype, type(type)) or True:
                    if hasattr(b.valuetype, 'names'):
                        every['%s:%s' % (key, name)] = b.valuetype
    made = []

    def new(cls, v):
        made.append((cls, v))
        return V.SVal('made', len(made))
    E.models[int.__new__] = new
    keys = sorted(every)
    # one enumeration in each path
    j = E.choose(len(keys))
    key = keys[j]
    cls = every[key]
    v = fresh_int('v')
    before = (set(cls.names), set(cls.instances))
    got = cls.__new__(cls, v)
    ins = [i for i in cls.instances]
    vals = [int(i) for i in ins]
    if isinstance(got, V.SVal):
        E.cover('undefined')
        E.prove(z3.And([v.t != x for x in vals] + [z3.BoolVal(True)]),
                'a defined value is not taken for an undefined one')
        E.prove(len(made) == 1 and made[0][0] is cls and
                         made[0][1] is v, 'an undefined value is kept')
    else:
        E.cover('defined')
        E.prove(got in ins and not made, 'a defined instance')
        E.prove(v.t == int(got), 'the instance of the value')
    E.prove(before == (set(cls.names), set(cls.instances)),
                     'enumerations do not change by use')


@unit('C11', funcs=['hwp5.binmodel._shared.COLORREF.__getattr__'],
      covers=['r', 'g', 'b', 'a'])
def colours(E):
    ''' for every 32-bit value the parts are its bytes '''
    from .common import fresh_int, prove_eq, mkint
    from hwp5.binmodel import COLORREF
    v = fresh_int('v', -(1 << 31), (1 << 32) - 1)
    for k, name in enumerate('rgba'):
        got = COLORREF.__getattr__(v, name)
        prove_eq(E, got, mkint((v.t / (1 << 8 * k)) % 256),
                 name + ' is byte %d' % k)
        E.cover(name)


# -- cross-checks -------------------------------------------------------------

def cases(rng, tier):
    n = 4000 if tier == 'thorough' else 200
    for key in sorted(TABLE['flags']):
        yield ('flags', key, n // 10)
    for key in sorted(TABLE['enums']):
        yield ('enum', key, n)
    yield ('colours', n * 20)
    for i in range(n):
        yield ('declare', rng.randrange(1 << 30))
    yield ('layers', 0)


def same_enum(t, decl):
    if not isinstance(decl, dict):
        return None if t.__name__ == decl else 'type %r, not %s' % (t, decl)
    if not hasattr(t, 'names'):
        return '%r is not an enumeration' % (t,)
    got = describe_enum(t)
    for k in ('values', 'names'):
        if got[k] != decl[k]:
            return '%s of %s: %r, declared %r' % (k, t.__name__, got[k],
                                                  decl[k])
    return None


def check_value(t, decl, n):
    ''' value n as an instance of the enumeration '''
    e = t(n)
    if int(e) != n or e != n or type(e) is not t:
        return '%s(%d) is %r' % (t.__name__, n, e)
    name = decl['values'].get(str(n))
    if e.name != name:
        return '%s(%d).name is %r, not %r' % (t.__name__, n, e.name, name)
    repr(e)
    if name is not None and e is not t(n):
        return 'two instances of %s.%s' % (t.__name__, name)
    if t(e) is not e:
        return '%s(%r) is another one' % (t.__name__, e)
    return same_enum(t, decl)


def check_field(b, decl, v, ft):
    lsb, msb, vt = decl
    want = (v >> lsb) & ((1 << (msb - lsb + 1)) - 1)
    got = b
    if int(got) != want:
        return 'is %r, not %d' % (got, want)
    if isinstance(vt, dict):
        if got.name != vt['values'].get(str(want)):
            return 'is named %r (%d)' % (got.name, want)
    return None


def xml_of_enum(e, name, n):
    from pyvc.concrete import need
    val = need('hwp5.xmlformat', 'xmlattrval')
    got = val(e)
    want = name.lower() if name else str(n)
    if got != want:
        return 'xml value %r of %r: %r' % (got, e, want)
    return None


def check_case(case):
    import random
    from pyvc.concrete import need
    d = need('hwp5.dataio')
    if case[0] == 'flags':
        flags, _ = discover()
        ft = flags.get(case[1])
        decl = TABLE['flags'][case[1]]
        if ft is None:
            return None
        rng = random.Random(case[1])
        bits = decl['bits']
        if ft.basetype.fixed_size * 8 != bits:
            return '%s has %d bits' % (case[1], ft.basetype.fixed_size * 8)
        top = (1 << bits) - 1
        vals = [0, top, top >> 1, 0x55555555 & top, 0xaaaaaaaa & top]
        for i in range(bits):
            vals += [1 << i, top ^ (1 << i)]
        vals += [rng.randrange(top + 1) for i in range(case[2])]
        for name, (lsb, msb, vt) in decl['fields'].items():
            if name not in ft.bitfields:
                return '%s has no field %s' % (case[1], name)
            msg = same_enum(ft.bitfields[name].valuetype, vt)
            if msg:
                return '%s.%s: %s' % (case[1], name, msg)
            w = msb - lsb + 1
            if w <= 8:
                vals += [(x << lsb) & top for x in range(1 << w)]
                vals += [(x << lsb) & top | (top ^ (((1 << w) - 1) << lsb))
                         for x in range(1 << w)]
        expand = need('hwp5.xmlformat', 'expanded_xmlattribute')
        for v in vals:
            f = ft(v)
            if int(f) != v:
                return '%s(%d) is %r' % (case[1], v, int(f))
            whole = f.dictvalue()
            if set(whole) != set(ft.bitfields):
                return 'dictvalue of %s: %r' % (case[1], sorted(whole))
            for name, fd in decl['fields'].items():
                for got in (getattr(f, name), whole[name]):
                    msg = check_field(got, fd, v, ft)
                    if msg:
                        return '%s(%#x).%s %s' % (case[1], v, name, msg)
            got = dict(expand(('x', (ft, v))))
            want = {'x': '%0*X' % (bits // 4, v)}
            for name, (lsb, msb, vt) in decl['fields'].items():
                n = (v >> lsb) & ((1 << (msb - lsb + 1)) - 1)
                s = None
                if isinstance(vt, dict):
                    s = (vt['values'].get(str(n)) or '').lower()
                want[name] = s or str(n)
            for k in want:
                if got.get(k) != want[k]:
                    return '%s(%#x): xml %s=%r, not %r' % (
                        case[1], v, k, got.get(k), want[k])
        return None
    if case[0] == 'enum':
        _, enums = discover()
        t = enums.get(case[1])
        if t is None:
            return None
        decl = TABLE['enums'][case[1]]
        msg = same_enum(t, decl)
        if msg:
            return msg
        rng = random.Random(case[1])
        vals = list(range(600)) + [-1, -5, (1 << 31) - 1, 1 << 31,
                                   (1 << 32) - 1]
        vals += [rng.randrange(1 << 32) for i in range(case[2])]
        vals += [int(x) for x in decl['values']]
        for name, n in decl['names'].items():
            if getattr(t, name, None) != n:
                return '%s.%s is %r' % (case[1], name,
                                        getattr(t, name, None))
        for n in vals:
            msg = check_value(t, decl, n) or xml_of_enum(
                t(n), decl['values'].get(str(n)), n)
            if msg:
                return msg
        rng.shuffle(vals)
        for n in vals[:200]:
            msg = check_value(t, decl, n)
            if msg:
                return 'later: ' + msg
        try:
            t(max(vals) + 1, 'another')
        except TypeError:
            pass
        else:
            return 'a name can be added to %s' % case[1]
        return same_enum(t, decl)
    if case[0] == 'colours':
        C = need('hwp5.binmodel', 'COLORREF')
        import struct
        import io
        rng = random.Random(7)
        vals = [x << s for s in (0, 8, 16, 24) for x in range(256)]
        vals += [0xffffffff, 0xffffff, 0x12345678, 0xff000000]
        vals += [rng.randrange(1 << 32) for i in range(case[1])]
        attr = need('hwp5.xmlformat', 'expanded_xmlattribute')
        for v in vals:
            r, g, b, a = v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24
            for u in (v, v - (1 << 32) if v >> 31 else v):
                c = C(u)
                if (c.r, c.g, c.b, c.a) != (r, g, b, a) or \
                        c.rgb != (r, g, b):
                    return 'COLORREF(%#x): %r' % (v, (c.r, c.g, c.b, c.a))
                want = '#' + ''.join(('0123456789abcdef'[x >> 4] +
                                      '0123456789abcdef'[x & 15])
                                     for x in (r, g, b))
                if str(c) != want or '%s' % c != want:
                    return 'COLORREF(%#x): %s, not %s' % (v, c, want)
                if list(attr(('k', (C, u)))) != [('k', want)]:
                    return 'xml of COLORREF(%#x): %r' % (
                        v, list(attr(('k', (C, u)))))
            rd = C.read(io.BytesIO(struct.pack('<I', v)))
            c = C(rd)
            if (c.r, c.g, c.b, c.a) != (r, g, b, a):
                return 'COLORREF read from %#x: %r' % (v, int(c))
        return None
    if case[0] == 'declare':
        return check_declare(d, random.Random(case[1]))
    if case[0] == 'layers':
        return check_layers(d)
    raise ValueError(case)


def check_declare(d, rng):
    ''' an arbitrary declaration, as written with Flags() and Enum() '''
    items = ['n%d' % i for i in range(rng.randrange(5))]
    more = {}
    for i in range(rng.randrange(4)):
        more['m%d' % i] = rng.randrange(12)
    en = d.Enum(*items, **more)
    names = dict((k, i) for i, k in enumerate(items))
    names.update(more)
    values = {}
    for k, v in list(zip(items, range(len(items)))) + list(more.items()):
        values.setdefault(v, k)
    decl = dict(names=names, values={str(v): k for v, k in values.items()})
    for n in list(range(14)) + list(range(14)):
        msg = check_value(en, decl, n)
        if msg:
            return msg
    base = rng.choice([d.UINT32, d.UINT16, d.UINT8, d.BYTE])
    bits = base.fixed_size * 8
    pos = 0
    args = []
    want = {}
    while pos < bits and len(want) < 7:
        lsb = pos + rng.randrange(3)
        msb = lsb + rng.choice([0, 0, 1, 2, 5, 9])
        if msb >= bits:
            break
        name = 'f%d' % len(want)
        args.append(lsb)
        if lsb != msb or rng.random() < .3:
            args.append(msb)
        t = rng.choice([None, en, int])
        if t is not None:
            args.append(t)
        args.append(name)
        want[name] = (lsb, msb, en if t is en else int)
        pos = msb + 1
    ft = d.Flags(base, *args)
    if set(ft.bitfields) != set(want):
        return 'fields of Flags%r: %r' % (args, sorted(ft.bitfields))
    for i in range(12):
        v = rng.randrange(1 << bits)
        f = ft(v)
        for name, (lsb, msb, t) in want.items():
            n = v >> lsb & ((1 << (msb - lsb + 1)) - 1)
            got = getattr(f, name)
            if got != n or type(got) is not t:
                return 'Flags%r(%#x).%s: %r, not %d' % (args, v, name, got, n)
            if t is en and got.name != values.get(n):
                return 'Flags%r(%#x).%s is named %r' % (args, v, name,
                                                        got.name)
        if f.dictvalue() != {k: getattr(f, k) for k in want}:
            return 'dictvalue'
    return None


def check_layers(d):
    ''' undefined values pass through the readers and writers '''
    import io
    import struct
    from pyvc.concrete import need
    read_type = need('hwp5.bintype', 'read_type')
    flags, _ = discover()
    for key, ft in sorted(flags.items()):
        size = ft.basetype.fixed_size
        for v in (0, (1 << 8 * size) - 1, 0x5a5a5a5a & ((1 << 8 * size) - 1)):
            data = struct.pack('<I', v)[:size]
            S = d.StructType(str('S'), (d.Struct,), dict(
                attributes=staticmethod(lambda ft=ft: iter([(ft, 'x')]))))
            got = read_type(S, {}, io.BytesIO(data))['x']
            if type(got) is not ft or int(got) != v:
                return '%s read from %r: %r' % (key, data, got)
            if key not in TABLE['flags']:
                continue
            msg = check_flat(key, ft, got, v)
            if msg:
                return msg
    return None


def check_flat(key, ft, f, v):
    from pyvc.concrete import need
    flat = need('hwp5.xmldump_flat', 'xmlevents_from_modelevents')
    evs = list(flat(iter([(None, dict(type=ft, name='x', value=f,
                                      bin_type=ft.basetype))])))
    decl = TABLE['flags'][key]
    seen = {}
    last = None
    for ev, item in evs:
        if not isinstance(item, tuple):
            continue
        elem, at = item
        if elem == 'item' and at['value'] != str(v):
            return 'flat xml of %s(%#x): %r' % (key, v, at)
        if elem == 'bitflags' and (int(at['hex'], 16) != v or
                                   int(at['bin'], 2) != v):
            return 'flat xml of %s(%#x): %r' % (key, v, at)
        if elem == 'bits':
            last = at['name']
            seen[last] = [int(at['value']), None]
        if elem == 'enum':
            seen[last][1] = at.get('value')
    want = {}
    for name, (lsb, msb, vt) in decl['fields'].items():
        n = v >> lsb & ((1 << (msb - lsb + 1)) - 1)
        want[name] = [n, vt['values'].get(str(n))
                      if isinstance(vt, dict) else None]
    if not set(want) <= set(seen) or any(seen[k] != want[k] for k in want):
        return 'flat xml of %s(%#x): %r, not %r' % (key, v, seen, want)
    return None
