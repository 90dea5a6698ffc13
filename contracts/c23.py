''' C23 sections in numeric order '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('storages with every subset of the sections 0..5 and 10..12 and '
          'near misses of their names (Section01, section1, Section, '
          'Section1a, ...), in seeded random orders; up to 300 sections')
ASSUMPTIONS = [
    'the names a storage lists are different from each other',
    'the numbers of the sections are not negative',
]


class Name(object):
    ''' the i-th name: "Section<num(i)>" (kind 0), "Section" followed by
    another spelling of num(i) (kind 1), "Section" followed by something else
    (kind 2), or another name '''

    def __init__(self, E, i, kind, num):
        self.E, self.i, self.kind, self.num = E, i, kind, num

    def startswith(self, p):
        from pyvc.core import Unsupported
        from .common import SBool
        if p != 'Section':
            raise Unsupported('another prefix')
        return SBool(self.kind <= 2)

    def __getitem__(self, i):
        from pyvc.core import Unsupported
        if i == slice(len('Section'), None, None):
            return Tail(self)
        raise Unsupported('a part of a name')

    def __eq__(self, o):
        from pyvc.core import Unsupported
        from .common import SBool, segs_of, kind_of, ti
        import z3
        if isinstance(o, str):
            if o == 'Section':
                return False
            raise Unsupported('comparison of a name')
        if kind_of(o) != 'str':
            return False
        g = segs_of(o)
        if len(g) == 2 and g[0].lit and not g[1].lit \
                and ''.join(map(chr, g[0].items)) == 'Section':
            f = getattr(g[1].base, 'fmt', None)
            if f and f[0] == '%d':
                return SBool(z3.And(self.kind == 0, self.num == ti(f[1])))
        raise Unsupported('comparison of a name')

    def __ne__(self, o):
        from .common import SBool
        import z3
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))

    def __hash__(self):
        from pyvc.core import Unsupported
        raise Unsupported('hash of a name')


class Tail(object):
    def __init__(self, name):
        self.name = name

    def pyvc_int(self, *base):
        from pyvc.core import Unsupported
        from .common import SInt
        if base and base != (10,):
            raise Unsupported('another base')
        if self.name.E.branch(self.name.kind <= 1):
            return SInt(self.name.num)
        raise ValueError('invalid literal')

    def __getattr__(self, name):
        from pyvc.core import Unsupported
        raise Unsupported('methods of a part of a name')


class Stored(object):
    ''' the wrapped storage '''

    def __init__(self, E, names):
        self.E, self.names, self.asked = E, names, []

    def __iter__(self):
        from .common import SIter
        return SIter(self.names, name='names')

    def __getitem__(self, name):
        it = Item(name)
        self.asked.append(it)
        return it


class Item(object):
    def __init__(self, name):
        self.name = name


@unit('C23', funcs=['hwp5.filestructure.Sections.section_indexes',
                    'hwp5.filestructure.Sections.section',
                    'hwp5.filestructure.Sections.sections'],
      covers=['opened', 'none'])
def indexes(E):
    ''' section_indexes(): the numbers of the items named Section<number>, in
    increasing order, each once; section(n) opens Section<n> '''
    from .common import (fresh_int, fresh_list, SInt, SList, ti, mkint, V,
                         prove_eq, Rope, View, Base, kind_of, segs_of)
    from hwp5 import filestructure
    import z3
    I = z3.IntSort()
    n = fresh_int('n', 0)
    kind = z3.Function('kind', I, I)
    num = z3.Function('num', I, I)
    # sections among the first i names; position of the k-th section
    cnt = z3.Function('cnt', I, I)
    sel = z3.Function('sel', I, I)
    E.assume(cnt(0) == 0)

    def facts(t):
        E.assume(z3.And(kind(t) >= 0, kind(t) <= 3, cnt(t) >= 0,
                        num(t) >= 0,
                        cnt(t + 1) == cnt(t) + z3.If(kind(t) == 0, 1, 0),
                        z3.Implies(kind(t) == 0, sel(cnt(t)) == t),
                        z3.Implies(t < ti(n), cnt(t + 1) <= cnt(ti(n)))))

    def elem(i, tag):
        facts(ti(i))
        return Name(E, i, kind(ti(i)), num(ti(i)))
    names = fresh_list(E, 'names', n, elem)
    total = mkint(cnt(ti(n)))
    E.assume(ti(total) >= 0)

    def nums(i, tag):
        t = ti(i)
        p = sel(t)
        E.assume(z3.Implies(z3.And(t >= 0, t < ti(total)),
                            z3.And(p >= 0, p < ti(n), kind(p) == 0,
                                   cnt(p) == t)))
        facts(p)
        return SInt(num(p))
    want = fresh_list(E, 'nums', total, nums)
    # two arbitrary names are different
    stored = Stored(E, names)

    class S(filestructure.VersionSensitiveItem):
        def __init__(self, item, version):
            self.item = item
            self.version = version
    secs = filestructure.Sections(stored, 'the version')
    secs.section_class = S

    def inv(L):
        acc, = L.loop.collectors
        L.contents(acc, want[:mkint(cnt(ti(L.pos)))])
        L.fact(z3.And(cnt(ti(L.pos)) >= 0,
                      cnt(ti(L.pos)) <= ti(total)), 'sections counted')
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    got = secs.section_indexes()
    if kind_of(got) != 'list':
        E.fail('a list of numbers', repr(type(got)))
    m = V.seqlen(segs_of(got))
    prove_eq(E, mkint(ti(m)), total, 'as many as there are sections')
    b = segs_of(got)[0].base if segs_of(got) and not segs_of(got)[0].lit \
        else None
    if E.branch(ti(total) == 0):
        E.cover('none')
        return
    so = getattr(b, 'sorted_of', None)
    if so is None:
        E.fail('increasing order', 'not sorted')
    prove_eq(E, so[0], want, 'the numbers of exactly the sections')
    j = fresh_int('j', 0)
    E.assume(ti(j) + 1 < ti(total))
    x, y = ti(got[j]), ti(got[mkint(ti(j) + 1)])
    # different names have different numbers
    p, q = sel(so[1](ti(j))), sel(so[1](ti(j) + 1))
    E.assume(z3.Implies(z3.And(kind(p) == 0, kind(q) == 0,
                               num(p) == num(q)), p == q))
    E.prove(x < y, 'increasing order, each once')
    # opening them
    k = fresh_int('k', 0)
    E.assume(ti(k) < ti(total))
    s = secs.section(got[k])
    check_section(E, s, S, got[k])
    E.contracts['hwp5.filestructure.Sections.section_indexes'] = \
        lambda self: got
    s2 = secs.sections
    if kind_of(s2) != 'list':
        E.fail('sections is a list')
    prove_eq(E, mkint(ti(V.seqlen(segs_of(s2)))), total, 'every section')
    check_section(E, s2[k], S, got[k])
    E.cover('opened')


def check_section(E, s, S, idx):
    from .common import tb
    if type(s) is not S:
        E.fail('a section', repr(s))
    if s.version != 'the version':
        E.fail('the version is passed on')
    if not isinstance(s.item, Item):
        E.fail('the stored item')
    r = (s.item.name == 'Section' + fmt_of(idx))
    E.prove(tb(r), 'the item with that number')


def fmt_of(idx):
    from pyvc.hooks import format_percent
    return format_percent('%d', idx)


# -- cross-check --------------------------------------------------------------

NEAR = ('Section', 'Section01', 'Section 1', 'Section1 ', 'section1',
        'Section1a', 'Sections', 'ASection2', 'Section+2', 'Section1_0',
        'Section\uff11', 'Section2.records', 'Other', 'Section-', 'Section0x1')


def cases(rng, tier):
    import itertools
    for k in range(0, 5):
        for s in itertools.combinations(range(5), k):
            for near in ((), ('Section01',), NEAR):
                yield ('names', tuple('Section%d' % i for i in s) + near)
    for i in range(1500 if tier == 'quick' else 30000):
        pool = ['Section%d' % i for i in list(range(13))
                + [99, 100, 101, 1000]] + list(NEAR)
        yield ('names', tuple(rng.sample(pool, rng.randrange(len(pool)))))
    xs = ['Section%d' % i for i in range(300)]
    rng.shuffle(xs)
    yield ('names', tuple(xs))


class Stg(object):
    def __init__(self, names):
        self.items = dict((n, Str(n)) for n in names)
        self.names = names

    def __iter__(self):
        return iter(self.names)

    def __getitem__(self, name):
        return self.items[name]


class Str(object):
    def __init__(self, name):
        self.name = name

    def open(self):
        import io
        return io.BytesIO(self.name.encode('utf-8'))


def check_case(case):
    from pyvc.concrete import need
    names = case[1]
    want = sorted(int(n[7:]) for n in names if n.startswith('Section')
                  and n[7:].isdigit() and n == 'Section%d' % int(n[7:]))
    for mod in ('hwp5.filestructure', 'hwp5.recordstream', 'hwp5.binmodel',
                'hwp5.xmlmodel'):
        Sections, = need(mod, 'Sections'),
        secs = Sections(Stg(names), (5, 0, 2, 4))
        got = secs.section_indexes()
        if list(got) != want:
            return '%s: sections %r, not %r' % (mod, got, want)
        objs = list(secs.sections)
        if len(objs) != len(want):
            return '%d sections' % len(objs)
        for i, s in zip(want, objs):
            for x in (s, secs.section(i), secs['Section%d' % i]):
                if x.open().read() != b'Section%d' % i:
                    return '%s: section %d is %r' % (mod, i,
                                                     x.open().read())
    # the events of the body text
    need('hwp5.xmlmodel', 'Section')
    x = need('hwp5.xmlmodel')
    seen = []

    class Fake(x.Section):
        def events(self, **kw):
            me = self.open().read()
            seen.append((kw.get('section_idx'), me))
            return iter([('e', me)])

    class Secs(x.Sections):
        section_class = Fake
    got = list(Secs(Stg(names), (5, 0, 2, 4)).events())
    if [g[1] for g in got[1:-1]] != [b'Section%d' % i for i in want]:
        return 'events of %r' % (got,)
    if seen != [(i, b'Section%d' % i) for i in want]:
        return 'sections get %r' % (seen,)
    return None
