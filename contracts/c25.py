''' C25 storages '''
from . import commands, mains  # noqa
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('cross-checks: OLE files written byte by byte from random trees '
          '(up to 4 deep, empty storages, streams of 0..9000 bytes, any '
          'characters OLE allows), directories of random files, random '
          'trees with random virtual formats, random previews and headers in '
          'their other formats, every virtual stream of two sample files')
ASSUMPTIONS = [
    'olefile is right about an OLE file: listdir(storages=True) gives the '
    'path of every storage and stream, once, exists and get_type are about '
    'those paths (trusted)',
    'names have none of / \\ : ! (as the OLE format demands) and are spelled '
    'as they are listed (olefile compares them without regard to case)',
    'no virtual name can be made of two items (name + suffix) in two ways',
    'a directory holds no dangling links and does not change meanwhile',
]
TRUSTED = ['olefile', 'os.listdir', 'os.path', 'io.open']


class Path(object):
    ''' the path of a storage which is not the root '''

    def __init__(self, depth):
        self.depth = depth

    def __eq__(self, o):
        if isinstance(o, Path):
            return self is o
        if isinstance(o, str):
            if o in ('', '/'):
                return False
        from pyvc.core import Unsupported
        raise Unsupported('comparison of a path')

    __hash__ = None

    def __bool__(self):
        return True

    def split(self, sep=None, *a):
        from pyvc.core import Unsupported
        if sep != '/' or a:
            raise Unsupported('split')
        return Segments(self)

    def __add__(self, o):
        if isinstance(o, str) and o == '/':
            return Prefix(self)
        return NotImplemented


class Prefix(object):
    def __init__(self, path):
        self.path = path

    def __add__(self, name):
        return Below(self.path, name)


class Below(object):
    ''' path/name '''

    def __init__(self, path, name):
        self.path, self.name = path, name


class Segments(object):
    def __init__(self, path):
        self.path = path

    def pyvc_len(self):
        return self.path.depth


class Entry(object):
    ''' what listdir gives: the names from the root to an item '''

    def __init__(self, dir, i):
        self.dir, self.i = dir, i

    def pyvc_len(self):
        from .common import SInt, ti
        return SInt(self.dir.len(ti(self.i)))

    def __getitem__(self, k):
        from .common import SInt, SVal, ti
        from pyvc.core import Unsupported
        if isinstance(k, int) and k == 0:
            return SInt(self.dir.top(ti(self.i)))
        if isinstance(k, int) and k == -1:
            return SVal('last', self.i)
        if k == slice(None, -1):
            return Parent(self)
        raise Unsupported('[%r]' % (k,))


class Parent(object):
    ''' all names but the last '''

    def __init__(self, entry):
        self.entry = entry

    def __eq__(self, o):
        from .common import SBool, ti
        from pyvc.core import Unsupported
        if isinstance(o, Segments):
            return SBool(self.entry.dir.inside(ti(self.entry.i)))
        raise Unsupported('comparison')

    __hash__ = None

    def pyvc_len(self):
        from .common import SInt, ti
        return SInt(self.entry.dir.len(ti(self.entry.i)) - 1)


class Dir(object):
    ''' an OLE file with any tree of items '''

    def __init__(self, E, depth=None):
        import z3
        from .common import fresh_int
        I, B = z3.IntSort(), z3.BoolSort()
        self.E = E
        self.n = fresh_int('items', 0)
        self.len = z3.Function(E.fresh('len'), I, I)
        # numbers for names: equal iff the names are
        self.top = z3.Function(E.fresh('top'), I, I)
        self.inside = z3.Function(E.fresh('inside'), I, B)
        self.isfirst = z3.Function(E.fresh('isfirst'), I, B)
        self.rank = z3.Function(E.fresh('rank'), I, I)
        self.nth = z3.Function(E.fresh('nth'), I, I)
        self.among = z3.Function(E.fresh('among'), I, I, B)
        self.count = z3.Function(E.fresh('count'), I, I)
        self.depth = depth
        E.assume(z3.And(self.rank(0) == 0, self.count(0) == 0))

    def entry(self, i, tag):
        import z3
        from .common import ti
        t = ti(i)
        # rank(i): how many different names the first i items begin with
        self.E.assume(z3.And(
            self.len(t) >= 1, self.rank(t) >= 0, self.count(t) >= 0,
            self.rank(t + 1) == self.rank(t) + z3.If(self.isfirst(t), 1, 0),
            self.count(t + 1) == self.count(t) + z3.If(self.inside(t), 1, 0),
            z3.Implies(self.isfirst(t), self.nth(self.rank(t))
                       == self.top(t)),
            self.among(self.top(t), self.rank(t)) == z3.Not(
                self.isfirst(t))))
        if self.depth is not None:
            self.E.assume(z3.Implies(self.inside(t), self.len(t)
                                     == ti(self.depth) + 1))
        return Entry(self, i)

    def listdir(self, streams=True, storages=False):
        from .common import SIter, fresh_list
        self.E.prove(streams is True and storages is True,
                     'streams and storages')
        return SIter(fresh_list(self.E, 'listing', self.n, self.entry),
                     name='listing')

    def firsts(self):
        import z3
        from .common import Base, SInt, ti
        b = Base('firsts', 'list', z3.Int(self.E.fresh('all')),
                 lambda k: SInt(self.nth(ti(k))))

        def member(x, lo, hi):
            self.E.prove(ti(lo) == 0, 'all of them')
            return self.among(ti(x), ti(hi))
        b.member = member
        return b


@unit('C25', funcs=['hwp5.plat.olefileio.olefile_listdir',
                    'hwp5.plat.olefileio.OleStorage.__iter__',
                    'hwp5.storage.ole.OleStorage.__iter__'],
      covers=['root', 'below', 'wrapped', 'not a storage', 'missing'])
def ole_listing(E):
    ''' the root lists every first name once; another storage lists the last
    names of exactly the items directly in it '''
    import z3
    from .common import (fresh_int, SInt, SVal, ti, mkint, prove_eq, View,
                         Rope, SList)
    from pyvc.core import Unsupported
    from hwp5.plat import olefileio
    from hwp5.storage import ole
    which = E.choose(3)
    G = E.G
    if which == 2:
        # what the storages call
        f, token = Dir(E), SVal('iterator', 0)
        got = []

        def listing(a, b):
            got.append((a, b))
            return token
        f.openstream = None
        E.contracts['hwp5.plat.olefileio.olefile_listdir'] = listing
        p = Path(fresh_int('depth', 1))
        s = olefileio.OleStorage(f, p)
        E.prove(s.__iter__() is token, 'the listing')
        w = ole.OleStorage.__new__(ole.OleStorage)
        w.impl = s
        E.prove(w.__iter__() is token, 'the listing of what is wrapped')
        E.prove(got == [(f, p)] * 2, 'of its own path')
        E.cover('wrapped')
        return
    G.declare(k=0)
    if which == 0:
        d = Dir(E)
        firsts = d.firsts()

        def inv(L):
            L.ghostlet('k', mkint(d.rank(ti(L.pos))))
            acc = [v for v in L.env.values() if isinstance(v, SList)]
            if len(acc) != 1:
                raise Unsupported('what is remembered')
            acc, = acc
            L.contents(acc, Rope('list', [View(firsts, 0, mkint(
                d.rank(ti(L.pos))))]))
        E.hints.append((lambda L: True, inv, {'peel': 0}))
        for name in olefileio.olefile_listdir(d, '/' if E.choose(2) else ''):
            prove_eq(E, name, SInt(d.nth(ti(G.k))), 'the next new name')
            G.k = G.k + 1
        prove_eq(E, G.k, mkint(d.rank(ti(d.n))), 'every name')
        E.cover('root')
        return
    d = Dir(E, fresh_int('depth', 1))
    p = Path(d.depth)
    state = E.choose(3)

    def exists(x):
        E.prove(x is p, 'about the path')
        return state != 0

    def get_type(x):
        E.prove(x is p, 'about the path')
        return 1 if state == 2 else 2
    d.exists, d.get_type = exists, get_type
    E.hints.append((lambda L: True, lambda L: L.ghostlet('k', mkint(
        d.count(ti(L.pos)))), {'peel': 0}))
    try:
        for name in olefileio.olefile_listdir(d, p):
            if not isinstance(name, SVal) or name._base != 'last':
                E.fail('last names')
            i = ti(name._idx)
            E.prove(d.inside(i), 'only what is directly in it')
            E.prove(d.count(i) == ti(G.k), 'each once, in order')
            G.k = G.k + 1
    except IOError:
        E.prove(state != 2, 'a storage can be listed')
        E.cover('missing' if state == 0 else 'not a storage')
        return
    E.prove(state == 2, 'what is no storage cannot be listed')
    E.prove(ti(G.k) == d.count(ti(d.n)), 'everything directly in it')
    E.cover('below')


@unit('C25', funcs=['hwp5.plat.olefileio.OleStorage.__getitem__',
                    'hwp5.plat.olefileio.OleStorage.__init__',
                    'hwp5.plat.olefileio.OleStorageItem.__init__',
                    'hwp5.plat.olefileio.OleStream.open',
                    'hwp5.storage.ole.OleStorage.__getitem__'],
      covers=['storage', 'stream', 'missing', 'neither'])
def ole_lookup(E):
    ''' a name gives the storage or stream with its path; KeyError if there is
    none '''
    from .common import fresh_int, SVal
    from hwp5.plat import olefileio
    from hwp5.storage import ole
    from pyvc.core import Unsupported
    name = SVal('name', 0)
    kind = E.choose(4)      # missing, storage, stream, neither
    root = E.choose(3)
    p = ['', '/', Path(fresh_int('depth', 1))][root]

    def right(x):
        if root < 2:
            return x is name
        return isinstance(x, Below) and x.path is p and x.name is name

    class Ole(object):
        def exists(self, x):
            E.prove(right(x), 'the path of the item')
            return kind != 0

        def get_type(self, x):
            E.prove(right(x), 'the path of the item')
            if kind == 0:
                raise Unsupported('type of what does not exist')
            return [None, 1, 2, 5][kind]

        def openstream(self, x):
            E.prove(kind == 2 and right(x), 'the stream with the path')
            return 'stream'
    f = Ole()
    s = olefileio.OleStorage(f, p)
    if E.choose(2):
        w = ole.OleStorage.__new__(ole.OleStorage)
        w.impl = s
        s = w
    E.models[str.__mod__] = lambda *a: 'x'
    try:
        item = s[name]
    except KeyError:
        E.prove(kind in (0, 3), 'KeyError only for what is no item')
        E.cover('missing' if kind == 0 else 'neither')
        return
    E.prove(kind in (1, 2), 'KeyError for what is no item')
    if kind == 1:
        E.prove(type(item) is olefileio.OleStorage, 'a storage')
        E.prove(item.olefile is f and right(item.path), 'of that path')
        E.cover('storage')
    else:
        E.prove(item.open() == 'stream', 'a stream')
        E.prove(not hasattr(item, '__iter__'), 'no storage')
        E.cover('stream')


# -- virtual items ------------------------------------------------------------

class Tree(object):
    ''' a storage with n items, each with virtual formats or not '''

    def __init__(self, E):
        import z3
        from .common import fresh_int
        I = z3.IntSort()
        self.E = E
        self.n = fresh_int('items', 0)
        self.state = z3.Function(E.fresh('state'), I, I)
        self.m = z3.Function(E.fresh('formats'), I, I)
        # off(i): how many names there are up to those of item i
        self.off = z3.Function(E.fresh('off'), I, I)
        E.assume(self.off(0) == 0)

    def name(self, i, tag):
        import z3
        from .common import ti
        t = ti(i)
        # state: 0 no other_formats, 1 they are None, 2 a dict
        self.E.assume(z3.And(
            self.state(t) >= 0, self.state(t) <= 2, self.m(t) >= 0,
            z3.Implies(self.state(t) != 2, self.m(t) == 0),
            self.off(t + 1) == self.off(t) + 1 + self.m(t)))
        return Name(self, i)

    def __iter__(self):
        from .common import SIter, fresh_list
        return SIter(fresh_list(self.E, 'names', self.n, self.name),
                     name='names')

    def __getitem__(self, name):
        from .common import ti
        from pyvc.core import Unsupported
        if isinstance(name, Wanted):
            return self.wanted(name)
        if not isinstance(name, Name):
            raise Unsupported('name %r' % (name,))
        if self.E.branch(self.state(ti(name.i)) == 0):
            return Plain()
        return Item(self, name.i)


class Plain(object):
    pass


class Name(object):
    def __init__(self, tree, i):
        self.tree, self.i = tree, i

    def __add__(self, ext):
        return Full(self, ext)


class Ext(object):
    def __init__(self, item, j):
        self.item, self.j = item, j


class Full(object):
    def __init__(self, name, ext):
        self.name, self.ext = name, ext

    def __eq__(self, o):
        import z3
        from .common import SBool, ti
        from pyvc.core import Unsupported
        if not isinstance(o, Wanted):
            raise Unsupported('comparison of names')
        return SBool(z3.And(ti(self.name.i) == ti(o.i),
                            ti(self.ext.j) == ti(o.j)))

    __hash__ = None


class Wanted(object):
    ''' the name looked for: that of format j of item i, or nothing (-1) '''

    def __init__(self, i, j):
        self.i, self.j = i, j

    def __eq__(self, o):
        return o == self if isinstance(o, Full) else NotImplemented

    __hash__ = None


class Item(object):
    def __init__(self, tree, i):
        self.tree, self.i = tree, i

    def other_formats(self):
        from .common import ti
        E = self.tree.E
        if E.branch(self.tree.state(ti(self.i)) == 1):
            return None
        return Formats(self)


class Formats(object):
    def __init__(self, item):
        from .common import mkint, ti
        self.item = item
        self.size = mkint(item.tree.m(ti(item.i)))

    def __bool__(self):
        from .common import ti
        return bool(self.item.tree.E.branch(ti(self.size) > 0))

    def pyvc_len(self):
        return self.size

    def iter(self, elem, name):
        from .common import SIter, fresh_list
        it = SIter(fresh_list(self.item.tree.E, name, self.size, elem),
                   name=name)
        it.item = self.item
        return it

    def __iter__(self):
        return self.iter(lambda j, tag: Ext(self.item, j), 'formats')

    def keys(self):
        return self.__iter__()

    def items(self):
        from .common import SVal
        return self.iter(lambda j, tag: (Ext(self.item, j), Func(
            self.item, j)), 'formats')

    def __getitem__(self, ext):
        from pyvc.core import Unsupported
        if not isinstance(ext, Ext) or ext.item is not self.item:
            raise Unsupported('[%r]' % (ext,))
        return Func(self.item, ext.j)


class Func(object):
    def __init__(self, item, j):
        self.item, self.j = item, j


@unit('C25', funcs=['hwp5.storage.ExtraItemStorage.__iter__'],
      covers=['real', 'virtual', 'finished'])
def virtual_listing(E):
    ''' each name, then the names of its virtual formats, once each '''
    from .common import ti, mkint, prove_eq, each
    from hwp5 import storage
    from pyvc.core import Unsupported
    tree = Tree(E)
    G = E.G
    G.declare(k=0)

    def inv(L):
        name = getattr(L.it, 'name', None)
        if name == 'names':
            L.ghostlet('k', mkint(tree.off(ti(L.pos))))
        elif name == 'formats':
            L.ghostlet('k', mkint(tree.off(ti(L.it.item.i)) + 1
                                  + ti(L.pos)))
        else:
            raise Unsupported('another loop')
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for x in storage.ExtraItemStorage(tree):
        if isinstance(x, Name):
            prove_eq(E, mkint(tree.off(ti(x.i))), G.k, 'the items in order')
            E.cover('real')
        else:
            E.prove(isinstance(x, Full), 'item and format')
            prove_eq(E, mkint(tree.off(ti(x.name.i)) + 1 + ti(x.ext.j)),
                     G.k, 'the formats of the item after it')
            prove_eq(E, x.name.i, x.ext.item.i, 'its own formats')
            E.cover('virtual')
        G.k = G.k + 1
    prove_eq(E, G.k, mkint(tree.off(ti(tree.n))), 'everything')
    E.cover('finished')


@unit('C25', funcs=['hwp5.storage.ExtraItemStorage.__getitem__',
                    'hwp5.storage.Open2Stream.__init__'],
      covers=['real storage', 'real stream', 'virtual', 'missing'])
def virtual_lookup(E):
    ''' a real item if there is one with the name; otherwise the virtual
    stream of the format of the item; otherwise KeyError '''
    import z3
    from .common import fresh_int, ti, mkint, prove_eq
    from hwp5 import storage
    from pyvc.core import Unsupported
    tree = Tree(E)
    found = E.choose(3)     # nothing, a stream, a storage
    i, j = fresh_int('wanted', -1), fresh_int('format', 0)
    w = Wanted(i, j)
    E.assume(i.t < ti(tree.n))
    E.assume(z3.Or(i.t == -1, z3.And(tree.state(i.t) == 2,
                                     j.t < tree.m(i.t))))

    class Stream(object):
        def open(self):
            pass
    real = [None, Stream(), Tree(E)][found]

    def wanted(name):
        E.prove(name is w, 'the name given')
        if not found:
            raise KeyError('no')
        return real
    tree.wanted = wanted

    def inv(L):
        name = getattr(L.it, 'name', None)
        if name == 'names':
            L.fact(z3.Or(i.t == -1, ti(L.pos) <= i.t), 'not passed by')
        elif name == 'formats':
            L.fact(z3.Or(ti(L.it.item.i) != i.t, ti(L.pos) <= j.t),
                   'not passed by')
        else:
            raise Unsupported('another loop')
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    s = storage.ExtraItemStorage(tree)
    try:
        got = s[w]
    except KeyError:
        E.prove(found == 0, 'real items are found')
        E.prove(i.t == -1, 'virtual items are found')
        E.cover('missing')
        return
    if found == 1:
        E.prove(got is real, 'the real stream')
        E.cover('real stream')
    elif found == 2:
        E.prove(type(got) is storage.ExtraItemStorage
                and got.wrapped is real, 'the real storage, with the virtual '
                'items in it')
        E.cover('real storage')
    else:
        E.prove(i.t != -1, 'nothing else is found')
        f = got.open
        E.prove(isinstance(f, Func), 'opens the format')
        prove_eq(E, f.item.i, i, 'of the item')
        prove_eq(E, f.j, j, 'that format')
        E.prove(not storage.is_storage(got), 'a stream')
        E.cover('virtual')


@unit('C25', funcs=['hwp5.storage.StorageWrapper.__iter__',
                    'hwp5.storage.StorageWrapper.__getitem__',
                    'hwp5.storage.ItemConversionStorage.__getitem__',
                    'hwp5.storage.ItemWrapper.__init__',
                    'hwp5.storage.ItemWrapper.__getattr__'],
      covers=['wrapper', 'converted', 'as it is', 'missing'])
def wrappers(E):
    ''' wrapping storages list what they wrap, and give the items of what
    they wrap, converted or not; KeyError if there is none '''
    from .common import SVal
    from hwp5 import storage
    name, token, item = SVal('name', 0), SVal('it', 0), SVal('item', 0)
    missing = E.choose(2)
    conv = E.choose(2)

    class Stg(object):
        attribute = SVal('attribute', 0)

        def __iter__(self):
            return token

        def __getitem__(self, x):
            E.prove(x is name, 'the name given')
            if missing:
                raise KeyError('no')
            return item
    E.models[iter] = lambda x: x.__iter__()
    base = Stg()

    class Conversion(storage.ItemConversionStorage):
        def resolve_conversion_for(self, x):
            E.prove(x is name, 'the name given')
            if conv:
                return lambda y: ('converted', y)
    which = E.choose(3)
    s = [storage.StorageWrapper, Conversion,
         storage.ItemConversionStorage][which](base)
    E.prove(s.__iter__() is token, 'the same names')
    E.prove(s.attribute is Stg.attribute, 'the attributes of what is wrapped')
    try:
        got = s[name]
    except KeyError:
        E.prove(missing == 1, 'only missing items are missing')
        E.cover('missing')
        return
    E.prove(not missing, 'missing items are missing')
    if which == 1 and conv:
        E.prove(isinstance(got, tuple) and got[0] == 'converted'
                and got[1] is item, 'converted')
        E.cover('converted')
    else:
        E.prove(got is item, 'the item')
        E.cover('as it is' if which else 'wrapper')


@unit('C25', funcs=['hwp5.storage.fs.FileSystemStorage.__init__',
                    'hwp5.storage.fs.FileSystemStorage.__iter__',
                    'hwp5.storage.fs.FileSystemStorage.__getitem__',
                    'hwp5.storage.fs.FileSystemStream.__init__',
                    'hwp5.storage.fs.FileSystemStream.open'],
      covers=['listed', 'directory', 'file', 'missing'])
def directories(E):
    ''' a directory lists its entries; an entry is a directory or a file;
    KeyError for anything else '''
    import io
    import os
    from .common import SVal
    from hwp5.storage import fs
    from pyvc.core import Unsupported
    base, name = SVal('directory', 0), SVal('name', 0)
    joined = SVal('joined', 0)
    kind = E.choose(3)      # not there, a directory, a file

    class Listing(object):
        def __contains__(self, x):
            E.prove(x is name, 'the name given')
            return kind != 0

        def __iter__(self):
            return self
    listing = Listing()

    def listdir(p):
        E.prove(p is base, 'its own directory')
        return listing

    def join(a, b):
        E.prove(a is base and b is name, 'the path of the entry')
        return joined

    def isdir(p):
        E.prove(p is joined, 'the entry')
        return kind == 1

    def exists(p):
        E.prove(p is joined, 'the entry')
        # what is not listed may exist all the same (..)
        return kind != 0 or bool(E.choose(2))

    def opened(p, mode='r', *a):
        E.prove(p is joined and mode == 'rb', 'the file, binary')
        return 'stream'
    E.models[os.listdir] = listdir
    E.models[os.path.join] = join
    E.models[os.path.isdir] = isdir
    E.models[os.path.exists] = exists
    E.models[io.open] = opened
    E.models[sorted] = lambda x: x
    E.models[iter] = lambda x: x
    s = fs.FileSystemStorage(base)
    if E.choose(2):
        E.prove(s.__iter__() is listing, 'the entries')
        E.cover('listed')
        return
    try:
        got = s[name]
    except KeyError:
        E.prove(kind == 0, 'only missing entries are missing')
        E.cover('missing')
        return
    E.prove(kind != 0, 'missing entries are missing')
    if kind == 1:
        E.prove(type(got) is fs.FileSystemStorage and got.path is joined,
                'a directory')
        E.cover('directory')
    else:
        E.prove(got.open() == 'stream', 'a file')
        E.cover('file')


# -- cross-check --------------------------------------------------------------

LETTERS = 'abcAB01 .\x05\x01-_가힣\u00e9\u0416~%#&\'"<>|?*'


def some_name(rng):
    if rng.random() < .3:
        return rng.choice(['BinData', 'BodyText', 'Section0', 'Section1',
                           'DocInfo', 'BIN0001.jpg', 'Root Entry', 'x',
                           'x.txt', 'x.txt.gz', '\x05HwpSummaryInformation'])
    return ''.join(rng.choice(LETTERS) for i in range(rng.choice(
        (1, 2, 2, 3, 5, 31))))


def some_tree(rng, depth, sizes, name=some_name):
    d, seen = {}, set()
    for i in range(rng.choice((0, 1, 2, 3, 6))):
        n = name(rng)
        if n.upper() in seen or n.lower() in seen or n in ('.', '..'):
            continue
        seen.update((n.upper(), n.lower()))
        if depth and rng.random() < .45:
            d[n] = some_tree(rng, depth - 1, sizes, name)
        else:
            d[n] = rng.randbytes(rng.choice(sizes))
    return d


def cases(rng, tier):
    n = 4000 if tier == 'thorough' else 350
    for i in range(n):
        yield ('ole', rng.randrange(1 << 30))
        yield ('virtual', rng.randrange(1 << 30))
        if i % 3 == 0:
            yield ('fs', rng.randrange(1 << 30))
        if i % 4 == 0:
            yield ('formats', rng.randrange(1 << 30))
    for name in ('sample-5017.hwp', 'viewtext.hwp'):
        yield ('sample', name)
        yield ('commands', name)
    for i in range(3):
        yield ('commands', i)


def all_names(t):
    for n, x in t.items():
        yield n
        if isinstance(x, dict):
            for y in all_names(x):
                yield y


def walk(stg, t, names, where='', lower=True):
    ''' the storage is the tree '''
    got = list(stg)
    if sorted(got) != sorted(t):
        return '%r lists %r, not %r' % (where, sorted(got), sorted(t))
    have = set(n.lower() for n in t) if lower else set(t)
    for n in names:
        if (n.lower() if lower else n) in have:
            continue
        try:
            stg[n]
        except KeyError:
            continue
        return '%r in %r can be opened, but is not there' % (n, where)
    for n, x in t.items():
        try:
            item = stg[n]
        except KeyError:
            return '%r in %r cannot be opened' % (n, where)
        storage = hasattr(item, '__iter__') and hasattr(item, '__getitem__')
        if storage != isinstance(x, dict):
            return '%r in %r is the wrong kind of item' % (n, where)
        if storage:
            msg = walk(item, x, names, where + '/' + n, lower)
            if msg:
                return msg
            continue
        for k in range(2):
            f = item.open()
            data = f.read()
            f.close()
            if data != x:
                return '%r in %r is %r, not %r' % (n, where, data[:99],
                                                   x[:99])
    return None


class Mem(object):
    def __init__(self, t):
        self.t = t

    def __iter__(self):
        return iter(self.t)

    def __getitem__(self, n):
        x = self.t[n]
        if isinstance(x, tuple):
            x, formats = x
        else:
            formats = 0
        return make(Mem if isinstance(x, dict) else MemStream, x, formats)


class MemStream(object):
    def __init__(self, b):
        self.b = b

    def open(self):
        import io
        return io.BytesIO(self.b)


def make(cls, x, formats):
    import io
    item = cls(x)
    if formats != 0:
        f = formats and dict((e, lambda b=b: io.BytesIO(b))
                             for e, b in formats.items())
        item.other_formats = lambda: f
    return item


def with_formats(rng, t):
    ''' (the tree with virtual formats, what is to be seen of it) '''
    a, seen = {}, {}
    for n, x in t.items():
        y = x
        if isinstance(x, dict):
            x, y = with_formats(rng, x)
        formats = rng.choice((0, 0, None, {}, 1, 1, 1))
        if formats == 1:
            formats = {}
            for i in range(rng.randrange(1, 4)):
                e = rng.choice(['.txt', '.xml', '.utf8', '', '.', '.txt.gz',
                                '0', '.records'])
                formats[e] = rng.randbytes(rng.randrange(9))
        a[n] = x if formats == 0 else (x, formats)
        seen[n] = y
    for n, x in t.items():
        if isinstance(a[n], tuple) and a[n][1]:
            for e, b in a[n][1].items():
                if n + e in t:
                    continue        # a real item is never hidden
                if n + e in seen:
                    return with_formats(rng, t)     # ambiguous
                seen[n + e] = b
    return a, seen


class Distinct(object):
    ''' a storage; what it lists, without duplicates '''

    def __init__(self, stg):
        self.stg = stg

    def __iter__(self):
        return iter(set(self.stg))

    def __getitem__(self, n):
        x = self.stg[n]
        if hasattr(x, '__iter__') and hasattr(x, '__getitem__'):
            return Distinct(x)
        return x


def check_case(case):
    import io
    import os
    import random
    import tempfile
    from pyvc.concrete import need
    if case[0] == 'sample':
        return check_sample(case[1])
    if case[0] == 'commands':
        if isinstance(case[1], int):
            return commands.check_ole_commands(case[1])
        return commands.check_file_commands(case[1])
    rng = random.Random(case[1])
    if case[0] == 'formats':
        return check_formats(rng)
    names = [some_name(rng) for i in range(5)] + ['', 'no', '\0']
    if case[0] == 'ole':
        from . import cfb
        t = some_tree(rng, 3, (0, 1, 63, 64, 65, 512, 4095, 4096, 4097,
                               9000))
        if rng.random() < .5:
            # deeper
            t['deep'] = dict(er=dict(est=some_tree(rng, 1, (0, 5))))
        names += list(all_names(t))
        data = cfb.write(t, rng)
        if len(data) <= 1024:
            data = data.ljust(1537, b'\0')
        which = rng.randrange(3)
        if which == 0:
            return walk(need('hwp5.plat.olefileio', 'OleStorage')(
                io.BytesIO(data)), t, names)
        if which == 1:
            return walk(need('hwp5.storage.ole', 'OleStorage')(
                io.BytesIO(data)), t, names)
        with tempfile.TemporaryDirectory(prefix='c25-') as d:
            p = os.path.join(d, 'x.hwp')
            with open(p, 'wb') as f:
                f.write(data)
            stg = need('hwp5.storage.ole', 'OleStorage')(p)
            msg = walk(stg, t, names)
            stg.close()
            return msg
    if case[0] == 'fs':
        t = some_tree(rng, 2, (0, 1, 9000))
        with tempfile.TemporaryDirectory(prefix='c25-') as d:
            def fill(t, p):
                os.mkdir(p)
                for n, x in t.items():
                    q = os.path.join(p, n)
                    if isinstance(x, dict):
                        fill(x, q)
                    else:
                        with open(q, 'wb') as f:
                            f.write(x)
            fill(t, os.path.join(d, 'top'))
            names = [n for n in names if '\0' not in n]
            names += list(all_names(t)) + ['..', '.', '../top', d]
            return walk(need('hwp5.storage.fs', 'FileSystemStorage')(
                os.path.join(d, 'top')), t, names, lower=False)
    Extra, Conv = need('hwp5.storage', 'ExtraItemStorage',
                       'ItemConversionStorage')
    t = some_tree(rng, 2, (0, 1, 9))
    a, seen = with_formats(rng, t)
    names += list(all_names(seen))
    names += [n + '.txt' for n in names]
    stg = Extra(Mem(a))
    if rng.random() < .3:
        stg = Extra(Conv(Mem(a)))
    msg = walk(Distinct(stg), seen, names, lower=False)
    if msg:
        return msg
    # each once, but for what is both real and virtual
    both = [n + e for n, x in a.items() if isinstance(x, tuple) and x[1]
            for e in x[1] if n + e in t]
    got = sorted(stg)
    if [n for n in got if n not in both] != sorted(
            n for n in seen if n not in both):
        return 'lists %r' % got
    return None


def check_formats(rng):
    ''' the preview as UTF-8, the header as text '''
    from pyvc.concrete import need
    from .c18 import Dict, make_header
    Extra = need('hwp5.storage', 'ExtraItemStorage')
    text = ''.join(rng.choice(LETTERS + '\n\r\0\U0001f600\uffff\ufeff')
                   for i in range(rng.choice((0, 1, 9, 5000))))
    # (not compressed, no password, no distribution document)
    flags = rng.randrange(1 << 12) & ~7
    v = tuple(rng.randrange(256) for i in range(4))
    doc = Dict({'FileHeader': make_header(flags, v),
                'PrvText': text.encode('utf-16le')})
    f = Extra(need('hwp5.' + rng.choice(['filestructure', 'xmlmodel']),
                   'Hwp5File')(doc))
    for k in range(2):
        g = f['PrvText.utf8'].open()
        got = g.read()
        g.close()
        if got != text.encode('utf-8'):
            return 'preview %r as UTF-8: %r' % (text, got)
    item = f['PrvText']
    if item.text != text or item.utf8 != text.encode('utf-8') \
            or str(item) != text:
        return 'preview %r is %r, %r' % (text, item.text, item.utf8)
    g = f['FileHeader.txt'].open()
    lines = g.read().decode('utf-8').split('\n')
    g.close()
    if lines.pop() != '':
        return 'the header does not end with a line: %r' % lines
    want = dict((n, str(flags >> k & 1)) for k, n in enumerate(
        ('compressed', 'password', 'distributable', 'script', 'drm',
         'xmltemplate_storage', 'history', 'cert_signed', 'cert_encrypted',
         'cert_signature_extra', 'cert_drm', 'ccl')))
    want.update(signature='HWP Document File',
                version='%d.%d.%d.%d' % v)
    got = [line.split(': ') for line in lines]
    if got != sorted(list(x) for x in want.items()):
        return 'header %r is %r' % (want, got)
    return None


def check_sample(name):
    import os
    from pyvc.concrete import need
    Extra = need('hwp5.storage', 'ExtraItemStorage')
    File, Raw = need('hwp5.xmlmodel', 'Hwp5File'), need(
        'hwp5.storage.ole', 'OleStorage')
    path = os.path.join('/repo/tests/hwp5_tests/fixtures', name)

    def leafs(stg, where=''):
        for n in stg:
            x = stg[n]
            if hasattr(x, '__iter__') and hasattr(x, '__getitem__'):
                for y in leafs(x, where + n + '/'):
                    yield y
            else:
                f, g = x.open(), x.open()
                a, b = f.read(), g.read()
                f.close()
                g.close()
                yield where + n, a, b
    raw = set(x[0] for x in leafs(Raw(path)))
    got = list(leafs(Extra(File(path))))
    for n, a, b in got:
        if a != b:
            return '%s: %d bytes, then %d' % (n, len(a), len(b))
    paths = [x[0] for x in got]
    if len(set(paths)) != len(paths):
        return 'listed twice: %r' % sorted(paths)
    want = set(raw)
    for n in raw:
        if n == 'DocInfo' or n.startswith(('BodyText/', 'ViewText/')):
            want.update(n + e for e in ('.records', '.models', '.xml'))
    for n in set(x.split('/')[0] for x in raw if '/' in x):
        if n in ('BodyText', 'ViewText'):
            want.add(n + '.xml')
    want.update({'FileHeader.txt', 'PrvText.utf8',
                 '\x05HwpSummaryInformation.txt'})
    if set(paths) != want:
        return 'differs: %r' % sorted(set(paths) ^ want)
    return None
