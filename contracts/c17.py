''' C17 unpacking and paths '''
from pyvc.unit import unit
from . import mains  # noqa

LEVEL = 'proof'
BOUNDS = ('cross-checks: seeded random trees (up to 5 deep, up to 40 items) '
          'with hostile names (.., separators, absolute paths, control '
          'characters, non-ASCII), unpacked by an unprivileged process in a '
          'scratch directory; the sample files')
ASSUMPTIONS = [
    'names which are different stay different when separators and control '
    'characters are escaped (a name could be spelled like the escaped form '
    'of another one)',
    'the output directory contains no symbolic links put there beforehand',
    'str.replace(c, r): what it returns has no c unless r has one (trusted '
    'model of the built-in)',
    'os.path.join(directory, name) for a name that is a single path '
    'component (the postcondition proved for unpacked_name) is a path right '
    'below the directory; the platform is POSIX',
]
TRUSTED = ['os.path.join, os.path.exists, os.mkdir, io.open (recorded, not '
           'executed, in the proof)']


class Text(object):
    ''' an arbitrary text of which some characters are known to be absent '''

    def __init__(self, absent=(), special=None, start=None):
        self.absent = frozenset(absent)
        # is it '', '.' or '..'? not decided yet
        self.special = special
        self.start = start

    def replace(self, a, b):
        from pyvc.core import Unsupported
        if not isinstance(a, str) or not isinstance(b, str) or len(a) != 1:
            raise Unsupported('replace(%r, %r)' % (a, b))
        if a in self.absent:
            return self
        return Text((self.absent | {a}) - set(b))

    def __radd__(self, prefix):
        from pyvc.core import Unsupported
        if not isinstance(prefix, str) or not prefix:
            raise Unsupported('%r +' % (prefix,))
        return Text(self.absent - set(prefix), special=prefix.startswith('.')
                    and None, start=prefix[0])

    def __add__(self, suffix):
        from pyvc.core import Unsupported
        if not isinstance(suffix, str) or not suffix:
            raise Unsupported('+ %r' % (suffix,))
        return Text(self.absent - set(suffix),
                    special=None if set(suffix) == {'.'} else False)

    def __contains__(self, c):
        from pyvc.core import Unsupported
        if isinstance(c, str) and len(c) == 1 and c in self.absent:
            return False
        raise Unsupported('in')

    def __eq__(self, o):
        from pyvc.core import E, Unsupported
        from pyvc import core
        from .common import fresh_bool
        if not isinstance(o, str):
            raise Unsupported('==')
        if self.special is False and o in ('', '.', '..'):
            return False
        if set(o) & self.absent:
            return False
        if o in ('', '.', '..'):
            key = 'is_' + o
            known = self.__dict__.setdefault('known', {})
            if True in known.values():
                return known.get(o, False)
            if o not in known:
                known[o] = core.E.branch(fresh_bool(key).t)
            return known[o]
        raise Unsupported('== %r' % o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        from pyvc.core import Unsupported
        raise Unsupported('hash of a text')

    def __getattr__(self, name):
        from pyvc.core import Unsupported
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('str.%s' % name)


@unit('C17', funcs=['hwp5.storage.unpacked_name'], covers=['usual', 'special'])
def component(E):
    ''' whatever the name, its file name is a single path component which is
    not the directory itself or its parent '''
    from .common import V
    from hwp5 import storage
    t = Text()
    got = storage.unpacked_name(t)
    if isinstance(got, str):
        E.prove(got not in ('', '.', '..') and not set(got) & set('/\\\0:'),
                'a single path component')
        E.cover('special')
        return
    if not isinstance(got, Text):
        E.fail('a name', repr(got))
    for c in '/', '\\', '\0':
        E.prove(c in got.absent, 'no %r in a file name' % c)
    for s in '', '.', '..':
        E.prove(not (got == s), 'not %r' % s)
    E.cover('special' if got.start else 'usual')


class Recorder(object):
    ''' stands for a file system and the functions that touch it '''

    def __init__(self, E):
        self.E = E


def fake_names(E, n):
    from .common import fresh_list, SVal
    return fresh_list(E, 'names', n, lambda i, tag: SVal('name', i))


class Stg(object):
    ''' a storage of n items; item i is a storage iff stg(i) '''

    def __init__(self, E, n, names, kinds):
        self.E, self.n, self.names, self.kinds = E, n, names, kinds

    def __iter__(self):
        from .common import SIter
        it = SIter(self.names, name='names')
        self.it = it
        return it

    def __getitem__(self, name):
        from .common import SVal
        from pyvc.core import Unsupported
        if not isinstance(name, SVal) or name._base != 'name':
            raise Unsupported('an item by another name')
        if self.E.branch(self.kinds(term(name._idx))):
            return SubStg(name._idx)
        return Leaf(self.E, name._idx)


def term(i):
    from .common import ti
    return ti(i)


class SubStg(object):
    def __init__(self, i):
        self.i = i

    def __iter__(self):
        from pyvc.core import Unsupported
        raise Unsupported('the items of an item')

    def __getitem__(self, k):
        from pyvc.core import Unsupported
        raise Unsupported('the items of an item')


class Leaf(object):
    def __init__(self, E, i):
        self.E, self.i = E, i

    def open(self):
        return Stream(self.E, self.i)


class Stream(object):
    def __init__(self, E, i):
        self.E, self.i, self.done = E, i, False

    def read(self, *a):
        from .common import SVal
        from pyvc.core import Unsupported
        if a or self.done:
            raise Unsupported('read(%r)' % (a,))
        self.done = True
        return SVal('content', self.i)

    def close(self):
        pass


class OutPath(object):
    def __init__(self, i):
        self.i = i


class Out(object):
    def __init__(self, E, path, fs):
        self.E, self.path, self.fs = E, path, fs
        self.written = []

    def write(self, data):
        self.written.append(data)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.fs.stored(self)


class Name(object):
    def __init__(self, i):
        self.i = i


@unit('C17', funcs=['hwp5.storage.unpack', 'hwp5.storage.is_storage'],
      covers=['storage', 'stream', 'new directory', 'finished'])
def unpacking(E):
    ''' each item in turn: a directory is made (if it is not there) and
    unpacked into, a stream is written to its file, whole '''
    import io
    import os
    import z3
    from .common import fresh_int, ti, SVal, SInt, prove_eq
    from pyvc.core import Unsupported
    from hwp5 import storage
    n = fresh_int('n', 0)
    kinds = z3.Function('isstg', z3.IntSort(), z3.BoolSort())
    there = z3.Function('there', z3.IntSort(), z3.BoolSort())
    names = fake_names(E, n)
    stg = Stg(E, n, names, kinds)
    base = SVal('outbase', 0)
    G = E.G
    G.declare(k=0, made=-1)

    def join(*a):
        if len(a) == 2 and a[0] is base and isinstance(a[1], Name):
            return OutPath(a[1].i)
        E.fail('every path is a file name right below the directory',
               repr(a))

    def the(path, what):
        if not isinstance(path, OutPath):
            E.fail('%s right below the directory' % what, repr(path))
        return path

    def exists(path):
        p = the(path, 'a path')
        from .common import SBool
        return SBool(z3.Or(there(ti(p.i)), ti(G.made) == ti(p.i)))

    def mkdir(path, *a):
        p = the(path, 'a directory')
        E.prove(kinds(ti(p.i)), 'a directory for a storage')
        E.prove(z3.Not(there(ti(p.i))), 'an existing directory is kept')
        prove_eq(E, p.i, G.k, 'in turn')
        G.made = p.i
        E.cover('new directory')

    def again(s, path):
        p = the(path, 'a storage is unpacked')
        E.prove(isinstance(s, SubStg), 'a storage is unpacked')
        prove_eq(E, s.i, p.i, 'into its directory')
        prove_eq(E, p.i, G.k, 'every item in turn')
        E.prove(z3.Or(there(ti(p.i)), ti(G.made) == ti(p.i)),
                'the directory is there')
        E.cover('storage')
        G.k = G.k + 1

    def opened(path, mode='r', *a, **k):
        if mode != 'wb':
            E.fail('binary files', repr(mode))
        return Out(E, the(path, 'a file'), fs)

    def stored(out):
        E.prove(len(out.written) == 1 and isinstance(
            out.written[0], SVal) and out.written[0]._base == 'content',
            'the content of a stream is written')
        prove_eq(E, out.written[0]._idx, out.path.i,
                 'the content of that stream')
        prove_eq(E, out.path.i, G.k, 'every item in turn')
        E.prove(z3.Not(kinds(ti(out.path.i))), 'a file for a stream')
        E.cover('stream')
        G.k = G.k + 1
    fs = Recorder(E)
    fs.stored = stored
    E.models[os.path.join] = join
    E.models[os.path.exists] = exists
    E.models[os.path.isdir] = exists
    E.models[os.mkdir] = mkdir
    E.models[os.makedirs] = mkdir
    E.models[io.open] = opened
    E.contracts['hwp5.storage.unpacked_name'] = lambda name: Name(
        name._idx if isinstance(name, SVal) and name._base == 'name'
        else E.fail('the name of the item', repr(name)))
    unpack = storage.unpack

    def inv(L):
        L.ghostlet('k', L.pos)
        L.ghost('made', -1)
        L.fact(ti(G.made) < ti(L.pos), 'directories of items before')
    E.hints.append((lambda L: L.it is stg.it, inv, {}))
    E.contracts['hwp5.storage.unpack'] = again
    storage.unpack(stg, base)
    prove_eq(E, G.k, n, 'every item is unpacked')
    E.cover('finished')


class Path(object):
    ''' a path: the texts it is made of '''

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        return Path(self.parts + (o.parts if isinstance(o, Path) else (o,)))

    def __radd__(self, o):
        return Path((o,) + self.parts)

    def split(self, sep):
        raise NotImplementedError


def text_name(i):
    from .common import SVal
    return Path((SVal('name', i),))


class NamedStg(Stg):
    def __getitem__(self, name):
        from pyvc.core import Unsupported
        if not isinstance(name, Path) or len(name.parts) != 1:
            raise Unsupported('an item by another name')
        return Stg.__getitem__(self, name.parts[0])


@unit('C17', funcs=['hwp5.storage.iter_storage_leafs'],
      covers=['below', 'leaf', 'finished'])
def leafs(E):
    ''' each leaf once, by its path; the leafs of a storage are those of its
    items, in order, below its name '''
    import z3
    from .common import (fresh_int, fresh_list, ti, SVal, SInt, prove_eq,
                         SIter, mkint)
    from hwp5 import storage
    n = fresh_int('n', 0)
    kinds = z3.Function('isstg', z3.IntSort(), z3.BoolSort())
    cnt = z3.Function('leafs', z3.IntSort(), z3.IntSort())
    # leafs of the items before
    start = z3.Function('start', z3.IntSort(), z3.IntSort())
    E.assume(start(0) == 0)

    def at(i):
        t = ti(i)
        E.assume(z3.And(cnt(t) >= 0, start(t + 1) == start(t) + z3.If(
            kinds(t), cnt(t), 1)))
        return start(t)
    names = fresh_list(E, 'names', n, lambda i, tag: text_name(i))
    stg = NamedStg(E, n, names, kinds)
    base = Path((SVal('base', 0),))
    G = E.G
    G.declare(t=0)

    def below(s, path=''):
        E.prove(isinstance(s, SubStg), 'the leafs of a storage')
        E.prove(isinstance(path, Path) and len(path.parts) == 3
                and path.parts[0] is base.parts[0]
                and path.parts[2] == '/'
                and isinstance(path.parts[1], SVal)
                and path.parts[1]._base == 'name',
                'below the path of the storage')
        prove_eq(E, path.parts[1]._idx, s.i, 'its own name')
        m = SInt(cnt(ti(s.i)))
        E.assume(m.t >= 0)
        it = SIter(fresh_list(E, 'below', m, lambda j, tag: (
            'sub', s.i, j)), name='below')
        it.of = s.i
        return it
    E.contracts['hwp5.storage.iter_storage_leafs'] = below

    def inv(L):
        of = getattr(L.it, 'of', None)
        if of is None:
            L.ghostlet('t', mkint(at(L.pos)))
        else:
            L.ghostlet('t', mkint(at(of) + ti(L.pos)))
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    for x in storage.iter_storage_leafs(stg, base):
        if isinstance(x, Path):
            E.prove(len(x.parts) == 2 and x.parts[0] is base.parts[0]
                    and isinstance(x.parts[1], SVal)
                    and x.parts[1]._base == 'name', 'the path of an item')
            i = x.parts[1]._idx
            prove_eq(E, G.t, mkint(at(i)), 'each item in turn')
            E.prove(z3.Not(kinds(ti(i))), 'a leaf')
            E.cover('leaf')
        else:
            E.prove(isinstance(x, tuple) and x[0] == 'sub', 'a leaf below')
            prove_eq(E, G.t, mkint(at(x[1]) + ti(x[2])),
                     'each leaf below in turn')
            E.prove(kinds(ti(x[1])), 'below a storage')
            E.cover('below')
        G.t = G.t + 1
    prove_eq(E, G.t, mkint(at(n)), 'every leaf')
    E.cover('finished')


@unit('C17', funcs=['hwp5.storage.open_storage_item'],
      covers=['a path', 'a list of names'])
def lookup(E):
    ''' the item by its path: the item of that name, of the item of the name
    before, and so on '''
    from .common import (fresh_int, fresh_list, ti, SVal, prove_eq, SIter,
                         mkint)
    from pyvc.core import Unsupported
    from hwp5 import storage
    n = fresh_int('n', 1)
    names = fresh_list(E, 'segments', n, lambda i, tag: SVal('name', i))

    class Item(SVal):
        def __getitem__(self, name):
            if not isinstance(name, SVal) or name._base != 'name':
                raise Unsupported('an item by another name')
            prove_eq(E, name._idx, self._idx, 'the names of the path in turn')
            return Item('item', mkint(ti(self._idx) + 1))

    class PathText(str):
        ''' a path as a text '''
    path = names

    def split(s, *a):
        if s is not text or a != ('/',):
            E.fail('a path is split at its separators', repr(a))
        return names
    text = PathText('a/b')
    E.models[text.split] = lambda *a: split(text, *a)
    root = Item('item', 0)
    if E.choose(2):
        path = text
        E.cover('a path')
    else:
        E.cover('a list of names')

    def inv(L):
        for k, v in list(L.env.items()):
            if isinstance(v, Item) and k in L.loop.modified:
                L.let(k, Item('item', L.pos))
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    got = storage.open_storage_item(root, path)
    E.prove(isinstance(got, Item), 'an item')
    prove_eq(E, got._idx, n, 'the item of the last name')


@unit('C17', funcs=['hwp5.hwp5html.HTMLTransform.extract_bindata_dir'],
      covers=['none', 'some'])
def bindata(E):
    ''' embedded files are unpacked into the directory given '''
    import os
    from .common import SVal, fresh_bool
    from hwp5 import hwp5html
    there = fresh_bool('there')
    has = fresh_bool('has')
    stg = SVal('BinData', 0)
    out = SVal('bindata_dir', 0)

    class Doc(object):
        def __contains__(self, name):
            E.prove(name == 'BinData', 'the storage of embedded files')
            return bool(has)

        def __getitem__(self, name):
            E.prove(name == 'BinData', 'the storage of embedded files')
            if not has:
                raise KeyError(name)
            return stg
    done = []

    def mkdir(p, *a):
        E.prove(p is out, 'the directory given')
        if there:
            E.fail('an existing directory is kept')
        done.append('mkdir')
    E.models[os.path.exists] = lambda p: bool(there) if p is out else E.fail(
        'the directory given')
    E.models[os.mkdir] = mkdir
    E.models[os.makedirs] = mkdir

    def unpack(s, p):
        E.prove(s is stg and p is out, 'embedded files to the directory')
        done.append('unpack')
    E.contracts['hwp5.storage.unpack'] = unpack
    hwp5html.HTMLTransform.extract_bindata_dir(SVal('self', 0), Doc(), out)
    if not has:
        E.prove(done == [], 'nothing is written')
        E.cover('none')
        return
    E.prove(done == (['unpack'] if there else ['mkdir', 'unpack']),
            'the directory is there and filled')
    E.cover('some')


# -- cross-check --------------------------------------------------------------

HOSTILE = ['..', '.', '', '/', '../x', '../../x', '/abs', 'a/b', 'a\\b',
           '..\\x', 'C:x', '\x05HwpSummaryInformation', 'a\0b', '~', '-rf',
           '$HOME', ' ', 'a b', '\uac00\ub098', '%s', 'x.', '...', 'a\nb',
           './x', 'x/..', '/', '//', '/..', 'BinData', 'Section0']
NAMES = ['a', 'b', 'BodyText', 'DocInfo', 'Section1', 'BIN0001.png', 'x.y.z',
         '\x05Hwp', 'File Header', '\u00e9']


def tree(rng, depth, hostile, abs_):
    out = {}
    for k in range(rng.randrange(0, 6)):
        pool = list(NAMES)
        if hostile and rng.random() < .5:
            pool = HOSTILE + [abs_]
        name = rng.choice(pool)
        if rng.random() < .3 and depth:
            out[name] = tree(rng, depth - 1, hostile, abs_)
        else:
            out[name] = bytes(rng.randrange(256) for i in range(rng.choice(
                [0, 1, 5, 300, 70000])))
    return out


def escaped(name):
    for c in '\x05\x00/\\:':
        name = name.replace(c, '_%02x' % ord(c))
    return '_' + name if name in ('', '.', '..') else name


def collides(t):
    es = [escaped(k) for k in t]
    return len(set(es)) != len(es) or any(
        collides(v) for v in t.values() if isinstance(v, dict))


class DictStg(object):
    def __init__(self, t, leaf=None):
        self.t = t

    def __iter__(self):
        return iter(self.t)

    def __getitem__(self, name):
        v = self.t[name]
        return DictStg(v) if isinstance(v, dict) else DictStream(v)


class DictStream(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        import io
        return io.BytesIO(self.data)


def cases(rng, tier):
    n = 4000 if tier == 'thorough' else 350
    for i in range(n):
        yield ('unpack', rng.randrange(1 << 30), i % 2)
        yield ('paths', rng.randrange(1 << 30))
        if i % 5 == 0:
            yield ('html', rng.randrange(1 << 30))
    import glob
    for f in sorted(glob.glob('/repo/tests/hwp5_tests/fixtures/*.hwp'))[
            :None if tier == 'thorough' else 6]:
        for ole in (False, True):
            yield ('file', f, ole)


def unprivileged(fn):
    ''' run fn in a child process which can change nothing but files of its
    own; its message, or None '''
    import os
    import sys
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if os.getuid() == 0:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            try:
                msg = fn() or ''
            except BaseException:
                msg = 'ERR ' + traceback.format_exc()
            os.write(w, msg.encode('utf-8', 'replace')[:60000])
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError('the child process failed')
    return data.decode('utf-8')


def contents(top):
    import os
    out = {}
    for d, ds, fs in os.walk(top):
        out[os.path.relpath(d, top) + '/'] = None
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as g:
                out[os.path.relpath(p, top)] = g.read()
    return out


def check_case(case):
    import shutil
    import tempfile
    import os
    if case[0] == 'paths':
        return check_paths(case)
    top = tempfile.mkdtemp(prefix='c17-')
    try:
        os.chmod(top, 0o755)
        home = os.path.join(top, 'home')
        os.mkdir(home)
        os.mkdir(os.path.join(home, 'canary'))
        with open(os.path.join(home, 'canary', 'x'), 'wb') as f:
            f.write(b'canary')
        with open(os.path.join(home, 'x'), 'wb') as f:
            f.write(b'canary')
        if os.getuid() == 0:
            for d, ds, fs in os.walk(home):
                os.chown(d, 65534, 65534)
                for f in fs:
                    os.chown(os.path.join(d, f), 65534, 65534)
        return globals()['check_' + case[0]](case, home)
    finally:
        shutil.rmtree(top)


def expected(t, where):
    out = {}
    for k, v in t.items():
        p = os_join(where, escaped(k))
        if isinstance(v, dict):
            out[p + '/'] = None
            out.update(expected(v, p))
        else:
            out[p] = v
    return out


def os_join(a, b):
    return a + '/' + b if a else b


def compare(got, before, t, outdir, hostile):
    inside = dict((k[len(outdir) + 1:], v) for k, v in got.items()
                  if k.startswith(outdir + '/') and k != outdir + '/')
    outside = dict((k, v) for k, v in got.items()
                   if not k.startswith(outdir + '/'))
    if outside != before:
        return 'changed outside of the output directory: %r' % sorted(
            k for k in set(outside) | set(before)
            if outside.get(k, 0) != before.get(k, 0))
    if collides(t):
        return None
    want = expected(t, '')
    if not hostile:
        if inside != want:
            return 'unpacked %r, not %r' % (sorted(inside), sorted(want))
        return None
    # however hostile names are spelled: every stream, whole
    def files(d):
        return sorted(v for v in d.values() if v is not None)
    if files(inside) != files(want) or len(inside) != len(want):
        return 'unpacked %r for %r' % (sorted(inside), sorted(want))
    return None


def has_hostile(t):
    import re
    return any(re.search(r'[\x00/\\:]', k) or k in ('', '.', '..') or (
        isinstance(v, dict) and has_hostile(v)) for k, v in t.items())


def check_unpack(case, home):
    import os
    import random
    from pyvc.concrete import need
    unpack = need('hwp5.storage', 'unpack')
    rng = random.Random(case[1])
    t = tree(rng, 4, case[2], os.path.join(home, 'canary', 'x'))
    before = contents(home)

    def run():
        os.chdir(home)
        os.mkdir('out')
        if rng.random() < .4 and not collides(t):
            # over an older output
            unpack(DictStg(older(t)), 'out')
        unpack(DictStg(t), rng.choice(['out', os.path.join(home, 'out'),
                                       './out']))
    return finish(unprivileged(run), home, before, t)


def older(t):
    return dict((k, older(v) if isinstance(v, dict) else b'older' + v)
                for k, v in t.items())


def finish(msg, home, before, t, out='out'):
    got = contents(home)
    if msg.startswith('ERR'):
        return 'unpacking %r raises %s' % (t, msg[-700:])
    r = compare(got, before, t, out, has_hostile(t))
    return r and r + ' from %r' % sketch(t)


def sketch(t):
    return dict((k, sketch(v) if isinstance(v, dict) else len(v))
                for k, v in t.items())


def check_html(case, home):
    import os
    import random
    from pyvc.concrete import need
    cls = need('hwp5.hwp5html', 'HTMLTransform')
    rng = random.Random(case[1])
    t = tree(rng, 1, rng.random() < .7, os.path.join(home, 'canary', 'x'))
    doc = {'BinData': DictStg(t)}
    none = rng.random() < .1
    if none:
        doc, t = {}, {}
    before = contents(home)

    def run():
        os.chdir(home)
        os.mkdir('out')
        if rng.random() < .3:
            os.mkdir('out/bindata')
        cls.extract_bindata_dir(cls.__new__(cls), doc, 'out/bindata')
    msg = unprivileged(run)
    if none:
        return None if not msg else msg
    before['out/'] = None
    return finish(msg, home, before, t, 'out/bindata')


def check_file(case, home):
    ''' the unpack command on a sample file, compared with the streams '''
    import io
    import os
    import shutil
    from pyvc.concrete import need
    main = need('hwp5.proc.unpack', 'main')
    open_hwpfile = need('hwp5.cli', 'open_hwpfile')
    os.mkdir(os.path.join(home, 'files'), 0o755)
    os.chmod(os.path.join(home, 'files'), 0o755)
    path = os.path.join(home, 'files', 'doc.v1.hwp')
    shutil.copyfile(case[1], path)
    os.chmod(path, 0o644)

    class Args(object):
        hwp5file = path
        vstreams = False
        ole = case[2]
        out_directory = os.path.join(home, 'out')
    try:
        doc = open_hwpfile(Args)
    except Exception:
        return None
    t = streams_of(doc)
    before = contents(home)
    out = 'out'
    if case[2]:
        Args.out_directory = None
        out = 'doc.v1'

    def run():
        os.chdir(home)
        if len(case[1]) % 2:
            os.mkdir(out)
        main(Args)
    return finish(unprivileged(run), home, before, t, out)


def streams_of(stg):
    out = {}
    for name in stg:
        item = stg[name]
        if hasattr(item, '__getitem__') and hasattr(item, '__iter__'):
            out[name] = streams_of(item)
        else:
            f = item.open()
            out[name] = f.read()
            f.close()
    return out


def check_paths(case):
    import random
    from pyvc.concrete import need
    leafs, lookup = need('hwp5.storage', 'iter_storage_leafs',
                         'open_storage_item')
    rng = random.Random(case[1])
    t = tree(rng, 4, False, '/x')

    def walk(t, p):
        for k, v in t.items():
            if isinstance(v, dict):
                for x in walk(v, p + (k,)):
                    yield x
            else:
                yield p + (k,), v

    def nodes(t, p):
        for k, v in t.items():
            yield p + (k,), v
            if isinstance(v, dict):
                for x in nodes(v, p + (k,)):
                    yield x
    want = list(walk(t, ()))
    got = list(leafs(DictStg(t)))
    if got != ['/'.join(p) for p, v in want]:
        return 'leafs %r of %r' % (got, sketch(t))
    got = list(leafs(DictStg(t), 'base/'))
    if got != ['base/' + '/'.join(p) for p, v in want]:
        return 'leafs %r of %r' % (got, sketch(t))
    for p, v in nodes(t, ()):
        for q in ('/'.join(p), list(p), tuple(p)):
            item = lookup(DictStg(t), q)
            if isinstance(v, dict):
                ok = getattr(item, 't', None) is v
            else:
                ok = getattr(item, 'data', None) is v
            if not ok:
                return 'another item at %r' % (q,)
        try:
            lookup(DictStg(t), '/'.join(p) + 'no')
            return 'an item at a missing name'
        except KeyError:
            pass
        except (TypeError, AttributeError):
            return 'a missing name is not a KeyError'
    return None
