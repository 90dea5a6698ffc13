''' C24 searching files '''
from pyvc.unit import unit

LEVEL = 'proof'
BOUNDS = ('complete enumeration of the 1024 tag numbers against the 1024 '
          'tags of a model; cross-checks: files made of random records, '
          'random conditions, through the command line too')
ASSUMPTIONS = [
    'an option given as an empty text counts as not given',
    'filter(p, xs) gives the items of xs which satisfy p, in order (trusted)',
    'iterating standard input gives its lines (trusted)',
    'a file which cannot be parsed ends the search of that file only '
    '(ParseError); other errors are not searched further',
]
TRUSTED = ['argparse', 'filter', 'sys.stdin']


class Section(object):
    def __init__(self, i, models):
        self.i = i
        self.models = models


class SectionName(object):
    def __init__(self, i):
        self.i = i

    def __radd__(self, prefix):
        return ('in', prefix, self.i)


class Fields(object):
    ''' a model; what is set is recorded '''

    def __init__(self, key, i):
        self.key, self.i = key, i
        self.set = {}

    def __setitem__(self, k, v):
        self.set[k] = v


@unit('C24', funcs=['hwp5.proc.find.flat_models',
                    'hwp5.proc.find.hwp5file_models'],
      covers=['DocInfo', 'section', 'finished'])
def flat(E):
    ''' every model of DocInfo and then of every section, in order, each
    labelled with the stream and the file it is of '''
    import z3
    from .common import (fresh_int, fresh_list, SIter, SVal, ti, mkint,
                         prove_eq, each)
    from pyvc.core import Unsupported
    from hwp5.proc import find
    n, m = fresh_int('docinfo', 0), fresh_int('sections', 0)
    size = z3.Function(E.fresh('size'), z3.IntSort(), z3.IntSort())
    # off(s): how many models are before those of section s
    off = z3.Function(E.fresh('off'), z3.IntSort(), z3.IntSort())
    E.assume(off(0) == ti(n))
    G = E.G
    G.declare(t=0)

    def models(s, name, first, count, **kw):
        if kw:
            raise Unsupported('options')
        it = SIter(fresh_list(E, name, count,
                              lambda i, tag: Fields(s, i)), name=name)
        it.first = first
        return it

    class Body(object):
        def __iter__(self):
            return SIter(fresh_list(E, 'names', m,
                                    lambda i, tag: SectionName(i)),
                         name='names')

        def __getitem__(self, name):
            if not isinstance(name, SectionName):
                raise Unsupported('name of a section')
            i = name.i
            E.assume(z3.And(size(ti(i)) >= 0,
                            off(ti(i) + 1) == off(ti(i)) + size(ti(i))))
            return Section(i, lambda **kw: models(
                i, 'models', off(ti(i)), mkint(size(ti(i))), **kw))

    class Info(object):
        def models(self, **kw):
            return models(None, 'docinfo', 0, n, **kw)

    class Doc(object):
        docinfo = Info()
        bodytext = Body()
    doc = Doc()
    made = []

    def opened(name):
        made.append(name)
        return doc
    E.contracts['hwp5.recordstream.Hwp5File'] = opened
    E.models[find.Hwp5File] = opened
    filename = SVal('filename', 0)

    def inv(L):
        name = getattr(L.it, 'name', None)
        if name in ('docinfo', 'models'):
            L.ghostlet('t', mkint(L.it.first + ti(L.pos)))
        elif name == 'names':
            L.ghostlet('t', mkint(off(ti(L.pos))))
        else:
            raise Unsupported('another loop')
    E.hints.append((lambda L: True, inv, {'peel': 0}))

    def take(f):
        ''' f is the next model '''
        if not isinstance(f, Fields):
            E.fail('the models of the file')
        key, i = f.key, f.i
        x = f.set.get('stream')
        if key is None:
            prove_eq(E, G.t, i, 'the models of DocInfo in order')
            E.prove(x == 'DocInfo', 'in DocInfo')
            E.cover('DocInfo')
        else:
            prove_eq(E, G.t, mkint(off(ti(key)) + ti(i)),
                     'the models of the sections in order')
            E.prove(isinstance(x, tuple) and x[:2] == ('in', 'BodyText/'),
                    'in a section')
            prove_eq(E, x[2], key, 'in its section')
            E.cover('section')
        G.t = G.t + 1
    for f in each(find.flat_models(doc)):
        take(f)
    prove_eq(E, G.t, mkint(off(ti(m))), 'every model')
    # by its contract
    total = fresh_int('total', 0)
    E.contracts['hwp5.proc.find.flat_models'] = lambda d, **kw: SIter(
        fresh_list(E, 'flat', total, lambda i, tag: Fields('flat', i))) \
        if d is doc and not kw else E.fail('the file opened')
    E.hints[:] = [(lambda L: True,
                   lambda L: L.ghostlet('t', L.pos), {'peel': 0})]
    G.t = 0
    for f in each(find.hwp5file_models(filename)):
        E.prove(len(made) == 1 and made[0] is filename, 'the file named')
        E.prove(isinstance(f, Fields) and f.key == 'flat', 'its models')
        E.prove(ti(f.i) == ti(G.t), 'in order')
        E.prove(f.set.get('filename') is filename, 'labelled with the file')
        G.t = G.t + 1
    E.prove(ti(G.t) == ti(total), 'every model of the file')
    E.cover('finished')


class Type(object):
    def __init__(self, name):
        self.__name__ = name


class TagText(object):
    ''' the text of --tag, not a number '''

    def __init__(self, code):
        self.code = code

    def pyvc_int(self, *base):
        raise ValueError('not a number')

    def __eq__(self, o):
        return self.code == o.code if isinstance(o, TagText) else False

    __hash__ = None


class Model(object):
    def __init__(self, E, i, kind):
        self.E, self.i, self.kind = E, i, kind

    def __getitem__(self, k):
        from .common import SInt, ti
        if k == 'type':
            return Type(SInt(self.kind[0](ti(self.i))))
        if k == 'tagname':
            return TagText(SInt(self.kind[1](ti(self.i))))
        raise KeyError(k)

    def __contains__(self, k):
        from .common import ti
        if k == 'unparsed':
            return bool(self.E.branch(self.kind[2](ti(self.i))))
        return k in ('type', 'tagname')

    def get(self, k, d=None):
        return self[k] if k in self else d


@unit('C24', funcs=['hwp5.proc.find.main',
                    'hwp5.proc.find.conditions_from_args',
                    'hwp5.proc.find.filenames_from_args'],
      covers=['model', 'tag', 'incomplete', 'nothing asked', 'reported',
              'parse error', 'finished'],
      notes=['hwp5file_models and the printer by their contracts',
             'filter by its meaning: see FILTER in the code'])
def search(E):
    ''' in each file named, in turn, exactly the models which satisfy every
    condition are reported, in order '''
    import z3
    from .common import (fresh_int, fresh_list, SIter, SVal, ti, mkint, SInt,
                         prove_eq, tb)
    from pyvc.core import Unsupported
    from hwp5.proc import find
    from hwp5.dataio import ParseError

    class Broken(ParseError):
        def __init__(self):
            pass

        def print_to_logger(self, logger):
            pass
    I, B = z3.IntSort(), z3.BoolSort()
    kind = (z3.Function(E.fresh('typename'), I, I),
            z3.Function(E.fresh('tagname'), I, I),
            z3.Function(E.fresh('unparsed'), I, B))

    class Args(object):
        model = tag = None
        incomplete = False
        from_stdin = False
        format = None
        dump = False
    args = Args()
    wanted = []
    which = E.choose(8)
    if which & 1:
        args.model = fresh_int('name', 1)
        wanted.append(lambda i: kind[0](ti(i)) == args.model.t)
        E.cover('model')
    if which & 2:
        code = fresh_int('tag', 1)
        args.tag = TagText(code)
        wanted.append(lambda i: kind[1](ti(i)) == code.t)
        E.cover('tag')
    if which & 4:
        args.incomplete = True
        wanted.append(lambda i: kind[2](ti(i)))
        E.cover('incomplete')
    if not which:
        E.cover('nothing asked')

    def match(i):
        return z3.And([w(i) for w in wanted] or [z3.BoolVal(True)])
    F = fresh_int('files', 0)
    args.hwp5files = fresh_list(E, 'files', F,
                                lambda i, tag: SVal('filename', i))
    # count(i): how many of the first i models of a file match
    count = z3.Function(E.fresh('count'), I, I)
    E.assume(count(0) == 0)

    def step(i):
        i = ti(i)
        E.assume(z3.And(count(i) >= 0, count(i + 1) == count(i)
                        + z3.If(match(i), 1, 0)))
    total = fresh_int('models', 0)
    G = E.G
    G.declare(f=0, k=0, fresh=0, fed=0)
    E.assume(count(ti(total)) >= 0)
    nth = z3.Function(E.fresh('nth'), I, I)
    streams = []

    def models(filename):
        E.prove(isinstance(filename, SVal) and filename._base == 'filename',
                'a file named')
        prove_eq(E, filename._idx, G.f, 'the files in turn')
        G.f = G.f + 1
        G.k = 0
        if E.choose(2):
            E.cover('parse error')
            G.fed = 0
            raise Broken()
        G.fed = 1

        def elem(i, tag):
            step(i)
            return Model(E, i, kind)
        it = SIter(fresh_list(E, 'models', total, elem), name='models')
        streams.append(it)
        return it
    E.contracts['hwp5.proc.find.hwp5file_models'] = models

    def filtered(pred, it):
        # FILTER: pred is applied to an arbitrary model; what it gives is the
        # matching models in order
        if it not in streams:
            raise Unsupported('filter of %r' % (it,))
        i = fresh_int('any', 0)
        E.assume(ti(i) < ti(total))
        step(i)
        r = pred(Model(E, i, kind))
        good = E.branch(match(i))
        if not isinstance(r, bool):
            r = bool(r)
        E.prove(r == bool(good), 'a model is selected iff it satisfies every '
                'condition')

        def elem(k, tag):
            i = nth(ti(k))
            E.assume(z3.And(i >= 0, i < ti(total), match(i),
                            count(i) == ti(k), count(i + 1) == ti(k) + 1))
            return Model(E, SInt(i), kind)
        return SIter(fresh_list(E, 'matching', mkint(count(ti(total))), elem),
                     name='matching')
    E.models[filter] = filtered

    def print_model(m):
        if not isinstance(m, Model):
            E.fail('models are reported')
        E.prove(match(m.i), 'only models which satisfy every condition')
        prove_eq(E, mkint(count(ti(m.i))), G.k, 'in order, each once')
        E.cover('reported')
        G.k = G.k + 1
    E.contracts['hwp5.proc.find.printer_from_args'] = lambda a: print_model

    def inv(L):
        name = getattr(L.it, 'name', None)
        if name == 'matching':
            L.ghostlet('k', L.pos)
        elif name == 'models':
            L.ghostlet('k', mkint(count(ti(L.pos))))
        else:
            if L.mode != 'init':
                pass
            L.ghostlet('f', L.pos)
            L.ghost('fed', 0, 1)
            L.ghost('k', 0)
            L.fact(z3.Implies(ti(G.fed) == 1,
                              ti(G.k) == count(ti(total))),
                   'every matching model of the file before is reported')
    E.hints.append((lambda L: True, inv, {'peel': 0}))
    find.main(args)
    prove_eq(E, G.f, F, 'every file named')
    E.prove(z3.Implies(ti(G.fed) == 1, ti(G.k) == count(ti(total))),
            'every matching model of the last file is reported')
    E.cover('finished')


@unit('C24', funcs=['hwp5.proc.find.filenames_from_stdin',
                    'hwp5.proc.find.filenames_from_args'],
      covers=['ended', 'not ended', 'command line'])
def names(E):
    ''' the name is the line without its line end, if it has one '''
    from .common import fresh_text, prove_eq, SVal, V, segs_of, ti
    from hwp5.proc import find
    import sys

    class Args(object):
        from_stdin = True
        hwp5files = SVal('files', 0)
    if E.choose(2):
        Args.from_stdin = False
        E.prove(find.filenames_from_args(Args) is Args.hwp5files,
                'the files named on the command line')
        E.cover('command line')
        return
    ended = E.choose(2)
    name = fresh_text('name')
    line = name + '\n' if ended else name
    # the lines are separate: one of them suffices
    given = []
    seen = []

    def mapped(f, src):
        seen.append(src)
        return [f(x) for x in given]
    E.models[map] = mapped
    given.append(Line(name, ended))
    got = find.filenames_from_args(Args)
    E.prove(len(seen) == 1 and seen[0] is sys.stdin, 'standard input')
    E.prove(len(got) == 1 and got[0] is name, 'the line without line end')
    E.cover('ended' if ended else 'not ended')


class Line(object):
    ''' a line: a name without line end, and a line end or not '''

    def __init__(self, name, ended):
        self.name, self.ended = name, ended

    def rstrip(self, chars=None):
        from pyvc.core import Unsupported
        if chars != '\n':
            raise Unsupported('rstrip(%r)' % (chars,))
        return self.name

    def endswith(self, x):
        from pyvc.core import Unsupported
        if x != '\n':
            raise Unsupported('endswith(%r)' % (x,))
        return bool(self.ended)

    def __getitem__(self, i):
        from pyvc.core import Unsupported
        if i != slice(None, -1):
            raise Unsupported('[%r]' % (i,))
        if not self.ended:
            return Cut()
        return self.name

    def splitlines(self):
        from pyvc.core import Unsupported
        raise Unsupported('splitlines')


class Cut(object):
    ''' a name without its last character '''


# -- cross-check --------------------------------------------------------------

class Dict(object):
    def __init__(self, d, name='x'):
        self.d, self.name = d, name

    def __iter__(self):
        return iter(self.d)

    def __getitem__(self, name):
        return self.d[name]

    def __str__(self):
        return self.name


class Bytes(object):
    def __init__(self, b):
        self.b = b

    def open(self):
        import io
        return io.BytesIO(self.b)


TAGS = (0, 9, 0x10, 0x42, 0x43, 0x44, 0x47, 0x50, 29, 89, 200, 1022, 1023)
SAFE = (0, 9, 0x10, 0x42, 0x43, 0x47, 29, 89, 200, 1022, 1023)


def some_file(rng, k):
    import struct

    odd = rng.random() < .2

    def stream():
        out = []
        for i in range(rng.randrange(6)):
            tag = rng.choice(TAGS if odd else SAFE)
            if rng.random() < .3:
                tag = rng.randrange(512, 1024)
            payload = rng.choice((rng.randbytes, bytes))(
                rng.choice((0, 2, 15, 22, 24, 40, 200)))
            if rng.random() < .3:
                payload = 'a가\r'.encode('utf-16le') * rng.randrange(4)
            out.append(struct.pack('<I', tag | rng.choice((0, 0, 1, 2)) << 10
                                   | len(payload) << 20) + payload)
        return Bytes(b''.join(out))
    header = (b'HWP Document File' + bytes(15) + bytes((4, 2, 0, 5))
              + struct.pack('<I', 0) + bytes(216))
    n = rng.randrange(7)
    return Dict({'FileHeader': Bytes(header), 'DocInfo': stream(),
                 'BodyText': Dict(dict(('Section%d' % i, stream())
                                       for i in range(n)))}, 'file-%d' % k)


def cases(rng, tier):
    for i in range(64):
        yield ('tags', i)
    yield ('types', 0)
    for i in range(1500 if tier == "quick" else 15000):
        yield ('search', rng.randrange(1 << 30))
        if i % 4 == 0:
            yield ('names', rng.randrange(1 << 30))
    for i in range(4):
        yield ('stdin', i)


def namespace(**kw):
    import argparse
    args = dict(model=None, tag=None, incomplete=False, format=None,
                dump=False, from_stdin=False, hwp5files=[])
    args.update(kw)
    return argparse.Namespace(**args)


def run(argv, stdin=None):
    ''' the command: what it prints '''
    import argparse
    import contextlib
    import io
    import sys
    from pyvc.concrete import need
    parser_of = need('hwp5.proc.find', 'find_argparser')
    p = argparse.ArgumentParser()
    sub = p.add_subparsers()
    parser_of(sub, lambda s: s)
    args = p.parse_args(['find'] + [a for a in argv if isinstance(a, str)])
    files = [a for a in argv if not isinstance(a, str)]
    if files:
        args.hwp5files = files
    out = io.StringIO()
    old = sys.stdin
    if stdin is not None:
        sys.stdin = io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out):
            args.func(args)
    finally:
        sys.stdin = old
    return out.getvalue()


def tag_name(tagid):
    from pyvc.concrete import need
    return need('hwp5.tagids', 'tagnames').get(tagid, 'HWPTAG%d' % (
        tagid - 16))


FORMAT = '%(filename)s|%(stream)s|%(seqno)s|%(tagid)s|%(type)s'


def reports(f, match, read):
    ''' what should be reported of a file '''
    from pyvc.concrete import need
    ModelStream = need('hwp5.binmodel', 'ModelStream')
    ParseError = need('hwp5.dataio', 'ParseError')
    streams = [('DocInfo', f['DocInfo'])]
    for name in f['BodyText']:
        streams.append(('BodyText/' + name, f['BodyText'][name]))
    for name, item in streams:
        ms = ModelStream(item, (5, 0, 2, 4)) if read else item
        try:
            for m in ms.models():
                if match(m):
                    yield '%s|%s|%s|%s|%s' % (
                        f.name, name, m['seqno'], m['tagid'],
                        m['type'].__name__)
        except ParseError:
            return


def check_case(case):
    import io
    import os
    import random
    import sys
    from pyvc.concrete import need
    if case[0] == 'tags':
        conditions = need('hwp5.proc.find', 'conditions_from_args')
        models = [dict(tagname=tag_name(t), tagid=t) for t in range(1024)]
        if len(set(m['tagname'] for m in models)) != 1024:
            return 'two tags of the same name'
        for n in range(case[1] * 16, case[1] * 16 + 16):
            for text in (str(n), tag_name(n)):
                cs = list(conditions(namespace(tag=text)))
                got = [m['tagid'] for m in models if all(c(m) for c in cs)]
                if got != [n]:
                    return '--tag=%s selects the tags %r' % (text, got[:9])
        return None
    if case[0] == 'types':
        from .c26 import types_there
        conditions = need('hwp5.proc.find', 'conditions_from_args')
        types = [t for t in types_there() if isinstance(
            getattr(t, 'tagid', None), int)]
        names = sorted(set(c.__name__ for t in types for c in t.__mro__)
                       | set(['', 'Nothing', 'control', 'Para']))
        for name in names:
            for incomplete in (False, True):
                cs = list(conditions(namespace(model=name,
                                               incomplete=incomplete)))
                for t in types:
                    for m in (dict(type=t, tagid=t.tagid, seqno=0),
                              dict(type=t, tagid=t.tagid, seqno=0,
                                   unparsed=b'x')):
                        m['tagname'] = tag_name(t.tagid)
                        got = all(c(m) for c in cs)
                        if name and got != (t.__name__ == name and (
                                not incomplete or 'unparsed' in m)):
                            return '--model=%s%s: %s %sselected' % (
                                name, ' --incomplete' * incomplete,
                                t.__name__, '' if got else 'not ')
        return None
    rng = random.Random(case[1])
    if case[0] == 'names':
        names_ = need('hwp5.proc.find', 'filenames_from_args')
        words = [''.join(rng.choice('ab .\t\\/\u200b가\x0c\x1c\x85\u2028')
                         for i in range(rng.randrange(9)))
                 for k in range(rng.randrange(5))]
        if words and not words[-1]:
            words[-1] = 'x'
        text = '\n'.join(words)
        old = sys.stdin
        if words and rng.random() < .5:
            text += '\n'
        sys.stdin = io.StringIO(text)
        try:
            got = list(names_(namespace(from_stdin=True, hwp5files=['no'])))
        finally:
            sys.stdin = old
        if got != words:
            return 'standard input %r gives the names %r' % (text, got)
        if list(names_(namespace(hwp5files=words))) != words:
            return 'names on the command line'
        return None
    tag = rng.choice((None, None, 'name', 'number'))
    t = rng.choice(TAGS)
    model = rng.choice((None, None, None, 'Paragraph', 'ParaText', 'UnknownTagModel',
                        'Control', 'DocumentProperties', 'Para', 'Text',
                        'paragraph'))
    if tag:
        model = None
    incomplete = rng.random() < .4

    def match(m):
        return ((tag is None or m['tagid'] == t)
                and (model is None or m['type'].__name__ == model)
                and (not incomplete or 'unparsed' in m))
    argv = ['--format=' + FORMAT]
    if model:
        argv.append('--model=' + model)
    if tag:
        argv.append('--tag=%s' % (tag_name(t) if tag == 'name' else t))
    if incomplete:
        argv.append('--incomplete')
    rng.shuffle(argv)
    if case[0] == 'stdin':
        d = need('hwp5', '__file__')
        here = os.path.join(os.path.dirname(d), '..', '..', 'tests',
                            'hwp5_tests', 'fixtures')
        if not os.path.isdir(here):
            here = '/repo/tests/hwp5_tests/fixtures'
        File = need('hwp5.binmodel', 'Hwp5File')
        paths = [os.path.join(here, n) for n in
                 ('aligns.hwp', 'charshape.hwp', 'parashape.hwp')]
        want = []
        for p in paths:
            f = File(p)
            want += reports(Named(p, f), match, False)
        text = '\n'.join(paths) + ('\n' if case[1] % 2 else '')
        got = run(argv + ['--from-stdin'], text)
        got2 = run(argv + paths)
        if got2 != got:
            return 'from standard input %r, from the command line %r' % (
                got[:300], got2[:300])
    else:
        files = [some_file(rng, k) for k in range(rng.randrange(4))]
        want = []
        try:
            for f in files:
                want += reports(f, match, True)
        except Exception:
            return None     # the file is malformed (not this property)
        got = run(argv + files)
    if got.splitlines() != want:
        return '%r reports %r, not %r' % (argv, got.splitlines()[:20],
                                          want[:20])
    return None


class Named(object):
    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __getitem__(self, k):
        return self.f[k]
