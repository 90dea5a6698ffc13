''' What the instrumented constructs do. '''
import builtins
import collections
import fnmatch
import functools
import inspect
import io
import itertools
import struct
import logging
import types

import z3

from . import core
from . import values as V
from .core import Unsupported, PathEnd, Failed
from .values import (SInt, SBool, SVal, SClass, Rope, SList, SDeque, SIter,
                     SRange, Base, Lit, View, mkint, mkbool, mkseq, ti, tb,
                     segs_of, kind_of, deep_symbolic, lval, seqlen)

SOURCES = {}
END = object()


def active():
    e = core.E
    return e is not None and e.solver is not None


class Poison(object):
    ''' a loop variable about which nothing is known '''

    def __init__(self, name):
        object.__setattr__(self, 'name_', name)

    def _die(self, *a, **k):
        raise Unsupported('loop variable %r has no invariant'
                          % object.__getattribute__(self, 'name_'))

    def __getattribute__(self, n):
        if n in ('__class__', '_die', '__dict__'):
            return object.__getattribute__(self, n)
        object.__getattribute__(self, '_die')()
    __call__ = __iter__ = __next__ = __len__ = __bool__ = __getitem__ = _die
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = _die
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __or__ = _die
    __and__ = __contains__ = __setattr__ = __setitem__ = __index__ = _die
    __str__ = __repr__ = __mod__ = __rshift__ = __lshift__ = _die


# -- instrumented function bookkeeping ----------------------------------------

def funcid(f):
    g = getattr(f, '__func__', f)
    m = getattr(g, '__module__', None)
    q = getattr(g, '__qualname__', None)
    if m is None or q is None:
        return None
    return '%s.%s' % (m, q)


def is_ours(f):
    g = getattr(f, '__func__', f)
    g = getattr(g, '__wrapped__', g) if not hasattr(g, '__code__') else g
    m = getattr(g, '__module__', None) or ''
    return m == 'hwp5' or m.startswith('hwp5.')


def native_arg(x):
    ''' arguments for un-instrumented callees '''
    if isinstance(x, SList):
        if all(s.lit for s in x.rope.segs):
            r = [native_arg(i) for i in x.rope]
            return collections.deque(r) if isinstance(x, SDeque) else r
        raise Unsupported('symbolic list passed to a library function')
    return x


MODELS = {}
LOG_METHODS = ('debug', 'info', 'warning', 'error', 'exception', 'critical',
               'log')


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[f] = m
        return m
    return deco


METHOD_MODELS = {}


def method(tp, name):
    def deco(m):
        METHOD_MODELS[tp, name] = m
        return m
    return deco


class Spread(object):
    ''' *x in a call, where x has any number of elements '''

    def __init__(self, it):
        self.it = it


class Hooks(object):
    END = END

    def star(self, x):
        if active() and (isinstance(x, SIter) and x.symbolic()
                         or isinstance(x, (SList, Rope))
                         and SIter(Rope('list', list(segs_of(x)))).symbolic()):
            return (Spread(x),)
        return x

    # -- calls

    def call(self, *args, **kw):
        f = args[0]
        args = args[1:]
        if not active():
            return f(*args, **kw)
        e = core.E
        fid = funcid(f)
        if fid is not None and fid in e.contracts:
            c = e.contracts[fid]
            if c is not None and fid not in e.contract_off:
                e.contracts_used.add(fid)
                s = getattr(f, '__self__', None)
                if s is not None and not isinstance(s, types.ModuleType):
                    return c(s, *args, **kw)
                return c(*args, **kw)
        try:
            m = e.models.get(f) or MODELS.get(f)
        except TypeError:
            m = None
        if any(isinstance(a, Spread) for a in args):
            if m is None or f not in e.models:
                raise Unsupported('any number of arguments')
        if m is not None:
            return m(*args, **kw)
        t = type(f)
        if t is types.MethodType and isinstance(f.__self__, logging.Logger) \
                and f.__name__ in LOG_METHODS:
            return None     # logging has no effect on results
        if t is types.FunctionType or t is types.MethodType:
            if is_ours(f):
                e.inlined.add(fid)
                e.depth += 1
                if e.depth > 150:
                    e.depth = 0
                    raise Unsupported('recursion without a contract')
                try:
                    return f(*args, **kw)
                finally:
                    e.depth -= 1
            if (getattr(f, '__module__', '') or '').startswith(
                    ('pyvc', 'contracts', '__main__')):
                return f(*args, **kw)
        if isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType)):
            s = f.__self__
            for tp in type(s).__mro__:
                m = METHOD_MODELS.get((tp, f.__name__))
                if m is not None:
                    return m(s, *args, **kw)
        if isinstance(f, type):
            if issubclass(f, int) and f.__new__ is int.__new__ \
                    and len(args) == 1 and isinstance(args[0], SInt):
                return V.mktagged(args[0], f)
            if is_ours(f) and not issubclass(f, BaseException):
                return f(*args, **kw)
            if issubclass(f, BaseException):
                return f(*args, **kw)
        if isinstance(f, SClass):
            return self.call(f.the(), *args, **kw)
        if getattr(type(f), '__module__', '').startswith(('hwp5', 'pyvc',
                                                          'contracts')):
            return f(*args, **kw)
        s = getattr(f, '__self__', None)
        if s is not None and type(s).__module__.startswith(
                ('hwp5', 'pyvc', 'contracts')):
            return f(*args, **kw)
        if isinstance(f, functools.partial):
            kw2 = dict(f.keywords)
            kw2.update(kw)
            return self.call(f.func, *(f.args + args), **kw2)
        if deep_symbolic(args) or deep_symbolic(list(kw.values())):
            raise Unsupported('%r of symbolic arguments' % (
                getattr(f, '__qualname__', f),))
        args = [native_arg(a) for a in args]
        kw = {k: native_arg(v) for k, v in kw.items()}
        return f(*args, **kw)

    # -- displays

    def list(self, x):
        if not active():
            return x if isinstance(x, list) else list(x)
        return V.slist(list(x))

    def dict(self, x):
        if active():
            if not x and dict in core.E.models:
                # written {} or dict(): the same
                return core.E.models[dict]()
            core.E.born(x)
        return x

    def genexp(self, fn, it, has_if):
        if not active():
            return fn(it)
        return mapped(fn, it, has_if)

    def listcomp(self, fn, it, has_if):
        if not active():
            return list(fn(it))
        m = mapped(fn, it, has_if)
        return to_slist(m)

    def dictcomp(self, fn, it, has_if):
        if not active():
            return dict(fn(it))
        m = mapped(fn, it, has_if)
        if isinstance(m, MappedIter):
            return core.E.mapping(to_slist(m))
        d = {}
        for k, v in m:
            if isinstance(k, SClass):
                k = k.the()
            d[k] = v
        return core.E.born(d)

    # -- items, attributes

    def getitem(self, o, i):
        if not active():
            return o[i]
        if isinstance(o, (Rope, SList)):
            return o[i]
        if type(o).__module__.startswith('contracts'):
            return o[i]
        if isinstance(i, slice):
            if any(isinstance(x, SInt) for x in (i.start, i.stop, i.step)):
                return mkseq(kind_of(o), V.slice_segs(segs_of(o), i))
            r = o[i]
            return r
        if isinstance(i, SInt):
            k = kind_of(o)
            if k is not None:
                return V.wrap_item(k, V.index_segs(segs_of(o), i))
            if isinstance(o, dict):
                return dict_lookup(o, i)
        if isinstance(i, SClass) and isinstance(o, dict):
            return o[i.the()]
        if isinstance(i, Rope) and isinstance(o, dict):
            return dict_lookup(o, i)
        return o[i]

    def setitem(self, o, i, v):
        if not active():
            o[i] = v
            return
        if isinstance(o, dict):
            core.E.touch(o, i)
        if isinstance(i, SClass):
            i = i.the()
        o[i] = v

    def delitem(self, o, i):
        if active() and isinstance(o, dict):
            core.E.touch(o, i)
        del o[i]

    def setattr(self, o, a, v):
        if active():
            core.E.touch(o, a)
        setattr(o, a, v)

    # -- tests

    def is_(self, a, b):
        if not active():
            return a is b
        return V.prog_same(a, b)

    def is_not(self, a, b):
        if not active():
            return a is not b
        r = V.prog_same(a, b)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))

    def in_(self, a, b):
        if not active():
            return a in b
        return contains(b, a)

    def not_in(self, a, b):
        if not active():
            return a not in b
        r = contains(b, a)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))

    def mod(self, a, b):
        if not active():
            return a % b
        if isinstance(a, (str, bytes)):
            return format_percent(a, b)
        return a % b

    def fstring(self, *parts):
        out = ''
        for p in parts:
            if isinstance(p, str):
                out = out + p
            else:
                v, conv, spec = p
                if active() and deep_symbolic(v):
                    out = out + formatted(v, spec, chr(conv)
                                          if conv != -1 else None)
                    continue
                if conv == ord('r'):
                    v = repr(v)
                elif conv == ord('s'):
                    v = str(v)
                elif conv == ord('a'):
                    v = ascii(v)
                out = out + format(v, spec)
        return out

    # -- loops

    def loop(self, key, it, modified, passthrough):
        if not active():
            return NativeLoop(it)
        return Loop(core.E, key, it, modified, passthrough)

    def head(self, L, env):
        if L.native:
            return None
        return L.head(env)

    def next(self, L):
        if L.native:
            try:
                return next(L.it)
            except StopIteration:
                return END
        return L.next()

    def exit(self, L):
        pass


HOOKS = Hooks()


class NativeLoop(object):
    native = True

    def __init__(self, it):
        self.it = iter(it) if it is not None else None


def contains(b, a):
    if isinstance(a, SClass):
        if isinstance(b, dict):
            return a.narrow(lambda c: c in b)
        xs = list(b)
        return a.narrow(lambda c: any(c is x for x in xs))
    if isinstance(b, dict):
        if isinstance(a, SInt):
            keys = [k for k in b if isinstance(k, int)]
            return mkbool(z3.Or([a.t == k for k in keys] or
                                [z3.BoolVal(False)]))
        return a in b
    if isinstance(b, str) or (isinstance(b, Rope) and b.kind == 'str'):
        if isinstance(b, str) and isinstance(a, Rope):
            n = a.slen()
            if isinstance(n, int) and n == 1:
                c = V.index_segs(a.segs, 0)
                return mkbool(z3.Or([ti(c) == ord(x) for x in b] or
                                    [z3.BoolVal(False)]))
        if isinstance(b, Rope):
            raise Unsupported('membership in symbolic text')
        return a in b
    if isinstance(b, (SList, Rope)) and any(
            not g.lit and hasattr(g.base, 'member') for g in V.segs_of(b)):
        # the contract says what the members of the base are
        conds = []
        for g in V.segs_of(b):
            if g.lit:
                r = contains(list(g.items), a)
                conds.append(r.t if isinstance(r, SBool) else z3.BoolVal(r))
            elif hasattr(g.base, 'member'):
                conds.append(g.base.member(a, g.lo, g.hi))
            else:
                raise Unsupported('membership in a symbolic sequence')
        return mkbool(z3.Or(conds))
    if isinstance(b, (tuple, list, SList, set, frozenset)):
        conds = []
        for x in b:
            if V.is_intlike(a) or V.is_intlike(x) or isinstance(a, Rope):
                r = False
            else:
                r = V.prog_same(a, x)
            if r is True:
                return True
            r = (a == x) if not isinstance(r, SBool) else r
            if r is NotImplemented or r is False:
                continue
            if isinstance(r, SBool):
                conds.append(r.t)
            elif r:
                return True
        if not conds:
            return False
        return mkbool(z3.Or(conds))
    if isinstance(b, SRange):
        return mkbool(z3.And(ti(a) >= ti(b.start), ti(a) < ti(b.stop)))
    if isinstance(b, range) and isinstance(a, SInt) and b.step == 1:
        return mkbool(z3.And(a.t >= b.start, a.t < b.stop))
    return a in b


MISSING = object()


def dict_lookup(d, i, default=MISSING):
    if isinstance(i, Rope):
        # one character
        n = i.slen()
        if i.kind != 'str' or not isinstance(n, int) or n != 1:
            raise Unsupported('symbolic lookup by text')
        c = ti(V.index_segs(i.segs, 0))
        keys = [(k, ord(k)) for k in d if isinstance(k, str) and len(k) == 1]
    else:
        c = i.t
        keys = [(k, k) for k in d
                if isinstance(k, int) and not isinstance(k, bool)]
    groups = []
    for k, x in keys:
        for g in groups:
            if g[0] is d[k]:
                g[1].append(x)
                break
        else:
            groups.append((d[k], [x]))
    if len(groups) > 80:
        raise Unsupported('symbolic lookup in a large dict')
    for v, xs in groups:
        if core.E.branch(z3.Or([c == x for x in xs])):
            return v
    if default is MISSING:
        raise KeyError(i)
    return default


def format_percent(a, b):
    if not deep_symbolic(b):
        return a % (native_arg(b),) if isinstance(b, SList) else a % b
    args = b if isinstance(b, tuple) else (b,)
    # %s of symbolic text and %d/%x of integers as opaque texts
    out = '' if isinstance(a, str) else b''
    i = 0
    k = 0
    while i < len(a):
        c = a[i:i + 1]
        if c in ('%', b'%'):
            j = i + 1
            while a[j:j + 1] not in ('s', 'd', 'x', 'X', 'r', '%', 'c',
                                     b's', b'd', b'x'):
                j += 1
                if j > len(a):
                    raise Unsupported('format')
            spec = a[i:j + 1]
            if spec[-1:] in ('%', b'%'):
                out = out + spec[-1:]
            else:
                v = args[k]
                k += 1
                if not deep_symbolic(v):
                    out = out + (spec % (v,))
                elif spec == '%s' and (
                        isinstance(v, Rope) and v.kind == 'str' or
                        isinstance(v, SVal) and 'as_text' in v._fields or
                        isinstance(v, SInt) and int_type(v) is int):
                    out = out + formatted(v)
                elif isinstance(v, SInt):
                    out = out + format_int(spec, v)
                else:
                    out = out + opaque_text()
            i = j + 1
        else:
            out = out + c
            i += 1
    return out


def int_type(v):
    return getattr(v, 'pytype', None) or int


def opaque_text():
    ''' some text '''
    return V.fresh_text('text')


def formatted(v, spec='', conv=None):
    ''' format(v, spec), of a symbolic value: a text is itself, an integer a
    text determined by it and the format, an opaque value the text it is
    declared to have '''
    if conv in (None, 's') and spec in ('', 's'):
        if isinstance(v, Rope) and v.kind == 'str':
            return v
        if isinstance(v, SVal) and 'as_text' in v._fields:
            return v._fields['as_text']
    if isinstance(v, SInt) and int_type(v) is int:
        if conv is None and spec == '' or conv == 's' and spec in ('', 's'):
            return format_int('%d', v)
        if conv is None and spec.strip('0123456789') in ('', 'd', 'x', 'X'):
            return format_int('%' + spec + (
                'd' if spec[-1:].isdigit() else ''), v)
    raise Unsupported('formatting a symbolic value')



def format_int(spec, v):
    ''' an uninterpreted text determined by the format and the number '''
    e = core.E
    key = ('fmt', spec, v.t.sexpr())
    if key not in e.elem_cache:
        n = z3.Function('fmtlen_' + spec, z3.IntSort(), z3.IntSort())(v.t)
        e.assume(n >= 1)
        f = z3.Function('fmtchr_' + spec, z3.IntSort(), z3.IntSort(),
                        z3.IntSort())

        def elem(i, f=f, v=v):
            c = f(v.t, ti(i))
            e.assume(z3.And(c >= 0x20, c < 0x7f))
            return SInt(c)
        b = Base('fmt%s(%s)' % (spec, v.t), 'str', n, elem)
        b.fmt = (spec, v)
        e.elem_cache[key] = mkseq('str', [View(b, 0, n)])
    return e.elem_cache[key]


def eq_formatted(x, y):
    ''' the same number in the same format is the same text '''
    f, g = getattr(x.base, 'fmt', None), getattr(y.base, 'fmt', None)
    if f is None or g is None or f[0] != g[0]:
        return None
    for s in x, y:
        if not (isinstance(s.lo, int) and s.lo == 0
                and V.teq(s.hi, s.base.n)):
            return None
    if f[0] in ('%d', '%x', '%X', '%04X', '%04x'):
        return ti(f[1]) == ti(g[1])     # these formats are injective
    return None


V.EQ_BASES.append(eq_formatted)


# -- mapped streams -----------------------------------------------------------

class MappedIter(SIter):
    ''' (f(x) for x in parent), in step with its parent '''

    def __init__(self, seq, parent):
        self.parent = parent
        self.seq = seq
        self.on_next = None
        self.name = None
        core.E.born(self)

    @property
    def pos(self):
        return self.parent.pos

    @pos.setter
    def pos(self, v):
        core.E.touch(self.parent)
        self.parent.pos = v


def mapped(fn, it, has_if):
    if isinstance(it, (Rope, SList)):
        it = SIter(it)
    elif isinstance(it, SRange):
        it = iter(it)
    if not isinstance(it, SIter) or not it.symbolic():
        return fn(it)
    if has_if:
        def refuse():
            raise Unsupported('filtered symbolic stream')
            yield
        return refuse()
    bases = {}
    segs = []

    def one(x):
        r = list(fn(iter([x])))
        if len(r) != 1:
            raise Unsupported('mapping')
        return r[0]
    kind = it.kind()
    for s in it.segs():
        if s.lit:
            segs.append(Lit([one(V.wrap_item(kind, x)) for x in s.items]))
        else:
            b = bases.get(id(s.base))
            if b is None:
                src = s.base
                b = Base('map(%s)' % src.name, 'list', src.n,
                         lambda i, src=src: one(V.wrap_item(kind,
                                                            src.elem(i))))
                bases[id(src)] = b
            segs.append(View(b, s.lo, s.hi))
    return MappedIter(Rope('list', segs), it)


def to_slist(it, cls=SList):
    ''' list(it) '''
    if isinstance(it, SIter):
        segs = it.segs()
        if it.symbolic():
            if not (isinstance(it.pos, int) and it.pos == 0):
                _, segs = V.cut(segs, it.pos)
            core.E.touch(it)
            it.pos = it.n()
            return cls(segs)
        if it.pos:
            _, segs = V.cut(segs, it.pos)
        it.pos = it.n()
        return cls(segs)
    if isinstance(it, (Rope, SList)):
        if isinstance(it, Rope) and it.kind in ('bytes', 'str'):
            if all(s.lit for s in it.segs):
                return cls([Lit([x for x in it])])
            if it.kind == 'bytes':
                return cls(it.segs)
            raise Unsupported('list of symbolic text')
        return cls(segs_of(it))
    if isinstance(it, SRange):
        return cls(segs_of(it.seq()))
    if isinstance(it, (list, tuple, str, bytes, dict, set, range)):
        xs = list(it)
        return cls([Lit(xs)] if xs else [])
    # a native iterator: collect
    acc = cls()
    e = core.E
    it = iter(it)
    if isinstance(it, SIter):
        return to_slist(it, cls)
    col = Collector(acc)
    while True:
        e.iter_stack.append(col)
        try:
            x = next(it)
        except StopIteration:
            break
        finally:
            e.iter_stack.pop()
        acc.append(x)
    return acc


class Collector(object):
    passthrough = False

    def __init__(self, acc):
        self.acc = acc


class InNext(object):
    passthrough = False
    acc = None

    def __init__(self, it):
        self.it = it


# -- loops --------------------------------------------------------------------

class Cut(object):
    pass


MAX_UNROLL = 400


def advanced(e, it):
    ''' a generator started before a loop and advanced in it changes: its
    variables are part of the state at the head '''
    if e.cut_stack and type(it) is types.GeneratorType:
        if id(it) not in e.stamps and it.gi_frame is not None \
                and inspect.getgeneratorstate(it) == inspect.GEN_CREATED:
            e.born(it)
        e.touch(it)


class Loop(object):
    native = False

    def __init__(self, e, key, it, modified, passthrough):
        self.e = e
        self.key = key
        self.modified = modified
        self.passthrough = passthrough
        self.heads = 0
        self.acc = None
        self.cuttable = False
        self.iswhile = it is None
        if it is None:
            self.it = None
        elif isinstance(it, SIter):
            self.it = it
        elif isinstance(it, (Rope, SList)):
            self.it = SIter(it)
        else:
            self.it = it.__iter__() if isinstance(it, SRange) else iter(it)
        self.hint = None
        for pat, fn, opts in e.hints:
            if callable(pat):
                ok = pat(self)
            else:
                ok = fnmatch.fnmatchcase(key, pat)
            if ok:
                self.hint = (fn, opts)
                break
        sym = isinstance(self.it, SIter) and self.it.symbolic()
        self.cuttable = sym or (self.iswhile and self.hint is not None)
        self.peel = 1 if sym else 0
        if self.hint is not None and 'peel' in self.hint[1]:
            self.peel = self.hint[1]['peel']
        if self.cuttable:
            e.loops_cut.add(key)

    def next(self):
        e = self.e
        advanced(e, self.it)
        e.iter_stack.append(self)
        try:
            return next(self.it)
        except StopIteration:
            return END
        finally:
            e.iter_stack.pop()

    def head(self, env):
        self.heads += 1
        e = self.e
        if not self.cuttable:
            if self.heads > MAX_UNROLL:
                raise Unsupported('loop %s unrolled too far' % self.key)
            return None
        if self.heads <= self.peel:
            return None
        if self.heads == self.peel + 1:
            return self.do_cut(dict(env))
        self.close(dict(env))
        raise PathEnd()

    # first arrival
    def do_cut(self, env):
        e = self.e
        collectors = []
        for fl in e.iter_stack:
            if fl is self or fl.passthrough:
                continue
            if fl.acc is not None and self.hint is not None:
                collectors.append(fl.acc)
                continue
            raise Unsupported('loop %s runs inside another loop\'s step'
                              % self.key)
        self.collectors = collectors
        if isinstance(self.it, SIter):
            self.it.loop_owned = True
        c = self.ctx = Ctx(self, env)
        c.running = set(id(getattr(fl, 'it', None)) for fl in e.iter_stack)
        # established
        c.mode = 'init'
        if self.hint:
            self.hint[0](c)
        c.auto_init()
        # arbitrary iteration
        c.mode = 'havoc'
        e.stamp += 1
        c.stamp = e.stamp
        c.new = {}
        c.havoc_ids = set()
        if isinstance(self.it, SIter):
            n = self.it.n()
            p = z3.Int(e.fresh('pos'))
            start = self.it.pos
            e.assume(z3.And(p >= ti(start), p <= ti(n)))
            self.it.pos = lval(p)
            c.havocked(self.it)
            par = getattr(self.it, 'parent', None)
            while par is not None:
                c.havocked(par)
                par = getattr(par, 'parent', None)
        for acc in collectors:
            pass
        if self.hint:
            self.hint[0](c)
        c.auto_havoc()
        for acc in collectors:
            if id(acc) not in c.havoc_ids:
                raise Unsupported('collected list without an invariant')
        c.ghosts0 = dict((k, getattr(e.G, k)) for k in e.G._names)
        c.touched0 = len(e.touched)
        e.cut_stack.append(c)
        if not e.feasible():
            raise PathEnd()
        return c.new

    # second arrival
    def close(self, env):
        e = self.e
        c = self.ctx
        c.mode = 'check'
        c.env = env
        for stamp, oid, obj, what in e.touched[c.touched0:]:
            if type(obj) is types.GeneratorType and stamp <= c.stamp \
                    and oid not in c.running:
                raise Unsupported('loop %s advances a generator' % self.key)
        if self.hint:
            self.hint[0](c)
        c.auto_check()
        for stamp, oid, obj, what in e.touched[c.touched0:]:
            if stamp > c.stamp:
                continue
            if oid in c.havoc_ids or (oid, what) in c.havoc_ids \
                    or oid in c.running:
                continue
            if stamp == 0 and getattr(obj, '_pyvc_ignore', False):
                continue
            if isinstance(obj, SIter) and obj.name:
                e.shapes.setdefault(self.key, {}).setdefault(
                    '<iters>', set()).add(obj.name)
                e.rerun = True
                raise PathEnd()
            for role, x in c.watched.items():
                if x is obj:
                    e.shapes.setdefault(self.key, {}).setdefault(
                        '<changed>', set()).add(role)
                    e.rerun = True
                    raise PathEnd()
            raise Unsupported('loop %s changes %r (%r) without an invariant'
                              % (self.key, type(obj).__name__, what))
        for k in e.G._names:
            if k in c.ghost_havoc:
                continue
            if not (k in c.ghosts0 and same_value(c.ghosts0[k],
                                                  getattr(e.G, k))):
                raise Unsupported('ghost %s changes in loop %s' % (
                    k, self.key))


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.t.eq(b.t)
    if type(a) is type(b) and isinstance(a, (int, str, bytes)):
        return a == b
    return False


def elem_paths(v, path=(), depth=0):
    yield path, v
    if depth >= 3:
        return
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            for r in elem_paths(x, path + (i,), depth + 1):
                yield r
    elif isinstance(v, dict):
        for i, x in v.items():
            for r in elem_paths(x, path + (i,), depth + 1):
                yield r


def _same_thing(a, b):
    ''' syntactically the same (no case split) '''
    if a is b:
        return not isinstance(a, (int, bool, str, bytes, type(None)))
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.t.eq(b.t)
    if isinstance(a, SVal) and isinstance(b, SVal):
        return a._base == b._base and same_value(a._idx, b._idx)
    return False


class Ctx(object):
    ''' what a loop hint works with '''

    def __init__(self, loop, env):
        self.loop = loop
        self.e = loop.e
        self.G = loop.e.G
        self.env = env
        self.handled = set()
        self.ghost_havoc = set()
        self.aliases = {}
        self.watched = {}
        self.extra = {}
        self.extra_any = {}
        self.pos0 = {}

    @property
    def it(self):
        return self.loop.it

    @property
    def pos(self):
        return mkint(ti(self.loop.it.pos))

    @property
    def havocking(self):
        return self.mode == 'havoc'

    def havocked(self, obj, what=None):
        if what is None:
            self.havoc_ids.add(id(obj))
        else:
            self.havoc_ids.add((id(obj), what))

    # -- vocabulary of hints

    def changes(self, obj, role):
        ''' does the loop change the object?  Until an iteration is seen to
        change it, it is taken not to (and checked) '''
        self.watched[role] = obj
        return role in self._shapes().get('<changed>', ())

    def ghost(self, name, lo=None, hi=None):
        ''' an integer ghost with an arbitrary value at the loop head '''
        self.ghost_havoc.add(name)
        if self.mode == 'havoc':
            v = V.fresh_int(name, lo, hi)
            setattr(self.G, name, v)
        else:
            v = getattr(self.G, name)
            if self.mode in ('check', 'init'):
                if lo is not None:
                    self.prove(ti(v) >= ti(lo), '%s >= bound' % name)
                if hi is not None:
                    self.prove(ti(v) <= ti(hi), '%s <= bound' % name)
        return v

    def ghostlet(self, name, value):
        ''' a ghost whose value is given by the invariant '''
        self.ghost_havoc.add(name)
        if self.mode == 'havoc':
            setattr(self.G, name, value)
        else:
            self.prove_eq(getattr(self.G, name), value, 'ghost ' + name)

    def prove(self, cond, what):
        self.e.prove(cond, 'loop %s invariant: %s (%s)' % (
            self.loop.key.split(':')[1], what,
            'entry' if self.mode == 'init' else 'kept'))

    def prove_eq(self, a, b, what):
        e = self.e
        if a is b:
            return
        if a is None or b is None or isinstance(a, (type, bool)):
            ok = V.same(a, b)
            self.prove(tb(ok), what)
            return
        if kind_of(a) is not None and kind_of(b) is not None:
            if kind_of(a) != kind_of(b) and not {kind_of(a), kind_of(b)} <= {
                    'list', 'tuple'}:
                e.fail('loop %s: %s changes its type' % (self.loop.key, what))
            self.prove(V.segs_eq(segs_of(a), segs_of(b), True), what)
            return
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            self.prove(ti(a) == ti(b), what)
            return
        ok = V.same(a, b)
        if ok is False:
            ok = (a == b)
        self.prove(tb(ok), what)

    def var(self, name):
        ''' the program variable playing a role '''
        n = self.aliases.get(name, name)
        if n not in self.env:
            raise Unsupported('loop %s: no variable %s' % (self.loop.key,
                                                           name))
        return self.env[n]

    def has(self, name):
        return self.aliases.get(name, name) in self.env

    def let(self, name, value):
        n = self.aliases.get(name, name)
        if n not in self.env:
            raise Unsupported('loop %s: no variable %s' % (self.loop.key,
                                                           name))
        self.handled.add(n)
        if self.mode == 'havoc':
            self.new[n] = value
            if n not in self.loop.modified:
                raise Unsupported('loop %s does not assign %s' % (
                    self.loop.key, n))
        else:
            self.prove_eq(self.env[n], value, n)

    def contents(self, obj, value):
        ''' obj is a list (or the name of a variable holding it) '''
        if isinstance(obj, str):
            obj = self.var(obj)
        if not isinstance(obj, SList):
            raise Unsupported('loop %s: not a list' % self.loop.key)
        if self.mode == 'havoc':
            obj.rope = Rope('list', V.normal(list(segs_of(value))))
            self.havocked(obj)
        else:
            self.prove(V.segs_eq(obj.rope.segs, segs_of(value), True),
                       'contents of a list')

    def attr(self, obj, name, value):
        if self.mode == 'havoc':
            obj.__dict__[name] = value
            self.havocked(obj, name)
        else:
            self.prove_eq(getattr(obj, name), value, 'attribute ' + name)

    def fact(self, cond, what='fact'):
        if self.mode == 'havoc':
            self.e.assume(core.term(cond))
        else:
            self.prove(cond, what)

    def item(self, d, key, value):
        ''' d[key] of a dict '''
        if self.mode == 'havoc':
            d[key] = value
            self.havocked(d, key)
        else:
            self.prove_eq(d[key], value, 'item %r' % (key,))

    def iterpos(self, it, value=None):
        if self.mode == 'havoc':
            if value is None:
                p = z3.Int(self.e.fresh('ipos'))
                self.e.assume(z3.And(p >= ti(it.pos), p <= ti(it.n())))
                value = p
            it.pos = lval(ti(value))
            self.havocked(it)
        elif value is not None:
            self.prove(ti(it.pos) == ti(value), 'position of an iterator')
        return mkint(ti(it.pos))

    def int_candidate(self, name, fn):
        ''' fn(v) may be invariant for an integer variable v assigned in the
        loop; dropped if it is not '''
        self.extra[name] = fn

    def candidate(self, name, fn):
        ''' fn(v): a condition that may be invariant for the variable v of
        any kind, or None where it makes no sense; dropped if it is not '''
        self.extra_any[name] = fn

    def any_facts(self, vals):
        out = []
        for v in self.auto:
            x = vals.get(v)
            if v not in vals or isinstance(x, Poison):
                continue
            for name, fn in self.extra_any.items():
                k = (self.loop.key, v, 'any', name)
                if k in self.e.failed_cands:
                    continue
                t = fn(x)
                if t is None:
                    continue
                out.append((k, tb(t)))
            # a flag tells the first iteration from the others
            x0 = self.init_values.get(v)
            it = self.loop.it
            if isinstance(it, SIter) and (x0 is None or isinstance(
                    x0, (bool, str, bytes))) and (
                        x is None or isinstance(x, (bool, str, bytes, SBool)
                                                )):
                if self.mode == 'init':
                    self.pos0[v] = it.pos
                first = ti(it.pos) == ti(self.pos0.get(v, 0))
                try:
                    isx0 = tb(V.same(x, x0)) if isinstance(x, SBool) \
                        else z3.BoolVal(x is x0 or x == x0)
                except Unsupported:
                    continue
                for name, t in (('first', first == isx0),
                                ('then', z3.Implies(first, isx0))):
                    k = (self.loop.key, v, 'any', '<%s>' % name)
                    if k not in self.e.failed_cands:
                        out.append((k, t))
        return out

    def new_list(self, name, value):
        ''' the variable is some list with the given contents '''
        n = self.aliases.get(name, name)
        if n not in self.env:
            raise Unsupported('loop %s: no variable %s' % (self.loop.key,
                                                           name))
        self.handled.add(n)
        if n not in self.loop.modified:
            # the same list throughout
            return self.contents(self.env[n], value)
        if self.mode == 'havoc':
            l = V.SList([])
            l.rope = Rope('list', V.normal(list(segs_of(value))))
            self.e.born(l)
            self.env = dict(self.env)
            self.env[n] = l
            self.new[n] = l
            self.e.keep.append(l)
            self.havocked(l)
        else:
            x = self.env[n]
            if kind_of(x) != 'list':
                raise Unsupported('loop %s: not a list' % self.loop.key)
            if self.mode == 'check' and isinstance(x, SList):
                self.havocked(x)
            self.prove(V.segs_eq(segs_of(x), segs_of(value), True),
                       'contents of a list')

    def the(self, pred, what, *prefer):
        ''' the name of the one variable with the given kind of value '''
        names = [k for k, v in self.env.items()
                 if not k.startswith('_pyvc') and pred(v)]
        if len(names) > 1:
            ids = set(id(self.env[k]) for k in names)
            if len(ids) == 1:
                return names[0]
            for p in prefer:
                if p in names:
                    return p
        if len(names) != 1:
            raise Unsupported('loop %s: %d variables could be %s' % (
                self.loop.key, len(names), what))
        return names[0]

    def the_list(self, *prefer):
        return self.the(lambda v: isinstance(v, SList), 'the list', *prefer)

    # -- automatic invariants for the other variables

    def _shapes(self):
        return self.e.shapes.setdefault(self.loop.key, {})

    def _autovars(self):
        return [v for v in self.loop.modified
                if v in self.env and v not in self.handled
                and not v.startswith('_pyvc')]

    def shape(self, v):
        if v is None or isinstance(v, (type, types.FunctionType,
                                       types.BuiltinFunctionType)):
            return ('const', v)
        if isinstance(v, bool):
            return ('const', v)
        if isinstance(v, SBool):
            return ('bool',)
        if isinstance(v, SInt):
            return ('int',)
        if isinstance(v, int):
            return ('constint', v)
        if isinstance(v, (str, bytes)):
            return ('const', v)
        if isinstance(v, tuple) and v == ():
            return ('const', v)
        p = self.elem_path(v)
        if p is not None:
            return ('elem', p)
        return ('poison',)

    def elem_path(self, v):
        it = self.loop.it
        if not isinstance(it, SIter):
            return None
        if self.mode == 'init':
            # the value the variable got in a peeled iteration
            pos = it.pos
        else:
            pos = it.pos
        if isinstance(pos, int) and pos == 0:
            return None
        try:
            x = V.wrap_item(it.kind(), V.index_segs(
                it.segs(), mkint(ti(pos) - 1)))
        except (PathEnd, Unsupported, IndexError):
            return None
        for p, w in elem_paths(x):
            if _same_thing(v, w):
                return p
        return None

    def auto_init(self):
        sh = self._shapes()
        self.auto = self._autovars()
        self.init_values = {}
        for v in self.auto:
            x = self.init_values[v] = self.env[v]
            s = self.shape(x)
            if s == ('poison',) and not isinstance(x, Poison):
                s = ('same',)
            self._add(sh, v, s)
        for k, t in self.any_facts(self.init_values):
            if not self.e.valid(t):
                self.e.failed_cands.add(k)
        # integers: candidate facts, true on entry
        self.cand_init = self._known_ints()
        self.int_paths = {}
        for v in self.auto:
            x = self.init_values[v]
            if V.is_intlike(x):
                self.cand_init[v] = x
                self.int_paths[v] = ()
                for name, fn in self.extra.items():
                    if not self.e.valid(tb(fn(x))):
                        self.e.failed_cands.add(
                            (self.loop.key, v, 'extra', name))
        it = self.loop.it
        pos = it.pos if isinstance(it, SIter) else 0
        if not (isinstance(pos, int) and pos == 0):
            try:
                item = V.wrap_item(it.kind(), V.index_segs(
                    it.segs(), mkint(ti(pos) - 1)))
            except (PathEnd, Unsupported, IndexError):
                return
            for v in self.int_paths:
                self.int_paths[v] = tuple(
                    p for p, w in elem_paths(item)
                    if _same_thing(self.init_values[v], w))

    def _add(self, sh, v, s):
        cur = sh.setdefault(v, set())
        if s in cur or ('poison',) in cur:
            return False
        if ('int',) in cur and s[0] == 'constint':
            return False
        cur.add(s)
        ints = [x for x in cur if x[0] in ('constint', 'int')]
        if len(ints) > 1:
            for x in ints:
                cur.discard(x)
            cur.add(('int',))
        if ('poison',) in cur or len(cur) > 8:
            cur.clear()
            cur.add(('poison',))
        return True

    def int_candidates(self, v, vals, initvals):
        ''' [(key, fact about the given values)] '''
        x = vals[v]
        out = []
        x0 = initvals[v]
        out.append(((v, 'eq', 'entry'), ti(x) == ti(x0)))
        if isinstance(x0, int):
            out.append(((v, 'ge', x0), ti(x) >= x0))
            out.append(((v, 'le', x0), ti(x) <= x0))
        else:
            out.append(((v, 'ge', 'entry'), ti(x) >= ti(x0)))
            out.append(((v, 'le', 'entry'), ti(x) <= ti(x0)))
        for name, fn in self.extra.items():
            out.append(((v, 'extra', name), tb(fn(x))))
        for p in self.int_paths[v]:
            y = self.last_item(p)
            if y is not None:
                out.append(((v, 'elem', p), ti(x) == ti(y)))
        for w, y in vals.items():
            if w == v:
                continue
            y0 = initvals.get(w)
            if y0 is None:
                continue
            d = z3.simplify(ti(x0) - ti(y0))
            if z3.is_int_value(d):
                out.append(((v, 'diff', w, d.as_long()),
                            ti(x) == ti(y) + d.as_long()))
        return out

    def last_item(self, path):
        it = self.loop.it
        x = V.wrap_item(it.kind(), V.index_segs(
            it.segs(), mkint(ti(it.pos) - 1)))
        for k in path:
            if not isinstance(x, (tuple, dict)):
                return None
            try:
                x = x[k]
            except LookupError:
                return None
        return x if V.is_intlike(x) else None

    def _known_ints(self):
        vals = {}
        for k in self.e.G._names:
            g = getattr(self.G, k)
            if V.is_intlike(g):
                vals['G.' + k] = g
        if isinstance(self.loop.it, SIter):
            vals['<pos>'] = mkint(ti(self.loop.it.pos))
        return vals

    def auto_havoc(self):
        e = self.e
        sh = self._shapes()
        names = sh.get('<iters>', ())
        for obj in e.named_iters:
            if obj.name in names and id(obj) not in self.havoc_ids:
                self.iterpos(obj)
        intvars = []
        for v in self.auto:
            opts = sorted(sh[v], key=repr)
            s = opts[e.choose(len(opts))] if len(opts) > 1 else opts[0]
            if s[0] == 'same':
                self.new[v] = self.init_values[v]
            elif s[0] in ('const', 'constint'):
                self.new[v] = s[1]
            elif s[0] == 'bool':
                self.new[v] = V.fresh_bool(v)
            elif s[0] == 'int':
                self.new[v] = V.fresh_int(v)
                intvars.append(v)
            elif s[0] == 'elem':
                it = self.loop.it
                try:
                    x = V.wrap_item(it.kind(), V.index_segs(
                        it.segs(), mkint(ti(it.pos) - 1)))
                except IndexError:
                    # nothing was taken yet: the value is the one on entry,
                    # which is another of the shapes
                    raise PathEnd()
                for k in s[1]:
                    if not isinstance(x, (tuple, dict)):
                        raise PathEnd()     # not the shape of this item
                    try:
                        x = x[k]
                    except LookupError:
                        raise PathEnd()
                self.new[v] = x
            else:
                self.new[v] = Poison(v)
        self.intvars = intvars
        # candidate facts
        self.cands_any = self.any_facts(self.new)
        for k, t in self.cands_any:
            e.assume(t)
        self.cands = []
        if intvars:
            vals = self._known_ints()
            for v in intvars:
                vals[v] = self.new[v]
            for v in intvars:
                if not V.is_intlike(self.init_values[v]):
                    continue
                for key, t in self.int_candidates(v, vals, self.cand_init):
                    k = (self.loop.key,) + key
                    if k in e.failed_cands:
                        continue
                    self.cands.append(k)
                    e.assume(t)

    def auto_check(self):
        e = self.e
        sh = self._shapes()
        changed = False
        for v in self.auto:
            if v not in self.env:
                continue
            x = self.env[v]
            if isinstance(x, Poison):
                continue
            x0 = self.init_values[v]
            if ('same',) in sh[v] and (_same_thing(x, x0)
                                       or same_value(x, x0)):
                continue
            s = self.shape(x)
            if s == ('poison',) and x is x0:
                s = ('same',)
            if self._add(sh, v, s):
                changed = True
        if changed:
            e.rerun = True
            raise PathEnd()
        bad = False
        for k, t in self.any_facts(self.env):
            if not e.valid(t):
                e.failed_cands.add(k)
                bad = True
        if bad:
            e.rerun = True
            raise PathEnd()
        if self.cands:
            vals = self._known_ints()
            for v in self.intvars:
                vals[v] = self.env[v]
            facts = {}
            for v in self.intvars:
                if V.is_intlike(vals[v]) \
                        and V.is_intlike(self.init_values[v]):
                    others = dict((w, y) for w, y in vals.items()
                                  if V.is_intlike(y))
                    for key, t in self.int_candidates(v, others,
                                                      self.cand_init):
                        facts[(self.loop.key,) + key] = t
            for k in self.cands:
                if k not in facts or not e.valid(facts[k]):
                    e.failed_cands.add(k)
                    e.rerun = True
            if e.rerun:
                raise PathEnd()


from . import models  # noqa
