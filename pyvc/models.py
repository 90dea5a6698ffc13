''' Models of the built-in and library functions the code calls. '''
import array
import builtins
import collections
import io
import itertools
import re
import re._parser as sre_parser
import struct

import z3

from . import core
from . import values as V
from . import hooks
from .core import Unsupported, PathEnd
from .hooks import model, method, to_slist, native_arg
from .values import (SInt, SBool, SVal, SClass, Rope, SList, SDeque, SIter,
                     SRange, SFile, Base, Lit, View, mkint, mkbool, mkseq,
                     ti, tb, segs_of, kind_of, deep_symbolic, lval, seqlen)


@model(len)
def m_len(x):
    if isinstance(x, (Rope, SList)):
        return x.slen()
    if type(x).__module__.startswith('contracts.') and hasattr(x, 'pyvc_len'):
        return x.pyvc_len()
    return len(x)


def pytypes(x):
    ''' the Python type a symbolic value stands for '''
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SInt):
        return getattr(x, 'pytype', None) or int
    if isinstance(x, Rope):
        return V.PYKIND[x.kind]
    if isinstance(x, SDeque):
        return collections.deque
    if isinstance(x, SList):
        return list
    if isinstance(x, SVal):
        return x._fields.get('_type')
    return type(x)


@model(isinstance)
def m_isinstance(x, t):
    if isinstance(t, (list, SList)):
        t = tuple(t)
    if isinstance(x, (SBool, SInt, Rope, SList, SVal)):
        p = pytypes(x)
        if p is None:
            raise Unsupported('isinstance of an opaque value')
        if isinstance(p, SClass):
            return p.issubclass_(t)
        return issubclass(p, t)
    if isinstance(x, SClass):
        return x.narrow(lambda c: isinstance(c, t))
    return isinstance(x, t)


@model(issubclass)
def m_issubclass(x, t):
    if isinstance(t, SClass):
        t = t.the()
    if isinstance(x, SClass):
        return x.issubclass_(t)
    return issubclass(x, t)


@model(type)
def m_type(*a, **k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (SBool, SInt, Rope, SList, SVal)):
            p = pytypes(x)
            if p is None:
                raise Unsupported('type of an opaque value')
            return p
        return type(x)
    return type(*a, **k)


@model(int)
def m_int(x=0, *base):
    if type(x).__module__.startswith('contracts.'):
        return x.pyvc_int(*base)
    if isinstance(x, Rope) and x.kind == 'str' and len(x.segs) == 1:
        f = getattr(x.segs[0].base, 'fmt', None) if not x.segs[0].lit \
            else None
        if f is not None and f[0] == '%d' and not base:
            return f[1]
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return mkint(ti(x))
    if isinstance(x, V.SFloatQuotient):
        raise Unsupported('floating point')
    if isinstance(x, Rope):
        raise Unsupported('int of symbolic text')
    return int(x, *base)


@model(int.__new__)
def m_int_new(cls, x=0, *base):
    if isinstance(x, SInt):
        if cls is int:
            return x
        return V.mktagged(x, cls)
    if isinstance(x, SBool):
        x = mkint(ti(x))
    return int.__new__(cls, x, *base)


@model(bool)
def m_bool(x=False):
    if isinstance(x, SInt):
        return mkbool(x.t != 0)
    if isinstance(x, SBool):
        return x
    return bool(x)


@model(abs)
def m_abs(x):
    return abs(x)


@model(divmod)
def m_divmod(a, b):
    return a // b, a % b


@model(chr)
def m_chr(x):
    if isinstance(x, SInt):
        core.E.prove(z3.And(x.t >= 0, x.t <= 0x10ffff), 'chr() in range')
        return mkseq('str', [Lit((x,))])
    return chr(x)


@model(ord)
def m_ord(x):
    if isinstance(x, Rope):
        n = x.slen()
        if not isinstance(n, int):
            if core.E.branch(ti(n) == 1):
                return V.index_segs(x.segs, 0)
            raise TypeError('ord() expected a character')
        if n != 1:
            raise TypeError('ord() expected a character')
        return V.index_segs(x.segs, 0)
    return ord(x)


@model(str)
def m_str(*a, **k):
    if a and isinstance(a[0], Rope) and a[0].kind == 'str':
        return a[0]
    if len(a) == 1 and isinstance(a[0], SInt) and pytypes(a[0]) is int:
        from .hooks import format_int
        return format_int('%d', a[0])
    if len(a) == 1 and isinstance(a[0], SVal) and 'as_text' in a[0]._fields:
        return a[0]._fields['as_text']
    if deep_symbolic(a):
        raise Unsupported('str of a symbolic value')
    return str(*a, **k)


@model(repr)
def m_repr(x):
    if type(x) in (float, int, bool, str, bytes, type(None)):
        return repr(x)
    raise Unsupported('repr')


@model(format)
def m_format_function(v, spec=''):
    if not deep_symbolic(v):
        return format(v, spec)
    return hooks.formatted(v, spec)


@model(hash, id)
def m_identity(*a):
    raise Unsupported('hash or id')


@model(bytes, bytearray)
def m_bytes(*a, **k):
    if a and isinstance(a[0], Rope) and a[0].kind == 'bytes':
        return a[0]
    if a and isinstance(a[0], SList):
        return mkseq('bytes', a[0].rope.segs)
    if deep_symbolic(a):
        raise Unsupported('bytes()')
    return bytes(*a, **k)


@model(list)
def m_list(it=()):
    return to_slist(it)


@model(collections.deque)
def m_deque(it=(), *a):
    if a:
        raise Unsupported('bounded deque')
    return to_slist(it, SDeque)


@model(tuple)
def m_tuple(it=()):
    if isinstance(it, tuple):
        return it
    r = to_slist(it).rope
    return mkseq('tuple', r.segs)


@model(dict)
def m_dict(*a, **k):
    if a and isinstance(a[0], dict):
        d = dict(a[0], **k)
    elif a:
        d = dict()
        for kk, v in (a[0] if not isinstance(a[0], SIter) else a[0]):
            if isinstance(kk, SClass):
                kk = kk.the()
            d[kk] = v
        d.update(k)
    else:
        d = dict(**k)
    return core.E.born(d)


@model(set)
def m_set(it=()):
    if deep_symbolic(it):
        raise Unsupported('set of symbolic values')
    return core.E.born(set(it))


@model(sorted)
def m_sorted(it, **k):
    if isinstance(it, list):
        xs = it
    else:
        r = to_slist(it)
        if not isinstance(seqlen(r.rope.segs), int):
            r.sort(**k)
            return r
        xs = [x for x in r.rope]
    if deep_symbolic(xs):
        raise Unsupported('sorting symbolic values')
    return V.slist(sorted(xs, **k))


@model(reversed)
def m_reversed(x):
    if isinstance(x, (Rope, SList)):
        if not isinstance(seqlen(segs_of(x)), int):
            return V.reversed_iter(x)
        return iter([i for i in x][::-1])
    return reversed(x)


@model(iter)
def m_iter(x, *a):
    if a:
        raise Unsupported('iter() with a sentinel')
    if isinstance(x, (Rope, SList)):
        return SIter(x)
    if isinstance(x, SIter):
        return x
    return iter(x)


@model(next)
def m_next(it, *d):
    e = core.E
    if isinstance(it, SIter):
        try:
            return next(it)
        except StopIteration:
            if d:
                return d[0]
            raise
    hooks.advanced(e, it)
    e.iter_stack.append(hooks.InNext(it))
    try:
        return next(it, *d)
    finally:
        e.iter_stack.pop()


class SCount(object):
    ''' itertools.count '''

    def __init__(self, start=0, step=1):
        self.value, self.step = start, step
        if core.E is not None and core.E.solver is not None:
            core.E.born(self)

    def __iter__(self):
        return self

    def __next__(self):
        v = self.value
        core.E.touch(self, 'value')
        self.value = v + self.step
        return v


@model(itertools.count)
def m_count(*a, **k):
    return SCount(*a, **k)


@model(range)
def m_range(*a):
    if any(isinstance(x, SInt) for x in a):
        if len(a) == 1:
            return SRange(0, a[0])
        if len(a) == 2:
            return SRange(*a)
        raise Unsupported('range with a step')
    return range(*a)


@model(enumerate)
def m_enumerate(it, start=0):
    it = m_iter(it)
    if not isinstance(it, SIter) or not it.symbolic():
        return enumerate(it, start)
    return V.enumerated(it, start)


@model(zip)
def m_zip(*its):
    its = [m_iter(i) for i in its]
    if any(isinstance(i, SIter) and i.symbolic() for i in its):
        raise Unsupported('zip of symbolic sequences')
    return zip(*its)


@model(map)
def m_map(f, it):
    return hooks.mapped(lambda i: (hooks.HOOKS.call(f, x) for x in i), it,
                        False)


@model(filter)
def m_filter(f, it):
    it = m_iter(it)
    if isinstance(it, SIter) and it.symbolic():
        raise Unsupported('filtering a symbolic sequence')
    if f is None:
        return (x for x in it if x)
    return (x for x in it if hooks.HOOKS.call(f, x))


@model(any)
def m_any(it):
    for x in m_iter(it):
        if x:
            return True
    return False


@model(all)
def m_all(it):
    for x in m_iter(it):
        if not x:
            return False
    return True


@model(sum)
def m_sum(it, start=0):
    for x in m_iter(it):
        start = start + x
    return start


def _minmax(args, k, less):
    if k:
        if deep_symbolic(args):
            raise Unsupported('min/max with a key')
        return None
    xs = args if len(args) > 1 else [x for x in m_iter(args[0])]
    r = xs[0]
    for x in xs[1:]:
        if (isinstance(r, SInt) or isinstance(x, SInt)):
            a, b = ti(x), ti(r)
            r = mkint(z3.If((a < b) if less else (a > b), a, b))
        else:
            r = x if ((x < r) if less else (x > r)) else r
    return r


@model(min)
def m_min(*a, **k):
    if not deep_symbolic(a):
        return min(*[native_arg(x) for x in a], **k)
    return _minmax(a, k, True)


@model(max)
def m_max(*a, **k):
    if not deep_symbolic(a):
        return max(*[native_arg(x) for x in a], **k)
    return _minmax(a, k, False)


@model(getattr)
def m_getattr(o, n, *d):
    return getattr(o, n, *d)


@model(setattr)
def m_setattr(o, n, v):
    core.E.touch(o, n)
    setattr(o, n, v)


@model(hasattr)
def m_hasattr(o, n):
    if isinstance(o, SVal):
        if ('has_' + n) in o._fields:
            return o._fields['has_' + n]
        return n in o._fields
    return hasattr(o, n)


@model(callable)
def m_callable(o):
    return callable(o)


@model(print)
def m_print(*a, **k):
    raise Unsupported('print')


@model(itertools.islice)
def m_islice(it, *a):
    if not isinstance(it, SIter) and not isinstance(it, (Rope, SList)):
        if deep_symbolic(a):
            raise Unsupported('islice by symbolic bounds')
        return itertools.islice(it, *a)
    it = m_iter(it)
    return V.islice(it, *a)


@model(itertools.chain)
def m_chain(*its):
    its = [m_iter(i) for i in its]
    if all(isinstance(i, SIter) for i in its):
        if any(i.symbolic() for i in its):
            segs = []
            for i in its:
                s = i.segs()
                if not (isinstance(i.pos, int) and i.pos == 0):
                    _, s = V.cut(s, i.pos)
                segs += s
                core.E.touch(i)
                i.pos = i.n()
            return SIter(Rope('list', V.normal(segs)))

    def gen():
        for i in its:
            for x in i:
                yield x
    return gen()


@model(itertools.takewhile)
def m_takewhile(f, it):
    it = m_iter(it)

    def gen():
        while True:
            try:
                x = next(it)
            except StopIteration:
                return
            if not f(x):
                return
            yield x
    if isinstance(it, SIter) and it.symbolic():
        raise Unsupported('takewhile of a symbolic sequence')
    return gen()


# -- struct -------------------------------------------------------------------

SIZES = {'I': (4, False), 'i': (4, True), 'H': (2, False), 'h': (2, True),
         'B': (1, False), 'b': (1, True), 'Q': (8, False), 'q': (8, True),
         'L': (4, False), 'l': (4, True)}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    if fmt[:1] not in ('<', '>'):
        raise Unsupported('struct format %r' % fmt)
    little = fmt[0] == '<'
    items = []
    n = ''
    for c in fmt[1:]:
        if c.isdigit():
            n += c
            continue
        if c not in SIZES:
            raise Unsupported('struct format %r' % fmt)
        items += [c] * (int(n) if n else 1)
        n = ''
    return little, items


def le_value(bs, signed):
    ''' value of little-endian byte terms, simplified for bytes that are
    the bytes of one number '''
    org = [b.origin if isinstance(b, SInt) else None for b in bs]
    if org[0] is not None and org[0][1] == 0:
        src, _, width, ssigned = org[0]
        if (width == len(bs) and ssigned == signed
                and all(o is not None and o[0].eq(src) and o[1] == k
                        and o[2] == width and o[3] == signed
                        for k, o in enumerate(org))):
            return mkint(src)
    v = None
    for k, b in enumerate(bs):
        t = ti(b) * (1 << (8 * k))
        v = t if v is None else v + t
    if signed:
        m = 1 << (8 * len(bs))
        v = z3.If(v >= m // 2, v - m, v)
    return mkint(v)


@model(struct.unpack)
def m_unpack(fmt, data):
    if not isinstance(data, Rope):
        return struct.unpack(fmt, data)
    try:
        little, items = parse_fmt(fmt)
    except Unsupported:
        n = data.slen()
        want = struct.calcsize(fmt)
        if not core.E.branch(ti(n) == want):
            raise struct.error('unpack requires a buffer of %d bytes' % want)
        if fmt[1:] == 'd':
            return (V.opaque_of('double', data),)
        raise
    want = sum(SIZES[c][0] for c in items)
    n = data.slen()
    if not (n == want if isinstance(n, int)
            else core.E.branch(ti(n) == want)):
        raise struct.error('unpack requires a buffer of %d bytes' % want)
    out = []
    k = 0
    for c in items:
        w, signed = SIZES[c]
        bs = [V.index_segs(data.segs, k + j) for j in range(w)]
        if not little:
            bs.reverse()
        out.append(le_value(bs, signed))
        k += w
    return tuple(out)


@model(struct.pack)
def m_pack(fmt, *vals):
    if not deep_symbolic(vals):
        return struct.pack(fmt, *vals)
    little, items = parse_fmt(fmt)
    if len(items) != len(vals):
        raise struct.error('pack expected %d items' % len(items))
    out = []
    for c, v in zip(items, vals):
        w, signed = SIZES[c]
        m = 1 << (8 * w)
        lo, hi = (-(m // 2), m // 2 - 1) if signed else (0, m - 1)
        t = ti(v)
        if not core.E.branch(z3.And(t >= lo, t <= hi)):
            raise struct.error('argument out of range')
        u = z3.If(t < 0, t + m, t) if signed else t
        bs = []
        for k in range(w):
            if isinstance(v, int):
                bs.append(((v + m if v < 0 else v) >> (8 * k)) & 0xff)
            else:
                bs.append(mkint((u / (1 << (8 * k))) % 256,
                                origin=(t, k, w, signed)))
        if not little:
            bs.reverse()
        out += bs
    return mkseq('bytes', [Lit(out)])


@model(struct.calcsize)
def m_calcsize(fmt):
    return struct.calcsize(fmt)


@model(struct.unpack_from)
def m_unpack_from(fmt, data, offset=0):
    if not isinstance(data, Rope) and not deep_symbolic(offset):
        return struct.unpack_from(fmt, data, offset)
    n = struct.calcsize(fmt)
    return m_unpack(fmt, hooks.HOOKS.getitem(
        data, slice(offset, offset + n)))


@model(io.BytesIO)
def m_bytesio(data=b''):
    return V.SBytesIO(data)


# -- methods of native containers --------------------------------------------

@method(str, 'join')
@method(bytes, 'join')
def m_join(sep, it):
    if isinstance(it, SIter) and it.symbolic() or (
            isinstance(it, (Rope, SList))
            and not isinstance(seqlen(segs_of(it)), int)):
        return V.join_symbolic(sep, it)
    if isinstance(it, (Rope, SList)):
        xs = [x for x in it]
    elif isinstance(it, SIter):
        xs = [x for x in it]
    else:
        xs = [x for x in to_slist(it).rope] if not isinstance(
            it, (list, tuple)) else it
    kind = 'str' if isinstance(sep, str) else 'bytes'
    out = []
    for k, x in enumerate(xs):
        if kind_of(x) != kind:
            raise TypeError('sequence item %d: wrong type, %s' % (
                k, type(x).__name__))
        if k:
            out += segs_of(sep)
        out += segs_of(x)
    return mkseq(kind, out)


@method(str, 'format')
def m_format(s, *a, **k):
    if not deep_symbolic(a) and not deep_symbolic(list(k.values())):
        return s.format(*[native_arg(x) for x in a],
                        **{n: native_arg(v) for n, v in k.items()})
    import string
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = out + lit
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            raise Unsupported('format field')
        if not deep_symbolic(v):
            out = out + ('{!%s:%s}' % (conv, spec) if conv
                         else '{:%s}' % spec).format(v)
        else:
            out = out + hooks.formatted(v, spec, conv)
    return out


@method(dict, 'get')
def m_dict_get(d, k, default=None):
    if isinstance(k, SInt) or (isinstance(k, Rope) and deep_symbolic(k)):
        return hooks.dict_lookup(d, k, default)
    if isinstance(k, SClass):
        k = k.the()
    return d.get(k, default)


@method(dict, 'pop')
def m_dict_pop(d, k, *default):
    core.E.touch(d, k)
    return d.pop(k, *default)


@method(dict, 'setdefault')
def m_dict_setdefault(d, k, v=None):
    core.E.touch(d, k)
    if isinstance(k, SClass):
        k = k.the()
    return d.setdefault(k, v)


@method(dict, 'update')
def m_dict_update(d, *a, **k):
    core.E.touch(d, None)
    d.update(*a, **k)


def _dict_touch(nm):
    def m(d, *a, **k):
        core.E.touch(d, None)
        return getattr(d, nm)(*a, **k)
    return m


for _n in ('clear', 'popitem'):
    METHODS = hooks.METHOD_MODELS
    METHODS[dict, _n] = _dict_touch(_n)


def _plain(nm):
    def m(d, *a, **k):
        return getattr(d, nm)(*a, **k)
    return m


for _n in ('items', 'keys', 'values', 'copy'):
    hooks.METHOD_MODELS[dict, _n] = _plain(_n)


for _n in ('append', 'extend', 'insert', 'remove', 'clear', 'sort',
           'reverse', 'pop'):
    hooks.METHOD_MODELS[list, _n] = (lambda nm: lambda d, *a, **k: (
        core.E.touch(d, None), getattr(d, nm)(*a, **k))[1])(_n)
for _n in ('index', 'count', 'copy'):
    hooks.METHOD_MODELS[list, _n] = _plain(_n)
for _n in ('add', 'discard', 'remove', 'update', 'clear', 'pop'):
    hooks.METHOD_MODELS[set, _n] = (lambda nm: lambda d, *a, **k: (
        core.E.touch(d, None), getattr(d, nm)(*a, **k))[1])(_n)


# -- text methods of ropes ----------------------------------------------------

@V.rope_method('str', 'format')
def r_format(s, *a, **k):
    raise Unsupported('symbolic format string')


@V.rope_method('bytes', 'join')
@V.rope_method('str', 'join')
def r_join(s, it):
    return m_join(s, it)


@V.rope_method('str', 'startswith')
@V.rope_method('bytes', 'startswith')
def r_startswith(s, p):
    if isinstance(p, tuple):
        return any(r_startswith(s, x) for x in p)
    n = seqlen(s.segs)
    m = seqlen(segs_of(p))
    if not V.cond_le(m, n):
        return False
    head, _ = V.cut(s.segs, m)
    return mkbool(V._tb(V.segs_eq(head, segs_of(p), False)))


@V.rope_method('str', 'endswith')
@V.rope_method('bytes', 'endswith')
def r_endswith(s, p):
    if isinstance(p, tuple):
        return any(r_endswith(s, x) for x in p)
    n = seqlen(s.segs)
    m = seqlen(segs_of(p))
    if not V.cond_le(m, n):
        return False
    _, tail = V.cut(s.segs, lval(V.lsub(n, m)))
    return mkbool(V._tb(V.segs_eq(tail, segs_of(p), False)))


# -- regular expressions: fixed sequences of character sets -------------------

def charsets(pattern):
    ''' the set of codes of every position, or None '''
    out = []
    for op, arg in sre_parser.parse(pattern.pattern, pattern.flags):
        op = str(op)
        if op == 'LITERAL':
            out.append([(arg, arg)])
        elif op == 'IN':
            rs = []
            for o, a in arg:
                o = str(o)
                if o == 'LITERAL':
                    rs.append((a, a))
                elif o == 'RANGE':
                    rs.append(tuple(a))
                else:
                    return None
            out.append(rs)
        else:
            return None
    if pattern.flags & ~(re.U.value):
        return None
    return out or None


def at_term(segs, q):
    ''' the code at position q (arbitrary outside the sequence) '''
    r = z3.IntVal(-1)
    off = z3.IntVal(0)
    parts = []
    for s in segs:
        m = ti(lval(s.length()))
        if s.lit:
            v = z3.IntVal(-1)
            for j, x in enumerate(s.items):
                v = z3.If(q == off + j, ti(x), v)
        else:
            v = ti(s.base.elem(mkint(z3.simplify(ti(s.lo) + q - off))))
        parts.append((off + m, v))
        off = off + m
    for end, v in reversed(parts):
        r = z3.If(q < end, v, r)
    return z3.simplify(r) if len(parts) != 1 else parts[0][1]


def match_term(sets, segs, q):
    n = ti(lval(seqlen(segs)))
    conds = [q >= 0, q + len(sets) <= n]
    for j, rs in enumerate(sets):
        c = at_term(segs, q + j)
        conds.append(z3.Or([z3.And(c >= a, c <= b) for a, b in rs]))
    return z3.And(conds)


class SMatch(object):
    def __init__(self, data, p, k):
        self.data, self.p, self.k = data, p, k

    def __bool__(self):
        return True

    def start(self, g=0):
        return self.p

    def end(self, g=0):
        return self.p + self.k

    def span(self, g=0):
        return (self.p, self.p + self.k)

    def group(self, g=0):
        return self.data[self.p:self.p + self.k]


@method(re.Pattern, 'search')
def m_search(pat, data, pos=0, endpos=None):
    if not deep_symbolic((data, pos, endpos)):
        return pat.search(data, pos) if endpos is None \
            else pat.search(data, pos, endpos)
    sets = charsets(pat)
    if sets is None or endpos is not None or kind_of(data) not in (
            'bytes', 'str') or (kind_of(data) == 'bytes') != isinstance(
                pat.pattern, bytes):
        raise Unsupported('regular expression %r' % (pat.pattern,))
    e = core.E
    segs = segs_of(data)
    lo = z3.If(ti(pos) > 0, ti(pos), 0)
    found = z3.Bool(e.fresh('found'))
    p = z3.Int(e.fresh('match'))
    if e.branch(found):
        e.assume(p >= lo)
        e.assume(match_term(sets, segs, p))
        hi = p
        r = SMatch(data, mkint(p), len(sets))
    else:
        hi = ti(lval(seqlen(segs)))
        r = None
    for q in e.skolems:
        q = ti(q)
        e.assume(z3.Implies(z3.And(q >= lo, q < hi),
                            z3.Not(match_term(sets, segs, q))))
    return r


@method(re.Pattern, 'match')
def m_match(pat, data, pos=0, endpos=None):
    if not deep_symbolic((data, pos, endpos)):
        return pat.match(data, pos)
    sets = charsets(pat)
    if sets is None or endpos is not None:
        raise Unsupported('regular expression %r' % (pat.pattern,))
    if core.E.branch(match_term(sets, segs_of(data), ti(pos))):
        return SMatch(data, mkint(ti(pos)), len(sets))
    return None
