''' Symbolic values the instrumented code computes with. '''
import z3

from . import core
from .core import Unsupported, PathEnd, term


def eng():
    e = core.E
    if e is None or e.solver is None:
        raise Unsupported('symbolic value used out of a path')
    return e


# -- integers and booleans ----------------------------------------------------

class SBool(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, tb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, tb(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.t == tb(o))
        return bool(self) == o

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SBool(%s)' % self.t


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def tb(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported('not a boolean: %r' % (x,))


def is_intlike(x):
    return (isinstance(x, SInt)
            or (isinstance(x, int) and not isinstance(x, bool)))


def ti(x):
    ''' z3 integer term '''
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported('not an integer: %r' % (type(x),))


def mkint(t, tz=0, origin=None):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t, tz, origin)


def concretize(x, limit=300):
    ''' complete case split on the value of a symbolic integer '''
    e = eng()
    x = x.t if isinstance(x, SInt) else x
    k = len(e.taken)
    n = 0
    while True:
        n += 1
        if n > limit:
            raise Unsupported('too many values to enumerate')
        k = len(e.taken)
        if k < len(e.prefix) and isinstance(e.prefix[k], tuple):
            v, yes = e.prefix[k]
            e.taken.append((v, yes))
            e.assume(x == v if yes else x != v)
            if yes:
                return v
            continue
        r = e.check()
        if r == z3.unsat:
            raise PathEnd()
        if r != z3.sat:
            raise Unsupported('cannot enumerate values')
        v = e.solver.model().eval(x, model_completion=True).as_long()
        if e.check(x != v) != z3.unsat:
            e.work.append(e.taken + [(v, False)])
        e.taken.append((v, True))
        e.assume(x == v)
        return v


BXOR = z3.Function('bxor', z3.IntSort(), z3.IntSort(), z3.IntSort())
BAND = z3.Function('band', z3.IntSort(), z3.IntSort(), z3.IntSort())
BOR = z3.Function('bor', z3.IntSort(), z3.IntSort(), z3.IntSort())


def _canon2(f, a, b):
    a = z3.simplify(a)
    b = z3.simplify(b)
    if a.sexpr() > b.sexpr():
        a, b = b, a
    return f(a, b)


def mask_runs(m):
    ''' decompose a non-negative mask into runs of ones: [(lsb, width)] '''
    runs = []
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            runs.append((i, j - i))
            i = j
        else:
            i += 1
    return runs


def trailing_zeros(x):
    if isinstance(x, SInt):
        return x.tz
    x = int(x)
    if x == 0:
        return 10000
    n = 0
    while not (x >> n) & 1:
        n += 1
    return n


class SInt(object):
    __slots__ = ('t', 'tz', 'origin')

    def __init__(self, t, tz=0, origin=None):
        self.t = t
        self.tz = tz
        self.origin = origin

    def __repr__(self):
        return 'SInt(%s)' % self.t

    def _bin(self, o, f):
        if not (is_intlike(o) or isinstance(o, (bool, SBool))):
            return NotImplemented
        return mkint(f(self.t, ti(o)))

    def __add__(self, o):
        if not (is_intlike(o) or isinstance(o, (bool, SBool))):
            return NotImplemented
        return mkint(self.t + ti(o),
                     tz=min(self.tz, trailing_zeros(o))
                     if is_intlike(o) else 0)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            if len(o) == 0:
                return o
            raise Unsupported('symbolic repetition')
        if not is_intlike(o):
            return NotImplemented
        tz = trailing_zeros(o) if isinstance(o, int) and o != 0 else 0
        return mkint(self.t * ti(o), tz=self.tz + tz)
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if eng().branch(self.t >= 0):
            return self
        return -self

    def _posdiv(self, o):
        if isinstance(o, int) and o > 0:
            return z3.IntVal(o)
        raise Unsupported('division by %r' % (o,))

    def __floordiv__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return mkint(self.t / self._posdiv(o))

    def __mod__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return mkint(self.t % self._posdiv(o))

    def __divmod__(self, o):
        return self // o, self % o

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            raise Unsupported('formatting a symbolic integer')
        raise Unsupported('modulo a symbolic integer')

    def __rfloordiv__(self, o):
        raise Unsupported('division by a symbolic integer')

    def __truediv__(self, o):
        if isinstance(o, int) and o > 0:
            # the exact float result is only known to be integral when it is
            return SFloatQuotient(self, o)
        raise Unsupported('true division')

    __rtruediv__ = __rfloordiv__

    def __lshift__(self, k):
        if isinstance(k, SInt):
            k = concretize(k)
        return mkint(self.t * z3.IntVal(1 << k), tz=self.tz + k)

    def __rlshift__(self, o):
        k = concretize(self)
        return o << k

    def __rshift__(self, k):
        if isinstance(k, SInt):
            k = concretize(k)
        return mkint(self.t / z3.IntVal(1 << k), tz=max(0, self.tz - k))

    def __rrshift__(self, o):
        k = concretize(self)
        return o >> k

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            o = int(bool(o))
        if isinstance(o, SInt):
            return mkint(_canon2(BAND, self.t, o.t))
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            # x & ~m == x - (x & m)
            return self - (self & ~o)
        total = None
        for lsb, width in mask_runs(o):
            v = (self.t / z3.IntVal(1 << lsb)) if lsb else self.t
            v = v % z3.IntVal(1 << width)
            if lsb:
                v = v * z3.IntVal(1 << lsb)
            total = v if total is None else total + v
        if total is None:
            return 0
        return mkint(total, tz=max(self.tz, trailing_zeros(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            o = int(bool(o))
        if not is_intlike(o):
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        e = eng()
        for a, b in ((self, o), (o, self)):
            k = trailing_zeros(a)
            if k and k < 10000:
                tbv = ti(b)
                if e.valid(z3.And(tbv >= 0, tbv < (1 << k))):
                    return mkint(ti(a) + tbv, tz=trailing_zeros(b))
        return mkint(_canon2(BOR, self.t, ti(o)))
    __ror__ = __or__

    def __xor__(self, o):
        if not is_intlike(o):
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        a, b = self.t, ti(o)
        r = _canon2(BXOR, a, b)
        e = eng()
        if e.valid(z3.And(a >= 0, a < 256, b >= 0, b < 256)):
            e.assume(z3.And(r >= 0, r < 256))
        return SInt(r)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def _cmp(self, o, f):
        if not (is_intlike(o) or isinstance(o, (bool, SBool))):
            return NotImplemented
        return mkbool(f(self.t, ti(o)))

    def __eq__(self, o):
        if not (is_intlike(o) or isinstance(o, (bool, SBool))):
            if isinstance(o, (SVal,)):
                return NotImplemented
            return False
        return mkbool(self.t == ti(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        return mkbool(z3.Not(r.t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return eng().branch(self.t != 0)

    def __hash__(self):
        return hash(concretize(self, 64))

    def __index__(self):
        return concretize(self, 300)

    def __int__(self):
        return concretize(self, 300)

    def __format__(self, spec):
        raise Unsupported('formatting a symbolic integer')

    def __str__(self):
        raise Unsupported('str of a symbolic integer')

    def bit_length(self):
        raise Unsupported('bit_length')


class SFloatQuotient(object):
    ''' x / n computed in floating point: only its operands are known '''

    def __init__(self, num, den):
        self.num = num
        self.den = den

    def __getattr__(self, name):
        raise Unsupported('floating point')

    def _no(self, *a):
        raise Unsupported('floating point')
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = _no


# -- opaque values ------------------------------------------------------------

class SVal(object):
    ''' an object nothing is known about but its identity: item `idx' of
    family `base' (items of different families, or with different indices,
    are different objects) '''

    def __init__(self, base, idx=0, **fields):
        self.__dict__['_base'] = base
        self.__dict__['_idx'] = idx
        self.__dict__['_fields'] = fields

    def __repr__(self):
        return '<%s[%s]>' % (self._base, self._idx)

    def __eq__(self, o):
        return prog_rel('eq', self, o)

    def __ne__(self, o):
        r = prog_rel('eq', self, o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))

    def __hash__(self):
        if isinstance(self._idx, (int, str)):
            return hash((self._base, self._idx))
        raise Unsupported('hash of a symbolic object')

    def __bool__(self):
        t = self._fields.get('truth')
        if t is None:
            raise Unsupported('truth of an opaque value %r' % (self,))
        if t == 'any':
            # either, the same whenever asked
            f = z3.Function('truth_' + self._base, z3.IntSort(),
                            z3.BoolSort())
            return eng().branch(f(ti(self._idx)))
        return bool(t)

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        try:
            return self.__dict__['_fields'][name]
        except KeyError:
            raise Unsupported('attribute %s of an opaque value' % name)


def prog_rel(rel, a, b):
    ''' a == b or a is b in the program, for opaque objects: different items
    may be equal, and (unless their family is declared distinct) the same
    object; both relations are uninterpreted but reflexive and symmetric '''
    if a is b:
        return True
    if not (isinstance(a, SVal) and isinstance(b, SVal)):
        return same(a, b)
    e = eng()
    fams = (a._base, b._base)
    if fams[0] != fams[1]:
        return same(a, b)
    if rel == 'is' and a._base in e.distinct:
        return same(a, b)
    if rel == 'eq' and a._base in e.distinct_values:
        return same(a, b)
    if isinstance(a._idx, str) or isinstance(b._idx, str):
        if type(a._idx) is not type(b._idx):
            return False
        if a._idx == b._idx:
            return True
        i, j = sorted([a._idx, b._idx])
        return mkbool(z3.Bool('%s!%s!%s!%s' % (rel, a._base, i, j)))
    i, j = ti(a._idx), ti(b._idx)
    f = z3.Function('%s!%s' % (rel, a._base), z3.IntSort(), z3.IntSort(),
                    z3.BoolSort())
    lo, hi = z3.If(i <= j, i, j), z3.If(i <= j, j, i)
    r = z3.Or(i == j, f(lo, hi))
    if rel == 'eq':
        g = z3.Function('is!%s' % a._base, z3.IntSort(), z3.IntSort(),
                        z3.BoolSort())
        r = z3.Or(r, g(lo, hi))
    return mkbool(z3.simplify(r))


def prog_same(a, b):
    return prog_rel('is', a, b)


def same(a, b):
    ''' object identity (program level) '''
    if a is b:
        return True
    if isinstance(a, SVal) and isinstance(b, SVal):
        if a._base != b._base:
            return False
        if isinstance(a._idx, str) or isinstance(b._idx, str):
            return a._idx == b._idx
        return mkbool(ti(a._idx) == ti(b._idx))
    if isinstance(a, SClass):
        return a.is_(b)
    if isinstance(b, SClass):
        return b.is_(a)
    if isinstance(a, ElemDict) and isinstance(b, ElemDict):
        if a.base is not b.base:
            return False
        return mkbool(ti(a.idx) == ti(b.idx))
    if isinstance(a, ElemTuple) and isinstance(b, ElemTuple):
        if a.base is b.base:
            return mkbool(ti(a.idx) == ti(b.idx))
        return False
    if isinstance(a, (SInt, Rope)) or isinstance(b, (SInt, Rope)):
        for x in a, b:
            # an object which is not a number, a text, a list, ...
            if x is None or type(x) is object or isinstance(x, type):
                return False
        raise Unsupported('identity of values')
    if isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkbool(tb(a) == tb(b))
        return False
    return False


class ElemTuple(tuple):
    ''' a tuple being item `idx' of a symbolic sequence '''
    base = None
    idx = None


class ElemDict(dict):
    ''' a dict being item `idx' of a symbolic sequence '''
    base = None
    idx = None

    def __hash__(self):
        raise TypeError('unhashable')


def elemdict(base, idx, *a, **kw):
    d = ElemDict(*a, **kw)
    d.base = base
    d.idx = idx
    return d


def elemtuple(base, idx, items):
    d = ElemTuple(items)
    d.base = base
    d.idx = idx
    return d


class SClass(object):
    ''' a class known to be one of several candidates '''

    def __init__(self, candidates, name='?'):
        self.c = list(candidates)
        self.nm = name

    def narrow(self, pred):
        ''' decide pred, splitting the candidates '''
        yes = [c for c in self.c if pred(c)]
        no = [c for c in self.c if not pred(c)]
        if not no:
            return True
        if not yes:
            return False
        if eng().choose(2) == 0:
            self.c = yes
            return True
        self.c = no
        return False

    def is_(self, o):
        if isinstance(o, SClass):
            if o is self:
                return True
            if (isinstance(o, SEither) and isinstance(self, SEither)
                    and o.ab == self.ab and o.t_.eq(self.t_)):
                return True
            o = o.the()
        return self.narrow(lambda c: c is o)

    def the(self):
        ''' the concrete class (case split) '''
        n = len(self.c)
        k = eng().choose(n) if n > 1 else 0
        self.c = [self.c[k]]
        return self.c[0]

    def __eq__(self, o):
        return self.is_(o)

    def __ne__(self, o):
        return not self.is_(o)

    def __hash__(self):
        return hash(self.the())

    def issubclass_(self, o):
        return self.narrow(lambda c: isinstance(c, type) and issubclass(c, o))

    def __getattr__(self, name):
        if name.startswith('__') and name != '__name__':
            raise AttributeError(name)
        return getattr(self.the(), name)

    def __repr__(self):
        return 'SClass(%s)' % self.nm


class SEither(SClass):
    ''' one of two classes, decided by a term '''

    def __init__(self, t, a, b, name='?'):
        SClass.__init__(self, [a, b], name)
        self.t_ = t
        self.ab = (a, b)

    def narrow(self, pred):
        a, b = self.ab
        pa, pb = bool(pred(a)), bool(pred(b))
        if pa == pb:
            return pa
        v = eng().branch(self.t_)
        return pa if v else pb

    def the(self):
        return self.ab[0] if eng().branch(self.t_) else self.ab[1]


# -- sequences ----------------------------------------------------------------

class Base(object):
    ''' an unbounded symbolic sequence; items are made on demand '''

    def __init__(self, name, kind, n, elem):
        self.name = name
        self.kind = kind        # bytes | str | list | tuple
        self.n = n              # z3 term / int
        self._elem = elem
        self.chars_of = None    # for lists of single characters of a text
        self.cache = {}

    def elem(self, i):
        i = mkint(ti(i))
        # terms are hash-consed: equal terms alive have one id
        key = i if isinstance(i, int) else ('term', i.t.get_id())
        e = eng()
        k = (id(self), key)
        if k not in e.elem_cache:
            e.elem_cache[k] = self._elem(i)
            e.keep.append((self, i))
        return e.elem_cache[k]

    def __repr__(self):
        return 'Base(%s)' % self.name


def new_bytes_base(name, n):
    f = z3.Function(eng().fresh('b_' + name), z3.IntSort(), z3.IntSort())

    def elem(i):
        v = f(ti(i))
        eng().assume(z3.And(v >= 0, v <= 255))
        return SInt(v)
    b = Base(name, 'bytes', n, elem)
    b.fn = f
    return b


def new_text_base(name, n, lo=0, hi=0x10ffff):
    f = z3.Function(eng().fresh('c_' + name), z3.IntSort(), z3.IntSort())

    def elem(i):
        v = f(ti(i))
        eng().assume(z3.And(v >= lo, v <= hi))
        return SInt(v)
    b = Base(name, 'str', n, elem)
    b.fn = f
    return b


def ladd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return z3.simplify(ti(a) + ti(b)) if True else None


def lsub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return z3.simplify(ti(a) - ti(b))


def lval(x):
    ''' z3 length term -> int or term '''
    if isinstance(x, SInt):
        x = x.t
    if isinstance(x, int):
        return int(x)
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    return x


def cond_le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return eng().branch(ti(a) <= ti(b))


def cond_lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return eng().branch(ti(a) < ti(b))


def cond_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return eng().branch(ti(a) == ti(b))


class Seg(object):
    __slots__ = ('items', 'base', 'lo', 'hi')

    def __init__(self, items=None, base=None, lo=None, hi=None):
        self.items = items
        self.base = base
        self.lo = lo
        self.hi = hi

    @property
    def lit(self):
        return self.base is None

    def length(self):
        if self.base is None:
            return len(self.items)
        return lval(lsub(self.hi, self.lo))

    def __repr__(self):
        if self.lit:
            return 'L%r' % (self.items,)
        return '%s[%s:%s]' % (self.base.name, self.lo, self.hi)


def Lit(items):
    return Seg(items=tuple(items))


def View(base, lo, hi):
    return Seg(base=base, lo=lval(lo), hi=lval(hi))


def teq(a, b):
    ''' syntactic equality of length terms '''
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


def normal(segs):
    out = []
    for s in segs:
        if s.lit and not s.items:
            continue
        if not s.lit and teq(s.lo, s.hi):
            continue
        if out:
            p = out[-1]
            if p.lit and s.lit:
                out[-1] = Lit(p.items + s.items)
                continue
            if (not p.lit and not s.lit and p.base is s.base
                    and teq(p.hi, s.lo)):
                out[-1] = View(p.base, p.lo, s.hi)
                continue
        out.append(s)
    return out


def is_symbolic(x):
    return isinstance(x, (SInt, SBool, Rope, SVal, SClass, SList,
                          SFloatQuotient))


def deep_symbolic(x, depth=0):
    if is_symbolic(x):
        if isinstance(x, SList):
            return any(not s.lit or any(deep_symbolic(y, depth + 1)
                                        for y in s.items)
                       for s in x.rope.segs)
        return True
    if depth > 6:
        return False
    if isinstance(x, (tuple, list, set, frozenset)):
        return any(deep_symbolic(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return any(deep_symbolic(k, depth + 1) or deep_symbolic(v, depth + 1)
                   for k, v in x.items())
    return False


def mkseq(kind, segs):
    ''' a sequence value of the given kind; native when it is concrete '''
    segs = normal(segs)
    if all(s.lit for s in segs):
        items = segs[0].items if segs else ()
        if kind == 'bytes':
            if all(isinstance(i, int) for i in items):
                return bytes(items)
        elif kind == 'str':
            if all(isinstance(i, int) for i in items):
                return ''.join(chr(i) for i in items)
        elif kind == 'tuple':
            return tuple(items)
    return Rope(kind, segs)


def segs_of(x, kind=None):
    if isinstance(x, Rope):
        return x.segs
    if isinstance(x, SList):
        return x.rope.segs
    if isinstance(x, (bytes, bytearray)):
        return [Lit(tuple(x))] if x else []
    if isinstance(x, str):
        return [Lit(tuple(ord(c) for c in x))] if x else []
    if isinstance(x, (tuple, list)):
        return [Lit(tuple(x))] if x else []
    raise Unsupported('not a sequence: %r' % (type(x),))


def kind_of(x):
    if isinstance(x, Rope):
        return x.kind
    if isinstance(x, SList):
        return 'list'
    if isinstance(x, (bytes, bytearray)):
        return 'bytes'
    if isinstance(x, str):
        return 'str'
    if isinstance(x, tuple):
        return 'tuple'
    if isinstance(x, list):
        return 'list'
    return None


def seqlen(segs):
    n = 0
    for s in segs:
        n = ladd(n, s.length())
    return lval(n)


def cut(segs, pos):
    ''' split segments at position pos (0 <= pos <= length is known) '''
    pos = lval(pos)
    left = []
    segs = list(segs)
    while segs:
        if isinstance(pos, int) and pos == 0:
            break
        s = segs[0]
        n = s.length()
        if not teq(pos, n) and not cond_le(n, pos):
            # strictly inside s
            if s.lit:
                if not isinstance(pos, int):
                    pos = concretize(pos)
                if pos:
                    left.append(Lit(s.items[:pos]))
                segs[0] = Lit(s.items[pos:])
            else:
                mid = lval(ladd(s.lo, pos))
                left.append(View(s.base, s.lo, mid))
                segs[0] = View(s.base, mid, s.hi)
            return left, segs
        left.append(s)
        segs.pop(0)
        pos = lval(lsub(pos, n))
    return left, segs


def norm_index(i, n, default):
    ''' clamp a slice bound '''
    if i is None:
        return default
    if isinstance(i, SBool) or isinstance(i, bool):
        i = int(bool(i))
    if not is_intlike(i):
        raise TypeError('slice indices must be integers')
    i = lval(ti(i)) if isinstance(i, SInt) else int(i)
    if cond_lt(i, 0):
        i = lval(ladd(i, n))
        if cond_lt(i, 0):
            return 0
        return i
    if cond_lt(n, i):
        return n
    return i


def slice_segs(segs, sl):
    if sl.step is not None and sl.step != 1:
        if (sl.start is None and sl.stop is None and sl.step == -1
                and all(s.lit for s in segs)):
            return [Lit(tuple(reversed([i for s in segs for i in s.items])))]
        if (sl.start is None and sl.stop is None and sl.step == -1
                and all(s.lit or s.base.kind == 'list' for s in segs)):
            n = seqlen(segs)
            b = Base('reversed', 'list', n, lambda i: index_segs(
                segs, mkint(ti(n) - 1 - ti(i))))
            return [View(b, 0, n)]
        raise Unsupported('slice step')
    n = seqlen(segs)
    start = norm_index(sl.start, n, 0)
    stop = norm_index(sl.stop, n, n)
    if not teq(start, stop) and not cond_lt(start, stop):
        return []
    if teq(start, stop):
        return []
    if not teq(stop, n):
        segs, _ = cut(segs, stop)
    _, segs = cut(segs, start)
    return segs


def index_segs(segs, i):
    n = seqlen(segs)
    i = lval(ti(i)) if isinstance(i, SInt) else int(i)
    if cond_lt(i, 0):
        i = lval(ladd(i, n))
        if cond_lt(i, 0):
            raise IndexError('index out of range')
    if not cond_lt(i, n):
        raise IndexError('index out of range')
    for s in segs:
        m = s.length()
        if cond_lt(i, m):
            if s.lit:
                if not isinstance(i, int):
                    i = concretize(i)
                return s.items[i]
            return s.base.elem(mkint(ti(ladd(s.lo, i))))
        i = lval(lsub(i, m))
    raise PathEnd()


def wrap_item(kind, v):
    if kind == 'str':
        return mkseq('str', [Lit((v,))])
    return v


def value_eq(a, b, goal):
    ''' z3 term / bool for equality of two values; with goal=True a
    sufficient condition is enough '''
    if a is b:
        return True
    if isinstance(a, (Rope, SList)) or isinstance(b, (Rope, SList)):
        if kind_of(a) != kind_of(b):
            return False
        return segs_eq(segs_of(a), segs_of(b), goal)
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
        if is_intlike(a) and is_intlike(b):
            return ti(a) == ti(b)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return tb(a) == tb(b)
        if ((is_intlike(a) or isinstance(a, (bool, SBool)))
                and (is_intlike(b) or isinstance(b, (bool, SBool)))):
            return ti(a) == ti(b)
        return False
    if isinstance(a, (SVal, SClass, ElemDict)) or isinstance(
            b, (SVal, SClass, ElemDict)):
        r = same(a, b) if goal else prog_rel('eq', a, b)
        if isinstance(a, dict) and isinstance(b, dict) and r is not True \
                and not goal:
            return dict_eq(a, b, goal)
        if isinstance(a, dict) and isinstance(b, dict) and r is False:
            return dict_eq(a, b, goal)
        return r.t if isinstance(r, SBool) else r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return conj([value_eq(x, y, goal) for x, y in zip(a, b)])
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return conj([value_eq(x, y, goal) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return dict_eq(a, b, goal)
    r = (a == b)
    if isinstance(r, SBool):
        return r.t
    return bool(r)


def dict_eq(a, b, goal):
    if set(a.keys()) != set(b.keys()):
        return False
    return conj([value_eq(a[k], b[k], goal) for k in a])


def conj(ts):
    out = []
    for t in ts:
        if isinstance(t, bool):
            if not t:
                return False
            continue
        out.append(t)
    if not out:
        return True
    return z3.And(*out)


def segs_eq(a, b, goal):
    a = list(normal(a))
    b = list(normal(b))
    r = eq_patterns(a, b)
    if r is not None:
        return r
    conds = []
    while a and b:
        x, y = a[0], b[0]
        n, m = x.length(), y.length()
        # make the heads equally long
        if not teq(n, m):
            if cond_lt(n, m):
                h, rest = cut([y], n)
                b[0:1] = h + rest
                if not h:
                    a.pop(0)
                    continue
                y = b[0]
            elif cond_lt(m, n):
                h, rest = cut([x], m)
                a[0:1] = h + rest
                if not h:
                    b.pop(0)
                    continue
                x = a[0]
        n = x.length()
        if x.lit and y.lit:
            for u, v in zip(x.items, y.items):
                conds.append(value_eq(u, v, goal))
        elif x.lit or y.lit:
            if y.lit:
                x, y = y, x
            for k, u in enumerate(x.items):
                v = y.base.elem(mkint(ti(ladd(y.lo, k))))
                conds.append(value_eq(u, v, goal))
        elif x.base is y.base:
            if not teq(x.lo, y.lo):
                c = z3.Or(ti(x.lo) == ti(y.lo), ti(n) == 0)
                if not goal and not eng().valid(c):
                    raise Unsupported('comparison of symbolic sequences')
                conds.append(c)
        else:
            c = eq_bases(x, y)
            if c is None and goal and (getattr(x.base, 'ext', False) or
                                       getattr(y.base, 'ext', False)):
                # extensionality, at an arbitrary position: goals only
                k = z3.Int(eng().fresh('at'))
                within = z3.And(k >= 0, k < ti(n))
                u = x.base.elem(mkint(ti(x.lo) + k))
                v = y.base.elem(mkint(ti(y.lo) + k))
                e = value_eq(u, v, goal)
                c = z3.Implies(within, tb(e))
            if c is None:
                c = ti(n) == 0
                if not goal and not eng().valid(c):
                    raise Unsupported('comparison of symbolic sequences')
            conds.append(c)
        a.pop(0)
        b.pop(0)
    rest = a or b
    n = seqlen(rest)
    if isinstance(n, int):
        conds.append(n == 0)
    else:
        conds.append(n == 0)
    return conj(conds)


EQ_BASES = []


def eq_patterns(a, b):
    ''' texts of the same pattern, with one formatted number each '''
    if len(a) != len(b):
        return None
    c = None
    for x, y in zip(a, b):
        if x.lit and y.lit:
            if len(x.items) != len(y.items) or not all(
                    isinstance(u, int) and isinstance(v, int) and u == v
                    for u, v in zip(x.items, y.items)):
                return None
        elif x.lit or y.lit or c is not None:
            return None
        else:
            if getattr(x.base, 'fmt', None) is None:
                return None
            c = eq_bases(x, y)
            if c is None:
                return None
    return c


def eq_bases(x, y):
    for f in EQ_BASES:
        r = f(x, y)
        if r is not None:
            return r
    return None


PYKIND = {'bytes': bytes, 'str': str, 'tuple': tuple, 'list': list}


class Rope(object):
    ''' an immutable sequence, partly symbolic '''
    __slots__ = ('kind', 'segs')

    def __init__(self, kind, segs):
        self.kind = kind
        self.segs = segs

    def __repr__(self):
        return 'Rope(%s, %r)' % (self.kind, self.segs)

    def slen(self):
        return mkint(ti(seqlen(self.segs)))

    def __len__(self):
        n = seqlen(self.segs)
        if isinstance(n, int):
            return n
        return concretize(n)

    def __bool__(self):
        n = seqlen(self.segs)
        if isinstance(n, int):
            return n > 0
        return eng().branch(ti(n) > 0)

    def __add__(self, o):
        k = kind_of(o)
        if k != self.kind:
            raise TypeError('cannot concatenate %s to %s' % (k, self.kind))
        return mkseq(self.kind, self.segs + segs_of(o))

    def __radd__(self, o):
        k = kind_of(o)
        if k != self.kind:
            raise TypeError('cannot concatenate %s to %s' % (k, self.kind))
        return mkseq(self.kind, segs_of(o) + self.segs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkseq(self.kind, slice_segs(self.segs, i))
        return wrap_item(self.kind, index_segs(self.segs, i))

    def __iter__(self):
        for s in self.segs:
            if not s.lit and not isinstance(s.length(), int):
                raise Unsupported('iteration over a symbolic sequence')
            n = s.length()
            for k in range(n):
                if s.lit:
                    yield wrap_item(self.kind, s.items[k])
                else:
                    yield wrap_item(self.kind,
                                    s.base.elem(mkint(ti(ladd(s.lo, k)))))

    def __eq__(self, o):
        if kind_of(o) != self.kind:
            if type(o).__module__.startswith('contracts.'):
                return NotImplemented
            return False
        return mkbool(_tb(segs_eq(self.segs, segs_of(o), False)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        return mkbool(z3.Not(r.t))

    def __hash__(self):
        if self.kind == 'str' and len(self.segs) == 1 and self.segs[0].lit:
            vals = [concretize(i, 300) if isinstance(i, SInt) else i
                    for i in self.segs[0].items]
            return hash(''.join(chr(v) for v in vals))
        raise Unsupported('hash of a symbolic sequence')

    def _single(self):
        if (self.kind in ('str',) and len(self.segs) == 1
                and isinstance(seqlen(self.segs), int)
                and seqlen(self.segs) == 1):
            return index_segs(self.segs, 0)
        raise Unsupported('ordering of symbolic sequences')

    def _cmp(self, o, f):
        a = self._single()
        if isinstance(o, Rope):
            b = o._single()
        elif isinstance(o, str) and len(o) == 1:
            b = ord(o)
        else:
            raise Unsupported('ordering of symbolic sequences')
        return mkbool(f(ti(a), ti(b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __contains__(self, x):
        raise Unsupported('membership in a symbolic sequence')

    def __mod__(self, o):
        raise Unsupported('formatting')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        m = ROPE_METHODS.get((self.kind, name))
        if m is not None:
            return lambda *a, **k: m(self, *a, **k)
        if not hasattr(PYKIND[self.kind], name):
            raise AttributeError(name)
        raise Unsupported('method %s of a symbolic %s' % (name, self.kind))


ROPE_METHODS = {}


def rope_method(kind, name):
    def deco(f):
        ROPE_METHODS[kind, name] = f
        return f
    return deco


def _tb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def sorted_ints(seq):
    ''' an ascending permutation of a list of integers (of other things: a
    permutation, of whose order nothing is known) '''
    e = eng()
    if len(seq.segs) == 1 and not seq.segs[0].lit \
            and getattr(seq.segs[0].base, 'sorted_of', None):
        return seq
    n = seqlen(seq.segs)
    name = e.fresh('sorted')
    r = z3.Function(name, z3.IntSort(), z3.IntSort())
    perm = z3.Function('perm_' + name, z3.IntSort(), z3.IntSort())
    inv = z3.Function('inv_' + name, z3.IntSort(), z3.IntSort())

    def elem(i):
        t = ti(i)
        e.assume(z3.And(perm(t) >= 0, perm(t) < ti(n), inv(perm(t)) == t))
        src = index_segs(seq.segs, mkint(perm(t)))
        if getattr(src, 'opaque_order', False):
            return src
        if not is_intlike(src):
            raise Unsupported('sorting other things than integers')
        e.assume(r(t) == ti(src))
        e.assume(z3.Implies(t + 1 < ti(n), r(t) <= r(t + 1)))
        e.assume(z3.Implies(t > 0, r(t - 1) <= r(t)))
        return SInt(r(t))
    b = Base(name, 'list', n, elem)
    b.sorted_of = (seq, perm, inv)

    def sorted_position(k):
        ''' where the k-th unsorted item is '''
        t = ti(k)
        e.assume(z3.And(inv(t) >= 0, inv(t) < ti(n), perm(inv(t)) == t))
        return mkint(inv(t))
    b.sorted_position = sorted_position
    return Rope('list', [View(b, 0, n)])


class SList(object):
    ''' a mutable list '''

    def __init__(self, segs=()):
        self.rope = Rope('list', normal(list(segs)))
        if core.E is not None and core.E.solver is not None:
            core.E.born(self)

    def _set(self, segs):
        eng().touch(self)
        self.rope = Rope('list', normal(list(segs)))

    def __repr__(self):
        return 'SList(%r)' % (self.rope.segs,)

    def slen(self):
        return self.rope.slen()

    def __len__(self):
        return len(self.rope)

    def __bool__(self):
        return bool(self.rope)

    def __iter__(self):
        return SIter(self)

    def append(self, x):
        self._set(self.rope.segs + [Lit((x,))])

    def appendleft(self, x):
        self._set([Lit((x,))] + self.rope.segs)

    def extend(self, xs):
        if kind_of(xs) in ('list', 'tuple'):
            self._set(self.rope.segs + segs_of(xs))
        else:
            if isinstance(xs, SIter) and xs.symbolic():
                if xs.on_next is not None or xs.kind() not in ('list',
                                                               'tuple'):
                    raise Unsupported('extend by a symbolic iterator')
                from .hooks import to_slist
                xs = to_slist(xs)
                self._set(self.rope.segs + segs_of(xs))
                return
            self._set(self.rope.segs + [Lit(tuple(xs))])

    def extendleft(self, xs):
        xs = list(xs)
        for x in xs:
            self.appendleft(x)

    def insert(self, i, x):
        n = seqlen(self.rope.segs)
        i = norm_index(i, n, 0)
        a, b = cut(self.rope.segs, i)
        self._set(a + [Lit((x,))] + b)

    def pop(self, i=-1):
        segs = self.rope.segs
        n = seqlen(segs)
        if cond_eq(n, 0):
            raise IndexError('pop from empty list')
        if isinstance(i, int) and i == -1:
            i = lval(lsub(n, 1))
        elif isinstance(i, int) and i < 0:
            i = lval(ladd(n, i))
        else:
            i = lval(ti(i)) if isinstance(i, SInt) else i
        v = index_segs(segs, mkint(ti(i)))
        a, rest = cut(segs, i)
        _, b = cut(rest, 1)
        self._set(a + b)
        return v

    def popleft(self):
        return self.pop(0)

    def clear(self):
        self._set([])

    def copy(self):
        return SList(self.rope.segs)

    def reverse(self):
        self._set(slice_segs(self.rope.segs, slice(None, None, -1)))

    def sort(self, **kw):
        if not isinstance(seqlen(self.rope.segs), int):
            if kw.get('key') is not None or kw.get('reverse'):
                raise Unsupported('sorting with a key')
            self._set(sorted_ints(self.rope).segs)
            return
        xs = [x for x in self.rope]
        if deep_symbolic(xs):
            raise Unsupported('sorting symbolic values')
        xs.sort(**kw)
        self._set([Lit(tuple(xs))])

    def index(self, x, *a):
        xs = [y for y in self.rope]
        return xs.index(x, *a)

    def remove(self, x):
        xs = [y for y in self.rope]
        xs.remove(x)
        self._set([Lit(tuple(xs))])

    def __add__(self, o):
        if kind_of(o) != 'list':
            raise TypeError('can only concatenate list')
        return SList(self.rope.segs + segs_of(o))

    def __radd__(self, o):
        return SList(segs_of(o) + self.rope.segs)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SList(slice_segs(self.rope.segs, i))
        return index_segs(self.rope.segs, i)

    def __setitem__(self, i, v):
        segs = self.rope.segs
        n = seqlen(segs)
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('slice step')
            a = norm_index(i.start, n, 0)
            b = norm_index(i.stop, n, n)
            l, r = cut(segs, a)
            if cond_lt(a, b):
                _, r = cut(r, lval(lsub(b, a)))
            if kind_of(v) in ('list', 'tuple'):
                mid = segs_of(v)
            else:
                mid = [Lit(tuple(v))]
            self._set(l + mid + r)
            return
        index_segs(segs, i)     # bounds
        i = lval(ti(i)) if isinstance(i, SInt) else i
        if cond_lt(i, 0):
            i = lval(ladd(i, n))
        l, r = cut(segs, i)
        _, r = cut(r, 1)
        self._set(l + [Lit((v,))] + r)

    def __delitem__(self, i):
        if isinstance(i, slice):
            self[i] = []
        else:
            self.pop(i)

    def __eq__(self, o):
        if kind_of(o) != 'list':
            return False
        return mkbool(_tb(segs_eq(self.rope.segs, segs_of(o), False)))

    def __ne__(self, o):
        r = self == o
        if isinstance(r, bool):
            return not r
        return mkbool(z3.Not(r.t))

    def __reversed__(self):
        return iter([x for x in self.rope][::-1])

    def __contains__(self, x):
        return any(x == y for y in self.rope)

    __hash__ = None


def slist(items=()):
    return SList([Lit(tuple(items))] if items else [])


class SDeque(SList):

    def rotate(self, n):
        raise Unsupported('rotate')


class SIter(object):
    ''' iterator over a sequence value '''

    def __init__(self, seq, pos=0, name=None):
        self.seq = seq
        self.pos = pos
        self.on_next = None
        self.name = name
        if core.E is not None and core.E.solver is not None:
            core.E.born(self)
            if name:
                core.E.named_iters.append(self)

    def segs(self):
        return segs_of(self.seq)

    def kind(self):
        return kind_of(self.seq)

    def n(self):
        return seqlen(self.segs())

    def symbolic(self):
        return (not isinstance(self.n(), int)
                or not isinstance(self.pos, int))

    def __iter__(self):
        return self

    def __next__(self):
        self.steps = getattr(self, 'steps', 0) + 1
        if self.steps > 1000 and self.symbolic():
            raise core.Unsupported('unbounded iteration')
        if not cond_lt(self.pos, self.n()):
            raise StopIteration
        v = index_segs(self.segs(), mkint(ti(self.pos)))
        p = self.pos
        eng().touch(self)
        self.pos = lval(ladd(self.pos, 1))
        if self.on_next is not None:
            self.on_next(mkint(ti(p)), v)
        return wrap_item(self.kind(), v)


class SRange(object):
    def __init__(self, start, stop):
        self.start = start
        self.stop = stop
        n = lval(ti(stop) - ti(start))
        self.base = Base('range', 'list', n,
                         lambda i: mkint(ti(start) + ti(i)))

    def seq(self):
        n = self.base.n
        if cond_le(n, 0):
            return Rope('list', [])
        return Rope('list', [View(self.base, 0, n)])

    def __iter__(self):
        return SIter(self.seq())


# -- streams ------------------------------------------------------------------

class SFile(object):
    ''' a seekable readable byte stream with symbolic contents '''

    def __init__(self, content, pos=0):
        self.content = content
        self.pos = pos
        self.closed_ = False
        eng().born(self)

    def _segs(self):
        return segs_of(self.content)

    def read(self, size=-1):
        segs = self._segs()
        n = seqlen(segs)
        p = self.pos
        if size is None:
            size = -1
        size = lval(ti(size)) if isinstance(size, SInt) else int(size)
        eng().touch(self)
        if not cond_le(p, n):
            return b''
        if cond_lt(size, 0):
            end = n
        else:
            end = lval(ladd(p, size))
            if cond_lt(n, end):
                end = n
        _, rest = cut(segs, p)
        got, _ = cut(rest, lval(lsub(end, p)))
        self.pos = end
        return mkseq('bytes', got)

    def tell(self):
        return mkint(ti(self.pos))

    def seek(self, pos, whence=0):
        eng().touch(self)
        if whence == 0:
            self.pos = lval(ti(pos))
        elif whence == 1:
            self.pos = lval(ladd(self.pos, lval(ti(pos))))
        else:
            self.pos = lval(ladd(seqlen(self._segs()), lval(ti(pos))))
        return mkint(ti(self.pos))

    def close(self):
        self.closed_ = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SOut(object):
    ''' a write-only stream collecting what is written '''

    def __init__(self, kind='bytes'):
        self.kind = kind
        self.segs = []
        eng().born(self)

    def write(self, x):
        if kind_of(x) != self.kind:
            raise TypeError('write %s to a %s stream' % (kind_of(x),
                                                         self.kind))
        eng().touch(self)
        self.segs = normal(self.segs + segs_of(x))

    def value(self):
        return mkseq(self.kind, self.segs)

    def flush(self):
        pass

    def close(self):
        pass


class SBytesIO(SFile):
    ''' io.BytesIO '''

    def getvalue(self):
        return self.content

    def write(self, x):
        n = seqlen(self._segs())
        if not cond_eq(self.pos, n):
            raise Unsupported('overwriting a BytesIO')
        eng().touch(self)
        self.content = mkseq('bytes', self._segs() + segs_of(x))
        self.pos = seqlen(self._segs())
        return mkint(ti(seqlen(segs_of(x))))

    def __iter__(self):
        raise Unsupported('lines of a BytesIO')


class TaggedInt(SInt):
    ''' a symbolic instance of a subclass of int '''
    __slots__ = ('pytype',)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        for c in self.pytype.__mro__:
            if name in c.__dict__:
                d = c.__dict__[name]
                if hasattr(type(d), '__get__'):
                    return d.__get__(self, self.pytype)
                return d
        raise AttributeError(name)


def mktagged(x, cls):
    r = TaggedInt(x.t, x.tz, x.origin)
    r.pytype = cls
    return r


def reversed_iter(x):
    segs = segs_of(x)
    n = seqlen(segs)
    b = Base('reversed', 'list', n, lambda i: wrap_item(
        kind_of(x), index_segs(segs, mkint(ti(n) - 1 - ti(i)))))
    return SIter(Rope('list', [View(b, 0, n)]))


def enumerated(it, start):
    segs = it.segs()
    n = lval(lsub(it.n(), it.pos))
    p0 = it.pos
    kind = it.kind()
    b = Base('enumerate', 'list', n, lambda i: (
        mkint(ti(start) + ti(i)),
        wrap_item(kind, index_segs(segs, mkint(ti(p0) + ti(i))))))
    eng().touch(it)
    it.pos = it.n()
    return SIter(Rope('list', [View(b, 0, n)]))


def islice(it, *a):
    if len(a) == 1:
        start, stop = 0, a[0]
    elif len(a) == 2:
        start, stop = a
        start = 0 if start is None else start
    else:
        raise Unsupported('islice step')
    e = eng()
    for b in (start, stop):
        if b is not None and not e.branch(ti(b) >= 0):
            raise ValueError('Indices for islice() must be None or >= 0')
    segs = it.segs()
    if not teq(it.pos, 0):
        _, segs = cut(segs, it.pos)
    n = seqlen(segs)
    start = lval(ti(start))
    if not cond_le(start, n):
        start = n
    stop = n if stop is None else lval(ti(stop))
    if not cond_le(stop, n):
        stop = n
    if not cond_le(start, stop):
        sub = []
    else:
        sub, _ = cut(segs, stop)
        _, sub = cut(sub, start)
    # the parent is taken to be used by the slice alone
    e.touch(it)
    it.pos = it.n()
    it.taken = True
    return SIter(Rope('list', sub))


def join_characters(sep, it):
    ''' ''.join of a list whose items are the characters of a text, and
    literal texts '''
    if not (isinstance(sep, str) and sep == ''):
        return None
    if isinstance(it, SIter):
        return None
    out = []
    for g in segs_of(it):
        if g.lit:
            for x in g.items:
                if kind_of(x) != 'str':
                    return None
                out.extend(segs_of(x))
        else:
            t = getattr(g.base, 'text', None)
            if t is None:
                return None
            out.append(View(t, g.lo, g.hi))
    return mkseq('str', out)


def characters(text):
    ''' the list of the characters of a symbolic text (one view) '''
    g, = text.segs
    b = Base(g.base.name + '.chars', 'list', g.base.n,
             lambda i: mkseq('str', [View(g.base, i, ladd(lval(ti(i)), 1))]))
    b.text = g.base
    return Rope('list', [View(b, g.lo, g.hi)])


JOINERS = [join_characters]


def join_symbolic(sep, it):
    for f in list(eng().joiners) + JOINERS:
        r = f(sep, it)
        if r is not None:
            return r
    raise Unsupported('joining a symbolic number of pieces')


OPAQUE = {}


def opaque_of(what, *args):
    f = getattr(eng(), 'opaque', {}).get(what)
    if f is not None:
        return f(*args)
    raise Unsupported('opaque %s' % what)


# -- helpers for contracts ----------------------------------------------------

def fresh_int(name, lo=None, hi=None):
    e = eng()
    t = z3.Int(e.fresh(name))
    if lo is not None:
        e.assume(t >= ti(lo))
    if hi is not None:
        e.assume(t <= ti(hi))
    return SInt(t)


def fresh_bool(name):
    return SBool(z3.Bool(eng().fresh(name)))


def fresh_bytes(name, n=None):
    if n is None:
        n = fresh_int('len_' + name, lo=0)
    n = lval(ti(n))
    b = new_bytes_base(eng().fresh(name), n)
    return mkseq('bytes', [View(b, 0, n)])


def fresh_text(name, n=None, **kw):
    if n is None:
        n = fresh_int('len_' + name, lo=0)
    n = lval(ti(n))
    b = new_text_base(eng().fresh(name), n, **kw)
    return mkseq('str', [View(b, 0, n)])


def implies(a, b):
    return z3.Implies(tb(a), tb(b))
