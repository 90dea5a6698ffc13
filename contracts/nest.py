''' Well-nested event streams, symbolically: what every restructuring stage is
given and what it has to give.

The elements of a stream are numbered by the position of their START. The
output is followed with two ghost stacks ordered by one key: the element that
was open at depth d of the input has key 2d (depths count from 1), what a
stage opens in addition at level L (in front of the elements of depth L) has
key 2L - 1. An output is well nested if every START has a key above all that
is open and every END ends what has the highest key. '''
import z3

from pyvc import values as V
from pyvc.values import eng
from pyvc.values import (SInt, SVal, SIter, Rope, View, Base, ti, mkint,
                         fresh_int)
from .common import prove_eq, fresh_list

I = z3.IntSort()


class SChoice(V.SClass):
    ''' one of several classes, decided by an integer term '''

    def __init__(self, t, classes, name='?'):
        V.SClass.__init__(self, classes, name)
        self.all = classes
        self.t_ = t

    def term(self, pred):
        ''' the condition that pred holds of the class '''
        yes = [i for i, c in enumerate(self.all) if pred(c)]
        if len(yes) * 2 > len(self.all):
            return z3.Not(z3.Or([self.t_ == i for i in range(len(self.all))
                                 if i not in yes]))
        return z3.Or([self.t_ == i for i in yes])

    def narrow(self, pred):
        yes = [c for c in self.c if pred(c)]
        no = [c for c in self.c if not pred(c)]
        if not no:
            return True
        if not yes:
            return False
        r = eng().branch(self.term(pred))
        self.c = yes if r else no
        return r

    def is_(self, o):
        if isinstance(o, SChoice) and o.all is self.all:
            if o is self or o.t_.eq(self.t_):
                return True
            return eng().branch(self.t_ == o.t_)
        return V.SClass.is_(self, o)

    def the(self):
        while len(self.c) > 1:
            first = self.c[0]
            self.narrow(lambda c: c is first)
        return self.c[0]


class Name(object):
    ''' a name, known only to be or not to be one '''

    def __init__(self, name, cond):
        self.name, self.cond = name, cond

    def __eq__(self, o):
        if o == self.name:
            return V.mkbool(self.cond)
        raise V.Unsupported('a name is compared with %r' % (o,))

    def __ne__(self, o):
        if o == self.name:
            return V.mkbool(z3.Not(self.cond))
        raise V.Unsupported('a name is compared with %r' % (o,))

    __hash__ = None


class Slots(object):
    ''' what a stage keeps by key for an open element, as a function '''

    def __init__(self, e, read, write):
        self.e, self.read, self.write = e, read, write

    def __setitem__(self, key, v):
        self.write(self, key, v)

    def get(self, key, default=None):
        v = self.read(self, key)
        return default if v is None else v

    def __getitem__(self, key):
        v = self.read(self, key)
        if v is None:
            raise KeyError(key)
        return v


class Stream(object):
    ''' an arbitrary well-nested stream of (event, (model, attributes,
    context)). dep(i): open elements before event i; own(i): the element of
    event i '''

    def __init__(self, E, name, classes, fields=None, lo=0, start=0):
        from hwp5.treeop import STARTEVENT, ENDEVENT
        self.E, self.name, self.classes = E, name, classes
        self.fields = fields
        self.n = fresh_int('n_' + name, 0)
        self.dep = z3.Function(E.fresh('dep_' + name), I, I)
        self.st = z3.Function(E.fresh('start_' + name), I, z3.BoolSort())
        self.own = z3.Function(E.fresh('own_' + name), I, I)
        # inn(i): the innermost element open before event i, or -1;
        # par(e): the innermost element open when e starts, or -1
        self.inn = z3.Function(E.fresh('innermost_' + name), I, I)
        self.par = z3.Function(E.fresh('parent_' + name), I, I)
        self.kind = z3.Function(E.fresh('model_' + name), I, I)
        self.lo = lo
        E.assume(self.dep(0) == start)
        self.els = Base('elements of ' + name, 'list', ti(self.n), self._el)
        box = {}

        def elem(i):
            t = ti(i)
            self.at(t)
            ev = V.SEither(self.st(t), STARTEVENT, ENDEVENT, 'event')
            return V.elemtuple(box['b'], i, (ev, self.item(self.own(t))))
        self.b = box['b'] = Base(name, 'list', ti(self.n), elem)
        self.it = SIter(Rope('list', [View(self.b, 0, ti(self.n))]),
                        name=name)

    def at(self, t):
        ''' what holds of event t '''
        t = ti(t)
        E, dep, st, own = self.E, self.dep, self.st, self.own
        o = own(t)
        E.assume(z3.Implies(z3.And(t >= 0, t < ti(self.n)), z3.And(
            dep(t) >= self.lo, dep(t + 1) >= self.lo,
            dep(t + 1) == dep(t) + z3.If(st(t), 1, -1),
            z3.If(st(t), o == t, z3.And(
                o >= 0, o < t, st(o), own(o) == o,
                dep(o) == dep(t) - 1)))))

    def chain(self, t):
        ''' what holds of the elements open at event t '''
        t = ti(t)
        E, dep, st, own = self.E, self.dep, self.st, self.own
        inn, par = self.inn, self.par
        E.assume(z3.Implies(z3.And(t >= 0, t < ti(self.n)), z3.And(
            z3.If(st(t), z3.And(par(t) == inn(t), inn(t + 1) == t),
                  z3.And(own(t) == inn(t), inn(t + 1) == par(own(t)))))))
        E.assume(z3.Implies(z3.And(t >= 0, t <= ti(self.n)), z3.And(
            inn(t) < t, inn(t) >= -1, (inn(t) == -1) == (dep(t) == 0))))
        for e in (inn(t), own(t)):
            self.link(e)

    def link(self, e):
        ''' what holds of element e and its parent '''
        E, dep, st, par = self.E, self.dep, self.st, self.par
        E.assume(z3.Implies(z3.And(e >= 0, e < ti(self.n)), z3.And(
            st(e), self.own(e) == e, par(e) >= -1, par(e) < e,
            (par(e) == -1) == (dep(e) == 0))))

    def _el(self, e):
        t = ti(e)
        k = self.kind(t)
        self.E.assume(z3.And(k >= 0, k < len(self.classes)))
        model = SChoice(k, self.classes, 'model')
        attrs = V.elemdict(self.els, e)
        if self.fields:
            attrs.update(self.fields(e, model))
        self.E.born(attrs)
        ctx = SVal('ctx_' + self.name, e)
        return V.elemtuple(self.els, e, (model, attrs, ctx))

    def item(self, e):
        return self.els.elem(mkint(ti(e)))

    def is_(self, e, pred):
        ''' the condition that the model of element e satisfies pred '''
        return self.item(e)[0].term(pred)

    def cur(self):
        return mkint(ti(self.it.pos) - 1)

    def starts(self, event):
        ''' is it a START? '''
        from hwp5.treeop import STARTEVENT, ENDEVENT
        if self.E.branch(V.tb(V.same(event, STARTEVENT))):
            return True
        if not self.E.branch(V.tb(V.same(event, ENDEVENT))):
            self.E.fail('a start or an end', repr(event))
        return False

    def element(self, item):
        ''' which element an item given by the code is, part by part '''
        if not isinstance(item, tuple) or len(item) != 3:
            self.E.fail('an item is a triple', repr(type(item)))
        if isinstance(item, V.ElemTuple) and item.base is self.els:
            return ti(item.idx)
        attrs = item[1]
        if not (isinstance(attrs, V.ElemDict) and attrs.base is self.els):
            return None
        e = ti(attrs.idx)
        want = self.item(e)
        for a, b in zip(item, want):
            if a is b:
                continue
            r = V.same(a, b)
            if isinstance(r, bool):
                if not r:
                    self.E.fail('a part of the item is replaced')
            else:
                self.E.prove(V.tb(r), 'the parts of one item')
        return e


class Nest(object):
    ''' follows the output of a stage.

    ghosts: d: input elements open in the output (or dropped); ex: what the
    stage opened in addition and has not ended, as (level, item), levels
    increasing '''

    def __init__(self, E, S, top=0):
        self.E, self.S = E, S
        E.G.declare(d=top, ex=Rope('list', []), passed=0)

    @property
    def G(self):
        return self.E.G

    def top(self):
        ''' level of the innermost extra, or None '''
        ex = self.G.ex
        if self.E.branch(ti(ex.slen()) == 0):
            return None
        return ti(ex[-1][0])

    def havoc(self, make, lo=1):
        ''' an arbitrary stack of extras; make(j, level) is the item '''
        E = self.E
        d = z3.Int(E.fresh('extras'))
        E.assume(d >= 0)
        lev = z3.Function(E.fresh('lev'), I, I)

        def elem(j, tag):
            t = ti(j)
            E.assume(z3.Implies(z3.And(t >= 0, t < d), z3.And(
                lev(t) >= lo,
                z3.Implies(t > 0, z3.And(lev(t - 1) < lev(t),
                                         lev(t - 1) >= lo)),
                z3.Implies(t + 1 < d, lev(t) < lev(t + 1)))))
            return (SInt(lev(t)), make(j, lev(t)))
        self.G.ex = fresh_list(E, 'extras', mkint(d), elem)

    def below(self, bound, what):
        ''' all extras are at levels of at most bound '''
        t = self.top()
        if t is not None:
            self.E.prove(t <= ti(bound), what)

    def bounded(self, L, bound, what='no extra is deeper than what is open'):
        if L.mode == 'havoc':
            t = self.top()
            if t is not None:
                self.E.assume(t <= ti(bound))
        else:
            t = self.top()
            if t is not None:
                L.prove(t <= ti(bound), what)

    # -- the output

    def start(self):
        ''' the START of the current input element is given '''
        self.below(ti(self.G.d) + 1, 'a start is inside all that is open')
        self.G.d = mkint(ti(self.G.d) + 1)

    def end(self):
        ''' the END of the current input element is given '''
        self.below(self.G.d, 'an end is of what is open innermost')
        self.G.d = mkint(ti(self.G.d) - 1)

    def push(self, level, item):
        ''' an extra is started '''
        E = self.E
        self.below(ti(level) - 1, 'an extra is inside the others')
        E.prove(ti(level) >= 1, 'levels count from 1')
        E.prove(ti(self.G.d) <= ti(level) - 1,
                'an extra is started inside all that is open')
        from .c04 import append
        self.G.ex = append(self.G.ex, (mkint(ti(level)), item))

    def pop(self):
        ''' the innermost extra is ended: returns (level, item) '''
        E = self.E
        E.prove(ti(self.G.ex.slen()) > 0, 'something is ended that is open')
        lev, item = self.G.ex[-1]
        E.prove(ti(self.G.d) <= ti(lev) - 1,
                'an extra is ended after all that is inside it')
        self.G.ex = self.G.ex[:-1]
        return lev, item
