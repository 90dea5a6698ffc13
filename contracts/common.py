''' Shared vocabulary of the contracts (proof side). '''
import z3

from pyvc import values as V
from pyvc.core import Unsupported
from pyvc.values import (SInt, SBool, SVal, SFile, SOut, SList, SIter, Rope, ti, tb,
                         fresh_int, fresh_bytes, fresh_text, fresh_bool,
                         segs_eq, segs_of, kind_of, mkint, mkseq, View, Lit,
                         Base, value_eq)


def eqterm(a, b):
    r = value_eq(a, b, True)
    return z3.BoolVal(r) if isinstance(r, bool) else r


def prove_eq(E, a, b, name):
    if kind_of(a) != kind_of(b):
        ka, kb = kind_of(a), kind_of(b)
        if not ({ka, kb} <= {'list', 'tuple'} and ka and kb):
            E.fail(name, 'types %r and %r' % (type(a).__name__,
                                              type(b).__name__))
    if kind_of(a) is not None:
        r = segs_eq(segs_of(a), segs_of(b), True)
        E.prove(z3.BoolVal(r) if isinstance(r, bool) else r, name)
        return
    E.prove(eqterm(a, b), name)


def model_int(model, x):
    if isinstance(x, int):
        return x
    return model.eval(ti(x), model_completion=True).as_long()


# -- symbolic event streams ---------------------------------------------------

class Other(object):
    ''' a model class the code knows nothing about '''


def all_models():
    ''' every class defined in the instrumented model modules, and one more '''
    import sys
    out = []
    for name, m in sorted(sys.modules.items()):
        if name == 'hwp5.xmlmodel' or name == 'hwp5.binmodel' \
                or name.startswith('hwp5.binmodel.'):
            for k, v in sorted(m.__dict__.items()):
                if isinstance(v, type) and v not in out \
                        and (v.__module__ or '').startswith('hwp5.'):
                    out.append(v)
    out.append(Other)
    return out


def event_stream(E, name, classes, fields=None, kinds=None, native=False):
    ''' an arbitrary stream of (event, (model, attributes, context)):
    returns (sequence, length, elem) '''
    from hwp5.treeop import STARTEVENT, ENDEVENT
    n = fresh_int('n_' + name, 0)
    box = {}

    def elem(i):
        ev = V.SClass((kinds or [STARTEVENT, ENDEVENT]), 'event')
        model = V.SClass(classes, 'model')
        attrs = V.elemdict(box['b'], i)
        if fields:
            attrs.update(fields(i, ev, model))
        E.born(attrs)
        ctx = SVal('ctx_' + name, i)
        item = V.elemtuple(('item', name), i, (model, attrs, ctx))
        return V.elemtuple(box['b'], i, (ev, item))
    b = Base(name, 'list', ti(n), elem)
    box['b'] = b
    return Rope('list', [View(b, 0, ti(n))]), n, b.elem


def same_item(E, got, want, what):
    ''' got (model, attributes, context) is want, part by part '''
    if got is want:
        return True
    if not isinstance(got, tuple) or len(got) != len(want):
        E.fail(what, 'not the item')
    for a, b in zip(got, want):
        if a is b:
            continue
        r = V.same(a, b)
        if isinstance(r, bool):
            if not r:
                if isinstance(a, (int, str)) and a == b:
                    continue
                E.fail(what, 'a part of the item is replaced')
        else:
            E.prove(tb(r), what)
    return True


def over(it):
    return lambda L: L.it is it


def nested_events(E, name, item=None):
    ''' an arbitrary stream of (event, item) whose depth never gets below 0;
    dep(i) is the number of open elements before event i.
    returns (sequence, n, elem, dep, isstart) '''
    from hwp5.treeop import STARTEVENT, ENDEVENT
    n = fresh_int('n_' + name, 0)
    dep = z3.Function(E.fresh('dep_' + name), z3.IntSort(), z3.IntSort())
    st = z3.Function(E.fresh('start_' + name), z3.IntSort(), z3.BoolSort())
    E.assume(dep(0) == 0)
    box = {}

    def elem(i):
        t = ti(i)
        E.assume(z3.And(dep(t) >= 0, dep(t + 1) >= 0,
                        dep(t + 1) == dep(t) + z3.If(st(t), 1, -1)))
        ev = V.SEither(st(t), STARTEVENT, ENDEVENT, 'event')
        it = item(i) if item else SVal('item_' + name, i)
        return V.elemtuple(box['b'], i, (ev, it))
    b = Base(name, 'list', ti(n), elem)
    box['b'] = b
    return Rope('list', [View(b, 0, ti(n))]), n, b.elem, dep, st


def fresh_list(E, name, n, elem):
    ''' a list of n items; elem(i, tag) makes item i '''
    tag = E.fresh(name)
    b = Base(tag, 'list', ti(n), lambda i: elem(i, tag))
    return Rope('list', [View(b, 0, ti(n))])


def open_list(E, name, family, depth, hi):
    ''' depth items of a family, with arbitrary indices below hi '''
    f = z3.Function(E.fresh('idx_' + name), z3.IntSort(), z3.IntSort())

    def elem(i, tag):
        v = f(ti(i))
        E.assume(z3.And(v >= 0, v < ti(hi)))
        return SVal(family, SInt(v))
    return fresh_list(E, name, depth, elem)


_EACH = {}


def each(it):
    ''' iterate over what the code returned: generators of the code cut
    their own loops; a symbolic iterator is cut here '''
    if not isinstance(it, (SIter, Rope, SList)):
        return it
    if 'each' not in _EACH:
        from pyvc import instr, hooks
        ns = {instr.H: hooks.HOOKS, '__name__': 'contracts.each'}
        exec(instr.instrument(
            'def each(it):\n    for x in it:\n        yield x\n',
            '<each>', 'contracts.each'), ns)
        _EACH.update(ns)
    return _EACH['each'](it)
