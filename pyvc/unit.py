''' Proof units and their runner. '''
import os
import re
import resource
import sys
import time
import traceback

from . import core
from .concrete import text_of
from . import hooks
from .core import Engine, Failed, PathEnd, Unsupported

UNITS = {}


class Unit(object):
    def __init__(self, prop, name, fn, funcs, covers, notes, max_paths,
                 max_seconds):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.funcs = funcs
        self.covers = covers
        self.notes = notes
        self.max_paths = max_paths
        self.max_seconds = max_seconds


def unit(prop, funcs=(), covers=(), notes=(), max_paths=4000,
         max_seconds=240):
    ''' a proof unit: `funcs' are the functions whose contract it proves '''
    def deco(fn):
        UNITS.setdefault(prop, []).append(
            Unit(prop, fn.__name__, fn, list(funcs), list(covers),
                 list(notes), max_paths, max_seconds))
        return fn
    return deco


ENGINE_NAMES = ('SInt', 'SBool', 'Rope', 'SVal', 'SList', 'SClass', 'SIter',
                'SFloatQuotient', 'Poison', 'ElemTuple', 'ElemDict', 'SFile',
                'SBytesIO', 'SRange', 'SDeque', 'SOut', 'TaggedInt',
                'z3', 'Seg', 'Base')
REAL_FROM = {'getitem', 'setitem', 'delitem', 'call', 'next', 'index_segs',
             '__getitem__', '__setitem__', 'pop', 'popleft', 'm_unpack',
             'm_pack', 'm_ord', '__next__', 'mod', '__add__', '__radd__',
             'm_dict_pop', 'm_next', 'm_join', 'remove', 'index', 'islice',
             'dict_lookup', 'm_int', 'write'}


def real_exception(ex):
    ''' was it raised by the code under verification? '''
    text = str(ex)
    if isinstance(ex, (NameError, RecursionError, MemoryError, SystemError,
                       NotImplementedError)):
        return False
    if any(n in text for n in ENGINE_NAMES):
        return False
    if isinstance(ex, AttributeError):
        # a stand-in for an object of the code lacks what is asked of it
        o = getattr(ex, 'obj', None)
        for t in (o if isinstance(o, type) else None, type(o)):
            if t is not None and (t.__module__ or '').startswith(
                    ('contracts', 'pyvc')):
                return False
    if isinstance(ex, TypeError) and set(re.findall(r'\w+', text)) & {
            n for m, mod in list(sys.modules.items())
            if m.startswith('contracts') and mod is not None
            for n, c in vars(mod).items() if isinstance(c, type)
            and c.__module__ == m}:
        return False    # a stand-in cannot be used in this way
    if isinstance(ex, TypeError) and 'argument' in text \
            and '<locals>' in text:
        return False    # a contract does not know this way of calling it
    tb = traceback.extract_tb(ex.__traceback__)
    i = len(tb) - 1
    while i >= 0:
        fr = tb[i]
        if '/hwp5/' in fr.filename:
            return True
        if '/pyvc/' in fr.filename and fr.name in REAL_FROM:
            i -= 1
            continue
        return False
    return False


def run_unit(u):
    t0 = time.time()
    e = Engine(u.name, max_paths=u.max_paths, max_seconds=u.max_seconds)
    core.set_engine(e)
    unsupported = None

    def run(e):
        e.declare_cover(*u.covers)
        try:
            u.fn(e)
        except Exception as ex:
            if real_exception(ex):
                try:
                    e.fail('no unexpected exception', text_of(ex)[-1500:])
                except Failed:
                    raise
            tb = text_of(ex)
            raise Unsupported('engine: ' + tb[-1200:])
    try:
        e.explore(run)
    except Unsupported as ex:
        unsupported = str(ex)
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    except Exception:
        unsupported = traceback.format_exc()[-1500:]
    finally:
        e.solver = None
        core.set_engine(None)
    obs = {}
    for o in e.obligations:
        r = obs.setdefault(o.name, dict(name=o.name, n=0, proved=0,
                                        failed=0, unknown=0, detail='',
                                        case=None, backends={}, seconds=0.0))
        r['n'] += 1
        r[o.status] += 1
        r['seconds'] += o.seconds
        r['backends'][o.backend] = r['backends'].get(o.backend, 0) + 1
        if o.status != 'proved' and not r['detail']:
            r['detail'] = o.detail
        if o.case is not None and r['case'] is None:
            r['case'] = repr(o.case)
    return dict(
        unit=u.name, funcs=u.funcs, notes=u.notes,
        obligations=list(obs.values()),
        covers=e.covers, unsupported=unsupported, paths=e.paths,
        queries=e.queries, solver_seconds=e.solver_seconds,
        inlined=sorted(x for x in e.inlined if x),
        contracts_used=sorted(x for x in e.contracts_used if x),
        loops=sorted(e.loops_cut), wall=time.time() - t0)
