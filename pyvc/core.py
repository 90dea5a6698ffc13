''' Path exploration, proof obligations, loop cutting. '''
import os
import subprocess
import tempfile
import time
import traceback

import z3


class PathEnd(BaseException):
    ''' this path is finished (infeasible, or closed at a loop head) '''


class Unsupported(BaseException):
    ''' the code left the fragment the engine understands '''


class Failed(BaseException):
    ''' an obligation failed; the path is abandoned '''


class Obligation(object):
    __slots__ = ('name', 'status', 'detail', 'backend', 'seconds', 'case',
                 'path')

    def __init__(self, name, status, detail='', backend='', seconds=0.0,
                 case=None, path=None):
        self.name = name
        self.status = status    # proved | failed | unknown
        self.detail = detail
        self.backend = backend
        self.seconds = seconds
        self.case = case
        self.path = path


class Ghost(object):
    ''' ghost state: named values the monitors keep; havocked at loop cuts '''

    def __init__(self):
        object.__setattr__(self, '_names', [])

    def declare(self, **kw):
        for k, v in kw.items():
            if k not in self._names:
                self._names.append(k)
            object.__setattr__(self, k, v)

    def __setattr__(self, k, v):
        if k not in self._names:
            self._names.append(k)
        object.__setattr__(self, k, v)


SOLVER_TIMEOUT_MS = 20000


class Engine(object):

    def __init__(self, unit_name, max_paths=4000, max_seconds=400):
        self.unit_name = unit_name
        self.max_paths = max_paths
        self.max_seconds = max_seconds
        self.obligations = []
        self.covers = {}
        self.paths = 0
        self.solver_seconds = 0.0
        self.queries = 0
        self.assumptions = []
        self.inlined = set()
        self.contracts_used = set()
        self.loops_cut = set()
        self.loops_unrolled = set()
        self.shapes = {}        # loop key -> {var: set of shapes}
        self.failed_cands = set()
        self.rerun = False
        self.bound_notes = set()
        self.distinct = set()
        self.distinct_values = set()

    # -- exploration ------------------------------------------------------

    def explore(self, run):
        ''' run `run(engine)` on every feasible path '''
        while True:
            self.rerun = False
            saved = (len(self.obligations),)
            self._explore(run)
            if not self.rerun:
                return
            del self.obligations[saved[0]:]
            self.covers.clear()
            self.nreruns = getattr(self, 'nreruns', 0) + 1
            if self.nreruns > 60:
                raise Unsupported('loop shapes do not stabilise')

    def _explore(self, run):
        t0 = self.t0 = time.time()
        work = [[]]
        while work:
            prefix = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            if time.time() - t0 > self.max_seconds:
                raise Unsupported('more than %d s' % self.max_seconds)
            self.begin_path(prefix, work)
            try:
                run(self)
            except PathEnd:
                pass
            except Failed:
                pass
            finally:
                self.end_path()
            if self.rerun:
                return

    def begin_path(self, prefix, work):
        self.prefix = prefix
        self.taken = []
        self.work = work
        self.solver = z3.Solver()
        self.solver.set('timeout', SOLVER_TIMEOUT_MS)
        self.pc = []
        self.counter = {}
        self.G = Ghost()
        self.cut_stack = []
        self.iter_stack = []
        self.stamp = 0
        self.stamps = {}
        self.keep = []
        self.touched = []
        self.loop_instances = {}
        self.elem_cache = {}
        self.trace = []
        self.contracts = {}
        self.models = {}
        self.joiners = []
        self.mappers = []
        self.opaque = {}
        self.hints = []
        self.case_builder = None
        self.path_notes = []
        self.lemma_done = set()
        self.contract_off = set()
        self.depth = 0
        self.named_iters = []
        self.skolems = []

    def end_path(self):
        self.solver = None

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else '%s!%d' % (name, n)

    # -- solver -----------------------------------------------------------

    def assume(self, cond):
        cond = term(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd()
        self.pc.append(cond)
        self.solver.add(cond)

    def check(self, *conds):
        t = time.time()
        r = self.solver.check(*conds)
        self.solver_seconds += time.time() - t
        self.queries += 1
        return r

    def feasible(self):
        return self.check() != z3.unsat

    def valid(self, cond):
        ''' is it a consequence of the path condition? (no obligation) '''
        cond = term(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.check(z3.Not(cond)) == z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.taken.append(v)
            self.assume(cond if v else z3.Not(cond))
            return v
        rt = self.check(cond)
        if rt == z3.unsat:
            # forced; recorded so that replays skip the query
            self.taken.append(False)
            self.assume(z3.Not(cond))
            return False
        rf = self.check(z3.Not(cond))
        if rf == z3.unsat:
            self.taken.append(True)
            self.assume(cond)
            return True
        self.work.append(self.taken + [False])
        self.taken.append(True)
        self.assume(cond)
        return True

    def choose(self, n):
        ''' an unconstrained choice among n alternatives '''
        if n == 1:
            return 0
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.taken.append(v)
            return v
        for v in range(n - 1, 0, -1):
            self.work.append(self.taken + [v])
        self.taken.append(0)
        return 0

    def mapping(self, pairs):
        ''' a dict made of a symbolic number of (key, value) '''
        for f in self.mappers:
            r = f(pairs)
            if r is not None:
                return r
        raise Unsupported('a dict of a symbolic number of items')

    # -- obligations ------------------------------------------------------

    def cover(self, name):
        ''' this point has to be reachable '''
        if not self.covers.get(name):
            self.covers[name] = (self.check() == z3.sat)

    def declare_cover(self, *names):
        for n in names:
            self.covers.setdefault(n, False)

    def prove(self, cond, name, stop=True):
        ''' an obligation: cond follows from the path condition '''
        cond = term(cond)
        t = time.time()
        backend = 'z3'
        detail = ''
        case = None
        if z3.is_true(z3.simplify(cond)):
            status, backend = 'proved', 'simplifier'
        else:
            r = self.check(z3.Not(cond))
            if r == z3.unsat:
                status = 'proved'
            elif r == z3.sat:
                status = 'failed'
                model = self.solver.model()
                detail = '%s\ncounter-model: %s' % (
                    str(z3.simplify(cond))[:2000], str(model)[:3000])
                if self.case_builder is not None:
                    try:
                        case = self.case_builder(model)
                    except (Exception, PathEnd, Unsupported):
                        case = None
            else:
                r2 = self.second_opinion(cond)
                backend = 'cvc5'
                if r2 == 'unsat':
                    status = 'proved'
                else:
                    status = 'unknown'
                    detail = 'z3: %s, cvc5: %s' % (
                        self.solver.reason_unknown(), r2)
        dt = time.time() - t
        self.obligations.append(Obligation(
            '%s: %s' % (self.unit_name, name), status, detail, backend, dt,
            case, list(self.path_notes)))
        if status != 'proved':
            if self.cut_stack:
                # the loop invariants are still tentative: go on, so that
                # they can be weakened at the end of the iteration
                return False
            if stop:
                raise Failed()
            return False
        self.assume(cond)
        return True

    def fail(self, name, detail=''):
        case = None
        if self.check() == z3.unsat:
            raise PathEnd()
        try:
            model = self.solver.model()
            if self.case_builder is not None:
                case = self.case_builder(model)
            detail += '\ncounter-model: ' + str(model)[:3000]
        except (Exception, PathEnd, Unsupported):
            pass
        self.obligations.append(Obligation(
            '%s: %s' % (self.unit_name, name), 'failed', detail, 'z3', 0.0,
            case, list(self.path_notes)))
        raise Failed()

    def second_opinion(self, cond):
        s = z3.Solver()
        for c in self.pc:
            s.add(c)
        s.add(z3.Not(cond))
        text = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2',
                                         delete=False) as f:
            f.write(text)
        t = time.time()
        try:
            p = subprocess.run(['cvc5', '--tlimit=20000', f.name],
                               capture_output=True, text=True, timeout=40)
            out = p.stdout.strip().split('\n')[0]
        except Exception as e:
            out = repr(e)
        finally:
            os.unlink(f.name)
        self.solver_seconds += time.time() - t
        return out

    # -- mutation tracking ------------------------------------------------

    def born(self, obj):
        self.stamp += 1
        self.stamps[id(obj)] = self.stamp
        self.keep.append(obj)
        return obj

    def touch(self, obj, what=None):
        if self.cut_stack:
            self.touched.append((self.stamps.get(id(obj), 0), id(obj), obj,
                                 what))


E = None    # the active engine


def set_engine(e):
    global E
    E = e


def engine():
    return E


def term(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.ExprRef):
        return x
    t = getattr(x, 't', None)
    if t is not None:
        return t
    raise TypeError('no term: %r' % (x,))
