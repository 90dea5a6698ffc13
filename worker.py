''' One process of a check: proof units on the instrumented code, or concrete
cases on the code as it is. '''
import argparse
import ast
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, HERE)
if '/opt/venv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/venv/lib/python3.12/site-packages')
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
sys.setrecursionlimit(6000)


def units_main(prop, name):
    from pyvc import instr
    instr.install(os.path.join(REPO, 'src'))
    import logging
    logging.disable(logging.CRITICAL)
    from pyvc import unit
    preload()
    importlib.import_module('contracts.%s' % prop.lower())
    us = [u for u in unit.UNITS.get(prop, ()) if name in (None, u.name)]
    return [unit.run_unit(u) for u in us]


def preload():
    ''' import every module before an engine is active '''
    root = os.path.join(REPO, 'src', 'hwp5')
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for fn in sorted(files):
            if not fn.endswith('.py') or fn == '__main__.py':
                continue
            rel = os.path.relpath(os.path.join(d, fn), root)[:-3]
            name = 'hwp5.' + rel.replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            try:
                importlib.import_module(name)
            except Exception:
                pass


def list_units(prop):
    from pyvc import unit
    importlib.import_module('contracts.%s' % prop.lower())
    return [u.name for u in unit.UNITS.get(prop, ())]


class CaseTimeout(BaseException):
    pass


def unusable(ex):
    ''' Did the check fail because a result is not of the kind it has to be?
    (A missing module attribute or method or a changed signature is a
    renaming: the case is skipped.) '''
    if isinstance(ex, AttributeError):
        o = getattr(ex, 'obj', ex)
        if getattr(ex, 'name', None) in ('open', 'read', 'close', 'write'):
            return True     # no stream
        return o is None or type(o).__module__ == 'builtins' \
            and not isinstance(o, (type, type(sys), type(unusable)))
    if isinstance(ex, TypeError):
        s = str(ex)
        return not ('argument' in s or 'callable' in s)
    return isinstance(ex, (LookupError, ValueError, ArithmeticError,
                           StopIteration, AssertionError))


def on_alarm(*a):
    raise CaseTimeout()


def cases_main(prop, k, n, seconds, only=None):
    sys.path.insert(0, os.path.join(REPO, 'src'))
    import logging
    logging.disable(logging.CRITICAL)
    from pyvc import concrete
    m = importlib.import_module('contracts.%s' % prop.lower())
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    signal.signal(signal.SIGALRM, on_alarm)
    t0 = time.time()
    res = dict(evaluations=0, skipped=0, failures=[], samples=[], kinds={},
               distinct=0, exhausted=True)
    seen = set()
    if only is not None:
        gen = [only]
    else:
        gen = m.cases(random.Random(seed * 1000003 + 17), tier)
    for i, case in enumerate(gen):
        if only is None and i % n != k:
            continue
        if time.time() - t0 > seconds:
            res['exhausted'] = False
            break
        r = repr(case)
        kind = case[0] if isinstance(case, tuple) and case else '?'
        msg = None
        signal.alarm(20)
        try:
            msg = m.check_case(case)
        except concrete.Unavailable as ex:
            res['skipped'] += 1
            res.setdefault('unavailable', {}).setdefault(str(ex), 0)
            res['unavailable'][str(ex)] += 1
            continue
        except CaseTimeout:
            msg = 'does not terminate within 20 s'
        except MemoryError:
            msg = 'runs out of memory'
        except (Exception, SystemExit) as ex:
            tb = concrete.text_of(ex)
            if '/hwp5/' in tb or isinstance(ex, SystemExit) or unusable(ex):
                msg = 'raises %r\n%s' % (ex, tb[-1500:])
            else:
                msg = None
                res['skipped'] += 1
                res['harness_error'] = tb[-1500:]
                continue
        finally:
            signal.alarm(0)
        res['evaluations'] += 1
        res['kinds'][kind] = res['kinds'].get(kind, 0) + 1
        h = hash(r)
        if h not in seen:
            seen.add(h)
        if len(res['samples']) < 3 and len(r) < 600:
            res['samples'].append(r)
        if msg is not None:
            res['failures'].append(dict(case=r, message=str(msg)[:3000]))
            if len(res['failures']) >= 20:
                break
    res['distinct'] = len(seen)
    res['wall'] = time.time() - t0
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('what', choices=['units', 'list', 'cases', 'case'])
    ap.add_argument('prop')
    ap.add_argument('--unit')
    ap.add_argument('--k', type=int, default=0)
    ap.add_argument('--n', type=int, default=1)
    ap.add_argument('--seconds', type=float, default=30)
    ap.add_argument('--case')
    ap.add_argument('--out')
    a = ap.parse_args()
    if a.what == 'units':
        r = units_main(a.prop, a.unit)
    elif a.what == 'list':
        r = list_units(a.prop)
    elif a.what == 'cases':
        r = cases_main(a.prop, a.k, a.n, a.seconds)
    else:
        r = cases_main(a.prop, 0, 1, 60, ast.literal_eval(a.case))
    text = json.dumps(r)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(text)
    else:
        print(text)


if __name__ == '__main__':
    main()
