#!/usr/bin/env python3
''' Decide one property: `run.py C01' (see DESIGN.md).

exit 0: every obligation generated from /repo's current source is discharged
        (or is undecided and the labelled bounded stand-in found nothing) and
        the cross-check on the real code found nothing
exit 1: VIOLATION property=<id> replay=<path> [no-failing-input-found]
'''
import ast
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'
NPROC = 8
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

TRUSTED = [
    'CPython 3.12 executes the instrumented text with the semantics of the '
    'original (cross-checked by running both)',
    'pyvc (instrumentation, symbolic values, models of built-ins: /verif/pyvc)',
    'z3 5.3 (unsat answers); cvc5 where z3 answers unknown',
    'integers are mathematical (exact for Python); floats are not modelled',
]


class Proc(object):
    def __init__(self, args, timeout, tag):
        self.tag = tag
        self.out = tempfile.NamedTemporaryFile(suffix='.json', delete=False)
        self.out.close()
        self.err = tempfile.NamedTemporaryFile(suffix='.err', delete=False)
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONHASHSEED'] = '0'
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen(
            [PY, '-B', os.path.join(HERE, 'worker.py')] + args
            + ['--out', self.out.name], stdout=subprocess.DEVNULL,
            stderr=self.err, env=env, cwd=self.scratch())
        self.deadline = time.time() + timeout
        self.t0 = time.time()
        self.result = None
        self.error = None

    @staticmethod
    def scratch():
        return SCRATCH

    def poll(self):
        rc = self.p.poll()
        if rc is None:
            if time.time() > self.deadline:
                self.p.kill()
                self.p.wait()
                self.error = 'timeout'
                return self.finish()
            return False
        if rc != 0:
            self.error = 'exit %d' % rc
        return self.finish()

    def finish(self):
        try:
            with open(self.out.name) as f:
                self.result = json.load(f)
        except Exception:
            if self.error is None:
                self.error = 'no result'
        if self.error:
            self.err.flush()
            with open(self.err.name) as f:
                self.error += ': ' + f.read()[-1500:]
        for n in (self.out.name, self.err.name):
            try:
                os.unlink(n)
            except OSError:
                pass
        return True


def run_all(jobs):
    ''' jobs: [(args, timeout, tag)] '''
    todo = list(jobs)
    running = []
    done = []
    while todo or running:
        while todo and len(running) < NPROC:
            running.append(Proc(*todo.pop(0)))
        for p in list(running):
            if p.poll():
                running.remove(p)
                done.append(p)
        time.sleep(0.02)
    return done


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                line = line.rstrip('\n')
                if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                    out.append(line)
    except IOError:
        pass
    return out


def main():
    global SCRATCH
    argv = sys.argv[1:]
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    prop = argv[0]
    strict = '--strict' in argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.environ['VERIF_TIER'] = tier
    os.environ['VERIF_SEED'] = str(seed)
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix='pyvc-') as d:
        SCRATCH = d
        return decide(prop, tier, seed, strict, t0)


def decide(prop, tier, seed, strict, t0):
    m = importlib.import_module('contracts.%s' % prop.lower())
    from pyvc import unit
    units = unit.UNITS.get(prop, [])
    level = getattr(m, 'LEVEL', 'proof' if units else 'exploration')
    secs = getattr(m, 'CASE_SECONDS', 20)
    if tier == 'thorough':
        secs *= 8
    nworkers = 4 if tier == 'thorough' else getattr(m, 'CASE_WORKERS', 3)
    jobs = []
    for u in sorted(units, key=lambda u: -u.max_seconds):
        jobs.append((['units', prop, '--unit', u.name], u.max_seconds + 60,
                     ('unit', u)))
    if hasattr(m, 'cases') and not os.environ.get('PYVC_NOCASES'):
        for k in range(nworkers):
            jobs.append((['cases', prop, '--k', str(k), '--n', str(nworkers),
                          '--seconds', str(secs)], secs + 90, ('cases', k)))
    done = run_all(jobs)

    unit_results = []
    conc = []
    for p in done:
        if p.tag[0] == 'unit':
            if p.error or not p.result:
                unit_results.append(dict(
                    unit=p.tag[1].name, funcs=p.tag[1].funcs, obligations=[],
                    covers={}, unsupported='prover process: %s' % (
                        p.error or 'no unit'), paths=0, queries=0,
                    solver_seconds=0, inlined=[], contracts_used=[],
                    loops=[], wall=0, notes=[]))
            else:
                unit_results.extend(p.result)
        else:
            conc.append(p.result if p.result is not None else dict(
                evaluations=0, skipped=0, failures=[], samples=[], kinds={},
                distinct=0, exhausted=False, error=p.error))
    unit_results.sort(key=lambda r: r['unit'])

    known = known_findings(prop)
    failures = []
    for r in conc:
        for f in r['failures']:
            failures.append(f)

    failed_obs = []
    undecided = []
    n_ob = n_ok = 0
    backends = {}
    for r in unit_results:
        tot = 0
        for o in r['obligations']:
            tot += o['n']
            n_ob += o['n']
            n_ok += o['proved']
            for b, k in o['backends'].items():
                backends[b] = backends.get(b, 0) + k
            if o['failed']:
                failed_obs.append((r, o))
            elif o['unknown']:
                undecided.append('%s: unknown (%s)' % (o['name'],
                                                       o['detail'][:300]))
        if r['unsupported']:
            undecided.append('%s: outside the fragment: %s' % (
                r['unit'], r['unsupported'][:1500]))
        else:
            if not tot:
                undecided.append('%s: no obligation was generated'
                                 % r['unit'])
            for c, ok in r['covers'].items():
                if not ok:
                    undecided.append('%s: point %r is not reached (vacuous)'
                                     % (r['unit'], c))

    # replay counterexamples of failed obligations
    if failed_obs and not failures:
        jobs = []
        for r, o in failed_obs:
            if o['case']:
                jobs.append((['case', prop, '--case', o['case']], 90,
                             ('case', o['name'])))
        extra = []
        if hasattr(m, 'cases') and not os.environ.get('PYVC_NOCASES'):
            os.environ['VERIF_SEED'] = str(seed + 1000)
            for k in range(6):
                extra.append((['cases', prop, '--k', str(k), '--n', '6',
                               '--seconds', '45'], 140, ('cases', k)))
        for p in run_all(jobs[:8] + extra):
            if p.result:
                failures.extend(p.result['failures'])
                if p.tag[0] == 'cases':
                    conc.append(p.result)
        os.environ['VERIF_SEED'] = str(seed)

    new = [f for f in failures
           if not any(('case=%s ' % f['case']) in k + ' ' for k in known)]
    for k in known:
        print(k)

    violations = 0
    lines = []
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    if new:
        new.sort(key=lambda f: len(f['case']))
        f = new[0]
        path = os.path.join(HERE, 'replays', '%s.json' % prop)
        with open(path, 'w') as fp:
            json.dump(dict(
                property=prop, case=f['case'], message=f['message'],
                failed_obligations=[
                    dict(name=o['name'], detail=o['detail'])
                    for r, o in failed_obs],
                replay='python3 run.py replay %s' % path,
                other_cases=[g['case'] for g in new[1:6]]), fp, indent=1)
        violations = 1
        print('failing input: %s' % f['case'][:2000])
        print('  %s' % f['message'][:1500])
        for r, o in failed_obs[:5]:
            print('failed obligation: %s' % o['name'])
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif failed_obs:
        path = os.path.join(HERE, 'replays', '%s.json' % prop)
        with open(path, 'w') as fp:
            json.dump(dict(property=prop, case=None, failed_obligations=[
                dict(unit=r['unit'], functions=r['funcs'], name=o['name'],
                     detail=o['detail'], case=o['case'])
                for r, o in failed_obs]), fp, indent=1)
        violations = 1
        for r, o in failed_obs[:5]:
            print('failed obligation: %s\n%s' % (o['name'],
                                                 o['detail'][:1500]))
        lines.append('VIOLATION property=%s replay=%s '
                     'no-failing-input-found' % (prop, path))

    for r in conc:
        if r.get('harness_error'):
            undecided.append('cross-check harness: ' + r['harness_error'])
            break
        if r.get('error'):
            undecided.append('cross-check process: ' + str(r['error'])[-500:])
    unavailable = {}
    for r in conc:
        for k, v in r.get('unavailable', {}).items():
            unavailable[k] = unavailable.get(k, 0) + v
    evals = sum(r['evaluations'] for r in conc)
    cov = dict(
        obligations=n_ob, discharged=n_ok,
        checker_cmd='python3 run.py %s' % prop,
        trusted_base=TRUSTED + list(getattr(m, 'TRUSTED', [])),
        functions_under_contract=sorted(set(
            f for r in unit_results for f in r['funcs'])),
        functions_inlined=sorted(set(
            f for r in unit_results for f in r['inlined'])),
        assumed_contracts_used=sorted(set(
            f for r in unit_results for f in r['contracts_used'])),
        loops_with_invariants=sorted(set(
            f for r in unit_results for f in r['loops'])),
        backends=backends,
        solver_seconds=round(sum(r['solver_seconds']
                                 for r in unit_results), 2),
        paths=sum(r['paths'] for r in unit_results),
        solver_queries=sum(r['queries'] for r in unit_results),
        units=[dict(unit=r['unit'], functions=r['funcs'],
                    obligations=sum(o['n'] for o in r['obligations']),
                    discharged=sum(o['proved'] for o in r['obligations']),
                    paths=r['paths'], wall_s=round(r['wall'], 2),
                    named=[o['name'].split(': ', 1)[1]
                           for o in r['obligations']][:60],
                    covers=r['covers'], notes=r['notes'],
                    undecided=r['unsupported']) for r in unit_results],
        undecided=undecided,
        unavailable_in_cross_check=unavailable,
        bounded_cross_check=getattr(m, 'BOUNDS', ''),
        evaluations=evals,
        distinct_nontrivial=sum(r['distinct'] for r in conc),
        rule='cases of contracts/%s.py: %s; distinct by their text' % (
            prop.lower(), getattr(m, 'BOUNDS', '')),
        kinds={}, samples=[s for r in conc for s in r['samples']][:5],
        exhaustive=False,
        explanation=getattr(m, 'NOTE', ''),
    )
    for r in conc:
        for k, v in r['kinds'].items():
            cov['kinds'][k] = cov['kinds'].get(k, 0) + v
    if not cov['samples']:
        cov['samples'] = ['none']
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged in %d units, %d concrete cases, '
          '%.1f s' % (prop, n_ok, n_ob, len(unit_results), evals,
                      time.time() - t0))
    for u in undecided:
        print('undecided (decided by the bounded stand-in): %s' % u)
    for u, k in unavailable.items():
        print('not available to the cross-check: %s (%d cases)' % (u, k))
    for line in lines:
        print(line)
    if violations:
        return 1
    if strict and (undecided or unavailable):
        return 2
    return 0


def replay(path):
    global SCRATCH
    with open(path) as f:
        r = json.load(f)
    if not r.get('case'):
        print(json.dumps(r, indent=1))
        return 0
    with tempfile.TemporaryDirectory(prefix='pyvc-') as d:
        SCRATCH = d
        p, = run_all([(['case', r['property'], '--case', r['case']], 120,
                       ('case', ''))])
        print(json.dumps(p.result, indent=1))
        return 1 if p.result and p.result['failures'] else 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
