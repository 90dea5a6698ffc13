''' Writes contracts/layouts.json: what every type of record reads from
given bytes (the contract).  Run by hand, once; no check runs it. '''
import sys, json, signal, logging
class Slow(BaseException): pass
def slow(*a): raise Slow()
signal.signal(signal.SIGALRM, slow)
logging.disable(logging.CRITICAL)
sys.path.insert(0, '/verif'); sys.path.insert(0, '/repo/src')
sys.path.append('/opt/venv/lib/python3.12/site-packages')
from contracts import layouts
from collections import Counter
table = {'thin': {}, 'full': {}}
n = 0
kinds = Counter()
for kind in table:
    for name, chain in layouts.scenarios().items():
        out = []
        for version, what, payload in layouts.readings(name, kind == 'thin'):
            try:
                signal.setitimer(signal.ITIMER_REAL, .02)
                got = layouts.read(chain, version, payload)
                signal.setitimer(signal.ITIMER_REAL, 0)
            except Slow:
                # too slow to be read again on every run
                out.append(layouts.SKIPPED)
                kinds['skipped'] += 1
                continue
            kinds[got if isinstance(got, str) else got[0]] += 1
            out.append(layouts.digest(got))
        n += len(out)
        table[kind][name] = ''.join(out)
with open(layouts.TABLE, 'w') as f:
    json.dump(table, f, indent=0, sort_keys=True); f.write('\n')
print(n, kinds)
