#!/usr/bin/env python3
''' mut.py Cxx FILE OLD NEW [count]: run a check on a scratch copy with one
replacement; development tool, not a check '''
import os, shutil, subprocess, sys, tempfile
prop, path, old, new = sys.argv[1:5]
old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
path = path.replace('src/hwp5/', '')
d = tempfile.mkdtemp(prefix='mut-')
shutil.copytree('/repo/src', d + '/src')
p = d + '/src/hwp5/' + path
s = open(p).read()
assert s.count(old) >= 1, 'not found'
open(p, 'w').write(s.replace(old, new, 1))
env = dict(os.environ, PYVC_REPO=d)
for nocases in (True, False):
    if nocases: env['PYVC_NOCASES'] = '1'
    else: env.pop('PYVC_NOCASES', None)
    r = subprocess.run(['/verif/check.sh', prop], env=env, capture_output=True, text=True)
    lines = r.stdout.strip().split('\n')
    print('proof only:' if nocases else 'full:', r.returncode)
    for l in lines:
        if l.startswith(('VIOLATION', 'failed ob', 'failing', 'undecided', 'counter')) :
            print('   ', l[:300])
    if r.stderr: print(r.stderr[-800:])
shutil.rmtree(d)
