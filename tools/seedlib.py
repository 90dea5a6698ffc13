''' development tool: make and confirm planted bugs (never used by a check).
seed(id, prop, [(file, old, new)], needs, breaks, demo) writes
seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} '''
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, prop, edits, needs, breaks, demo):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/w'])
        for f, old, new in edits:
            p = t + '/w/src/hwp5/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', t + '/w', 'diff'], text=True)
        open(d + '/patch.diff', 'w').write(diff)
        mine = subprocess.check_output(['git', '-C', '/repo', 'log', '--grep=^fix:', '--format=%H'], text=True).split()
        for f, old, new in edits:
            cur, ln, orig = None, 0, 0
            for l in subprocess.check_output(['git', '-C', t + '/w', 'diff', '-U0', '--', 'src/hwp5/' + f], text=True).splitlines():
                if l.startswith('@@'):
                    ln = int(l.split()[1].split(',')[0][1:])
                elif l.startswith('-') and not l.startswith('---'):
                    b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-s', '-L%d,%d' % (ln, ln), 'HEAD', '--', 'src/hwp5/' + f], text=True)
                    orig += b.split()[0].lstrip('^') not in mine
                    if b.split()[0].lstrip('^') in mine:
                        print('NOT ORIGINAL', id, l)
                    ln += 1
            if not orig:
                print('NO ORIGINAL LINE CHANGED', id)
    finally:
        shutil.rmtree(t)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(
        '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
