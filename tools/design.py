#!/usr/bin/env python3
''' fill the generated parts of DESIGN.md: python3-vt tools/design.py '''
import glob
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc import unit   # noqa

BEGIN, END = '<!-- generated: %s -->', '<!-- end: %s -->'


def table():
    out = []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        pid = p['id']
        try:
            m = importlib.import_module('contracts.' + pid.lower())
        except ImportError:
            continue
        out.append('### %s %s' % (pid, p['title']))
        out.append('')
        try:
            e = json.load(open(os.path.join(HERE, 'evidence',
                                            pid + '.json')))
            c = e['coverage']
            out.append('Last run: %d of %d obligations discharged in %d '
                       'units; quick cross-check of %s cases.'
                       % (c['discharged'], c['obligations'],
                          len(c['units']), c.get('evaluations', '?')))
            out.append('')
        except (IOError, KeyError):
            pass
        us = unit.UNITS.get(pid, [])
        if pid == 'C12':
            us = us[-3:] + us[:2]
        for u in us:
            doc = ' '.join((u.fn.__doc__ or '').split())
            fs = ', '.join('`%s`' % f.replace('hwp5.', '', 1)
                           for f in u.funcs)
            out.append('* **%s** (%s): %s%s' % (
                u.name, fs or 'declarations', doc,
                ' [%s]' % '; '.join(u.notes) if u.notes else ''))
        if pid == 'C12':
            out.append('* ... and one unit per group of structure types, '
                       'like these')
        if getattr(m, 'NOTE', ''):
            out.append('* note: ' + m.NOTE)
        for a in getattr(m, 'ASSUMPTIONS', []):
            out.append('* assumes: ' + a)
        if getattr(m, 'TRUSTED', ''):
            out.append('* trusted: ' + ', '.join(m.TRUSTED))
        out.append('* bounds: ' + m.BOUNDS)
        out.append('')
    return '\n'.join(out)


def seeds():
    out = ['| planted bug | property | needs | caught by |',
           '|---|---|---|---|']
    caught = {}
    try:
        caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
    except IOError:
        pass
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*',
                                           'meta.json'))):
        d = json.load(open(f))
        name = os.path.basename(os.path.dirname(f))
        out.append('| %s: %s | %s | %s | %s |' % (
            name, d['what_it_breaks'], d['property'], d['needs'],
            caught.get(name, d['property'])))
    return '\n'.join(out)


def main():
    path = os.path.join(HERE, 'DESIGN.md')
    s = open(path).read()
    for name, fn in (('TABLE', table), ('SEEDS', seeds)):
        b, e = BEGIN % name, END % name
        body = b + '\n' + fn() + '\n' + e
        if '@@%s@@' % name in s:
            s = s.replace('@@%s@@' % name, body)
        else:
            i, j = s.index(b), s.index(e) + len(e)
            s = s[:i] + body + s[j:]
    open(path, 'w').write(s)


main()
