#!/usr/bin/env python3
''' writes MANIFEST.json from the contract modules '''
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import unit
NA = {
 'C27': 'decided by XSLT 1.0 stylesheets executed by libxslt; there is no '
        'deductive verifier (nor a semantics to generate obligations from) '
        'for XSLT here, and a Python look-alike of the stylesheets would be '
        'a model of them',
 'C28': 'conformance of libxslt output to the OpenDocument RelaxNG schema is '
        'a property of the XSLT stylesheets and the schema, not of Python '
        'functions a contract could be put on',
}
checks, na = [], []
for line in open(HERE + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    try:
        m = importlib.import_module('contracts.' + i.lower())
    except ModuleNotFoundError:
        na.append(dict(property=i, reason=NA.get(i, 'not claimed yet')))
        continue
    us = unit.UNITS.get(i, [])
    level = getattr(m, 'LEVEL', 'proof' if us else 'exploration')
    tech = getattr(m, 'TECHNIQUE',
                   'contract-based deductive verification of the real code '
                   '(symbolic verification conditions, loop invariants; z3)'
                   if us else 'run-time contracts on the real functions, '
                   'bounded')
    checks.append(dict(
        property=i, quick_cmd='./check.sh ' + i,
        thorough_cmd='VERIF_TIER=thorough ./check.sh ' + i,
        technique=tech, level=level,
        level_note=getattr(m, 'NOTE', '') or
        'every obligation from the current source is discharged for all '
        'inputs; see DESIGN.md for trusted parts and the bounded cross-check'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks,
               not_applicable=na), open(HERE + '/MANIFEST.json', 'w'),
          indent=1)
print(len(checks), 'checks')
