''' Writes contracts/c11_table.json: the bit fields and enumerations of the
format as declared (the contract). Run by hand, once; no check runs it. '''
import sys, os, json
sys.path.insert(0, '/verif'); sys.path.insert(0, '/repo/src')
sys.path.append('/opt/venv/lib/python3.12/site-packages')
from contracts.c11 import discover, describe_enum
flags, enums = discover()
out = dict(flags={}, enums={})
for k, f in sorted(flags.items()):
    out['flags'][k] = dict(
        bits=f.basetype.fixed_size * 8,
        fields={n: [b.lsb, b.msb, describe_enum(b.valuetype)]
                for n, b in sorted(f.bitfields.items())})
for k, e in sorted(enums.items()):
    out['enums'][k] = describe_enum(e)
with open('/verif/contracts/c11_table.json', 'w') as f:
    json.dump(out, f, indent=1, sort_keys=True); f.write('\n')
print(len(out['flags']), len(out['enums']))
