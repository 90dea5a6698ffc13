''' pyvc: a small verification-condition generator for Python.

The functions under contract are taken from /repo/src/hwp5 on every run (see
instr.py), executed with symbolic values (values.py) on every feasible path
(core.py), loops being cut by invariants; obligations are discharged by z3,
with cvc5 as a second back end.
'''
