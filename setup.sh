#!/bin/sh
# nothing to build: the prover is Python; check that its parts are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/veriftools/pyvenv/bin/python -B -c "
import sys; sys.path.append('/opt/venv/lib/python3.12/site-packages')
import z3, lxml, six, olefile
print('z3', z3.get_version_string())"
