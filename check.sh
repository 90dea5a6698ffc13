#!/bin/sh
# check.sh Cxx : decide one property on /repo's current working tree
cd "$(dirname "$0")" || exit 1
exec /opt/veriftools/pyvenv/bin/python -B run.py "$@"
