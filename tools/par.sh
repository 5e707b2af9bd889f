#!/bin/sh
# tools/par.sh PREFIX NAMES... : dbg over many names, 8 at a time
P=$1; shift
printf '%s\n' "$@" | xargs -P8 -I{} sh -c "python3-vt /verif/tools/dbg.py '$P[{}]' 2>&1 | cut -c1-700 | grep -v '^ok 1'"
