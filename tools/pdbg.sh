#!/bin/sh
# tools/pdbg.sh SUBSTRING : debug run of all matching lemma instances, 8 at a time
cd /verif
python3-vt - "$1" <<'P' > /tmp/pdbg.names
import sys
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from pyvc import engine
w=sys.argv[1]
eng=engine.Engine(w[:3].upper())
for lem,i,p in engine.instances():
    n=engine.pname(lem,p)
    if w in n: print(n)
P
xargs -P8 -I{} sh -c "python3-vt /verif/tools/dbg.py '{}' 2>&1 | cut -c1-700 | grep -v '^ok '" < /tmp/pdbg.names
echo "$(wc -l < /tmp/pdbg.names) instances"
