#!/bin/bash
# mut.sh ID 'sed expr' file : run check against mutated copy
rm -rf /tmp/mr; cp -a ${BASE:-/repo} /tmp/mr; cd /tmp/mr && python3 - "$2" "$3" "$4" <<'PY'
import sys
f,a,b=sys.argv[1:4]
s=open(f).read()
assert s.count(a)>=1,(f,a)
open(f,'w').write(s.replace(a,b,1))
PY
cd /verif; VERIF_REPO=/tmp/mr ./run.py $1 2>&1 | cut -c1-400 | tail -4
