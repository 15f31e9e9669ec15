#!/bin/bash
# tools/mut.sh FILE OLD NEW [FILTER]: contracts matching FILTER against a copy of /repo with OLD replaced by NEW
d=$(mktemp -d /tmp/mut/XXXX); cp /repo/*.py $d/
python3 - "$d/$1" "$2" "$3" <<'P'
import sys
p,o,n=sys.argv[1:]
s=open(p).read(); assert s.count(o)>=1,('not found',o); open(p,'w').write(s.replace(o,n,1))
P
cd /verif; python3-vt dev.py "$4" 0.5 $d 2>&1 | grep -v "OK " | tail -12; rm -rf $d
