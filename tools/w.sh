#!/bin/bash
# w.sh spec cid...
cd /verif; spec=$1; shift
for c in "$@"; do echo "== $c"; /usr/bin/time -f %es python3-vt -m pv.worker $spec $c --jobs 8 2>&1 | python3 -c "
import sys,json
t=sys.stdin.read()
a=t.find('{'); 
try:
    b=t.rfind('}'); d=json.loads(t[a:b+1]); 
    for k in ('status','reason','paths','obligations','bad','wall_s','bounded'): print('  ',k,str(d.get(k))[:3000])
    print(t[:a][-1500:], t[b+1:][-300:])
except Exception as e: print(t[-3000:])
"; done
