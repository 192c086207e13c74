#!/bin/bash
# mut.sh driver regex file 's/..//' 
rm -rf /tmp/mut; mkdir -p /tmp/mut; cp -r /repo/include /tmp/mut/include
f=/tmp/mut/include/boost/intrusive/$3
cp $f /tmp/mut/orig; perl -0pi -e "$4" $f; if cmp -s $f /tmp/mut/orig; then echo "NO CHANGE"; exit 1; fi
cd /verif/drivers && VF_REPO=/tmp/mut ./compile.sh $1.cpp /tmp/m.bc && ../build/vfa /tmp/m.bc -f "$2" -t 20 > /tmp/m.out
python3 - <<'PY'
import json
n=0
for l in open('/tmp/m.out'):
    r=json.loads(l)
    if r['violations']:
        n+=1
        if n<6: v=r['violations'][0]; print('VIOL',r['spec'],len(r['violations']),v['cat'],v['msg'][:150],'@',v['loc'][:120])
    if r['undecided']: print('UND',r['spec'],r['undecided'][:2])
print('total violating specs',n)
PY
