#!/bin/bash
d=$1; shift; re=$1; shift
cd /verif/drivers && ./compile.sh $d.cpp /tmp/$d.bc 2>&1 | grep -E "error|instantiation" | cut -c1-300 | head -12; ../analyzer/build.sh && ../build/vfa /tmp/$d.bc -f "$re" "$@" > /tmp/$d.out 2>/tmp/$d.err; head -c 1500 /tmp/$d.err
python3 - /tmp/$d.out <<'PY'
import sys,json
for l in open(sys.argv[1]):
    r=json.loads(l)
    st='OK ' if not r['violations'] and not r['undecided'] else ('VIOL' if r['violations'] else 'UND')
    print(st,r['spec'],'states',r['states'],'abs',r['abstract_states'],'ends',r['ends'],'chk',r['checks'],r['secs'])
    for u in r['undecided'][:2]: print('     U:',u[:250])
    for v in r['violations'][:2]:
        print('     V:',v['cat'],v['msg'][:250],'@',v['loc'][:250]); print('        ',' | '.join(v['trace'][-5:])[:500])
PY
