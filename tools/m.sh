#!/bin/bash
# m.sh CRATE DEADLINE HARNESS... : build the harnesses to IR and run some, short output
c=$1; dl=$2; shift 2
cd /verif
[ "$c" = cli ] && python3 gencli.py
[ -n "$NOB" ] || bash build_sym.sh $c >/tmp/m_build.txt 2>&1 || { grep -E "^error" -A7 /tmp/m_build.txt | head -40; exit 1; }
for h in "$@"; do
  timeout $((dl+60)) build/engine/release/symx build/sym-$c/release/deps/h$c.ll --entry $h --out /tmp/r_$h.json --deadline $dl $OPTS >/tmp/m_out.txt 2>&1
  python3 - $h $? <<'P'
import json,sys
h,rc=sys.argv[1:]
try: d=json.load(open(f'/tmp/r_{h}.json'))
except Exception as x: print(h,'rc',rc,'NO RESULT',open('/tmp/m_out.txt').read()[-300:]); sys.exit()
print(h,'rc',rc,'OK' if d['complete'] else 'INC%d'%d['incomplete_bits'],'paths',d['paths'],'q',d['z3_queries'],'cov',d['cover'],'viol',d['violation_count'],'maxi',d['max_path_insts'],'%.1fs'%d['wall_s'])
seen=set()
for v in d['violations']:
    k=(v['kind'],v['msg'][:100])
    if k in seen or len(seen)>3: continue
    seen.add(k); print('   V',v['kind'],v['msg'][:200],v['loc'],v['inputs'][:40],v['io'],v.get('sched'))
P
done
