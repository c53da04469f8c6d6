#!/bin/bash
# run1.sh HARNESS... : run symbolic harnesses and print summaries
for h in "$@"; do timeout 600 /verif/build/engine/release/symx /verif/build/sym-${CR:-core}/release/deps/h${CR:-core}.ll --entry $h --out /tmp/r_$h.json --deadline ${DL:-120} ${OPTS}; rc=$?; python3 - $h $rc <<'P'
import json,sys
h,rc=sys.argv[1:]
d=json.load(open(f'/tmp/r_{h}.json'))
print(h,'rc',rc,{k:d[k] for k in ('complete','paths','assumed','forks','insts','z3_queries','eq_queries','solver_s','asserts','asserts_symbolic','cover','violation_count','max_path_insts','wall_s')})
seen=set()
for v in d['violations']:
    k=(v['kind'],v['msg'][:160])
    if k in seen: continue
    seen.add(k); print('   V',v['kind'],v['msg'][:300],v['loc'],v['inputs'],v['io'])
P
done
