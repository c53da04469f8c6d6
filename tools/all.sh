#!/bin/bash
# all.sh TIER OUTDIR [IDs...]: run the checks one after another
tier=$1; out=$2; shift 2; mkdir -p $out
ids="$*"; [ -z "$ids" ] && ids=$(python3 -c "import sys;sys.path.insert(0,'/verif');from plan import PLAN;print(*sorted(PLAN))")
for p in $ids; do /usr/bin/time -f "%e s %M KB" python3 /verif/check.py $p --tier $tier > $out/$p.txt 2>&1; echo "$p rc=$? $(tail -2 $out/$p.txt | tr '\n' ' ')"; done
