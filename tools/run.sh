#!/bin/bash
# tools/run.sh "C05 C06" "1 2 3": run checks for several seeds, short output
for c in $1; do for s in ${2:-1}; do VERIF_SEED=$s python3 /verif/check.py $c 2>&1 | cut -c1-${W:-400} | tail -${N:-12}; done
python3 - $c <<'P'
import json,sys
d=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))['coverage']
print('   margins',d['largest_error_over_tolerance'],'slowest',d['slowest_case_s'])
if len(sys.argv)>1: print('   observed',{k:v for k,v in d['observed'].items() if k not in('assertions','values compared')})
P
done
