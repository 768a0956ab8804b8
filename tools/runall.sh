#!/bin/bash
# runall.sh SEED [TIER] [IDS...]: every check once, with its time and how far the required counters are exceeded
cd "$(dirname "$0")/.."
seed=$1; tier=${2:-quick}; shift 2
ids=${*:-$(seq -f C%02g 1 30)}
for c in $ids; do
  s=$(date +%s)
  VERIF_SEED=$seed VERIF_TIER=$tier /opt/venv/bin/python check.py $c --tier $tier > /tmp/w/ra.$seed.out 2>&1; rc=$?
  echo "$c seed=$seed rc=$rc $(( $(date +%s)-s ))s $(/opt/venv/bin/python - $c <<'P'
import json,sys,importlib,re
sys.path.insert(0,'.')
src=open('pv/checks/%s.py'%sys.argv[1].lower()).read()
m=re.search(r'^NEED = (\{.*?\})',src,re.S|re.M)
need=eval(m.group(1)) if m else {}
e=json.load(open('evidence/%s.json'%sys.argv[1]))['coverage']['observed']
low=sorted((e.get(k,0)/v,k) for k,v in need.items())[:2]
print(' '.join('%s:%.1fx'%(k,r) for r,k in low))
P
)"
  [ $rc = 0 ] || tail -8 /tmp/w/ra.$seed.out | cut -c1-600
done
