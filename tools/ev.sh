#!/bin/bash
# tools/ev.sh ID: runs a check and prints what its evidence leaves open.
cd "$(dirname "$0")/.."
./check.sh "$@" 2>&1 | cut -c1-400 | tail -40
python3 - $1 <<'P'
import json,sys
d=json.load(open('evidence/%s.json'%sys.argv[1]))['coverage']
for k in ('reduced_bound_or_inconclusive','exploration_cut_short','labels_without_witness','observation_differences','axiom_instances_false','discharged_by'):
    if d[k]: print(' ',k,json.dumps(d[k])[:1500])
P
