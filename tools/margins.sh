#!/bin/bash
# usage: margins.sh TIER SEEDS... ; runs every check, prints exit codes and events seen less than 2.5 times their minimum
cd "$(dirname "$0")/.."
tier=$1; shift
for s in "$@"; do for f in tmv/checks/c*.py; do
  c=$(basename $f .py | tr c C)
  o=$(./run.sh $c --tier $tier --seed $s 2>&1); rc=$?
  [ $rc = 0 ] || { echo "$c seed $s exit $rc"; echo "$o" | tail -5; }
  python3 - $c $s <<'P'
import json,sys
e=json.load(open('evidence/%s.json'%sys.argv[1]))
c=e['coverage']
for k,m in c.get('required_events',{}).items():
    n=c['observed_events'].get(k,0)
    if n<2.5*m: print(sys.argv[1],'seed',sys.argv[2],k,n,'needs',m)
print(sys.argv[1],'seed',sys.argv[2],'wall',e['wall_s'])
P
done; done
