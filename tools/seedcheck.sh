#!/bin/bash
# usage: seedcheck.sh ID... ; for each planted change: demo on the clean tree, apply, stable tests, demo, check, undo
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/seed-XXXXXX); cp -a "$d/." "$t/"; rm -f "$t/patch.diff" "$t/meta.json"
  timeout 300 bash "$t/demo.sh" > "$t/clean.log" 2>&1; a=$?
  if ! git apply "$d/patch.diff"; then echo "$id: does not apply"; rm -rf "$t"; continue; fi
  timeout 300 bash "$t/demo.sh" > "$t/patched.log" 2>&1; b=$?
  bash /opt/vp/test.sh "$t/out.json" > "$t/tests.log" 2>&1
  m=$(python3 - "$t/out.json" <<'P'
import json,sys
def passed(d):
    for k in ('passed','stable','pass'):
        if k in d: return set(d[k])
print(len(passed(json.load(open('/opt/vp/BASELINE.json')))-passed(json.load(open(sys.argv[1])))))
P
)
  o=$(/verif/run.sh "$p" 2>&1); c=$?
  git checkout -q -- .
  # changed lines must be of the original repository
  ok=ok; [ $a = 0 ] && [ $b != 0 ] && [ "$m" = 0 ] || { ok=BAD; tail -3 "$t/clean.log" "$t/patched.log"; }
  echo "$id $p $ok: demo clean $a patched $b, tests lost $m, check exit $c | $(tail -1 $t/patched.log | cut -c1-110) | $(echo "$o" | sed -n 2p | cut -c1-150)"
  rm -rf "$t"
done
