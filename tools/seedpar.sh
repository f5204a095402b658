#!/bin/bash
# usage: seedpar.sh N ID... ; like seedcheck.sh, N at a time, each in its own copy of /repo (removed afterwards)
one() {
  id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/seedpar-XXXXXX)
  p=$(python3 -c "import json; print(json.load(open('$d/meta.json'))['property'])")
  cp -a /repo "$w/repo"; cp -a "$d/." "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"; cd "$w/repo" || return
  timeout 300 bash "$w/demo/demo.sh" > "$w/clean.log" 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id: does not apply"; rm -rf "$w"; return; }
  timeout 300 bash "$w/demo/demo.sh" > "$w/patched.log" 2>&1; b=$?
  t=$(PYTHONPATH=$w/repo:/opt/vp/plugins PYTHONHASHSEED=0 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p seed_rng -W ignore tests 2>&1 | tail -1)
  o=$(TMV_REPO=$w/repo /verif/run.sh "$p" 2>&1); c=$?
  case "$t" in "34 failed, 198 passed"*) ;; *) b="$b TESTS($t)";; esac
  echo "$id $p demo $a $b check $c | $(echo "$o" | sed -n 2p | cut -c1-120)"
  rm -rf "$w"
}
export -f one
n=$1; shift
printf '%s\n' "$@" | xargs -P "$n" -I{} bash -c 'one {}'
