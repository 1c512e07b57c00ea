#!/bin/bash
# trial.sh [id...]: apply each planted bug to a scratch copy of /repo, run its property's check on it; prints caught / missed
cd /verif
one() {
  d=$1; p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  R=$(mktemp -d /tmp/trial_XXXXXX); cp -a /repo/. $R/
  git -C $R apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; return; }
  s=$(date +%s); o=$(VERIF_REPO=$R VERIF_EVIDENCE=$R/ev timeout 900 python3-vt run.py $p quick 2>&1); rc=$?; e=$(date +%s)
  echo "$d $p rc=$rc $((e-s))s: $(echo "$o" | grep -E 'failing input:' | head -1 | cut -c1-160) $(echo "$o" | grep VIOLATION)"
  rm -rf -- "$R"
}
export -f one
for d in ${@:-$(ls seeded)}; do one $d; done
