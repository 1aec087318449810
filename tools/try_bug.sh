#!/bin/bash
# tools/try_bug.sh ID [CHECKS...]: apply seeded/ID to a scratch copy, run the
# tests, the demo with and without it, and the check(s) of its property
V=$(dirname "$(dirname "$(readlink -f "$0")")")
ID=$1; shift
D=$V/seeded/$ID
S=/tmp/try_$ID
. /opt/vp/env.sh
rm -rf "$S"; mkdir -p "$S"; cp -a /repo "$S/repo"
cp -a "$D" "$S/demo"; rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
cd "$S/repo" || exit 2
export PYTHONPATH=$S/repo
bash "$S/demo/demo.sh" >"$S/clean.log" 2>&1; echo "$ID demo on clean: $?"
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
if git diff --name-only | grep -q pyx; then rm -rf build countbits*.so; $PY setup.py build_ext --inplace --force >"$S/build.log" 2>&1; fi
bash "$S/demo/demo.sh" >"$S/bug.log" 2>&1; echo "$ID demo on bug: $?"; tail -3 "$S/bug.log"
if [ -z "$NOTEST" ]; then
PYTHONPATH=$S/repo:/opt/vp/plugins $PY -m pytest -p zounds_seed -q -n 4 -p no:cacheprovider --timeout=120 -W ignore --tb=line zounds 2>&1 | tail -4 >"$S/test.log"
echo "$ID tests: $(tail -1 $S/test.log)"
fi
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
for p in $P; do
  VERIF_REPO=$S/repo VERIF_EVIDENCE=$S/evidence timeout 900 "$V/run" check $p >"$S/check_$p.log" 2>&1; echo "$ID check $p: $?"
  grep -E "VIOLATION|harness|INCONCL" "$S/check_$p.log" | cut -c1-300 | head -${LINES_MAX:-3}
done
rm -rf "$S/repo"
