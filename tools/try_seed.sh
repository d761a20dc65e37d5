#!/bin/bash
# Development: tries a planted bug in a scratch copy of /repo.
# usage: try_seed.sh ID [notests|tests] CHECK...
id=$1; mode=$2; shift 2
d=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$w/repo"
cd "$w/repo" || exit 9
export JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg PYTHONPATH=$w/repo PYTHONDONTWRITEBYTECODE=1
cp -a "$d" "$w/demo"; rm -f "$w/demo"/*.diff "$w/demo/meta.json"
timeout 300 bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1; echo "$id demo clean: $?"
git apply "$d/patch.diff" || echo "$id PATCH FAILS"
timeout 300 bash "$w/demo/demo.sh" >"$w/bad.log" 2>&1; echo "$id demo patched: $? $(tail -1 "$w/bad.log" | cut -c1-150)"
if [ "$mode" = tests ]; then
  PYTHONPATH=/opt/vp/plugins:$w/repo TEST_TMPDIR=$w/absl TMPDIR=$w timeout 600 /opt/venv/bin/python -m pytest -q -n 4 -p putting_dune_pytest -p no:cacheprovider --timeout=300 putting_dune 2>&1 | tail -4 | sed "s/^/$id tests: /"
fi
unset PYTHONPATH
for c in "$@"; do
  out=$(cd /verif && VERIF_REPO=$w/repo VERIF_EVIDENCE_DIR=$w/ev VERIF_SEED=1 VERIF_TIER=quick python3 run_check.py $c --tier quick 2>&1); rc=$?
  echo "$id check $c: rc=$rc $(echo "$out" | grep -m1 VIOLATION) | $(echo "$out" | grep -iv VIOLATION | head -3 | tr '\n' ' ' | cut -c1-300)"
done
rm -rf "$w"
