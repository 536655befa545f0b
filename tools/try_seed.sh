#!/bin/bash
# Developer tool (not used by any check): validate one planted bug against /repo.
#   try_seed.sh ID [nobuild]
# demo clean -> apply -> build+stable tests -> demo must fail -> check must report -> undo
set -u
ROOT=$(cd "$(dirname "$0")/.." && pwd); S=$ROOT/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "repo dirty"; exit 9; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
T=$(mktemp -d); cp -r "$S" "$T/d"; rm -f "$T"/d/*.diff "$T"/d/meta.json
res="$1 [$P]:"
if [ "${2:-}" != check ]; then
(cd /repo && bash "$T/d/demo.sh" >"$T/o1" 2>&1) && res="$res demo-clean=ok" || { res="$res demo-clean=FAIL"; tail -20 "$T/o1"; }
fi
git -C /repo apply "$S/patch.diff" || { echo "$res patch-does-not-apply"; exit 3; }
if [ "${2:-}" != check ]; then
bash /opt/vp/build.sh >"$T/b" 2>&1 && res="$res build=ok" || { res="$res build=FAIL"; tail -20 "$T/b"; }
bash /opt/vp/test.sh "$T/o.json" >"$T/t" 2>&1; res="$res tests=$(python3 -c "import json;d=json.load(open('$T/o.json'));print(len(d['passed']),'/',len(d['failed']))")"
(cd /repo && timeout 300 bash "$T/d/demo.sh" >"$T/o2" 2>&1) && { res="$res demo-bug=NOT-DETECTED"; tail -5 "$T/o2"; } || { res="$res demo-bug=fails"; tail -3 "$T/o2"; }
fi
VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash "$ROOT/check.sh" "$P" >"$T/c" 2>&1; rc=$?
if [ $rc = 1 ] && grep -q "^VIOLATION property=$P" "$T/c"; then res="$res check=CAUGHT"; grep '^VIOLATION' "$T/c"; else res="$res check=MISSED(rc=$rc)"; tail -5 "$T/c"; fi
rm -rf "$T"
echo "SEED $res"
