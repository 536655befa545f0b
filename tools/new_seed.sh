#!/bin/bash
# Developer tool: new_seed.sh ID PROPERTY "needs" "breaks" < main.rs ; takes the patch from /repo's dirty tree and undoes it
R=$(cd "$(dirname "$0")/.." && pwd); S=$R/seeded/$1; mkdir -p "$S"; cat > "$S/main.rs"
cp "$R/tools/seed_template.sh" "$S/demo.sh"; cp "$R/tools/seed_Cargo.toml.in" "$S/Cargo.toml.in"; cp "$R/tools/seed_Cargo.lock.in" "$S/Cargo.lock.in"
git -C /repo diff > "$S/patch.diff"; git -C /repo checkout -q -- .
[ -s "$S/patch.diff" ] || echo "EMPTY PATCH"
python3 - "$S/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
