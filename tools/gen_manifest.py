#!/usr/bin/env python3
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = {
 "C01": ("property-based testing: codec vs reference codec, exhaustive discriminants", "random headers and byte strings against an independent codec; discriminant x length enumerated completely"),
 "C02": ("property-based testing: algebraic laws against the documented folds", "random related keys (constructed collisions), all length pairs"),
 "C03": ("property-based testing: brute-force oracle over generated key lists", "constructed collisions at every width; panics observed"),
}
NA = {}
exec(open(os.path.join(ROOT, "tools", "manifest_data.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "manifest_data.py")) else None
checks, na = [], []
for i in ids:
    if i in T:
        tech, note = T[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech,
                       "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg(postcard_rpc_verif)", "enable": "harness/web/.cargo/config.toml passes --cfg postcard_rpc_verif (only the C22 check needs it)", "source_commits": ["b5d08c5"]},
     "notes": "All checks drive the public API of the crates in /repo; dependencies that reach hardware or a browser (nusb, tokio-serial, web-sys and friends) are replaced by stand-ins with [patch.crates-io]. The only hook lets the WebUSB client build natively."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
