#!/usr/bin/env python3
"""Developer tool (no check uses it): apply small mutants to /repo one by one and see which checks report them.
   mutate.py FILE.mut [name-filter]      file: blocks 'name | file | checks' / old / '====' / new / '%%%%'"""
import subprocess, sys, os
R = "/repo/source/postcard-rpc/src/"
flt = sys.argv[2] if len(sys.argv) > 2 else ""
for blk in open(sys.argv[1]).read().split("%%%%\n"):
    if not blk.strip(): continue
    head, rest = blk.split("\n", 1)
    name, f, checks = [x.strip() for x in head.split("|")]
    if flt not in name: continue
    old, new = rest.split("====\n")
    p = R + f
    src = open(p).read()
    old, new = old.rstrip("\n"), new.rstrip("\n")
    if src.count(old) < 1:
        print(f"{name}: PATTERN NOT FOUND"); continue
    try:
        open(p, "w").write(src.replace(old, new, 1))
        for c in checks.split():
            r = subprocess.run(["/verif/check.sh", c], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
            msg = [l for l in r.stdout.splitlines() if l.startswith("---")][:1]
            st = {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc={r.returncode}")
            print(f"{name} [{c}]: {st} {msg[0][:150] if msg else r.stdout[-400:] if r.returncode not in (0,1) else ''}", flush=True)
    finally:
        open(p, "w").write(src)
