#!/usr/bin/env python3
"""tryseed.py [ID...]: runs the check of each planted bug's property against it (applies the patch to /repo, undoes it)."""
import json, os, subprocess, sys, time
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
assert not subprocess.run("git -C /repo status --porcelain -uno", shell=True, capture_output=True, text=True).stdout
for i in ids:
    p = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    subprocess.run(f"git -C /repo apply {V}/seeded/{i}/patch.diff", shell=True, check=True)
    t = time.time()
    try:
        r = subprocess.run(f"timeout 900 python3 {V}/check.py {p} --tier quick", shell=True, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1"))
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
    lines = [l for l in r.stdout.splitlines() if l.startswith(p + ":")][:2]
    print(("CAUGHT" if hit else f"MISSED rc={r.returncode}"), i, f"{time.time()-t:.0f}s", lines, flush=True)
    if r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-500:])
