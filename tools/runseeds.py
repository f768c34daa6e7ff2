#!/usr/bin/env python3
"""runseeds.py [ID...]: run the check of each planted bug's property with the bug applied to /repo."""
import json, os, subprocess, sys, time
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(f"{V}/seeded"))
for i in ids:
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    assert not subprocess.run("git -C /repo status --porcelain -uno", shell=True, text=True, capture_output=True).stdout.strip()
    subprocess.run(f"git -C /repo apply {V}/seeded/{i}/patch.diff", shell=True, check=True)
    t = time.time()
    try:
        p = subprocess.run([f"{V}/bin/check", meta["property"], "quick"], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True, check=True)
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    fl = [l.strip() for l in p.stdout.splitlines() if l.startswith("  failed:")]
    und = [l.strip() for l in p.stdout.splitlines() if l.startswith("  undecided:")]
    print(f"{i} {meta['property']} exit {p.returncode} {time.time()-t:.0f}s {'INPUT' if v and 'no-failing' not in v[0] else ('PROOF ONLY' if v else 'MISSED')} | proof failed: {len(fl)} {fl[:2]} undecided {len(und)} {und[:1]}", flush=True)
