#!/usr/bin/env python3
"""Development tool: run the property's quick check against planted bugs. usage: try.py [seed-id...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i; p = json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.run("git -C /repo status --short", shell=True, capture_output=True, text=True).stdout.strip(), "/repo dirty"
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    t = time.time()
    try: r = subprocess.run(["python3", "check.py", p, "quick"], cwd=V, capture_output=True, text=True)
    finally: subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    rf = V + "/tools/seed_results.json"; R = json.load(open(rf)) if os.path.exists(rf) else {}
    lines = r.stdout.strip().splitlines()
    print(i, p, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), "|", next((l[:160] for l in lines if l.startswith(("counterexample", "CHECK-ERROR"))), ""), flush=True)
    ce = next((l for l in lines if l.startswith("counterexample")), "")
    R[i] = ("caught by " + ce.split()[1].rstrip(":")) if r.returncode == 1 and ce else "missed"
    json.dump(R, open(rf, "w"), indent=1, sort_keys=True)
