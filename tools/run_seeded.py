#!/usr/bin/env python3
"""Development aid: applies each planted bug to /repo in turn, runs its property's quick check, undoes it, records the outcome.
   run_seeded.py [name ...]   (never run by a registered check)"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
rp = os.path.join(ROOT, "tools/seeded_results.json")
res = json.load(open(rp)) if os.path.exists(rp) else {}
sd = os.path.join(ROOT, "seeded")
names = sys.argv[1:] or sorted(os.listdir(sd))
for d in list(res):
    if not os.path.isdir(os.path.join(sd, d)): del res[d]
for d in names:
    pid = json.load(open(os.path.join(sd, d, "meta.json")))["property"]
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
    if subprocess.run(["git", "-C", REPO, "apply", os.path.join(sd, d, "patch.diff")]).returncode:
        res[d] = "patch does not apply"; continue
    try:
        r = subprocess.run([sys.executable, os.path.join(ROOT, "tools/check.py"), pid], capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "--", "."])
    law = [l for l in r.stdout.splitlines() if l.startswith("law ")]
    ok = r.returncode == 1 and ("VIOLATION property=%s " % pid) in r.stdout
    res[d] = "caught (%s)" % law[0].split(":")[0][4:] if ok and law else "caught" if ok else "missed" if r.returncode == 0 else "error %d" % r.returncode
    print(d, res[d], flush=True)
    json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
