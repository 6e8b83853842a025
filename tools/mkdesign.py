#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, the property table (mkprops.P), the laws in pbt/props and the planted bugs."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkprops
ROOT = mkprops.ROOT
REACH = {}
for line in open(os.path.join(ROOT, "tools/design_reach.txt")):
    m = re.match(r"(C\d\d)\s+(.*)", line)
    if m: REACH[m.group(1)] = m.group(2)
out = [open(os.path.join(ROOT, "tools/design_head.md")).read().rstrip(), "", "## Per property", ""]
for p in mkprops.P:
    src = [f for f in os.listdir(os.path.join(ROOT, "pbt/props")) if f.startswith(p["id"].lower())]
    if not src: continue
    laws = re.findall(r"^LAW\((\w+), (\d+)", open(os.path.join(ROOT, "pbt/props", src[0])).read(), re.M)
    out.append("### %s %s" % (p["id"], p["title"]))
    out.append("- Generated: %s." % p["q"])
    out.append("- Oracle: %s." % p["oracle"])
    out.append("- Laws (cases, quick): %s." % (", ".join("%s %s" % (n, c) for n, c in laws) or "one law per function of the registry"))
    out.append("- Beyond the tests: %s" % p["why"])
    if p["id"] in REACH: out.append("- Bounds and limits: %s" % REACH[p["id"]])
    out.append("")
out += ["## Planted bugs", "", "Each was confirmed to build, to pass the repository's tests and to fail its demo. "
        "`caught` is the property's own quick check with VERIF_SEED=1.", "", "| planted bug | property | what it breaks | needs | result |", "|---|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
res = {}
rp = os.path.join(ROOT, "tools/seeded_results.json")
if os.path.exists(rp): res = json.load(open(rp))
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), res.get(d, "?")))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
