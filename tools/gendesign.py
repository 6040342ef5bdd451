"""fills DESIGN.md from tools/DESIGN.in.md, props, known findings and seeded/*/meta.json (+ tools/caught.json)"""
import json, os, glob, sys
sys.path.insert(0, os.path.dirname(__file__))
import spec
H = spec.H
t = open(H + "/tools/DESIGN.in.md").read()
det = {}
cur = None
for l in open(H + "/tools/details.md"):
    if l.startswith("# "):
        cur = l[2:].strip(); det[cur] = ""
    elif cur:
        det[cur] += l
out = ""
for p in sorted(spec.P):
    out += "### %s %s\n\n%s\n\n*Decided by:* %s.\n\n%s\n\n" % (p[0], p[1], p[2], p[8], det.get(p[0], p[9]).strip())
t = t.replace("@@PROPS@@", out.strip())
t = t.replace("@@NA@@", "\n".join("* %s %s: %s" % (p[0], p[1], p[8]) for p in sorted(spec.NA)))
k = json.load(open(H + "/known_findings.json"))
fx = ["* " + x for x in k["fixed"]] + ["* known finding, %s `%s`: %s" % (f["property"], f["key"], f.get("note", "")) for f in k["findings"]]
t = t.replace("@@FIXED@@", "\n".join(fx))
c = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
rows = ["| bug | property | caught | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], c.get(n, "?"), m["needs"]))
t = t.replace("@@SEEDS@@", "\n".join(rows))
open(H + "/DESIGN.md", "w").write(t)
