"""Source of properties.jsonl and MANIFEST.json: python3 tools/spec.py rewrites both."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VGD = "value-numbering dataflow over MIR (gated values, no solver)"
P = []      # (id, title, statement, over, text, why, files, mechanism[(name, where)], technique, level_note)
DEEP = {"C04", "C05", "C06", "C15", "C21", "C22"}
NA = []     # (id, title, statement, over, text, why, files, mechanism, reason)


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append((id, title, statement, over, text, why, files, mechanism, technique, note))


def na(id, title, statement, over, text, why, files, mechanism, reason):
    NA.append((id, title, statement, over, text, why, files, mechanism, reason))


exec(open(os.path.join(H, "tools", "props.py")).read())


def main():
    rows, checks, nas = [], [], []
    for p in sorted(P + NA, key=lambda p: p[0]):
        id, title, st, over, text, why, files, mech = p[:8]
        assert len(title) <= 80, title
        assert st.count(". ") <= 2, (id, st)
        rows.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
                     "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech]}})
        if len(p) == 10:
            checks.append({"property": id, "quick_cmd": "python3 check.py " + id, "thorough_cmd": ("VERIF_DEEP=1 " if id in DEEP else "") + "python3 check.py " + id,
                           "technique": p[8], "level": "other", "level_note": p[9]})
        else:
            nas.append({"property": id, "reason": p[8]})
    for f in {f for r in rows for f in r["anchors"]["files"]}:
        assert os.path.exists("/repo/" + f), f
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
    with open(os.path.join(H, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys;sys.path.insert(0,'lib');import runner;runner.build_driver()\"",
                   "checks": checks, "not_applicable": nas,
                   "notes": "All checks read /repo's current source through a rustc driver (driver/) and never run it; see DESIGN.md."}, f, indent=1)
        f.write("\n")


main()
