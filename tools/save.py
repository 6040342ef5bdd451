"""python3 tools/save.py ID PROP NEEDS BREAKS < main.rs : saves /tmp/w's diff and the demo as /verif/seeded/ID, then resets /tmp/w"""
import sys, os, json, subprocess
i, p, n, b = sys.argv[1:5]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "diff"], cwd="/tmp/w", capture_output=True, text=True).stdout
assert diff
open(d + "/patch.diff", "w").write(diff)
open(d + "/main.rs", "w").write(sys.stdin.read())
open(d + "/meta.json", "w").write(json.dumps({"property": p, "needs": n, "what_it_breaks": b}, indent=1) + "\n")
subprocess.run(["cp", "/verif/tools/demo/demo.sh", d + "/demo.sh"])
subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/tmp/w")
