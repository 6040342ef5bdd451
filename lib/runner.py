"""Common machinery of the checks: facts from /repo's current source, obligations, evidence, verdict."""
import os, sys, json, time, hashlib, shutil, subprocess, tempfile, fcntl, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DRV = os.path.join(VERIF, "driver")
BIN = os.path.join(DRV, "target", "debug", "lazfacts")


class CheckError(Exception):
    """The check could not run (not a verdict)."""


def _env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTC", "CARGO_BUILD_TARGET_DIR", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTFLAGS"] = ""
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def build_driver():
    src = [os.path.join(DRV, "src", f) for f in os.listdir(os.path.join(DRV, "src"))] + [os.path.join(DRV, "Cargo.toml")]
    if os.path.exists(BIN) and os.path.getmtime(BIN) >= max(os.path.getmtime(f) for f in src):
        return
    r = subprocess.run(["cargo", "+nightly", "build", "--offline"], cwd=DRV, env=_env(), capture_output=True, text=True)
    if r.returncode:
        raise CheckError("driver does not build:\n" + r.stderr[-3000:])
    os.utime(BIN)


def tree_hash(repo):
    h = hashlib.sha256()
    fs = [os.path.join(repo, "Cargo.toml"), BIN]
    for d, ds, ns in os.walk(os.path.join(repo, "src")):
        ds.sort()
        fs += [os.path.join(d, n) for n in sorted(ns)]
    for f in fs:
        h.update(os.path.relpath(f, repo).encode() + b"\0")
        if f == BIN:
            for s in sorted(os.listdir(os.path.join(DRV, "src"))):
                h.update(open(os.path.join(DRV, "src", s), "rb").read())
        else:
            h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def copy_repo(repo, dst):
    """A scratch copy of what the compiler reads, so that nothing is written in /repo."""
    os.makedirs(dst, exist_ok=True)
    for n in ("src", "benches", "examples", "tests", "README.md", "CHANGELOG.md"):
        s = os.path.join(repo, n)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, n), ignore=shutil.ignore_patterns("data") if n == "tests" else None)
        elif os.path.exists(s):
            shutil.copy(s, dst)
    shutil.copy(os.path.join(repo, "Cargo.toml"), dst)
    lock = os.path.join(repo, "Cargo.lock")
    for l in (lock, "/opt/vp/Cargo.lock", os.path.join(DRV, "repo.Cargo.lock")):
        if os.path.exists(l):
            shutil.copy(l, os.path.join(dst, "Cargo.lock"))
            break


def facts(repo=None, cfgs=("default", "parallel")):
    """paths of the fact files {config: path}, extracted from the current tree (cached by content)"""
    repo = repo or REPO
    build_driver()
    cache = os.path.join(VERIF, ".cache")
    os.makedirs(cache, exist_ok=True)
    key = tree_hash(repo)
    out = os.path.join(cache, key)
    with open(os.path.join(cache, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, "done")):
            olds = sorted((d for d in os.listdir(cache) if os.path.isdir(os.path.join(cache, d))), key=lambda d: os.path.getmtime(os.path.join(cache, d)))
            for d in olds[:-6]:
                shutil.rmtree(os.path.join(cache, d), ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            tmp = tempfile.mkdtemp(prefix="lazfacts-")
            try:
                copy_repo(repo, os.path.join(tmp, "repo"))
                env = _env()
                sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, env=env).stdout.strip()
                env["LD_LIBRARY_PATH"] = sysroot + "/lib"
                env["RUSTC_WORKSPACE_WRAPPER"] = BIN
                ps = []
                for cfg in cfgs:
                    e = dict(env, LAZFACTS_OUT=os.path.join(out, cfg + ".json"))
                    cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", os.path.join(tmp, "t-" + cfg)]
                    if cfg == "parallel":
                        cmd += ["--features", "parallel"]
                    ps.append((cfg, subprocess.Popen(cmd, cwd=os.path.join(tmp, "repo"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
                for cfg, p in ps:
                    o, _ = p.communicate()
                    if p.returncode or not os.path.exists(os.path.join(out, cfg + ".json")):
                        raise CheckError("fact extraction failed (%s):\n%s" % (cfg, o[-3000:]))
                open(os.path.join(out, "done"), "w").close()
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        else:
            os.utime(out)
    return {c: os.path.join(out, c + ".json") for c in cfgs}


class Ctx:
    def __init__(self, pid, level="other"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.viols = []      # (key, message, where)
        self.obl = 0
        self.units = {}      # unit -> obligations
        self.samples = []
        self.floors = []
        self.und = []
        self.deep = os.environ.get("VERIF_DEEP") == "1"
        self.extra = {}
        self.assumptions = []
        self.explanation = ""
        self.t0 = time.time()
        self._P = {}

    def prog(self, cfg="parallel"):
        if cfg not in self._P:
            from prog import Prog
            self._P[cfg] = Prog(self.facts()[cfg])
        return self._P[cfg]

    def facts(self):
        if not hasattr(self, "_f"):
            self._f = facts()
        return self._f

    def ob(self, unit, n=1):
        self.obl += n
        self.units[unit] = self.units.get(unit, 0) + n

    def check(self, ok, unit, key, msg, where=None):
        """one obligation of `unit`; `key` names the violation without line numbers"""
        self.ob(unit)
        if not ok:
            self.viol(key, msg, where)
        elif len(self.samples) < 12 and not any(s.startswith(unit + ":") for s in self.samples):
            self.samples.append("%s: %s" % (unit, key))
        return ok

    def viol(self, key, msg, where=None):
        if "Unmodelled: " in str(msg):
            self.und.append((key, str(msg)[:300]))   # no model of a library function: no verdict, reported as such
            return
        if not any(k == key for k, _, _ in self.viols):
            self.viols.append((key, msg, where))

    def undecided(self, units):
        """[(unit, reason)]: the analysis has no model of a library function the code uses; no verdict on these"""
        self.und += units

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def floor(self, what, got, least):
        self.floors.append("%s: %d (floor %d)" % (what, got, least))
        if got < least and not self.und:
            self.viol("floor:" + what, "the analysis recognised only %d %s, expected at least %d: the code it must decide was not found" % (got, what, least))


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {(f["property"], f["key"]): f for f in d.get("findings", [])}


def run(pid, fn, level="other", trusted=(), technique=""):
    c = Ctx(pid, level)
    sys.setrecursionlimit(100000)
    try:
        fn(c)
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception as e:
        # the analysis could not follow the code: the property is not established (fail closed)
        tb = traceback.extract_tb(e.__traceback__)[-1]
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        msg = "%s: %s" % (type(e).__name__, str(e)[:600])
        c.viol("undecided", "the analysis could not follow the current code, so the property is not established: %s (%s:%d)" % (msg, os.path.basename(tb.filename), tb.lineno))
    kn = known()
    new, old = [], []
    for v in c.viols:
        (old if (pid, v[0]) in kn else new).append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"explanation": c.explanation, "obligations": c.obl, "discharged": max(0, c.obl - len(c.viols)),
           "units": c.units, "floors": c.floors, "samples": c.samples or ["(none)"],
           "violations_found": [{"key": k, "message": m, "where": w} for k, m, w in c.viols]}
    if level == "proof":
        cov["checker_cmd"] = "python3 /verif/check.py " + pid
        cov["trusted_base"] = list(trusted)
    if c.und:
        cov["undecided"] = ["%s: %s" % u for u in c.und[:40]]
        print("UNDECIDED property=%s %d units: %s" % (pid, len(c.und), "; ".join(sorted(set(str(u[1]) for u in c.und)))[:400]))
    cov.update(c.extra)
    ev = {"property": pid, "tier": c.tier, "seed": c.seed, "level": level, "coverage": cov, "assumptions": c.assumptions,
          "wall_s": round(time.time() - c.t0, 3), "violations": len(new)}
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, m, w in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, m[:300]))
    for k, m, w in new[:25]:
        print("  [%s] %s%s" % (k, m[:1200], (" @ " + str(w)) if w else ""))
    if len(new) > 25:
        print("  ... %d more" % (len(new) - 25))
    print("%s: %d obligations, %d new violation(s), %d known finding(s), %.1f s" % (pid, c.obl, len(new), len(old), time.time() - c.t0))
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".replay.txt")
        with open(rp, "w") as f:
            f.write("re-run: cd %s && python3 check.py %s   (analyses %s's current source)\n\n" % (VERIF, pid, REPO))
            for k, m, w in new:
                f.write("[%s]\n  %s\n  at %s\n\n" % (k, m, w))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
