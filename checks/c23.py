"""C23: readers, writers and coders cross threads exactly when their stream may."""
import json, os, re, shutil, subprocess, tempfile
import runner

LEVEL = "other"
WIT = os.path.join(runner.VERIF, "witness")


def witness(repo, name, cfg):
    """compiler errors [(code, line, message, notes)] of a witness crate built against the current tree"""
    tmp = tempfile.mkdtemp(prefix="lazwit-")
    try:
        r = os.path.join(tmp, "repo")
        w = os.path.join(tmp, "wit")
        runner.copy_repo(repo, r)
        os.makedirs(os.path.join(w, "src"))
        shutil.copy(os.path.join(WIT, name + ".rs"), os.path.join(w, "src", "lib.rs"))
        for d in (r, w):
            lk = os.path.join(r, "Cargo.lock")
            if d == w and os.path.exists(lk):
                shutil.copy(lk, w)
        open(os.path.join(w, "Cargo.toml"), "w").write(
            '[package]\nname = "wit"\nversion = "0.0.0"\nedition = "2021"\n[features]\nparallel = ["laz/parallel"]\n[dependencies]\nlaz = { path = "../repo" }\n[workspace]\n')
        cmd = ["cargo", "check", "--offline", "--lib", "--message-format=json", "--target-dir", os.path.join(tmp, "t")]
        if cfg == "parallel":
            cmd += ["--features", "parallel"]
        p = subprocess.run(cmd, cwd=w, env=runner._env(), capture_output=True, text=True, timeout=600)
        errs, built = [], False
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact" and m.get("target", {}).get("name") == "laz":
                built = True
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            if m.get("target", {}).get("name") != "wit":
                raise runner.CheckError("the library does not build: " + m["message"]["message"][:300])
            g = m["message"]
            if not g["spans"]:
                continue
            code = (g.get("code") or {}).get("code")
            sp = next((s for s in g["spans"] if s["is_primary"]), g["spans"][0])
            notes = [c["message"] for c in g["children"]]
            errs.append((code, sp["line_start"], g["message"], notes))
        if not built:
            raise runner.CheckError("witness did not reach the library: " + p.stderr[-600:])
        return errs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def unsafe_impls(ctx, P):
    """the hand-written Send and Sync impls: what the compiler does not check about them"""
    n = 0
    for im in P.impls:
        tr = im.get("trait")
        if tr not in ("std::marker::Send", "std::marker::Sync") or im.get("neg"):
            continue
        ty = P.rty(im["self"])
        name = P.tstr(ty)
        n += 1
        if ty[0] != "adt" or ty[1] not in P.adts:
            ctx.viol("unsafe impl:%s for %s" % (tr, name), "hand-written %s for %s, whose fields the analysis cannot see" % (tr, name), "%s:%s" % (im["file"], im["line"]))
            continue
        adt = ty[1]
        a = P.adts[adt]
        for v in a["variants"]:
            for f in v["f"]:
                t = P.rty(f["t"])
                if t[0] == "ptr":
                    ctx.check(not f["pub"], "hand-written thread traits", "%s.%s private" % (adt, f["n"]), "raw pointer field %s of %s can be changed from outside" % (f["n"], adt), "%s:%s" % (a["file"], a["line"]))
        for im2 in P.impls:
            t2 = P.rty(im2["self"])
            if im2.get("trait") in ("std::clone::Clone", "std::marker::Copy") and t2[0] == "adt" and t2[1] == adt:
                raw = any(P.rty(f["t"])[0] == "ptr" for v in a["variants"] for f in v["f"])
                ctx.check(not raw or not copies_raw(P, im2, adt), "hand-written thread traits", "%s not aliased by %s" % (adt, im2["trait"]),
                          "%s is %s and shares what its raw pointers reach with its copies, which may be on other threads" % (adt, im2["trait"]), "%s:%s" % (im2["file"], im2["line"]))
        if tr.endswith("Sync"):
            for bid, b in P.bodies.items():
                if not b["args"] or b.get("impl_self") is None:
                    continue
                t = P.rty(b["locals"][1]["t"] if isinstance(b["locals"][1], dict) else b["locals"][1])
                if t[0] != "ref" or t[1] or t[2][0] != "adt" or t[2][1] != adt:
                    continue
                w = raw_write(P, b)
                ctx.check(w is None, "hand-written thread traits", "%s does not write through &self" % bid, "%s takes &self of a type declared Sync and writes through a raw pointer" % bid, "%s:%s" % (b["file"], w))
    return n


def copies_raw(P, im, adt):
    for _, it in im["items"]:
        b = P.bodies.get(it)
        if b is None:
            continue
        names = {f["n"] for v in P.adts[adt]["variants"] for f in v["f"] if P.rty(f["t"])[0] == "ptr"}
        for blk in b["blocks"]:
            if any('"f": "%s"' % x in json.dumps(blk) for x in names):
                return True
    return im["trait"].endswith("Copy")


def raw_write(P, b):
    loc = [P.rty(l["t"] if isinstance(l, dict) else l) for l in b["locals"]]
    for blk in b["blocks"]:
        if blk["cleanup"]:
            continue
        for s in blk["s"]:
            pl = s[1]
            if isinstance(pl, list) and len(pl) == 2 and pl[1] and pl[1][0] == "*" and loc[pl[0]][0] == "ptr":
                return s[0]
            rv = s[2] if len(s) > 2 else None
            if isinstance(rv, dict) and rv.get("k") == "ref" and rv.get("mut"):
                q = rv["p"]
                if q[1] and q[1][0] == "*" and loc[q[0]][0] == "ptr":
                    return s[0]
    return None


def run(ctx):
    P = ctx.prog()
    n = 0
    pos = open(os.path.join(WIT, "pos.rs")).read().split("\n")
    neg = open(os.path.join(WIT, "neg.rs")).read().split("\n")
    from concurrent.futures import ThreadPoolExecutor
    jobs = [("pos", "default"), ("pos", "parallel"), ("neg", "default"), ("neg", "parallel")]
    with ThreadPoolExecutor(4) as ex:
        res = dict(zip(jobs, ex.map(lambda j: witness(runner.REPO, *j), jobs)))
    for cfg in ("default", "parallel"):
        errs = res[("pos", cfg)]
        bad = {}
        for code, line, msg, notes in errs:
            if code in ("E0277", "E0310", "E0597", "E0311"):
                bad.setdefault(line, (msg, notes))
            else:
                ctx.undecided([("witness " + cfg, "witness line %d: %s" % (line, msg[:160]))])
        infn = ""
        for i, l in enumerate(pos, 1):
            m = re.search(r"\b(thread|m)::<(.+)>\(\);", l)
            f = re.match(r"\s*fn (\w+)", l)
            if f:
                infn = f.group(1)
            if not m or ("Par" in l and cfg == "default"):
                continue
            n += 1
            e = bad.pop(i, None)
            ctx.check(e is None, "thread-safe", "%s %s %s" % (cfg, infn, m.group(2)), "%s is not %s (%s): %s" % (m.group(2), "Send" if m.group(1) == "m" else "Send and Sync", infn, e and (e[0] + "; " + "; ".join(e[1]))[:500]))
        for line, e in bad.items():
            ctx.viol("witness %s line %s" % (cfg, pos[line - 1].strip()[:60]), "the witness does not build: " + e[0])
        got = {}
        for code, line, msg, notes in res[("neg", cfg)]:
            got.setdefault(line, []).append(code)
        for i, l in enumerate(neg, 1):
            m = re.search(r"// NEG (.*)", l)
            if not m or ("Par" in l and cfg == "default"):
                continue
            n += 1
            codes = got.pop(i, [])
            if codes and "E0277" not in codes:
                ctx.undecided([("witness " + cfg, "line %d: %s" % (i, codes))])
                continue
            ctx.check(bool(codes), "rejected", "%s %s" % (cfg, m.group(1)), "a program that must not build does: %s" % m.group(1))
        if got:
            ctx.undecided([("witness " + cfg, "other lines are rejected: %s" % got)])
    u = unsafe_impls(ctx, P)
    ctx.floor("witnesses", n, 60)
    ctx.extra["hand_written_thread_impls"] = u
    ctx.explanation = ("Builds witness programs against the current tree in both feature configurations: each reader, writer, coder and description must be Send and Sync for every Send and Sync stream (also streams with a lifetime), each coder and parallel object around a stream "
                       "that is not Send or not Sync must be rejected; and looks at every hand-written Send and Sync impl for what the compiler does not check: public or copied raw pointers, and writes through them behind a shared reference.")
    ctx.assumptions = ["rustc's auto-trait rules"]
