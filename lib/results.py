"""Census over the MIR of the whole crate: what becomes of every Result a call returns."""

SWALLOW = {"ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "is_ok_and", "map_or", "map_or_else"}
PARTIAL = {"std::io::Read::read", "std::io::Write::write", "std::io::Read::read_vectored", "std::io::Write::write_vectored"}
WHOLE = {"std::io::Read::read_to_end", "std::io::Read::read_to_string", "std::io::copy"}


def _places(x, out):
    """locals read in an operand/rvalue tree"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("mv", "cp", "p") and isinstance(v, list) and v and isinstance(v[0], int):
                out.append((v[0], v[1] if len(v) > 1 else []))
            elif k == "c":
                continue
            else:
                _places(v, out)
    elif isinstance(x, list):
        for v in x:
            _places(v, out)


def uses(b):
    """{local: [(kind, detail)]} kinds: stmt (dest local), call (path, dest), switch, drop, other"""
    u = {}
    for bi, bb in enumerate(b["blocks"]):
        if bb.get("cleanup"):
            continue
        for s in bb["s"]:
            line, d, rv = s[0], s[1], s[2]
            ps = []
            _places(rv, ps)
            for l, pr in ps:
                u.setdefault(l, []).append(("stmt", d, rv, pr, bi))
        t = bb["t"]
        k = t["k"]
        if k == "drop":
            continue
        ps = []
        if k == "call":
            _places(t["a"], ps)
            _places(t["f"], ps)
            for l, pr in ps:
                u.setdefault(l, []).append(("call", t, None, pr, bi))
        else:
            _places({a: v for a, v in t.items() if a != "k"}, ps)
            for l, pr in ps:
                u.setdefault(l, []).append((k, t, None, pr, bi))
    return u


def fname(t):
    f = t["f"]
    c = f.get("c")
    if c and "fn" in c:
        return c["fn"]["p"], c["fn"].get("n"), c["fn"]
    return None, None, None


def is_result(P, tid):
    t = P.rty(tid)
    return t[0] == "adt" and t[1] in ("std::result::Result", "core::result::Result")


def follow(P, b, u, local, seen=None):
    """how the value of `local` ends: set of (what, detail)"""
    seen = seen if seen is not None else set()
    if local in seen:
        return set()
    seen.add(local)
    if local == 0:
        return {("returned", "")}
    out = set()
    for kind, x, rv, pr, bi in u.get(local, ()):
        if kind == "call":
            p, n, fn = fname(x)
            out.add(("call", n or "?"))
        elif kind == "stmt":
            d = x
            if rv.get("k") == "discr":
                out.add(("match", ""))
            elif pr:
                out.add(("payload", ""))
            elif d[1]:
                out.add(("stored", ""))
            elif rv.get("k") in ("use", "ref", "cast", "agg") or True:
                out |= follow(P, b, u, d[0], seen)
        else:
            out.add((kind, ""))
    return out


def payload_used(P, b, u, local):
    """is the number in this Result looked at (beyond the success/failure decision)?"""
    seen, todo = set(), [local]
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        if l == 0:
            return True
        for kind, x, rv, pr, bi in u.get(l, ()):
            if kind == "call":
                p, n, fn = fname(x)
                if n in ("branch", "map_err", "unwrap", "expect", "from_residual"):
                    todo.append(x["d"][0])
                else:
                    return True
            elif kind == "stmt":
                if rv.get("k") == "discr" or any(isinstance(e, dict) and ("Break" in e.values() or "Err" in e.values()) for e in pr):
                    continue
                if rv.get("k") in ("use", "ref", "cast") and not x[1]:
                    todo.append(x[0])
                elif rv.get("k") == "use":
                    return True
                else:
                    return True
            elif kind == "switch":
                return True
            elif kind in ("assert",):
                return True
    return False


def succ(t):
    k = t["k"]
    if k == "switch":
        return [x[1] for x in t["v"]] + ([t["else"]] if t.get("else") is not None else [])
    return [t["t"]] if isinstance(t.get("t"), int) else []


def reach(b, start):
    seen, todo = set(), [start]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo += succ(b["blocks"][i]["t"])
    return seen


def handled(P, b, u, local):
    """a failure found by matching leads to something of its own that can fail or return: a second attempt, an error made up, a panic"""
    for kind, x, rv, pr, bi in u.get(local, ()):
        if kind == "stmt" and rv.get("k") == "discr":
            t = b["blocks"][bi]["t"]
            if t["k"] != "switch":
                return True
            ok = [x[1] for x in t["v"] if x[0] == "0"]
            er = [x[1] for x in t["v"] if x[0] == "1"] or [t["else"]]
            if not ok:
                ok = [t["else"]]
            only = reach(b, er[0]) - reach(b, ok[0])
            for i in only:
                bb = b["blocks"][i]
                y = bb["t"]
                if y["k"] == "call" and (y.get("t") is None or is_result(P, b["locals"][y["d"][0]])):
                    return True
                if any(s[1][0] == 0 or is_result(P, b["locals"][s[1][0]]) for s in bb["s"]):
                    return True
    return False


def limited(P, fn):
    """the source of this call is one that ends early by itself (Take), so that its end says nothing about the bytes asked for"""
    return bool(fn) and any("std::io::Take'" in repr(P.rarg(a, None)) for a in fn.get("a", ()))


def in_memory(P, fn):
    """a cursor or slice: it falls short only at the end of its bytes, and the runs of C15/C21 show it is never asked for more"""
    a = repr(P.rarg(fn["a"][0], None)) if fn and fn.get("a") else ""
    return a.startswith("('adt', 'std::io::Cursor'")


def asks_length(P, b, start):
    """is the length of some buffer looked at after block `start`?"""
    for i in reach(b, start):
        bb = b["blocks"][i]
        if bb["t"]["k"] == "call" and fname(bb["t"])[1] in ("len", "is_empty"):
            return True
    return False


def census(ctx):
    n = m = 0
    for cfg in ("default", "parallel"):
        P = ctx.prog(cfg)
        for bid, b in sorted(P.bodies.items()):
            u = uses(b)
            inlaszip = b["file"].startswith("src/laszip/")
            for bb in b["blocks"]:
                t = bb["t"]
                if bb.get("cleanup") or t["k"] != "call":
                    continue
                p, nm, fn = fname(t)
                d = t["d"]
                if p in PARTIAL and not (b.get("impl_trait") in ("std::io::Read", "std::io::Write")):
                    m += 1
                    ok = in_memory(P, fn) or bool(d[1]) or payload_used(P, b, u, d[0])
                    ctx.check(ok, "partial reads and writes", "%s:%s" % (bid, nm), "%s ignores how many bytes %s moved" % (bid, p), "%s:%s" % (b["file"], bb["l"]))
                if p in WHOLE and limited(P, fn) and not bool(d[1]):
                    m += 1
                    ok = payload_used(P, b, u, d[0]) or (isinstance(t.get("t"), int) and asks_length(P, b, t["t"]))
                    ctx.check(ok, "partial reads and writes", "%s:%s" % (bid, nm), "%s takes what %s found for all the bytes it asked for" % (bid, p), "%s:%s" % (b["file"], bb["l"]))
                if d[1] or not is_result(P, b["locals"][d[0]]) or P.rty(b["locals"][d[0]])[2][:1] == (("never",),):
                    continue
                n += 1
                ends = follow(P, b, u, d[0])
                ctx.check(bool(ends), "results", "%s:%s:dropped" % (bid, nm), "%s drops the result of %s without looking at it" % (bid, p), "%s:%s" % (b["file"], bb["l"]))
                if inlaszip or not ends:
                    continue    # these are decided by the failure runs
                sw = sorted(x[1] for x in ends if x[0] == "call" and x[1] in SWALLOW)
                ctx.check(not sw, "results outside the (de)compressors", "%s:%s:swallowed" % (bid, nm), "%s discards the error of %s with %s" % (bid, p, ", ".join(sw)), "%s:%s" % (b["file"], bb["l"]))
                if ends == {("match", "")} and not handled(P, b, u, d[0]):
                    ctx.viol("%s:%s:matched" % (bid, nm), "%s branches on the result of %s and never looks at what it holds" % (bid, p), "%s:%s" % (b["file"], bb["l"]))
    ctx.floor("results followed", n, 300)
