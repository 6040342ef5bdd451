"""C24: what a codec yields depends on its own arguments and stream alone: no state outside the objects, nothing read from the surroundings."""
import re

LEVEL = "other"

INTERIOR = re.compile(r"^(std|core|alloc)::(cell::(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|SyncUnsafeCell)|sync::(Mutex|RwLock|OnceLock|LazyLock|Condvar|Barrier|Once|atomic::\w+|poison::\w+(::\w+)*|mpsc::\w+)|sync::(once_lock|lazy_lock)::\w+)$")
SHARED = re.compile(r"^(std|alloc)::(sync::(Arc|Weak)|rc::(Rc|Weak))$")
LAZY = re.compile(r"^std::(sync::(LazyLock|OnceLock)|cell::(OnceCell|LazyCell))$")
# what a result must not depend on
OUTSIDE = [
    (r"^std::env::", "the process environment"),
    (r"^<?std::time::(Instant|SystemTime)", "the clock"),
    (r"^std::(process|os|net)::", "the operating system"),
    (r"^std::fs::", "files it was not given"),
    (r"^std::io::(stdin|Stdin)", "standard input"),
    (r"^std::thread::(current|available_parallelism|Thread::|ThreadId)", "the thread it runs on"),
    (r"^std::thread::LocalKey", "state of the thread it runs on"),
    (r"^(std::hash::RandomState|std::collections::hash_map::RandomState|std::hash::random|std::random|rand::|getrandom::|fastrand::)", "random numbers"),
    (r"^rayon::(current_thread_index|current_num_threads|max_num_threads)|^rayon_core::(current_thread_index)", "the thread it runs on"),
    (r"^std::sync::mpsc::", "the order in which threads send"),
]
ORDER = [(r"(^|::)par_bridge$", "the order in which threads take items"), (r"(^|::)(find_any|find_map_any|position_any|try_find_any)$", "which thread is first")]
HASHIT = re.compile(r"^std::collections::(HashMap|HashSet|hash_map::HashMap|hash_set::HashSet)\b.*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if)$")


def interior(P, t, seen=()):
    """a type through which shared references can write, by what it owns or reaches"""
    if not isinstance(t, tuple) or not t:
        return None
    k = t[0]
    if k == "adt":
        if INTERIOR.match(t[1]):
            return t[1]
        for a in t[2]:
            r = interior(P, a, seen)
            if r:
                return r
        if t[1] in P.adts and P.adts[t[1]]["local"] and t[1] not in seen:
            for v in P.adts[t[1]]["variants"]:
                for f in v["f"]:
                    r = interior(P, P.rty(f["t"]), seen + (t[1],))
                    if r:
                        return r
        return None
    if k in ("ref", "ptr"):
        return interior(P, t[2], seen)
    if k in ("arr", "slice"):
        return interior(P, t[1], seen)
    if k in ("tuple",):
        for a in t[1]:
            r = interior(P, a, seen)
            if r:
                return r
    return None


def shared(P, t, depth=0):
    """interior mutability behind a reference-counted pointer or a shared reference for the whole program"""
    if not isinstance(t, tuple) or not t or depth > 12:
        return None
    if t[0] == "adt":
        if SHARED.match(t[1]):
            for a in t[2]:
                r = interior(P, a)
                if r:
                    return "%s of %s" % (t[1], r)
        for a in t[2]:
            r = shared(P, a, depth + 1)
            if r:
                return r
        return None
    if t[0] == "ref":
        r = interior(P, t[2])
        return "a reference to %s" % r if r else shared(P, t[2], depth + 1)
    if t[0] in ("arr", "slice"):
        return shared(P, t[1], depth + 1)
    if t[0] == "tuple":
        for a in t[1]:
            r = shared(P, a, depth + 1)
            if r:
                return r
    return None


def callee(x):
    try:
        return x["c"]["fn"]
    except (KeyError, TypeError):
        return None


def fns(o, out):
    """every function named in a statement or terminator"""
    if isinstance(o, dict):
        if "fn" in o and isinstance(o["fn"], dict) and "p" in o["fn"]:
            out.append(o["fn"])
        for v in o.values():
            fns(v, out)
    elif isinstance(o, list):
        for v in o:
            fns(v, out)
    return out


def statics_used(o, out):
    if isinstance(o, dict):
        if "static" in o:
            out.add(o["static"])
        for v in o.values():
            statics_used(v, out)
    elif isinstance(o, list):
        for v in o:
            statics_used(v, out)
    return out


def run(ctx):
    for cfg in ("default", "parallel"):
        P = ctx.prog(cfg)
        nb = nc = nf = 0
        lazy = set()
        for c in P.F["consts"]:
            t = P.rty(c["t"])
            name = c["id"]
            if t[0] == "adt" and t[1] in ("std::thread::LocalKey", "std::thread::local::LocalKey"):
                ctx.check(False, "statics", "thread-local " + name, "%s keeps state per thread: what a codec yields depends on what ran before on the thread" % name)
                continue
            if not c.get("static"):
                continue
            where = "%s:%s" % (c.get("file"), c.get("line"))
            if c["mut"] or c["tls"] or c.get("foreign"):
                ctx.check(False, "statics", "static " + name, "%s is a %s: state shared by all codecs" % (name, "thread-local" if c["tls"] else "mutable static"), where)
                continue
            if c["freeze"]:
                ctx.check(True, "statics", "static " + name, "")
                r = shared(P, t)
                ctx.check(r is None, "statics", "static reaches " + name, "%s reaches %s: state shared by all codecs" % (name, r), where)
                continue
            if t[0] == "adt" and LAZY.match(t[1]) and not any(interior(P, a) for a in t[2][:1]):
                lazy.add(name)
                continue
            ctx.check(False, "statics", "static " + name, "%s (%s) can be written through a shared reference: state shared by all codecs" % (name, P.tstr(t)), where)
        for an, a in P.adts.items():
            if not a["local"]:
                continue
            for v in a["variants"]:
                for f in v["f"]:
                    nf += 1
                    r = shared(P, P.rty(f["t"]))
                    ctx.check(r is None, "fields", "%s.%s" % (an, f["n"]), "field %s of %s is %s: objects can share state" % (f["n"], an, r), "%s:%s" % (a["file"], a["line"]))
            raws = [f["n"] for v in a["variants"] for f in v["f"] if P.rty(f["t"])[0] == "ptr"]
            if raws:
                for im in P.impls:
                    t = P.rty(im["self"])
                    if im.get("trait") in ("std::clone::Clone", "std::marker::Copy") and t[0] == "adt" and t[1] == an:
                        ctx.check(not copies(P, im, raws), "fields", "%s of %s" % (im["trait"], an), "a copy of %s writes to what the raw pointers (%s) of the original reach" % (an, ", ".join(raws)), "%s:%s" % (im["file"], im["line"]))
        for bid, b in P.bodies.items():
            nb += 1
            for blk in b["blocks"]:
                if blk["cleanup"]:
                    continue
                used = fns([blk["s"], blk["t"]], [])
                for f in used:
                    nc += 1
                    names = [f["p"]] + ([f["r"]["p"]] if isinstance(f.get("r"), dict) and "p" in f["r"] else [])
                    why = None
                    for nm in names:
                        for rx, w in OUTSIDE:
                            if re.search(rx, nm):
                                why = w
                        if why is None:
                            for rx, w in ORDER:
                                if re.search(rx, nm) and "rayon" in nm:
                                    why = w
                        if why is None and HASHIT.match(nm):
                            why = "the order of a hash table"
                    env_t = [P.rty(x) for x in f["a"] if isinstance(x, int)]
                    if why is None and f.get("n") == "into_iter":
                        for t in env_t:
                            if t[0] == "ref":
                                t = t[2]
                            if t[0] == "adt" and re.match(r"^std::collections::(hash_map::HashMap|HashMap|hash_set::HashSet|HashSet)$", t[1]):
                                why = "the order of a hash table"
                    if f.get("n") in ("get_or_init", "get_or_try_init", "set", "get_or_insert_with") and LAZY.match(re.sub(r"::<.*$", "", re.sub(r"::\w+$", "", f["p"]))):
                        cl = [t for t in env_t if t[0] == "closure"]
                        if f["n"] == "set" or any(t[2] for t in cl):
                            if lazy:
                                why = "what an earlier call left in a cache"
                    ctx.check(why is None, "calls", "%s calls %s" % (bid, f["p"]), "%s uses %s: its result depends on %s" % (bid, f["p"], why), "%s:%s" % (b["file"], blk["l"]))
        ctx.floor(cfg + " bodies", nb, 400)
        ctx.floor(cfg + " calls", nc, 2000)
        ctx.floor(cfg + " fields", nf, 200)
        ctx.extra[cfg] = {"bodies": nb, "functions_named": nc, "fields": nf, "statics": sum(1 for c in P.F["consts"] if c.get("static")), "lazy_statics": sorted(lazy)}
    ctx.samples = ["static, thread-local and lazily initialised items of both configurations", "fields: no reference-counted or borrowed interior mutability in any type of the crate", "calls: no function of the surroundings is named in any body"]
    ctx.explanation = ("Looks at every static item (mutable, thread-local or writable through a shared reference), at the type of every field of the crate's types (interior mutability behind a shared pointer, raw pointers copied by Clone) and at every function named in any body of both "
                       "feature configurations (clock, environment, thread identity, random numbers, files, hash table order, first-finished selection in parallel iterators). A constant table, or a lazily built one whose initialiser captures nothing, is allowed.")
    ctx.assumptions = ["library functions not in the table of outside effects have none", "the streams given by the caller are not shared"]


def copies(P, im, raws):
    import json
    if im["trait"].endswith("Copy"):
        return True
    for _, it in im["items"]:
        b = P.bodies.get(it)
        if b and any('"f": "%s"' % x in json.dumps(b["blocks"]) for x in raws):
            return True
    return False
