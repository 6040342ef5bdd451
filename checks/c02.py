"""C02: the chunk table is coded as documented and read back equal."""
import vg
from vg import mk, const, isc, cval, Unsupported
import sea, seaw
from sea import Sea, mkvlr, method, traitmethod, env, adt
from codec import ptr

LEVEL = "other"


def entry(P, E, c, b):
    T = ("adt", adt(P, "ChunkTableEntry"), ())
    e = mk("st", (T, None, (("byte_count", b), ("point_count", c))))
    e.ty = T
    return e


def build(P, E, entries):
    """a table made by the public interface"""
    st = {}
    v, _ = E.run(method(P, "ChunkTable", "with_capacity"), [const(len(entries), 64)], vg.TRUE, st, {})
    st[("T",)] = v
    for e in entries:
        E.run(method(P, "ChunkTable", "push"), [ptr(("T",)), e], vg.TRUE, st, {})
    return st


def write(ctx, P, n, var, lay, bounded=True):
    vg.reset()
    E = Sea(P, 3, lay)
    cs = [mk("sym", ("count%d" % i,), 64) for i in range(n)]
    bs = [mk("sym", ("bytes%d" % i,), 64) for i in range(n)]
    st = build(P, E, [entry(P, E, c, b) for c, b in zip(cs, bs)])
    st[("V",)] = mkvlr(E, (2, 1), "var" if var else 5, 3 if lay else 2)
    st[("S",)] = E.stream()
    b = method(P, "ChunkTable", "write_to")
    r, pc = E.run(b, [ptr(("T",)), ptr(("S",)), ptr(("V",))], vg.TRUE, st, env(P, b, W=("ref", ("param", "W"), True)))
    lab = "%s, %d entries" % ("variable" if var else "fixed", n)
    ctx.check(pc is vg.TRUE and sea.isok(E, r), "table written", "write:ok", "%s: writing the table does not always succeed" % lab)
    T = E.P0
    want = [("table version", T, const(4, 64), const(0, 32)), ("table count", vg.add(T, const(4, 64)), const(4, 64), const(n, 32))]
    if n:
        out = []
        K = E.intcoder("Compressor")
        pc_ = pb = const(0, 32)
        for c, x in zip(cs, bs):
            if var:
                out.append(mk("int", (pc_, vg.trunc(c, 32), const(0, 32), K)))
                pc_ = vg.trunc(c, 32)
            out.append(mk("int", (pb, vg.trunc(x, 32), const(1, 32), K)))
            pb = vg.trunc(x, 32)
        t = mk("ints", tuple(out))
        want.append(("table entries", vg.add(T, const(8, 64)), E.atom(mk("op", ("tsz", t), 64)), t))
    ctx.ob("table written", len(want) + n)
    for k, t, w in seaw.compare(E, want) + E.problems:
        ctx.viol("write:" + k, "%s: %s" % (lab, t), w)


def read(ctx, P, n, var, lay, table):
    vg.reset()
    E = Sea(P, 3, lay)
    from sear import Reader
    r = Reader(P, "seq", [1] * n, "var" if var else 5, layered=lay, table=table, E=E)
    cs = [mk("sym", ("count%d" % i,), 32) for i in range(n)]
    ss = [mk("sym", ("bytes%d" % i,), 32) for i in range(n)]
    E.tab["counts"] = list(cs) if var else []
    E.tab["sizes"] = list(ss)
    st = {("V",): r.vlr, ("S",): E.stream()}
    b = method(P, "ChunkTable", "read_from")
    lab = "%s, %d entries" % ("variable" if var else "fixed", n)
    v, pc = E.run(b, [ptr(("S",)), ptr(("V",))], vg.TRUE, st, env(P, b, R=("ref", ("param", "R"), True)))
    if not ctx.check(pc is vg.TRUE and sea.isok(E, v), "table read", "read:ok", "%s: a well-formed table is not always read" % lab):
        return
    st[("T",)] = E.project(v, "Ok.0")
    ctx.check(E.getpos(st, ptr(("S",))) is vg.add(E.P0, const(8, 64)), "table read", "read:position", "%s: the source is left at %s, points start 8 bytes after the offset" % (lab, vg.show(E.getpos(st, ptr(("S",))), 4)[:80]))
    s, _ = E.run(traitmethod(P, "ChunkTable", "AsRef", "as_ref"), [ptr(("T",))], vg.TRUE, st, {})
    m = E.slice_len(st, s)
    if not ctx.check(m is const(n, 64), "table read", "read:length", "%s: %s entries are returned" % (lab, vg.show(m))):
        return
    for i in range(n):
        e = E.load(st, E.elem_ptr(s, const(i, 64)))
        c, x = E.project(e, "point_count"), E.project(e, "byte_count")
        ctx.check(c is (vg.zext(cs[i], 64) if var else const(5, 64)), "table read", "read:point_count", "%s: entry %d has point count %s" % (lab, i, vg.show(c)))
        ctx.check(x is vg.zext(ss[i], 64), "table read", "read:byte_count", "%s: entry %d has byte count %s" % (lab, i, vg.show(x)))
    want = []
    pc_ = pb = const(0, 32)
    D = E.intcoder("Decompressor")
    for c, x in zip(cs, ss):
        if var:
            want.append((pc_, const(0, 32), D))
            pc_ = c
        want.append((pb, const(1, 32), D))
        pb = x
    got = E.tab["preds"]
    ctx.check(len(got) == len(want), "predictions", "read:values", "%s: %d values are decoded, the table has %d" % (lab, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(g[0] is w[0], "predictions", "read:prediction", "%s: value %d is predicted from %s, it was coded from %s" % (lab, i, vg.show(g[0]), vg.show(w[0])))
        ctx.check(g[1] is w[1], "predictions", "read:context", "%s: value %d is decoded in context %s" % (lab, i, vg.show(g[1])))
        ctx.check(g[2] is w[2], "predictions", "read:coder", "%s: value %d is decoded with other parameters than 32 bits and 2 contexts" % (lab, i))
    if n:
        ctx.check(E.tab.get("at") is vg.add(r.T, const(8, 64)), "table read", "read:start", "%s: coded values are read from %s" % (lab, vg.show(E.tab.get("at"), 4)[:80] if E.tab.get("at") is not None else "nowhere"))
    for k, t, w in E.problems:
        ctx.viol("read:" + k, "%s: %s" % (lab, t), w)


def run(ctx):
    P = ctx.prog()
    for lay in (False, True):
        for var in (False, True):
            for n in (0, 1, 2, 3, 5, 17) + ((70, 300) if not lay else ()):
                write(ctx, P, n, var, lay)
                for table in ("start", "end"):
                    if n < 20 or table == "start":
                        read(ctx, P, n, var, lay, table)
    # tables read and written again by the compressors: entries come from their accounting
    ctx.explanation = ("ChunkTable::write_to is evaluated on tables of 0 to 300 arbitrary entries made with the public interface; version, number of entries and every coded value (value, prediction, context, parameters of the integer coder, order) are compared "
                       "with the documented table. ChunkTable::read_from is evaluated on a device with such a table holding arbitrary values: each entry must hold the decoded 32-bit values as unsigned numbers (point count: the record's chunk size for "
                       "fixed-size chunks), decoded with the predictions, contexts and parameters of the writer, and the source must be left at the first point.")
    ctx.assumptions = ["counts and sizes are below 2^32 (the format holds 32 bits)", "the integer coder returns what was coded with the same prediction, context and parameters (C16)"]
