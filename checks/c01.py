"""C01: the LAZ VLR record is written in the specified layout and read back to the same content."""
import vg
from vg import mk, const, isc, cval, Unsupported
from codec import ptr, provable_eq
from dispatch import item_types, LI, LIT
from rawio import inherent, genv, writer, reader, symbytes, le, split

LEVEL = "other"
CODE = {"Byte": 0, "Point10": 6, "GpsTime": 7, "RGB12": 8, "WavePacket13": 9, "Point14": 10, "RGB14": 11, "RGBNIR14": 12, "WavePacket14": 13, "Byte14": 14}
VLR = ("adt", "laszip::vlr::LazVlr", ())
LIt = ("adt", LI, ())
HEAD = [("compressor", 2), ("coder", 2), ("version.major", 1), ("version.minor", 1), ("version.revision", 2), ("options", 4), ("chunk_size", 4),
        ("number_of_special_evlrs", 8), ("offset_to_special_evlrs", 8)]


def getp(E, v, path):
    for k in path.split("."):
        v = E.project(v, k)
    return v


def sym_item(P, i, name):
    n, d, f = [x for x in item_types(P) if x[0] == name][0]
    size = mk("sym", ("size%d" % i,), 16)
    ver = mk("sym", ("version%d" % i,), 16)
    ty = mk("st", (("adt", LIT, ()), None, tuple([("#d", const(d, 64))] + ([(n + ".0", size)] if f else []))))
    return mk("st", (LIt, None, (("item_type", ty), ("size", size), ("version", ver)))), size, ver


def write(ctx, P, names):
    """bytes written for an arbitrary VLR with the given items"""
    C = writer(P)
    C.narrow = {"s.compressor.#d": 2}       # four compressor types
    its = [sym_item(P, i, n) for i, n in enumerate(names)]
    v = C.symbolise(vg.BOT, VLR)
    v = C.setpath(v, ("items",), C.vec(C.array([x[0] for x in its], LIt), const(len(its), 64), LIt))
    st = {("S",): v}
    b = inherent(P, "write_to", VLR)
    r, pc = C.run(b, [ptr(("S",)), ptr(("W",))], vg.TRUE, st, genv(P, b))
    return C, v, its, r


def run(ctx):
    P = ctx.prog()
    names = [n for n, _, _ in item_types(P)]
    cases = [[n] for n in names] + [["Point10", "GpsTime"], ["Point14", "RGBNIR14", "Byte14"], names]
    for case in cases:
        lab = "+".join(case) if len(case) < 5 else "all ten"
        C, v, its, r = write(ctx, P, case)
        # --- layout
        want = []
        for f, n in HEAD:
            t = getp(C, v, f)
            if f == "compressor":
                t = C.project(t, "#d")
            want += [(f, b) for b in split(t, 8 * n)]
        want += [("item count", b) for b in split(const(len(case), 16))]
        for i, (n, (_, size, ver)) in enumerate(zip(case, its)):
            want += [("item %d type" % i, b) for b in split(const(CODE[n], 16))] + [("item %d size" % i, b) for b in split(size)] + [("item %d version" % i, b) for b in split(ver)]
        got = C.raw
        ctx.check(len(got) == len(want), "written length", "length:" + lab, "a VLR with items %s is written as %d bytes, the format has %d" % (lab, len(got), len(want)), got[-1][3] if got else None)
        ctx.check(len(set(x[0] for x in got)) <= 1, "written length", "stream:" + lab, "bytes of one VLR go to several streams")
        for k, ((f, w), g) in enumerate(zip(want, got)):
            ctx.check(g[1] is vg.TRUE and g[2] is not None and provable_eq(w, g[2], vg.TRUE), "written bytes", "byte:%s:%d:%s" % (lab, k, f),
                      "byte %d of the record (%s) is written as %s" % (k, f, vg.show(g[2], 4)[:200] if g[2] is not None else "a slice"), g[3])
        # --- reading it back
        back(ctx, P, lab, C, v, its, case)
    parse(ctx, P)
    build(ctx, P)
    helpers(ctx, P)
    ctx.floor("item types", len(names), 10)
    ctx.explanation = ("The VLR writer is evaluated on records with arbitrary field values for each item type and several item lists; each written byte is compared with the documented layout, the reader is evaluated on those bytes and must "
                       "return an equal record. The reader is also evaluated on arbitrary bytes: every field must be the little-endian value at its offset, unknown compressor types and item types must be errors, chunk size 0 means variable.")
    ctx.assumptions = ["item lists of 0 to 10 items are evaluated; the loop body does not depend on the count"]


def back(ctx, P, lab, C, v, its, case):
    D = reader(P, [x[2] for x in C.raw])
    b = inherent(P, "read_from", VLR)
    r, _ = D.run(b, [mk("sym", ("R",), None)], vg.TRUE, {}, genv(P, b))
    comp = C.project(getp(C, v, "compressor"), "#d")
    valid = vg.band(vg.ult(comp, const(4, comp.w)), vg.bnot(vg.eq(getp(C, v, "chunk_size"), const(0, 32))))
    ctx.check(len(D.reads) == len(C.raw) and not D.problems, "read back", "consumed:" + lab, "the reader consumes %d bytes of a %d byte record" % (len(D.reads), len(C.raw)))
    ctx.check(provable_eq(D.project(r, "#d"), const(0, 64), valid), "read back", "accepted:" + lab, "a written record with items %s is refused" % lab)
    x = D.project(r, "Ok.0")
    for f, n in HEAD:
        a, c = getp(C, v, f), getp(D, x, f)
        if f == "compressor":
            a, c = C.project(a, "#d"), D.project(c, "#d")
        if a.w != c.w:
            c = vg._zext(c, a.w) if c.w < a.w else c
        ctx.check(provable_eq(a, c, valid), "read back", "field:%s:%s" % (f, lab), "%s is read back as %s" % (f, vg.show(c, 5)[:300]))
    iv = D.project(x, "items")
    ln = D.len_of(iv)
    ctx.check(isc(ln) and cval(ln) == len(case), "read back", "count:" + lab, "%s items are read back from %d" % (vg.show(ln), len(case)))
    if isc(ln):
        for i in range(min(cval(ln), len(case))):
            e = D.index(D.project(iv, "#arr"), const(i, 64))
            for f in ("size", "version"):
                ctx.check(provable_eq(D.project(e, f), D.project(its[i][0], f), valid), "read back", "item %s:%s:%d" % (f, lab, i), "%s of item %d is read back as %s" % (f, i, vg.show(D.project(e, f), 4)))
            t, u = D.project(e, "item_type"), D.project(its[i][0], "item_type")
            ok = provable_eq(D.project(t, "#d"), D.project(u, "#d"), valid)
            if ok and case[i] in ("Byte", "Byte14"):
                ok = provable_eq(D.project(t, case[i] + ".0"), D.project(u, case[i] + ".0"), valid)
            ctx.check(ok, "read back", "item type:%s:%d" % (lab, i), "item %d (%s) is read back as another type" % (i, case[i]))


def parse(ctx, P):
    """the reader on arbitrary bytes"""
    codes = {c: n for n, c in CODE.items()}
    disc = {n: d for n, d, _ in item_types(P)}
    for n in (0, 1, 2, 3):
        bs = []
        for f, k in HEAD:
            bs += split(mk("sym", (f,), 8 * k))
        bs += split(const(n, 16))
        for i in range(3 * n):
            bs += split(mk("sym", ("i%d" % i,), 16))
        D = reader(P, bs)
        b = inherent(P, "read_from", VLR)
        r, _ = D.run(b, [mk("sym", ("R",), None)], vg.TRUE, {}, genv(P, b))
        comp = le(bs[0:2])
        ok = vg.ult(comp, const(4, 16))
        known = vg.TRUE
        for i in range(n):
            t = le(bs[34 + 6 * i:36 + 6 * i])
            k = vg.FALSE
            for c in codes:
                k = vg.bor(k, vg.eq(t, const(c, 16)))
            known = vg.band(known, k)
        good = vg.band(ok, known)
        d = D.project(r, "#d")
        ctx.check(provable_eq(d, const(0, 64), good), "parse", "parse:accept:%d" % n, "a well-formed record with %d item(s) is refused" % n)
        ctx.check(provable_eq(d, const(1, 64), vg.bnot(good)), "parse", "parse:refuse:%d" % n, "a record with an unknown compressor or item type (%d items) is accepted" % n)
        x = D.project(r, "Ok.0")
        pos = 0
        for f, k in HEAD:
            a, c = le(bs[pos:pos + k]), getp(D, x, f)
            pos += k
            if f == "compressor":
                c = D.project(c, "#d")
                a = vg._zext(a, c.w)
            if f == "chunk_size":
                a = vg.ite(vg.eq(a, const(0, 32)), const(0xffffffff, 32), a)
            ctx.check(provable_eq(a, c, good), "parse", "parse:%s:%d" % (f, n), "%s is parsed as %s" % (f, vg.show(c, 4)[:200]))
        iv = D.project(x, "items")
        for i in range(n):
            e = D.index(D.project(iv, "#arr"), const(i, 64))
            o = 34 + 6 * i
            t = le(bs[o:o + 2])
            ctx.check(provable_eq(D.project(e, "size"), le(bs[o + 2:o + 4]), good), "parse", "parse:item size:%d/%d" % (i, n), "item size is parsed as " + vg.show(D.project(e, "size"), 4))
            ctx.check(provable_eq(D.project(e, "version"), le(bs[o + 4:o + 6]), good), "parse", "parse:item version:%d/%d" % (i, n), "item version is parsed as " + vg.show(D.project(e, "version"), 4))
            it = D.project(e, "item_type")
            for c, nm in codes.items():
                g = vg.band(good, vg.eq(t, const(c, 16)))
                ok = provable_eq(D.project(it, "#d"), const(disc[nm], 64), g)
                if nm in ("Byte", "Byte14"):
                    ok = ok and provable_eq(D.project(it, nm + ".0"), le(bs[o + 2:o + 4]), g)
                ctx.check(ok, "parse", "parse:item type %d:%d/%d" % (c, i, n), "item type code %d is not read as %s" % (c, nm))


def build(ctx, P):
    """what the builder puts in a new record"""
    B = ("adt", "laszip::vlr::LazVlrBuilder", ())
    for ver in (1, 2, 3, 4):
        for mode in ("default", "fixed", "variable"):
            C = writer(P)
            n = "Point10" if ver < 3 else "Point14"
            it, size, _ = sym_item(P, 0, n)
            it = C.setpath(it, ("version",), const(ver, 16))
            items = C.vec(C.array([it], LIt), const(1, 64), LIt)
            st = {}
            b = inherent(P, "new", B)
            v, _ = C.run(b, [items], vg.TRUE, st, genv(P, b))
            if mode == "fixed":
                k = mk("sym", ("k",), 32)
                b = inherent(P, "with_fixed_chunk_size", B)
                v, _ = C.run(b, [v, k], vg.TRUE, st, genv(P, b))
            elif mode == "variable":
                b = inherent(P, "with_variable_chunk_size", B)
                v, _ = C.run(b, [v], vg.TRUE, st, genv(P, b))
            b = inherent(P, "build", B)
            v, _ = C.run(b, [v], vg.TRUE, st, genv(P, b))
            lab = "v%d %s" % (ver, mode)
            exp = {"coder": 0, "version.major": 2, "version.minor": 2, "version.revision": 0, "options": 0, "number_of_special_evlrs": (1 << 64) - 1, "offset_to_special_evlrs": (1 << 64) - 1}
            for f, e in exp.items():
                x = getp(C, v, f)
                if f == "version.minor":
                    continue
                ctx.check(isc(x) and cval(x) == e, "builder", "build:%s:%s" % (f, lab), "a new record has %s = %s" % (f, vg.show(x)))
            x = C.project(getp(C, v, "compressor"), "#d")
            ctx.check(isc(x) and cval(x) == (2 if ver < 3 else 3), "builder", "build:compressor:" + lab, "items of version %d give compressor type %s" % (ver, vg.show(x)))
            x = getp(C, v, "chunk_size")
            want = {"default": const(50000, 32), "variable": const(0xffffffff, 32)}.get(mode)
            if mode == "fixed":
                want = k
            ctx.check(x is want, "builder", "build:chunk size:" + lab, "chunk size is %s" % vg.show(x))
            iv = C.project(v, "items")
            ok = isc(C.len_of(iv)) and cval(C.len_of(iv)) == 1 and C.project(C.index(C.project(iv, "#arr"), const(0, 64)), "size") is size
            ctx.check(ok, "builder", "build:items:" + lab, "the items are not the ones given")


def helpers(ctx, P):
    C = writer(P)
    names = ["Point10", "GpsTime", "RGB12", "Byte"]
    its = [sym_item(P, i, n) for i, n in enumerate(names)]
    v = C.symbolise(vg.BOT, VLR)
    v = C.setpath(v, ("items",), C.vec(C.array([x[0] for x in its], LIt), const(len(its), 64), LIt))
    st = {("S",): v}
    b = inherent(P, "uses_variable_size_chunks", VLR)
    r, _ = C.run(b, [ptr(("S",))], vg.TRUE, st, {})
    ctx.check(provable_eq(vg.eq(getp(C, v, "chunk_size"), const(0xffffffff, 32)), r, vg.TRUE), "helpers", "uses_variable_size_chunks", "variable-size chunks are reported for chunk sizes other than the sentinel: " + vg.show(r, 4))
    b = inherent(P, "chunk_size", VLR)
    r, _ = C.run(b, [ptr(("S",))], vg.TRUE, st, {})
    ctx.check(r is getp(C, v, "chunk_size"), "helpers", "chunk_size", "chunk size is reported as " + vg.show(r, 4))
    b = inherent(P, "items_size", VLR)
    r, _ = C.run(b, [ptr(("S",))], vg.TRUE, st, {})
    want = const(0, 64)
    for _, s, _ in its:
        want = vg.add(want, vg._zext(s, 64))
    ctx.check(provable_eq(want, r, vg.TRUE), "helpers", "items_size", "the size of a point is reported as %s, not as the sum of the item sizes" % vg.show(r, 5)[:300])
