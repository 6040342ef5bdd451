"""C08: each point format selects its items, in the record's order, with their sizes and versions."""
import vg
from vg import mk, const, isc, cval, Unsupported
from codec import ptr, provable_eq
from dispatch import item_types
from rawio import inherent, genv, writer

LEVEL = "other"
ITEMS = {0: "Point10", 1: "Point10 GpsTime", 2: "Point10 RGB12", 3: "Point10 GpsTime RGB12", 4: "Point10 GpsTime WavePacket13",
         5: "Point10 GpsTime RGB12 WavePacket13", 6: "Point14", 7: "Point14 RGB14", 8: "Point14 RGBNIR14",
         9: "Point14 WavePacket14", 10: "Point14 RGBNIR14 WavePacket14"}
SIZE = {"Point10": 20, "GpsTime": 8, "RGB12": 6, "WavePacket13": 29, "Point14": 30, "RGB14": 6, "RGBNIR14": 8, "WavePacket14": 29}
DEF = {"Byte": 2, "Point10": 2, "GpsTime": 2, "RGB12": 2, "WavePacket13": 2, "Point14": 3, "RGB14": 3, "RGBNIR14": 3, "WavePacket14": 3, "Byte14": 3}
RECLEN = {0: 20, 1: 28, 2: 26, 3: 34, 4: 57, 5: 63, 6: 30, 7: 36, 8: 38, 9: 59, 10: 67}
BLD = ("adt", "laszip::vlr::LazItemRecordBuilder", ())
ITY = ("adt", "laszip::vlr::LazItemType", ())
VERTR = {1: "laszip::vlr::Version1", 2: "laszip::vlr::Version2", 3: "laszip::vlr::Version3", 4: "laszip::vlr::Version4"}


def expected(P, fmt, extra, version=None):
    """[(name, discriminant, size, version)]"""
    disc = {n: d for n, d, _ in item_types(P)}
    out = []
    for n in ITEMS[fmt].split():
        out.append((n, disc[n], const(SIZE[n], 16)))
    if extra is not None:
        n = "Byte" if fmt < 6 else "Byte14"
        out.append((n, disc[n], extra))
    res = []
    for n, d, s in out:
        if version is None:
            v = DEF[n]
        else:
            v = version
        res.append((n, d, s, v))
    return res


def compare(ctx, E, unit, lab, iv, want, pc):
    ln = E.len_of(iv)
    ok = provable_eq(ln, const(len(want), 64), pc)
    ctx.check(ok, unit, "count:" + lab, "%s has %s items, expected %d" % (lab, vg.show(ln, 4), len(want)))
    if not ok:
        return
    for i, (n, d, s, v) in enumerate(want):
        e = E.index(E.project(iv, "#arr"), const(i, 64))
        it = E.project(e, "item_type")
        ctx.check(provable_eq(E.project(it, "#d"), const(d, 64), pc), unit, "type:%s:%d" % (lab, i), "item %d of %s is not %s" % (i, lab, n))
        ctx.check(provable_eq(E.project(e, "size"), s, pc), unit, "size:%s:%d" % (lab, i), "item %d (%s) of %s has size %s" % (i, n, lab, vg.show(E.project(e, "size"), 4)))
        ctx.check(provable_eq(E.project(e, "version"), const(v, 16), pc), unit, "version:%s:%d" % (lab, i), "item %d (%s) of %s has version %s, expected %d" % (i, n, lab, vg.show(E.project(e, "version"), 4), v))
        if n in ("Byte", "Byte14"):
            ctx.check(provable_eq(E.project(it, n + ".0"), s, pc), unit, "extra:%s:%d" % (lab, i), "the extra bytes item of %s counts %s bytes" % (lab, vg.show(E.project(it, n + ".0"), 4)))


def run(ctx):
    P = ctx.prog()
    b = inherent(P, "default_for_point_format_id", BLD)
    x = mk("sym", ("extra",), 16)
    for fmt in range(256):
        C = writer(P)
        r, _ = C.run(b, [const(fmt, 8), x], vg.TRUE, {}, genv(P, b))
        d = C.project(r, "#d")
        good = fmt in ITEMS
        ctx.check(isc(d) and cval(d) == (0 if good else 1), "accepted", "accepted:%d" % fmt, "point format %d is %s" % (fmt, "refused" if good else "accepted"))
        if good and isc(d) and cval(d) == 0:
            iv = C.project(r, "Ok.0")
            none = vg.eq(x, const(0, 16))
            compare(ctx, C, "default items", "format %d" % fmt, iv, expected(P, fmt, None), none)
            compare(ctx, C, "default items", "format %d with extra bytes" % fmt, iv, expected(P, fmt, x), vg.bnot(none))
            ctx.check(sum(SIZE[n] for n in ITEMS[fmt].split()) == RECLEN[fmt], "record length", "length:%d" % fmt, "sizes")
    # explicit versions of the point types
    n = 0
    for ver, tr in VERTR.items():
        for im in P.impls:
            if im.get("trait") != tr:
                continue
            ty = P.rty(im["self"])
            fmt = None
            for f in ITEMS:
                if ty[0] == "adt" and ty[1].rsplit("::", 1)[1] == "Point%d" % f:
                    fmt = f
            lab = "%s version %d" % (P.tstr(ty), ver)
            if fmt is None:
                if ty[0] == "adt" and ty[1].endswith("Point10"):
                    continue
                ctx.viol("unknown type:" + lab, "no point format for " + lab)
                continue
            n += 1
            h = P.find_impl(tr, "version_%d" % ver, ty)
            C = writer(P)
            iv, _ = C.run(h[0], [x], vg.TRUE, {}, dict(h[1]))
            none = vg.eq(x, const(0, 16))
            compare(ctx, C, "versioned items", lab, iv, expected(P, fmt, None, ver), none)
            compare(ctx, C, "versioned items", lab + " with extra bytes", iv, expected(P, fmt, x, ver), vg.bnot(none))
            ctx.check((ver < 3) == (fmt < 6), "versioned items", "generation:" + lab, "%s exists, but the format's generation does not have that version" % lab)
    ctx.floor("versioned item lists", n, 20)
    # items built by hand
    for name, disc, cnt in item_types(P):
        C = writer(P)
        st = {}
        nb = inherent(P, "new", BLD)
        v, _ = C.run(nb, [], vg.TRUE, st, {})
        st[("B",)] = v
        it = mk("st", (ITY, None, tuple([("#d", const(disc, 64))] + ([(name + ".0", x)] if cnt else []))))
        ab = inherent(P, "add_item", BLD)
        C.run(ab, [ptr(("B",)), it], vg.TRUE, st, {})
        bb = inherent(P, "build", BLD)
        iv, _ = C.run(bb, [ptr(("B",))], vg.TRUE, st, {})
        compare(ctx, C, "built item", name, iv, [(name, disc, x if cnt else const(SIZE[name], 16), DEF[name])], vg.TRUE)
    ctx.extra["point_formats"] = 11
    ctx.explanation = ("Evaluates the item-list constructors for all 256 point format ids and for every (point type, version) implementation with an arbitrary number of extra bytes, and compares item types, order, sizes, "
                       "versions and the extra-bytes count with the tables of the LAS and LASzip formats.")
