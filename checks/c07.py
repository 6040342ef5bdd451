"""C07: which items and versions are supported, and with which field coders and sizes, is the same on both sides."""
from pool import pmap
import vg
from prog import Prog
from vg import isc, cval
from dispatch import make_record, field_coders, item, item_types

LEVEL = "other"
SEQ = {"Byte": None, "Point10": 20, "GpsTime": 8, "RGB12": 6, "WavePacket13": 29}
LAY = {"Byte14": None, "Point14": 30, "RGB14": 6, "RGBNIR14": 8, "WavePacket14": 29}
CODE = {"Byte": 0, "Point10": 6, "GpsTime": 7, "RGB12": 8, "WavePacket13": 9, "Point14": 10, "RGB14": 11, "RGBNIR14": 12, "WavePacket14": 13, "Byte14": 14}


def supported(items):
    v = set(x[1] for x in items)
    if v <= {1, 2}:
        return all(x[0] in SEQ for x in items)
    if v <= {3, 4}:
        return all(x[0] in LAY for x in items)
    return False


def describe(P, side, items):
    """(ok, [(field type path, size)], record size) for [(name, version, size)]"""
    ok, ty, pv, st, E, r = make_record(P, side, [item(P, n, v, s, s) for n, v, s in items])
    if not ok:
        return ok, [], None
    out = []
    tr = "record::" + ("Layered" if "Layered" in ty[1] else "") + ("FieldCompressor" if side == "C" else "FieldDecompressor")
    for p, t, v in field_coders(P, E, st, pv[1]):
        h = P.find_impl(tr, "size_of_field", t)
        x, _ = E.run(h[0], [p], vg.TRUE, dict(st), dict(h[1]))
        out.append((P.tstr(t), cval(x) if isc(x) else None))
    h = P.find_impl("record::RecordCompressor" if side == "C" else "record::RecordDecompressor", "record_size", ty)
    x, _ = E.run(h[0], [pv[0]], vg.TRUE, dict(st), dict(h[1]))
    return ok, out, cval(x) if isc(x) else None


def job(a):
    path, lists = a
    P = Prog(path)
    res = []
    for items in lists:
        vg.reset()
        P._cfg = {}
        try:
            res.append((items, describe(P, "C", items), describe(P, "D", items), None))
        except Exception as e:
            res.append((items, None, None, "%s %s" % (type(e).__name__, e)))
    return res


def run(ctx):
    P = ctx.prog()
    its = item_types(P)
    names = [n for n, _, _ in its]
    ctx.check(set(names) == set(CODE), "item types", "the ten item types", "item types are %s" % names)
    names = [n for n in names if n in CODE]
    lists = []
    for n in names:
        for v in (0, 1, 2, 3, 4, 5, 255, 256, 258, 65535):
            for s in ((1, 3, 300) if n in ("Byte", "Byte14") else (dict(SEQ, **LAY)[n],)):
                lists.append([(n, v, s)])
    singles = len(lists)
    sz = lambda n: dict(SEQ, **LAY)[n] or 5
    one = [(n, v) for n in names for v in (1, 2, 3, 4)]
    for a in one:
        for b in one:
            if ctx.tier == "thorough" or a[1] == b[1] or (a[1] < 3) != (b[1] < 3):
                lists.append([(a[0], a[1], sz(a[0])), (b[0], b[1], sz(b[0]))])
    path = ctx.facts()["parallel"]
    k = 24
    res = [x for part in pmap(job, [(path, lists[i::k]) for i in range(k)]) for x in part]
    nok = 0
    for items, c, d, err in res:
        lab = "+".join("%s v%d%s" % (n, v, " x%d" % s if n in ("Byte", "Byte14") else "") for n, v, s in items)
        if err:
            ctx.viol("undecided:" + lab, "%s: %s" % (lab, err))
            continue
        exp = supported(items)
        unit = "single item" if len(items) == 1 else "item pair"
        ctx.check(c[0] == exp, unit, "compressor:" + lab, "compression of %s is %s, expected %s" % (lab, "accepted" if c[0] else "refused", "accepted" if exp else "refused"))
        ctx.check(d[0] == exp, unit, "decompressor:" + lab, "decompression of %s is %s, expected %s" % (lab, "accepted" if d[0] else "refused", "accepted" if exp else "refused"))
        if c[0] and d[0] and exp:
            nok += 1
            ctx.check([s for _, s in c[1]] == [s for _, s in d[1]], unit, "field sizes:" + lab, "%s: field sizes %s when compressing, %s when decompressing" % (lab, c[1], d[1]))
            want = sum(s for _, _, s in items)
            ctx.check(c[2] == want and d[2] == want and sum(s or 0 for _, s in c[1]) == want, unit, "record size:" + lab, "%s: the items take %d bytes, the record coders %s and %s" % (lab, want, c[2], d[2]))
            # the field coders of the two sides are siblings
            ctx.check([mod(t) for t, _ in c[1]] == [mod(t) for t, _ in d[1]], unit, "siblings:" + lab, "%s: coded by %s, decoded by %s" % (lab, [t for t, _ in c[1]], [t for t, _ in d[1]]))
    ctx.floor("supported item lists", nok, 24)
    ctx.extra["item_lists"] = len(res)
    ctx.explanation = ("The functions that build record compressors and decompressors are evaluated on every (item type, version) for versions 0-5, 255, 256, 258, 65535 and on pairs of items; accepted or refused is compared "
                       "with the LASzip support matrix on both sides, and the set-up field coders must have equal sizes adding up to the declared item size and live in the same codec module with the same version argument.")


def mod(t):
    """codec module and version argument of a field coder type"""
    p, _, args = t.partition("<")
    return p.rsplit("::", 1)[0], args
