"""C10: a record is cut into its fields in item order and every field coder sees every point once, on both sides."""
import vg
from vg import mk, const, isc, cval, Unsupported
from prog import width
from codec import Side, ptr, provable_eq, inbytes, through, stream_of
from seaw import catb
from dispatch import item, make_record, field_coders

LEVEL = "other"
LISTS = [(2, ["Point10"], 0), (2, ["Point10", "GpsTime", "RGB12", "Byte"], 4), (1, ["Point10", "WavePacket13", "Byte"], 3),
         (3, ["Point14"], 0), (3, ["Point14", "RGBNIR14", "Byte14"], 4), (4, ["Point14", "RGB14", "WavePacket14", "Byte14"], 2)]
FIRST = {"compress_first", "decompress_first", "init_first_point"}
NEXT = {"compress_with", "decompress_with", "compress_field_with", "decompress_field_with"}
NAMES = sorted(FIRST | NEXT) + ["write_layers", "write_layers_sizes", "read_layers", "read_layers_sizes"]


class Rec:
    """a record coder with every field operation recorded"""

    def __init__(self, P, side, ver, its):
        self.P, self.side = P, side
        self.lay = ver >= 3
        ok, ty, pv, st, E, r = make_record(P, side, its, () if self.lay else ("encoders::ArithmeticEncoder::<T>::new", "decoders::ArithmeticDecoder::<T>::new"))
        if not ok:
            raise Unsupported("the record coder cannot be set up")
        self.ty, self.st, self.E = ty, st, E
        self.p = pv[0]
        self.its = its
        self.log = []
        self.mute = {"std::io::Write::flush"}
        self.scan()
        tr = "record::" + ("Layered" if self.lay else "") + ("FieldCompressor" if side == "C" else "FieldDecompressor")
        self.ftrait = tr
        self.rtrait = "record::RecordCompressor" if side == "C" else "record::RecordDecompressor"
        for nm in NAMES:
            f = self.rec(nm)
            E.hooks[tr + "::" + nm] = f
            for _, t, _ in self.fields:
                h = P.find_impl(tr, nm, t)
                if h:
                    E.hooks[h[0]] = f
        for nm in ("encoders::ArithmeticEncoder::done", "decoders::ArithmeticDecoder::read_init_bytes"):
            b = [k for k, x in P.bodies.items() if x.get("name") == nm.split("::")[-1] and x.get("impl_self") is not None and x.get("impl_trait") is None and nm.split("::")[1] in P.tstr(P.rty(x["impl_self"]))]
            for k in b:
                E.hooks[k] = self.coder(nm.split("::")[-1])
        for t, w in (("u8", 8), ("i8", 8), ("u16", 16), ("i16", 16), ("u32", 32), ("i32", 32), ("u64", 64), ("i64", 64)):
            E.hooks["byteorder::WriteBytesExt::write_" + t] = self.wr(w)
            E.hooks["byteorder::ReadBytesExt::read_" + t] = self.rd(w)
        E.hooks["std::io::Write::write_all"] = self.wr(None)
        E.hooks["std::io::Read::read_exact"] = self.rd(None)

    def scan(self):
        rec = self.E.load(self.st, self.p)
        self.fields = field_coders(self.P, self.E, self.st, rec)
        self.names = [self.P.tstr(t) for _, t, _ in self.fields]
        self.sizes = []
        for i, (p, t, fv) in enumerate(self.fields):
            tr = "record::" + ("Layered" if self.lay else "") + ("FieldCompressor" if self.side == "C" else "FieldDecompressor")
            h = self.P.find_impl(tr, "size_of_field", t)
            v, _ = self.E.run(h[0], [p], vg.TRUE, dict(self.st), dict(h[1]))
            if not isc(v):
                raise Unsupported("field of unknown size")
            self.sizes.append(cval(v))

    def idx(self, p):
        for i, (q, _, _) in enumerate(self.fields):
            if p is q or (p.op == "ptr" and p.args[:2] == q.args[:2]):
                return i
        return None

    def rec(self, nm):
        def f(ev, c):
            i = self.idx(c.args[0])
            e = {"op": nm, "i": i, "pc": c.pc, "where": c.where, "slice": None, "stream": None, "ctx": None}
            rest = list(c.args[1:])
            if nm in FIRST:
                e["stream"] = through(ev, rest[0], c.st)
                e["slice"] = rest[1]
                k = 2
            elif nm in NEXT and not self.lay:
                e["stream"] = through(ev, rest[0], c.st)
                e["slice"] = rest[1]
                k = 2
            elif nm in NEXT:
                e["slice"] = rest[0]
                k = 1
            else:
                e["stream"] = through(ev, rest[0], c.st)
                k = 1
            if self.lay and nm in FIRST | NEXT:
                cp = rest[k]
                e["ctx"] = ev.load(c.st, cp)
                if i is not None and "Point6" in self.names[i]:
                    ev.store(c.st, cp, mk("sym", ("channel", len(self.log)), 64))
            self.log.append(e)
            return ev.ok(vg.UNIT)
        return f

    def coder(self, nm):
        def f(ev, c):
            self.log.append({"op": nm, "i": None, "pc": c.pc, "where": c.where, "stream": through(ev, c.args[0], c.st)})
            return ev.ok(vg.UNIT)
        return f

    def raw(self, c, stream, bs):
        """plain bytes read or written: four of them in a row are the point count, least significant first"""
        l = self.log
        if l and l[-1]["op"] in ("count", "bytes") and l[-1]["stream"] is stream and len(l[-1]["bytes"]) + len(bs) <= 4 and l[-1]["pc"] is c.pc:
            l[-1]["bytes"] = l[-1]["bytes"] + bs
        else:
            l.append({"op": "bytes", "i": None, "pc": c.pc, "where": c.where, "stream": stream, "bytes": bs})
        e = l[-1]
        e["op"] = "count" if len(e["bytes"]) == 4 else "bytes"
        e["val"] = catb(e["bytes"]) if e["op"] == "count" else None

    def wr(self, w):
        def f(ev, c):
            be = any("BigEndian" in repr(t) for t in (c.targs or ()))
            if w is None:
                n = ev.slice_len(c.st, c.args[1])
                if not isc(n):
                    raise Unsupported("write of unknown length")
                bs = [ev.load(c.st, ev.elem_ptr(c.args[1], const(i, 64))) for i in range(cval(n))]
            else:
                bs = [vg.bslice(c.args[1], 8 * i, 8) for i in range(w // 8)]
                if be:
                    bs.reverse()
            self.raw(c, through(ev, c.args[0], c.st), bs)
            return ev.ok(vg.UNIT)
        return f

    def rd(self, w):
        def f(ev, c):
            be = any("BigEndian" in repr(t) for t in (c.targs or ()))
            n = w // 8 if w else ev.slice_len(c.st, c.args[1])
            if not w:
                if not isc(n):
                    raise Unsupported("read of unknown length")
                n = cval(n)
            self.nread = getattr(self, "nread", 0)
            bs = [mk("sym", ("rawbyte", self.nread + i), 8) for i in range(n)]
            self.nread += n
            self.raw(c, through(ev, c.args[0], c.st), bs)
            if w:
                return ev.ok(catb(bs[::-1] if be else bs))
            for i, b in enumerate(bs):
                ev.store(c.st, ev.elem_ptr(c.args[1], const(i, 64)), b)
            return ev.ok(vg.UNIT)
        return f

    def call(self, name, *args):
        h = self.method(name)
        env = {**h[1], "W": ("param", "W"), "R": ("param", "R")}
        self.log = []
        v, pc = self.E.run(h[0], [self.p] + list(args), vg.TRUE, self.st, env)
        return v, self.log

    def method(self, name):
        h = self.P.find_impl(self.rtrait, name, self.ty)
        if h is None:       # the trait's own method
            h = (self.rtrait + "::" + name, {"Self": self.ty})
            if h[0] not in self.P.bodies:
                raise Unsupported("no " + name)
        return h

    def body(self, name):
        return self.method(name)[0]


def pkey(p):
    """pointer as (root, path, offset)"""
    if p is None or p.op != "ptr":
        return None
    r, path, off = p.args[0], p.args[1], p.args[2]
    o = 0 if off is None else cval(off[0] if isinstance(off, tuple) else off) if (isc(off[0] if isinstance(off, tuple) else off)) else None
    return (r, path, o)


def flat(E, st, v, seen=0):
    """value with boxes opened, for comparison"""
    if seen > 6:
        return v
    if v.op == "ptr" and v.args[2] is None and v.args[0][0] == "H":
        try:
            return ("box", flat(E, st, E.load(st, v), seen + 1))
        except Unsupported:
            return v
    if v.op == "st":
        return ("st", v.args[0], tuple((k, flat(E, st, x, seen + 1)) for k, x in v.args[2]))
    if v.op == "ar":
        return ("ar", flat(E, st, v.args[0], seen + 1) if isinstance(v.args[0], vg.Term) else v.args[0], tuple((k, flat(E, st, x, seen + 1)) for k, x in v.args[1]))
    return v


def contiguous(ctx, R, ev, lab, unit, where, root=("B",), base=0):
    """the operations `ev` run over all fields in order, on consecutive slices"""
    ok = [e["i"] for e in ev] == list(range(len(R.fields)))
    ctx.check(ok, unit, "order:" + lab, "%s handles the fields in order %s of %s" % (lab, [e["i"] for e in ev], R.names), where)
    off = base
    if not ok:
        return
    for e, n in zip(ev, R.sizes):
        s = e["slice"]
        if s is not None:
            a, ln = R.E.slice_at(s)
            ctx.check(a == (root, off) and ln == n, unit, "slice:%s:%d" % (lab, e["i"]), "%s gives field %d (%s, %d bytes) the bytes %s..+%s instead of %d..+%d" % (lab, e["i"], R.names[e["i"]], n, a, ln, off, n), e["where"])
        off += n
        ctx.check(e["pc"] is vg.TRUE, unit, "always:%s:%d" % (lab, e["i"]), "%s reaches field %d only when %s" % (lab, e["i"], vg.show(e["pc"], 3)), e["where"])


def slice_at(self, s):
    """((root, byte offset), length) of a byte slice"""
    if s.op != "ptr":
        return (None, None), None
    ln = self.slice_len({}, s)
    off = 0
    root = s.args[0]
    for k in s.args[1]:
        if isinstance(k, vg.Term) and isc(k):
            off += cval(k)
        elif isinstance(k, int):
            off += k
        elif isinstance(k, tuple) and k[0] == "[]" and isc(k[1]):
            off += cval(k[1])
        else:
            return (root, repr(k)), None
    o = s.args[2]
    if o is not None:
        o = o[0] if isinstance(o, tuple) else o
        if not isc(o):
            return (root, "?"), None
        off += cval(o)
    return (root, off), (cval(ln) if isc(ln) else None)


Side.slice_at = slice_at


def one(ctx, P, side, ver, names, extra):
    its = [item(P, n, ver, extra, extra) for n in names]
    R = Rec(P, side, ver, its)
    E = R.E
    lab = "%s v%d %s" % ("compressor" if side == "C" else "decompressor", ver, "+".join(names))
    n = sum(R.sizes)
    nxt, many, fin = ("compress_next", "compress_many", "done") if side == "C" else ("decompress_next", "decompress_many", None)
    w = R.body(nxt)
    stream = through(E, R.call("get_mut")[0], R.st)
    fresh = flat(E, R.st, E.load(R.st, R.p))

    def data(k, root=("B",)):
        R.st[root] = inbytes(E, n * k)
        return ptr(root, n * k)

    def ops(log, s):
        return [e for e in log if e["op"] in s]

    def first(log, unit, tag):
        f = ops(log, FIRST)
        contiguous(ctx, R, f, tag + " first point", unit, w)
        for e in f:
            ctx.check(e["stream"] is stream, unit, "stream:%s:%s" % (tag, e["i"]), "the first point of field %s goes to another stream (%s)" % (e["i"], e["stream"]), e["where"])
        rest = [e for e in log if e["op"] not in FIRST]
        if side == "D" and not R.lay:
            ctx.check([e["op"] for e in rest] == ["read_init_bytes"] and rest and log[-1] is rest[0] and rest[0]["pc"] is vg.TRUE, unit, "init bytes:" + tag,
                      "after the raw fields of the first point the decoder does %s instead of reading its initial bytes once" % [e["op"] for e in rest], w)
        elif side == "D":
            want = ["count"] + ["read_layers_sizes"] * len(R.fields) + ["read_layers"] * len(R.fields)
            ctx.check([e["op"] for e in log[len(f):]] == want and [e["op"] for e in rest] == want, unit, "layers:" + tag, "after the first point %s is read, expected the point count, all layer sizes and all layers" % [e["op"] for e in rest], w)
            for o in ("read_layers_sizes", "read_layers"):
                contiguous(ctx, R, ops(rest, {o}), "%s %s" % (tag, o), unit, w)
            for e in rest:
                if e["op"] == "count":
                    keep = R.log
                    try:
                        got = R.call("record_count")[0]
                    except Unsupported:
                        got = None
                    R.log = keep
                    if got is not None:
                        ctx.check(provable_eq(got, vg.zext(e["val"], 64), vg.TRUE), unit, "count:" + tag, "the point count of the chunk is taken to be %s instead of the four bytes after the first point" % vg.show(got, 3), e["where"])
                ctx.check(e["stream"] is stream, unit, "layers stream:%s:%s:%s" % (tag, e["op"], e["i"]), "%s is read from another stream" % e["op"], e["where"])
        else:
            ctx.check(not rest, unit, "nothing else:" + tag, "handling the first point also does %s" % [e["op"] for e in rest], w)
        ctxs(f, tag + " first point", unit)

    def ctxs(f, tag, unit):
        if not R.lay:
            return
        cur = None
        for e in f:
            c = e["ctx"]
            if e["i"] is None:
                continue
            if e["i"] == 0:
                if "Point6" not in R.names[0]:
                    ctx.check(isc(c) and cval(c) == 0, unit, "context:%s:0" % tag, "the context of a point starts as %s" % vg.show(c, 3), e["where"])
            else:
                ctx.check(cur is None or c is cur, unit, "context:%s:%d" % (tag, e["i"]), "field %d gets context %s, not the one left by the earlier fields" % (e["i"], vg.show(c, 3)), e["where"])
            if "Point6" in R.names[e["i"]]:
                cur = None
                # the hook stored a new channel symbol
                cur = [mk("sym", ("channel", k), 64) for k, x in enumerate(R.log) if x is e][0]

    def later(log, tag, unit):
        g = ops(log, NEXT)
        contiguous(ctx, R, g, tag, unit, w)
        enc = set(id(e["stream"]) for e in g)
        ctx.check(len(enc) <= 1, unit, "one coder:" + tag, "the fields of one point use several entropy coders", w)
        rest = [e["op"] for e in log if e["op"] not in NEXT]
        ctx.check(not rest, unit, "nothing else:" + tag, "handling a later point also does %s" % rest, w)
        ctxs(g, tag, unit)
        return g[0]["stream"] if g else None

    if side == "C" and R.lay:
        v, log = R.call("done")
        ctx.check(not log, "end of chunk", "empty:" + lab, "a chunk without points writes %s" % [e["op"] for e in log], R.body("done"))
    v, log = R.call(nxt, data(1))
    first(log, "first point", lab)
    enc = None
    for k in (2, 3):
        v, log = R.call(nxt, data(1))
        enc = later(log, "%s point %d" % (lab, k), "later points")
    if side == "C":
        end(ctx, R, lab, 3, enc, stream, ops)
    # --- reset and set up again: everything as new
    coder_noise(R, stream)
    R.call("reset")
    R.st[("ITEMS2",)] = E.vec(E.array(list(its), ("adt", "laszip::vlr::LazItem", ())), const(len(its), 64), ("adt", "laszip::vlr::LazItem", ()))
    R.call("set_fields_from", ptr(("ITEMS2",)))
    R.scan()
    again = flat(E, R.st, E.load(R.st, R.p))
    ctx.check(len(R.fields) == len(its) + names.count("RGBNIR14"), "reset", "fields:" + lab, "after a reset the record has %d fields" % len(R.fields), R.body("reset"))
    diff = differences(E, fresh, again)
    diff = [d for d in diff if not (R.lay and side == "D" and isinstance(d[1], vg.Term) and "channel" in repr(d[2]) and "Point6" in R.names[0])]
    ctx.check(not diff, "reset", "state:" + lab, "after a reset %s differ from a new record coder: %s" % (", ".join(d[0] for d in diff[:4]), "; ".join("%s vs %s" % (sh(d[1]), sh(d[2])) for d in diff[:2])), R.body("reset"))
    # --- whole buffers
    for k in (1, 3):
        R.call("reset")
        R.call("set_fields_from", ptr(("ITEMS2",)))
        R.scan()
        v, log = R.call(many, data(k))
        f = ops(log, FIRST)
        contiguous(ctx, R, f, "%s many/%d first point" % (lab, k), "buffers", R.body(many))
        g = ops(log, NEXT)
        m = len(R.fields)
        ctx.check(len(g) == m * (k - 1), "buffers", "all points:%s:%d" % (lab, k), "%d points in one buffer give %d field operations, expected %d" % (k, len(f) + len(g), m * k), R.body(many))
        for j in range(k - 1):
            contiguous(ctx, R, g[m * j:m * j + m], "%s many/%d point %d" % (lab, k, j + 2), "buffers", R.body(many), base=n * (j + 1))
        if side == "C" and k == 1:
            end(ctx, R, lab, 1, None, stream, ops)
    if side == "D":
        until_eof(ctx, R, n, lab, data)
    ctx.facts_n = getattr(ctx, "facts_n", 0) + len(R.fields)


def end(ctx, R, lab, k, enc, stream, ops):
    """the end of a chunk of k points"""
    v, log = R.call("done")
    tag = "%s:%d" % (lab, k)
    if not R.lay:
        ctx.check([e["op"] for e in log] == ["done"] and log[0]["pc"] is vg.TRUE and (enc is None or log[0]["stream"] is enc), "end of chunk", "done:" + tag, "the end of a chunk does %s instead of finishing the entropy coder once" % [e["op"] for e in log], R.body("done"))
        return
    want = ["count"] + ["write_layers_sizes"] * len(R.fields) + ["write_layers"] * len(R.fields)
    ok = [e["op"] for e in log] == want and all(e["pc"] is vg.TRUE for e in log)
    ctx.check(ok, "end of chunk", "done:" + tag, "the end of a chunk of %d point(s) writes %s, expected the point count, all layer sizes and all layers" % (k, [e["op"] for e in log]), R.body("done"))
    if ok:
        cv = log[0]["val"]
        ctx.check(isc(cv) and cval(cv) == k, "end of chunk", "count:" + tag, "after %d point(s) the chunk's count is written as %s" % (k, vg.show(cv, 3)), log[0]["where"])
        for o in ("write_layers_sizes", "write_layers"):
            contiguous(ctx, R, ops(log, {o}), "%s %s" % (lab, o), "end of chunk", R.body("done"))
        for e in log:
            ctx.check(e["stream"] is stream, "end of chunk", "done stream:%s:%s:%s" % (tag, e["op"], e["i"]), "%s goes to another stream" % e["op"], e["where"])


def until_eof(ctx, R, n, lab, data):
    """reading as many points as there are"""
    E = R.E
    nxt = R.body("decompress_next")
    old = dict(E.hooks)
    for eof in (True, False):
        for j in (0, 1, 2, 3):
            seen = []

            def step(ev, c):
                seen.append(ev.slice_at(c.args[1]))
                if len(seen) == j + 1:
                    return ev.err(mk("sym", ("ioerror",), None))
                return ev.ok(vg.UNIT)
            E.hooks[nxt] = step
            E.hooks[R.rtrait + "::decompress_next"] = step
            kinds = {}

            def kind(ev, c):
                return mk("sym", ("kind",), None)

            def same(ev, c):
                return vg.TRUE if eof else vg.FALSE
            E.hooks["std::io::Error::kind"] = kind
            for nm, val in (("eq", eof), ("ne", not eof)):
                E.hooks["std::cmp::PartialEq::" + nm] = lambda ev, c, val=val: vg.TRUE if val else vg.FALSE
            r, _ = R.call("decompress_until_end_of_file", data(3))
            d = E.project(r, "#d")
            w = R.body("decompress_until_end_of_file")
            tag = "%s:%d:%s" % (lab, j, eof)
            if j == 3 or eof:
                x = E.project(r, "Ok.0")
                ctx.check(isc(d) and cval(d) == 0 and isc(x) and cval(x) == j * n, "until end of file", "eof:" + tag, "when the data ends after %d of 3 points of %d bytes the result is %s" % (j, n, vg.show(r, 3)[:200]), w)
            else:
                ctx.check(isc(d) and cval(d) == 1, "until end of file", "error:" + tag, "an error other than the end of the data is not reported", w)
            ctx.check(seen == [((("B",), i * n), n) for i in range(min(j + 1, 3))], "until end of file", "points:" + tag, "reads points at %s" % seen, w)
    E.hooks.clear()
    E.hooks.update(old)


def sh(x):
    return vg.show(x, 3)[:120] if isinstance(x, vg.Term) else repr(x)[:120]


def coder_noise(R, stream):
    """the entropy coder's own state becomes arbitrary (it is used between the points)"""
    E = R.E
    rec = E.load(R.st, R.p)
    for n, t in R.P.fields_of(R.ty):
        if t[0] == "adt" and ("ArithmeticEncoder" in t[1] or "ArithmeticDecoder" in t[1]):
            for f, ft in R.P.fields_of(t):
                if ft[0] == "prim" and width(ft):
                    rec = E.setpath(rec, (n, f), mk("sym", ("used", n, f), width(ft)))
    E.store(R.st, R.p, rec)


def differences(E, a, b, path=""):
    if a is b or a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and a[0] in ("st", "box", "ar"):
        if a[0] == "box":
            return differences(E, a[1], b[1], path)
        da, db = dict(a[2]), dict(b[2])
        out = []
        if a[0] == "ar" and a[1] != b[1]:
            out += differences(E, a[1], b[1], path + "[*]")
        for k in sorted(set(da) | set(db), key=repr):
            x, y = da.get(k), db.get(k)
            if k == "#arr" and ("len" in da or "#len" in da) and isc(da.get("#len", da.get("len"))) and cval(da.get("#len", da.get("len"))) == 0:
                continue
            out += differences(E, x, y, "%s.%s" % (path, k))
        return out
    if isinstance(a, vg.Term) and isinstance(b, vg.Term) and provable_eq(a, b, vg.TRUE) and a.op not in ("bot",) and b.op not in ("bot",):
        return []
    return [(path, a, b)]


def run(ctx):
    P = ctx.prog()
    for ver, names, extra in LISTS:
        for side in "CD":
            try:
                one(ctx, P, side, ver, names, extra)
            except Unsupported as ex:
                ctx.viol("undecided:%s:%d:%s" % (side, ver, "+".join(names)), "cannot decide %s v%d %s: %s" % (side, ver, "+".join(names), ex))
    ctx.floor("fields analysed", getattr(ctx, "facts_n", 0), 30)
    ctx.explanation = ("The record coders are set up for several item lists and evaluated with the field coders' operations recorded. For the first and the later points, at the end of a chunk, after a reset and for "
                       "whole buffers, every field coder must be called once, in item order, on the next size-of-field bytes of the record, with the same stream or entropy coder and the context left by the earlier fields; "
                       "the framing around the first point and at the end must be the format's.")
    ctx.assumptions = ["item lists of one to four items are evaluated; the loops over the fields do not depend on the count"]
