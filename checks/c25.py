"""C25: the quick LAS reader takes header, VLRs and points from their documented places."""
import vg
from vg import mk, const, isc, cval, band, bnot, Unsupported
from ev import Ev
import models as M
from codec import ptr, provable_eq
from facts import refuted

LEVEL = "other"
TRUSTED = ["rustc's MIR of /repo", "the value engine in /verif/lib", "models of std functions in /verif/lib/models.py"]
QH = "las::file::QuickHeader"
MODF = "las::file::"
# LAS 1.2 - 1.4 public header block: name -> (offset, bytes)
HDR = {"major": (24, 1), "minor": (25, 1), "header_size": (94, 2), "offset_to_points": (96, 4), "num_vlrs": (100, 4), "point_format_id": (104, 1), "point_size": (105, 2)}
LEGACY, COUNT14 = (107, 4), (247, 8)
# size of a record of each point data record format
BASE = {0: 20, 1: 28, 2: 26, 3: 34, 4: 57, 5: 63, 6: 30, 7: 36, 8: 38, 9: 59, 10: 67}
SIZED = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}


def sym(name, w, ty=None):
    t = mk("sym", (name,), w)
    if ty is not None and t.ty is None:
        t.ty = ty
    return t


class Dev(Ev):
    """a stream of given bytes; every operation can be made to fail"""

    def __init__(self, P, file=None, failat=None):
        super().__init__(P)
        self.prune = refuted
        self.panics = []
        self.file = file if file is not None else sym("file", None, ("arr", ("prim", "u8"), None))
        self.failat, self.ops = failat, 0
        self.log = []
        h = {"std::io::Seek::seek": self.seek, "std::io::Seek::stream_position": self.seek, "std::io::Seek::rewind": self.seek, "std::io::Seek::seek_relative": self.seek,
             "std::io::Read::read_exact": self.read_exact, "byteorder::ReadBytesExt::read_u8": self.num, "byteorder::ReadBytesExt::read_i8": self.num}
        for n in ("16", "32", "64"):
            h["byteorder::ReadBytesExt::read_u" + n] = self.num
        h["laszip::vlr::LazVlr::read_from"] = self.laz
        h["laszip::LazVlr::read_from"] = self.laz
        h["std::string::String::from_utf8_lossy"] = self.lossy
        h["*"] = self.text
        self.vlrs = []
        self.opened = []
        self.hooks = h

    def plain(self, path):
        """a value of a plain structure, every field a symbol"""
        ty = ("adt", path, ())
        v = vg.BOT
        for n, t in self.P.fields_of(ty):
            w = SIZED.get(t[1]) if t[0] == "prim" else None
            if w is None:
                raise Unsupported("Unmodelled: field %s of %s" % (n, path))
            v = self.setpath(v, (n,), sym("h." + n, w))
        return v

    def pos(self, st):
        return self.getroot(st, ("POS",)) if ("POS",) in st else const(0, 64)

    def fail(self, c):
        self.ops += 1
        if self.ops - 1 == self.failat:
            self.failpc = c.pc
        return self.failat is not None and self.ops - 1 == self.failat

    def ioerr(self):
        return self.err(sym("ioerror", None))

    def seek(self, ev, c):
        if self.fail(c):
            return self.ioerr()
        p = self.pos(c.st)
        if c.name == "stream_position":
            return self.ok(p)
        if c.name == "rewind":
            c.st[("POS",)] = const(0, 64)
            return self.ok(vg.UNIT)
        if c.name == "seek_relative":
            c.st[("POS",)] = vg.add(p, c.args[1])
            return self.ok(vg.UNIT)
        f = c.args[1]
        d = self.project(f, "#d")
        if not isc(d) or cval(d) == 1:
            raise Unsupported("seek from %s" % vg.show(f))
        new = self.project(f, "Start.0") if cval(d) == 0 else vg.add(p, self.project(f, "Current.0"))
        c.st[("POS",)] = new
        return self.ok(new)

    def take(self, st, n):
        p = self.pos(st)
        st[("POS",)] = vg.add(p, const(n, 64))
        return [self.index(self.file, vg.add(p, const(i, 64))) for i in range(n)]

    def num(self, ev, c):
        if self.fail(c):
            return self.ioerr()
        w = int(c.name[6:])
        if w > 8 and not (len(c.targs) > 1 and "LittleEndian" in str(c.targs[1])):
            raise Unsupported("byte order of %s" % c.where)
        return self.ok(M.cat_bytes(self.take(c.st, w // 8)))

    def read_exact(self, ev, c):
        if self.fail(c):
            return self.ioerr()
        p = M.as_slice(self, c.st, c.args[1])
        n = self.slice_len(c.st, p)
        pos = self.pos(c.st)
        self.log.append((pos, n, c.pc, c.where))
        if isc(n) and cval(n) <= 1000:
            for i, b in enumerate(self.take(c.st, cval(n))):
                self.store(c.st, self.elem_ptr(p, const(i, 64)), b)
            return self.ok(vg.UNIT)
        # a whole vector of symbolic length
        q = p
        if not (q.args[1] and q.args[1][-1] == "#arr"):
            raise Unsupported("read of a variable number of bytes")
        x = mk("op", ("bytes", pos, n), None)
        x.ty = ("arr", ("prim", "u8"), None)
        self.store(c.st, mk("ptr", (q.args[0], q.args[1], None, None)), x)
        c.st[("POS",)] = vg.add(pos, n)
        return self.ok(vg.UNIT)

    def bytes_of(self, st, p):
        p = M.as_slice(self, st, p)
        n = self.slice_len(st, p)
        if not isc(n):
            raise Unsupported("bytes of variable number")
        return [self.load(st, self.elem_ptr(p, const(i, 64))) for i in range(cval(n))]

    def laz(self, ev, c):
        p = c.args[0]
        if p.op == "ptr" and p.args[2] is None:
            x = self.load(c.st, p)
            if x.op == "ptr":
                p = x
        self.vlrs.append((tuple(self.bytes_of(c.st, p)), c.pc))
        return self.ok(sym(("lazvlr", len(self.vlrs)), None, ("adt", "laszip::vlr::LazVlr", ())))

    # concrete text
    def lossy(self, ev, c):
        b = self.bytes_of(c.st, c.args[0])
        b = [vg.simplify(x, c.pc) for x in b]
        if not all(isc(x) and cval(x) < 128 for x in b):
            raise Unsupported("text of unknown bytes")
        return txt(bytes(cval(x) for x in b).decode())

    def text(self, ev, c):
        """operations on known text"""
        n = c.name
        if n in ("from_utf8", "from_utf8_unchecked") and ".str" in c.path.replace("::str", ".str"):
            r = self.lossy(ev, c)
            return self.ok(r) if n == "from_utf8" else r
        if not c.args:
            return NotImplemented
        a = [self.known(c.st, x) for x in c.args]
        if a[0] is None:
            return NotImplemented
        t = a[0]
        if n in ("deref", "as_ref", "borrow", "as_str", "into_owned", "to_string", "to_owned", "clone", "from", "into"):
            return txt(t)
        if n == "len":
            return const(len(t.encode()), 64)
        if n == "is_empty":
            return vg.TRUE if not t else vg.FALSE
        if n in ("eq", "ne") and len(a) > 1 and a[1] is not None:
            return vg.TRUE if (t == a[1]) == (n == "eq") else vg.FALSE
        if n in ("trim", "trim_end", "trim_start"):
            return txt({"trim": t.strip, "trim_end": t.rstrip, "trim_start": t.lstrip}[n]())
        if n in ("trim_end_matches", "trim_start_matches", "trim_matches", "starts_with", "ends_with", "contains", "split"):
            pat = a[1] if len(a) > 1 else None

            def hit(ch):
                if pat is not None:
                    return pat == ch
                x = c.args[1]
                if isc(x):
                    return cval(x) == ord(ch)
                r, pc = ev.call_closure(x, [const(ord(ch), 32)], c.pc, c.st, c.where)
                r = vg.simplify(r, c.pc)
                if not isc(r):
                    raise Unsupported("Unmodelled: text matching")
                return cval(r) != 0
            if n in ("starts_with", "ends_with", "contains") and pat is not None:
                return vg.TRUE if {"starts_with": t.startswith, "ends_with": t.endswith, "contains": t.__contains__}[n](pat) else vg.FALSE
            if n.startswith("trim") and (pat is None or len(pat) == 1):
                if n != "trim_start_matches":
                    while t and hit(t[-1]):
                        t = t[:-1]
                if n != "trim_end_matches":
                    while t and hit(t[0]):
                        t = t[1:]
                return txt(t)
            raise Unsupported("Unmodelled: text matching")
        return NotImplemented

    def known(self, st, v):
        """the text a pointer (to a pointer ...) leads to, if it is known"""
        for _ in range(4):
            if v is None or v.op != "ptr":
                return None
            root, path, off, n = v.args
            if isinstance(root, tuple) and root and root[0] == "str" and n is not None and isc(n) and not path:
                b = root[1].encode()
                o = cval(off) if off is not None and isc(off) else 0
                return b[o:o + cval(n)].decode()
            if n is not None or off is not None:
                return None
            try:
                v = self.load(st, v)
            except Unsupported:
                return None
        return None


def txt(s):
    return mk("ptr", (("str", s), (), const(0, 64), const(len(s.encode()), 64)))


def field(E, off, n):
    return M.cat_bytes([E.index(E.file, const(off + i, 64)) for i in range(n)])


def header(ctx, P):
    """QuickHeader::read_from on arbitrary bytes"""
    fn = QH + "::read_from"
    E = Dev(P)
    st = {("R",): sym("src", None, ("param", "R")), ("POS",): sym("anywhere", 64)}
    r, pc = E.run(fn, [ptr(("R",))], vg.TRUE, st, {"R": ("param", "R")})
    ctx.check(provable_eq(E.project(r, "#d"), const(0, E.project(r, "#d").w), pc), "header", "header:ok", "reading the header succeeds when the stream does", fn)
    h = E.project(r, "Ok.0")
    for f, (off, n) in HDR.items():
        x = E.project(h, f)
        ctx.check(provable_eq(x, field(E, off, n), pc), "header", "header:" + f, "%s is the %d-byte field at %d: is %s" % (f, n, off, vg.show(x)), fn)
    new = band(vg.eq(field(E, *HDR["major"]), const(1, 8)), bnot(vg.ult(field(E, *HDR["minor"]), const(4, 8))))
    x = E.project(h, "num_points")
    ctx.check(provable_eq(x, field(E, *COUNT14), band(pc, new)), "header", "header:num_points:1.4", "from version 1.4 on the number of points is the 8-byte field at 247: is %s" % vg.show(x), fn)
    old = band(vg.eq(field(E, *HDR["major"]), const(1, 8)), vg.ult(field(E, *HDR["minor"]), const(4, 8)))
    ctx.check(provable_eq(x, vg.zext(field(E, *LEGACY), 64), band(pc, old)), "header", "header:num_points:1.3", "before version 1.4 the number of points is the 4-byte field at 107: is %s" % vg.show(x), fn)
    end = E.pos(st)
    ctx.check(provable_eq(end, vg.zext(field(E, *HDR["header_size"]), 64), pc), "header", "header:position", "the stream is left at the end of the header: at %s" % vg.show(end), fn)
    n = E.ops
    for k in range(n):
        E = Dev(P, failat=k)
        st = {("R",): sym("src", None, ("param", "R"))}
        r, pc = E.run(fn, [ptr(("R",))], vg.TRUE, st, {"R": ("param", "R")})
        d = E.project(r, "#d")
        if E.ops > k:
            ctx.check(refuted(band(band(pc, E.failpc), vg.eq(d, const(0, d.w)))), "header", "header:error:%d" % k, "operation %d of reading the header failing is reported" % k, fn)


def extra(ctx, P):
    """num_extra_bytes: the record size less the format's own"""
    fn = QH + "::num_extra_bytes"
    for comp in (0, 0x80):
        for f, base in BASE.items():
            E = Dev(P)
            h = E.plain(QH)
            h = E.setpath(h, ("point_format_id",), const(f | comp, 8))
            size = E.project(h, "point_size")
            q = bnot(vg.ult(size, const(base, 16)))
            st = {("H",): h}
            r, pc = E.run(fn, [ptr(("H",))], q, st, {})
            ok = r is not None and pc is not vg.FALSE and refuted(band(q, bnot(pc))) and provable_eq(r, vg.sub(size, const(base, 16)), q)
            ctx.check(ok, "extra bytes", "extra:%d%s" % (f, ":compressed" if comp else ""), "point format %d%s: the extra bytes are the record size less %d: %s" % (
                f, " (marked compressed)" if comp else "", base, "it panics" if r is None or pc is vg.FALSE else vg.show(r)), fn)


def ids(ctx, P):
    fn = MODF + "point_format_id_compressed_to_uncompressd"
    E = Dev(P)
    for f in BASE:
        r, pc = E.run(fn, [const(f | 0x80, 8)], vg.TRUE, {}, {})
        ctx.check(isc(r) and cval(r) == f, "format", "format:%d" % f, "the format of a point format identifier marked compressed", fn)
        for name, x, want in (("is_point_format_compressed", f | 0x80, vg.TRUE), ("is_point_format_compressed", f, vg.FALSE)):
            if MODF + name in P.bodies:
                r, pc = E.run(MODF + name, [const(x, 8)], vg.TRUE, {}, {})
                ctx.check(r is want, "format", "format:compressed:%d" % x, "bit 7 marks compressed points (identifier %d)" % x, MODF + name)


LASZIP = b"laszip encoded\0\0"
WALKS = [[], [(LASZIP, 22204, 5)], [(b"LASF_Spec\0\0\0\0\0\0\0", 4, 7), (LASZIP, 22204, 5)], [(LASZIP, 22204, 3), (b"LASF_Projection\0", 34735, 0)],
         [(LASZIP, 22203, 5)], [(b"laszip encoded!\0", 22204, 5)], [(b"LASF_Spec\0\0\0\0\0\0\0", 22204, 6), (b"other\0\0\0\0\0\0\0\0\0\0\0", 1, 260), (LASZIP, 22204, 40)],
         [(b"other\0\0\0\0\0\0\0\0\0\0\0", 1, 40000), (LASZIP, 22204, 40)], [(LASZIP, 22204, 34), (LASZIP, 22205, 12)], [(b"other\0\0\0\0\0\0\0\0\0\0\0", 22204, 65535), (LASZIP, 22204, 40), (LASZIP, 22203, 0)]]


def image(P, walk, at, extra=()):
    """the array of a file with these VLRs at `at`"""
    E = Dev(P)
    a = E.file
    p = at

    def put(a, off, bs):
        for i, b in enumerate(bs):
            a = E.setindex(a, const(off + i, 64), const(b, 8))
        return a
    for uid, rid, n in walk:
        a = put(a, p + 2, uid)
        a = put(a, p + 18, rid.to_bytes(2, "little") + n.to_bytes(2, "little"))
        p += 54 + n
    for off, bs in extra:
        a = put(a, off, bs)
    return a, p


def expected(E, walk, at):
    p, out = at, None
    for uid, rid, n in walk:
        if rid == 22204 and uid == LASZIP:
            out = tuple(E.index(E.file, const(p + 54 + i, 64)) for i in range(n))
        p += 54 + n
    return out


def walks(ctx, P):
    """the laszip VLR is found by its record id and user id, wherever it stands"""
    fn = MODF + "read_vlrs_and_get_laszip_vlr"
    for w in WALKS:
        lab = "; ".join("%s/%d" % (u.rstrip(b"\0").decode(), r) for u, r, _ in w) or "none"
        a, end = image(P, w, 227)
        E = Dev(P, a)
        h = E.plain(QH)
        h = E.setpath(h, ("num_vlrs",), const(len(w), 32))
        st = {("H",): h, ("R",): sym("src", None, ("param", "R")), ("POS",): const(227, 64)}
        r, pc = E.run(fn, [ptr(("R",)), ptr(("H",))], vg.TRUE, st, {"R": ("param", "R")})
        want = expected(E, w, 227)
        d = E.project(r, "#d")
        some = isc(d) and cval(d) == 1
        ctx.check(some == (want is not None), "vlrs", "vlrs:found:" + lab, "the laszip VLR is %sfound among %s" % ("" if want else "not ", lab), fn)
        got = E.vlrs[-1][0] if E.vlrs else None
        ctx.check(got == want, "vlrs", "vlrs:data:" + lab, "the laszip record is parsed from that VLR's data (%s)" % lab, fn)
        ctx.check(provable_eq(E.pos(st), const(end, 64), pc), "vlrs", "vlrs:position:" + lab, "the stream is left after the last VLR (%s): at %s" % (lab, vg.show(E.pos(st))), fn)


def record(ctx, P):
    """Vlr::read_from on arbitrary bytes: what is left behind is the next record"""
    fn = MODF + "Vlr::read_from"
    E = Dev(P)
    at = sym("anywhere", 64)
    st = {("R",): sym("src", None, ("param", "R")), ("POS",): at}
    r, pc = E.run(fn, [ptr(("R",))], vg.TRUE, st, {"R": ("param", "R")})
    d = E.project(r, "#d")
    ctx.check(provable_eq(d, const(0, d.w), pc), "vlr", "vlr:ok", "reading a VLR succeeds when the stream does", fn)

    def le(off, n):
        return M.cat_bytes([E.index(E.file, vg.add(at, const(off + i, 64))) for i in range(n)])
    v = E.project(r, "Ok.0")
    n = vg.zext(le(20, 2), 64)
    got = E.project(v, "record_id")
    ctx.check(provable_eq(got, le(18, 2), pc), "vlr", "vlr:record_id", "the record id is the 2-byte field at 18: is %s" % vg.show(got), fn)
    u = E.project(v, "user_id")
    for i in range(16):
        ctx.check(provable_eq(E.index(u, const(i, 64)), le(2 + i, 1), pc), "vlr", "vlr:user_id:%d" % i, "byte %d of the user id" % i, fn)
    k = E.len_of(E.project(v, "data"))
    ctx.check(provable_eq(k, n, pc), "vlr", "vlr:data", "as many bytes of data are kept as the 2-byte field at 20 says: %s" % vg.show(k), fn)
    end = E.pos(st)
    ctx.check(provable_eq(end, vg.add(vg.add(at, const(54, 64)), n), pc), "vlr", "vlr:end", "the stream is left after the data, whatever its length: at %s" % vg.show(end), fn)


DECS = ("laszip::sequential::decompression::LasZipDecompressor", "laszip::LasZipDecompressor")


def front(comp, w, npts, v14):
    """the header's bytes of a file; returns (where the VLRs start, writes)"""
    hs = 375 if v14 else 227
    ob = [(24, b"\1\4" if v14 else b"\1\2"), (94, hs.to_bytes(2, "little")), (96, (1000).to_bytes(4, "little")), (100, len(w).to_bytes(4, "little")),
          (104, bytes([(0x80 if comp else 0) | 3])), (105, (36).to_bytes(2, "little"))]
    if v14:
        ob.append((247, npts.to_bytes(8, "little")))  # the 4-byte count stays unknown
    else:
        ob.append((107, npts.to_bytes(4, "little")))
    return hs, ob


def both(ctx, P):
    """the header and the laszip VLR in one call"""
    fn = MODF + "read_header_and_vlrs"
    for v14 in (0, 1):
        for w in (WALKS[0], WALKS[2]):
            hs, ob = front(1, w, 2, v14)
            a, end = image(P, w, hs, ob)
            E = Dev(P, a)
            st = {("R",): sym("src", None, ("param", "R")), ("POS",): sym("anywhere", 64)}
            r, pc = E.run(fn, [ptr(("R",))], vg.TRUE, st, {"R": ("param", "R")})
            lab = "%s, %d VLRs" % ("1.4" if v14 else "1.2", len(w))
            t = E.project(r, "Ok.0")
            h, l = E.project(t, "0"), E.project(t, "1")
            want = expected(E, w, hs)
            d = E.project(l, "#d")
            ctx.check(isc(d) and (cval(d) == 1) == (want is not None) and (E.vlrs[-1][0] if E.vlrs else None) == want, "both", "both:vlr:" + lab, "the header comes with the laszip VLR of the file (%s)" % lab, fn)
            ctx.check(provable_eq(E.project(h, "num_points"), const(2, 64), pc) and provable_eq(E.project(h, "point_format_id"), const(0x83, 8), pc), "both", "both:header:" + lab, "the header is the file's (%s)" % lab, fn)
            ctx.check(provable_eq(E.pos(st), const(1000, 64), pc), "both", "both:position:" + lab, "the stream is left at the points (%s): at %s" % (lab, vg.show(E.pos(st))), fn)


def reader(ctx, P, comp, w, npts, v14=0):
    """SimpleReader over a file of npts records"""
    SR = MODF + "SimpleReader::<'a>"
    lab = "%s%s, %d VLRs, %d points" % ("compressed" if comp else "raw", " 1.4" if v14 else "", len(w), npts)
    hs, ob = front(comp, w, npts, v14)
    a, end = image(P, w, hs, ob)
    E = Dev(P, a)
    made = []

    def new(ev, c):
        made.append((ev.pos(c.st), c.args[1], c.pc))
        v = sym("decompressor", None, ("adt", "laszip::sequential::decompression::LasZipDecompressor", (("param", "R"),)))
        return ev.ok(v)
    dn = [k for k, b in P.bodies.items() if b.get("name") == "new" and "LasZipDecompressor" in k and not k.count("Par")]
    d1 = [k for k, b in P.bodies.items() if b.get("name") == "decompress_one" and "LasZipDecompressor" in k and not k.count("Par")]
    count = [0]

    def one(ev, c):
        p = M.as_slice(ev, c.st, c.args[1])
        n = ev.slice_len(c.st, p)
        k = count[0]
        count[0] += 1
        for i in range(cval(n)):
            ev.store(c.st, ev.elem_ptr(p, const(i, 64)), sym(("point", k, i), 8))
        return ev.ok(vg.UNIT)
    for k in dn:
        E.hooks[k] = new
    for k in d1:
        E.hooks[k] = one
    st = {}
    fn = [k for k in P.bodies if k.startswith(MODF + "SimpleReader") and k.endswith("::new")]
    if len(fn) != 1:
        raise Unsupported("Unmodelled: no SimpleReader::new")
    st[("POS",)] = const(0, 64)
    r, pc = E.run(fn[0], [sym("src", None, ("param", "R"))], vg.TRUE, st, {"R": ("param", "R")})
    st[("S",)] = E.project(r, "Ok.0")
    ctx.check(pc is not vg.FALSE and provable_eq(E.project(r, "#d"), const(0, E.project(r, "#d").w), pc), "reader", "reader:new:" + lab, "the reader is made (%s)" % lab, fn[0])
    ctx.check(len(made) == comp and (not comp or provable_eq(made[0][0], const(1000, 64), pc)), "reader", "reader:start:" + lab, "the points are decompressed from the offset to the points, raw ones are not decompressed (%s)" % lab, fn[0])
    if comp:
        v = made[0][1] if made else None
        ctx.check(v is not None and len(E.vlrs) >= 1 and E.vlrs[-1][0] == expected(E, w, hs), "reader", "reader:vlr:" + lab, "the decompressor is made for the laszip VLR of the file (%s)" % lab, fn[0])
    h = E.project(E.getroot(st, ("S",)), "header")
    ctx.check(provable_eq(E.project(h, "point_format_id"), const(3, 8), pc), "reader", "reader:format:" + lab, "the format identifier is without the compression bit (%s)" % lab, fn[0])

    def point(k):
        if comp:
            return [sym(("point", k, i), 8) for i in range(36)]
        return [E.index(E.file, const(1000 + 36 * k + i, 64)) for i in range(36)]
    st0, c0 = dict(st), count[0]
    nx = [k for k in P.bodies if k.startswith(MODF + "SimpleReader") and k.endswith("::read_next")][0]
    for k in range(npts + 1):
        r, pc = E.run(nx, [ptr(("S",))], vg.TRUE, st, {})
        d = E.project(r, "#d")
        some = isc(d) and cval(d) == 1
        ctx.check(some == (k < npts), "reader", "reader:next:%s:%d" % (lab, k), "there %s a point %d of %d (%s)" % ("is" if k < npts else "is not", k, npts, lab), nx)
        if some and k < npts:
            x = E.project(r, "Some.0")
            got = E.bytes_of(st, E.project(x, "Ok.0")) if cval(E.project(x, "#d")) == 0 else []
            ctx.check(len(got) == 36 and all(provable_eq(g, e, pc) for g, e in zip(got, point(k))), "reader", "reader:bytes:%s:%d" % (lab, k), "point %d is the record's bytes (%s)" % (k, lab), nx)
    st, count[0] = dict(st0), c0
    # a failing read is reported, and the point can be asked for again
    if npts:
        E.failat, save = E.ops, dict(E.hooks)
        for k in d1:
            E.hooks[k] = lambda ev, c: ev.ioerr()
        r, pc = E.run(nx, [ptr(("S",))], vg.TRUE, st, {})
        d, e = E.project(r, "#d"), E.project(E.project(r, "Some.0"), "#d")
        ctx.check(isc(d) and cval(d) == 1 and isc(e) and cval(e) == 1, "reader", "reader:error:" + lab, "a point that cannot be read is an error (%s)" % lab, nx)
        E.failat, E.hooks = None, save
        st, count[0] = dict(st0), c0
    re = [k for k in P.bodies if k.startswith(MODF + "SimpleReader") and k.endswith("::read_to_end")]
    if re:
        st[("B",)] = E.vec(E.array([], ("prim", "u8")), const(0, 64), ("prim", "u8"))
        r, pc = E.run(re[0], [ptr(("S",)), ptr(("B",))], vg.TRUE, st, {})
        n = E.project(r, "Ok.0")
        ctx.check(provable_eq(E.project(r, "#d"), const(0, E.project(r, "#d").w), pc) and provable_eq(n, const(npts, n.w), pc), "reader", "reader:all:count:" + lab, "reading to the end gives the number of points (%s)" % lab, re[0])
        b = E.getroot(st, ("B",))
        ctx.check(provable_eq(E.len_of(b), const(36 * npts, 64), pc), "reader", "reader:all:len:" + lab, "reading to the end fills the buffer (%s)" % lab, re[0])
        ok = all(provable_eq(E.index(E.project(b, "#arr"), const(36 * k + i, 64)), e, pc) for k in range(npts) for i, e in enumerate(point(k)))
        ctx.check(ok, "reader", "reader:all:bytes:" + lab, "reading to the end gives the records in order (%s)" % lab, re[0])


def run(ctx):
    P = ctx.prog()
    for f in (header, extra, ids, walks, record, both):
        guarded(ctx, f.__name__, lambda: f(ctx, P))
    for comp in (0, 1):
        for w in ([WALKS[1], WALKS[2]] if comp else [[], WALKS[2]]):
            for n in (0, 1, 3):
                for v14 in (0, 1):
                    guarded(ctx, "reader", lambda: reader(ctx, P, comp, w, n, v14))
    ctx.floor("obligations", ctx.obl, 300)
    ctx.assumptions.append("LAS files up to version 1.4: the header's record count is in the 4-byte field before 1.4 and in the 8-byte field from 1.4 on; a file whose laszip VLR is missing or cannot be parsed is out of scope")
    ctx.assumptions.append("files of at most 3 points and 2 VLRs of 0 to 65535 bytes for the walks and the reader (all bytes of the points unknown); the header, one VLR and the extra bytes for every value")
    ctx.explanation = ("The MIR of src/las/file.rs is evaluated on a stream whose bytes are unknowns addressed by position: every header field must be the little-endian value of the bytes the LAS specification puts it in, whatever the "
                       "position the stream was at; a failing operation of reading the header must give an error; the extra bytes are the record size less the format's own size for all eleven formats, marked compressed or not; the "
                       "laszip VLR is the one with its user id and record id, and exactly its data is parsed; SimpleReader decompresses from the offset to the points or hands out the raw records, in order, the stated number of times, "
                       "through read_next and read_to_end.")


def guarded(ctx, name, f):
    try:
        f()
    except Unsupported as e:
        ctx.viol("undecided:" + name, "%s: %s" % (name, str(e)[:300]))
    except KeyError as e:
        ctx.undecided([(name, "Unmodelled: the function or field it is anchored at is not there (%s)" % e)])
