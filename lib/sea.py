"""File-level evaluation: (de)compressors, appenders and the chunk table over an abstract device.

The stream is a value that knows only its position (a linear term); the record
coder is a value that knows which points went through it since its last reset.
Coded sizes are terms that depend on the coded points only, so the image a
writer leaves on the device is a set of (position, content) terms that can be
compared with the documented layout, whatever the bytes are.
"""
import vg
from vg import Term, Unsupported, mk, const, isc, cval
from ev import Ev, U64
from codec import ptr, refuted
from dispatch import item, LI
import models as M

BIG = 1 << 40
U8 = ("prim", "u8")
STREAM = ("stream",)


# ------------------------------------------------------------- ordering facts

class Order:
    """sizes and positions are between 1 and 2^40, sums of them do not wrap"""

    def __init__(self):
        self.pos = {}

    def atom(self, t, low=1, high=BIG):
        self.pos.setdefault(t.id, (low, high))
        return t

    def bounds(self, d):
        k, co = vg._lin(d)
        w = d.w
        half = 1 << (w - 1)
        if k >= half:
            k -= 1 << w
        if abs(k) > BIG * 64 and abs(k) > 1 << 32:
            return None
        lo = hi = k
        for t, c in co.items():
            if t.id not in self.pos:
                return None
            if c >= half:
                c -= 1 << w
            if abs(c) > 64:
                return None
            b, h = self.pos[t.id]
            lo += c * b if c > 0 else c * h
            hi += c * h if c > 0 else c * b
        return lo, hi

    def __call__(self, kind, a, b):
        if a.w is None or a.w < 32 or isc(a) and isc(b):
            return None
        if a.w == 32:
            if kind == "slt":
                return None
            if isc(a) or isc(b):
                x, k = (b, cval(a)) if isc(a) else (a, cval(b))
                if x.id not in self.pos:
                    return None
                lo, hi = self.pos[x.id]
                if kind == "eq":
                    return False if k < lo or k > hi else None
                if x is a:
                    return True if hi < k else False if lo >= k else None
                return True if k < lo else False if k >= hi else None
            return None
        if self.bounds(a) is None or self.bounds(b) is None:
            return None
        r = self.bounds(vg._sub(b, a))
        if r is None:
            return None
        lo, hi = r
        if kind == "eq":
            return False if lo > 0 or hi < 0 else None
        return True if lo > 0 else False if hi <= 0 else None


# --------------------------------------------------------------------- device

class Sea(Ev):
    def __init__(self, P, psize=3, layered=False, **kw):
        Ev.__init__(self, P, **kw)
        self.prune = refuted
        self.maxiter = 5000
        self.psize = psize
        self.layered = layered
        self.order_ = vg.ORDER = Order()
        self.P0 = self.atom(mk("sym", ("P0",), 64), 0)
        self.END = self.atom(mk("sym", ("END",), 64))
        self.log = []             # (kind, position, length, content, pc, where)
        self.ops = 0
        self.failat = None
        self.failed = None
        self.opnames = []
        self.problems = []        # (key, text, where)
        self.inpar = 0
        self.media = {}           # position -> (bytes, value)
        self.tab = {"counts": [], "sizes": [], "ic": 0, "is": 0, "preds": []}
        self.chunks = {}          # start position -> (index, points, end position)
        self.short = []
        self.reject = False
        self.genv_cache = {}
        self.allsel_ = None
        self.want_items = None
        self.hooks = self.mkhooks()
        self.panics = []
        self.constoverflow = True

    def atom(self, t, low=1, high=BIG):
        return self.order_.atom(t, low, high)

    def problem(self, key, text, where=None):
        self.problems.append((key, text, where))

    # ---- streams
    def dev(self, st, p):
        for _ in range(10):
            v = self.load(st, p)
            if v.op == "ptr":
                p = v
                continue
            return p, v
        raise Unsupported("stream behind many references")

    def kind(self, v):
        t = v.args[0] if v.op == "st" else v.ty
        if t == STREAM:
            return "dev"
        if t is not None and t[0] == "adt" and t[1] == "std::io::Cursor":
            return "cursor"
        if M.is_vec(v):
            return "vec"
        raise Unsupported("stream %s" % vg.show(v))

    def stream(self, name="dev", pos=None):
        return mk("st", (STREAM, None, (("name", mk("sym", (name,), None)), ("pos", pos if pos is not None else self.P0))))

    def getpos(self, st, p):
        p, v = self.dev(st, p)
        k = self.kind(v)
        if k == "vec":
            return self.len_of(v)
        return self.project(v, "pos")

    def setpos(self, st, p, x):
        p, v = self.dev(st, p)
        k = self.kind(v)
        if k == "vec":
            raise Unsupported("position of a vector")
        self.store(st, p, self.setkey(v, "pos", x))

    def fail(self, name, c):
        """one fallible device or coder operation; True: it is the one that fails"""
        self.opnames.append((name, c.where))
        self.ops += 1
        if self.failat is not None and self.ops - 1 == self.failat:
            self.failed = (name, c.where)
            return True
        return False

    def ioerr(self, c):
        return self.err(mk("sym", ("ioerror",), None)), c.pc

    def put(self, c, p, n, content):
        """n bytes written at the position of the stream"""
        st = c.st
        p, v = self.dev(st, p)
        k = self.kind(v)
        if k == "dev":
            if self.inpar:
                self.problem("unordered", "the destination is written from a parallel iteration: the order of the writes is not fixed", c.where)
            pos = self.project(v, "pos")
            self.log.append((pos, n, content, c.pc, c.where))
            if isc(n) and 1 < cval(n) <= 16:
                for i in range(1, cval(n)):
                    self.media.pop(vg.add(pos, const(i, 64)), None)
            self.media[pos] = (cval(n) if isc(n) else n, content)
            self.chunks.pop(pos, None)
            self.store(st, p, self.setkey(v, "pos", vg.add(pos, n)))
        else:
            q = self.field_ptr(p, "inner") if k == "cursor" else p
            q, w = self.dev(st, q)
            if not M.is_vec(w):
                raise Unsupported("write into %s" % vg.show(w))
            ln = self.len_of(w)
            pos = self.project(v, "pos") if k == "cursor" else ln
            if pos is not ln:
                raise Unsupported("write in the middle of a buffer")
            old = [] if isc(ln) and cval(ln) == 0 else [self.project(w, "#arr")]
            arr = content if not old and isinstance(content, Term) else mk("op", ("blob", tuple(old) + (content,)))
            arr.ty = ("slice", U8)
            self.store(st, q, self.setkey(self.setkey(w, "#arr", arr), "#len", vg.add(ln, n)))
            if k == "cursor":
                p, v = self.dev(st, p)
                self.store(st, p, self.setkey(v, "pos", vg.add(pos, n)))

    def slice_content(self, c, p):
        """(length, content) of a byte slice"""
        n = self.slice_len(c.st, p)
        if isc(n) and cval(n) <= 400:
            return n, M.cat_bytes([self.load(c.st, self.elem_ptr(p, const(i, 64))) for i in range(cval(n))]) if cval(n) else const(0, 8)
        q = p
        if q.op == "ptr" and q.args[1] and q.args[1][-1] == "#arr" and (q.args[2] is None or isc(q.args[2]) and cval(q.args[2]) == 0):
            v = self.load(c.st, mk("ptr", (q.args[0], q.args[1][:-1], None, None)))
            if M.is_vec(v) and self.len_of(v) is n:
                return n, self.project(v, "#arr")
        return n, mk("op", ("slice-of", self.load(c.st, mk("ptr", (q.args[0], q.args[1], None, None))), q.args[2] or const(0, 64), n))

    # ---- coders
    def impls(self, trait, name):
        out = [trait + "::" + name]
        for b in self.P.bodies.values():
            if b.get("name") == name and b.get("impl_trait") == trait:
                out.append(b["id"])
        return out

    def coder(self, c, trait):
        p, v = self.dev(c.st, c.args[0])
        hit = self.dyn(trait, "get_mut", p, c.st)
        if hit is None:
            raise Unsupported("coder %s" % vg.show(v))
        s, _ = self.run(hit[0], [p], c.pc, c.st, hit[1])
        g = None
        if v.op == "st":
            for k, x in v.args[2]:
                if k == "#g":
                    g = x
        if v.op != "st" or g is not None and g.op != "ghost":
            raise Unsupported("what a record coder went through depends on a condition that is not decided")
        return p, v, s, (g.args if g is not None else ())

    def ghost(self, st, p, g):
        p, v = self.dev(st, p)
        self.store(st, p, self.setkey(v, "#g", mk("ghost", g)))

    def csz(self, pts, done):
        if not pts:
            return const(0, 64)
        return self.atom(mk("op", ("csz", pts, done), 64))

    def items_of(self, c, p):
        """total size of the items in the vector behind p"""
        v = p
        for _ in range(4):
            if v.op == "ptr" and v.args[2] is None:
                x = self.load(c.st, v)
                if x.op in ("ptr",) or M.is_vec(x):
                    v = x
                    continue
            break
        n = self.len_of(v) if M.is_vec(v) else self.slice_len(c.st, v)
        if not isc(n):
            raise Unsupported("unknown items")
        key = []
        tot = const(0, 64)
        for i in range(cval(n)):
            e = self.index(self.project(v, "#arr"), const(i, 64)) if M.is_vec(v) else self.load(c.st, self.elem_ptr(v, const(i, 64)))
            s = self.project(e, "size")
            tot = vg.add(tot, vg.zext(s, 64))
            key.append((self.project(self.project(e, "item_type"), "#d"), s, self.project(e, "version")))
        return tuple(key), tot

    def mkhooks(self):
        h = {}

        def hook(*names):
            def d(f):
                for n in names:
                    h[n] = f
                return f
            return d

        RC, RD = "record::RecordCompressor", "record::RecordDecompressor"

        # ------------------------------------------------ device
        @hook("std::io::Seek::seek", "std::io::Seek::stream_position", "std::io::Seek::rewind", "std::io::Seek::seek_relative", "std::io::Seek::stream_len")
        def seek(ev, c):
            if ev.fail(c.name, c):
                return ev.ioerr(c)
            p, v = ev.dev(c.st, c.args[0])
            k = ev.kind(v)
            pos = ev.getpos(c.st, p)
            if k == "vec":
                raise Unsupported("seek on a vector")
            if k == "dev" and ev.inpar:
                ev.problem("unordered", "the stream is used from a parallel iteration", c.where)
            if c.name == "stream_position":
                return ev.ok(pos)
            end = ev.END if k == "dev" else ev.cursor_len(c.st, p)
            if c.name == "stream_len":
                return ev.ok(end)
            if c.name == "rewind":
                ev.setpos(c.st, p, const(0, 64))
                return ev.ok(vg.UNIT)
            if c.name == "seek_relative":
                ev.setpos(c.st, p, vg.add(pos, c.args[1]))
                return ev.ok(vg.UNIT)
            f = c.args[1]
            d = ev.project(f, "#d")
            if not isc(d):
                raise Unsupported("seek from %s" % vg.show(d))
            d = cval(d)
            new = ev.project(f, "Start.0") if d == 0 else vg.add(end, ev.project(f, "End.0")) if d == 1 else vg.add(pos, ev.project(f, "Current.0"))
            ev.setpos(c.st, p, new)
            return ev.ok(new)

        @hook("std::io::Write::write_all")
        def write_all(ev, c):
            if ev.fail("write_all", c):
                return ev.ioerr(c)
            n, x = ev.slice_content(c, M.as_slice(ev, c.st, c.args[1]))
            ev.put(c, c.args[0], n, x)
            return ev.ok(vg.UNIT)

        @hook("std::io::Write::flush")
        def flush(ev, c):
            if ev.fail("flush", c):
                return ev.ioerr(c)
            return ev.ok(vg.UNIT)

        @hook("std::io::Write::write")
        def write(ev, c):
            ev.short.append(("write", c.where))
            if ev.fail("write", c):
                return ev.ioerr(c)
            n, x = ev.slice_content(c, M.as_slice(ev, c.st, c.args[1]))
            m = mk("sym", ("written%d" % len(ev.short),), 64)
            ev.put(c, c.args[0], m, mk("op", ("part", n, m)))
            return ev.ok(m)

        for nm, w in (("u8", 8), ("i8", 8), ("u16", 16), ("i16", 16), ("u32", 32), ("i32", 32), ("u64", 64), ("i64", 64)):
            def wr(ev, c, w=w):
                if ev.fail("write", c):
                    return ev.ioerr(c)
                x = c.args[1]
                if w > 8 and any("BigEndian" in str(t) for t in c.targs):
                    x = mk("op", ("big-endian", x), w)
                ev.put(c, c.args[0], const(w // 8, 64), x)
                return ev.ok(vg.UNIT)
            h["byteorder::WriteBytesExt::write_" + nm] = wr

            def rd(ev, c, w=w):
                if ev.fail("read", c):
                    return ev.ioerr(c)
                pos = ev.getpos(c.st, c.args[0])
                x = ev.at(c, c.args[0], pos, w // 8)
                if x is None:
                    return ev.ioerr(c)
                if w > 8 and any("BigEndian" in str(t) for t in c.targs):
                    x = mk("op", ("big-endian", x), w)
                ev.setpos(c.st, c.args[0], vg.add(pos, const(w // 8, 64)))
                return ev.ok(x)
            h["byteorder::ReadBytesExt::read_" + nm] = rd

        @hook("std::io::Read::read_exact")
        def read_exact(ev, c):
            if ev.fail("read_exact", c):
                return ev.ioerr(c)
            q = M.as_slice(ev, c.st, c.args[1])
            n = ev.slice_len(c.st, q)
            pos = ev.getpos(c.st, c.args[0])
            p, v = ev.dev(c.st, c.args[0])
            if ev.kind(v) == "dev":
                if ev.inpar:
                    ev.problem("unordered", "the source is read from a parallel iteration", c.where)
                if pos is ev.END and n is not const(0, 64):
                    return ev.ioerr(c)
            ev.fill(c, q, n, c.args[0], pos)
            ev.setpos(c.st, c.args[0], vg.add(pos, n))
            return ev.ok(vg.UNIT)

        @hook("std::io::Read::read")
        def read(ev, c):
            p, v = ev.dev(c.st, c.args[0])
            q = M.as_slice(ev, c.st, c.args[1])
            n = ev.slice_len(c.st, q)
            if ev.kind(v) == "dev":
                ev.short.append(("read", c.where))
                if ev.fail("read", c):
                    return ev.ioerr(c)
                m = mk("sym", ("readcount%d" % len(ev.short),), 64)
                pos = ev.getpos(c.st, c.args[0])
                ev.setpos(c.st, c.args[0], vg.add(pos, m))
                return ev.ok(m)
            pos = ev.getpos(c.st, p)
            left = vg.sub(ev.cursor_len(c.st, p), pos)
            if not (isc(left) and isc(n)):
                raise Unsupported("read of unknown length")
            m = const(min(cval(left), cval(n)), 64)
            ev.fill(c, ev.subslice(q, const(0, 64), m), m, p, pos)
            ev.setpos(c.st, p, vg.add(pos, m))
            return ev.ok(m)

        # ------------------------------------------------ chunk table coding
        @hook("compressors::IntegerCompressor::init", "decompressors::IntegerDecompressor::init")
        def init(ev, c):
            return vg.UNIT

        @hook("compressors::IntegerCompressor::compress")
        def icompress(ev, c):
            if ev.fail("compress", c):
                return ev.ioerr(c)
            p, v = ev.dev(c.st, c.args[1])
            g = None
            for k, x in v.args[2]:
                if k == "#ints":
                    g = x
            cp, cv = ev.dev(c.st, c.args[0])
            e = mk("int", (c.args[2], c.args[3], c.args[4], cv))
            ev.store(c.st, p, ev.setkey(v, "#ints", mk("ints", (g.args if g is not None else ()) + (e,))))
            return ev.ok(vg.UNIT)

        @hook("encoders::ArithmeticEncoder::<T>::done")
        def edone(ev, c):
            if ev.fail("done", c):
                return ev.ioerr(c)
            p, v = ev.dev(c.st, c.args[0])
            g = mk("ints", ())
            for k, x in v.args[2]:
                if k == "#ints":
                    g = x
            b = "encoders::ArithmeticEncoder::<T>::get_mut"
            s, _ = ev.run(b, [p], c.pc, c.st, {})
            ev.put(c, s, ev.atom(mk("op", ("tsz", g), 64)), g)
            return ev.ok(vg.UNIT)

        @hook("decoders::ArithmeticDecoder::<T>::read_init_bytes")
        def dinit(ev, c):
            if ev.fail("read", c):
                return ev.ioerr(c)
            p, v = ev.dev(c.st, c.args[0])
            s, _ = ev.run("decoders::ArithmeticDecoder::<T>::get_mut", [p], c.pc, c.st, {})
            ev.tab["at"] = ev.getpos(c.st, s)
            ev.tab["ic"] = ev.tab["is"] = 0
            ev.tab["preds"] = []
            return ev.ok(vg.UNIT)

        @hook("decompressors::IntegerDecompressor::decompress")
        def idecomp(ev, c):
            if ev.fail("read", c):
                return ev.ioerr(c)
            ctx = c.args[3]
            cp, cv = ev.dev(c.st, c.args[0])
            ev.tab["preds"].append((c.args[2], ctx, cv))
            if not isc(ctx):
                raise Unsupported("context")
            k, n = ("counts", "ic") if cval(ctx) == 0 else ("sizes", "is")
            i = ev.tab[n]
            ev.tab[n] += 1
            if i >= len(ev.tab[k]):
                ev.problem("table-over", "more chunk table %s are decoded than the table has" % k, c.where)
                return ev.ioerr(c)
            return ev.ok(ev.tab[k][i])

        # ------------------------------------------------ record coders
        @hook(*ev_impls(self, RC, "set_fields_from"), *ev_impls(self, RD, "set_fields_from"))
        def set_fields(ev, c):
            if ev.reject:
                return ev.err(mk("sym", ("lazerror",), None)), c.pc
            tr = RC if ev.is_comp(c) else RD
            p, v, s, g = ev.coder(c, tr)
            d = dict(g)
            d["nset"] = d.get("nset", 0) + 1
            d["items"], d["size"] = ev.items_of(c, c.args[1])
            if d.get("pts") or d.get("k"):
                ev.problem("fields", "the record coder is given its fields in the middle of a chunk", c.where)
            ev.ghost(c.st, p, tuple(sorted(d.items())))
            return ev.ok(vg.UNIT)

        @hook(*ev_impls(self, RC, "record_size"), *ev_impls(self, RD, "record_size"))
        def record_size(ev, c):
            tr = RC if ev.is_comp(c) else RD
            p, v, s, g = ev.coder(c, tr)
            d = dict(g)
            return d.get("size", const(0, 64))

        @hook(*ev_impls(self, RC, "reset"), *ev_impls(self, RD, "reset"))
        def reset(ev, c):
            tr = RC if ev.is_comp(c) else RD
            p, v, s, g = ev.coder(c, tr)
            d = dict(g)
            if tr == RC and d.get("pts") and not d.get("done"):
                ev.problem("lost", "the record compressor is reset before its points are flushed", c.where)
            ev.ghost(c.st, p, ())
            return vg.UNIT

        def comp_points(ev, c, datas):
            p, v, s, g = ev.coder(c, RC)
            d = dict(g)
            if d.get("nset", 0) != 1:
                ev.problem("unset", "a point is compressed by a record compressor whose fields were set %d times" % d.get("nset", 0), c.where)
            if d.get("done"):
                ev.problem("after-done", "a point is compressed after the chunk was finished, without reset", c.where)
            pts = d.get("pts", ())
            if not pts:
                d["start"] = ev.getpos(c.st, s)
            for x in datas:
                pts = pts + (x,)
            d["pts"] = pts
            ev.ghost(c.st, p, tuple(sorted(d.items())))
            if not ev.layered:
                q, w = ev.dev(c.st, s)
                k = ev.kind(w)
                if k == "dev":
                    if ev.inpar:
                        ev.problem("unordered", "points are compressed into the destination from a parallel iteration", c.where)
                    ev.setpos(c.st, q, vg.add(d["start"], ev.csz(pts, False)))
            return ev.ok(vg.UNIT)

        @hook(*ev_impls(self, RC, "compress_next"))
        def compress_next(ev, c):
            if ev.fail("compress_next", c):
                return ev.ioerr(c)
            n, x = ev.slice_content(c, M.as_slice(ev, c.st, c.args[1]))
            if not (isc(n) and cval(n) == ev.psize):
                ev.problem("point-size", "a point of %s bytes is compressed, points have %d" % (vg.show(n), ev.psize), c.where)
            return comp_points(ev, c, [x])

        @hook(*ev_impls(self, RC, "compress_many"))
        def compress_many(ev, c):
            if ev.fail("compress_many", c):
                return ev.ioerr(c)
            q = M.as_slice(ev, c.st, c.args[1])
            n = ev.slice_len(c.st, q)
            if not isc(n):
                raise Unsupported("points of unknown number")
            k = cval(n) // ev.psize
            if cval(n) % ev.psize:
                ev.problem("point-size", "%d bytes are compressed, points have %d" % (cval(n), ev.psize), c.where)
            datas = [ev.slice_content(c, ev.subslice(q, const(i * ev.psize, 64), const(ev.psize, 64)))[1] for i in range(k)]
            return comp_points(ev, c, datas)

        @hook(*ev_impls(self, RC, "done"))
        def done(ev, c):
            if ev.fail("record done", c):
                return ev.ioerr(c)
            p, v, s, g = ev.coder(c, RC)
            d = dict(g)
            if d.get("done"):
                ev.problem("done-twice", "a chunk is finished twice", c.where)
            d["done"] = True
            ev.ghost(c.st, p, tuple(sorted(d.items())))
            pts = d.get("pts", ())
            content = mk("op", ("coded", d.get("items", ()), pts))
            content.ty = ("slice", U8)
            if not pts:
                ev.problem("empty-chunk", "a chunk without points is written", c.where)
                return ev.ok(vg.UNIT)
            q, w = ev.dev(c.st, s)
            if ev.kind(w) == "dev":
                ev.setpos(c.st, q, d["start"])
            ev.put(c, q, ev.csz(pts, True), content)
            return ev.ok(vg.UNIT)

        # ---- decoders
        @hook(*ev_impls(self, RD, "set_selection"))
        def set_selection(ev, c):
            p, v, s, g = ev.coder(c, RD)
            d = dict(g)
            if d.get("k"):
                return vg.UNIT
            d["sel"] = c.args[1]
            ev.ghost(c.st, p, tuple(sorted(d.items())))
            return vg.UNIT

        @hook(*ev_impls(self, RD, "record_count"))
        def record_count(ev, c):
            p, v, s, g = ev.coder(c, RD)
            d = dict(g)
            if not ev.layered or not d.get("k"):
                return const(0, 64)
            ch = ev.chunks.get(d["start"])
            return const(ch[1], 64) if ch else const(0, 64)

        def origin(ev, c, s):
            """position on the device of the data a decoder reads"""
            p, v = ev.dev(c.st, s)
            pos = ev.getpos(c.st, p)
            if ev.kind(v) == "dev":
                if ev.inpar:
                    ev.problem("unordered", "the source is decompressed from a parallel iteration", c.where)
                return p, pos, None
            q = ev.cursor_data(c.st, p)
            if not (isc(pos) and cval(pos) == 0):
                q = ev.subslice(q, pos, vg.sub(ev.slice_len(c.st, q), pos))
            v = ev.load(c.st, mk("ptr", (q.args[0], q.args[1], None, None)))
            n = ev.slice_len(c.st, q)
            if v.op == "op" and v.args[0] == "dev":
                return p, vg.add(v.args[1], q.args[2] if q.args[2] is not None else const(0, 64)), n
            return p, mk("op", ("nowhere", v, q.args[2] or const(0, 64)), 64), n

        def decode(ev, c, outs, eof_ok=False):
            """decode points into the given slices; number of decoded points, error flag"""
            p, v, s, g = ev.coder(c, RD)
            d = dict(g)
            if d.get("nset", 0) != 1:
                ev.problem("unset", "a point is decompressed by a record decompressor whose fields were set %d times" % d.get("nset", 0), c.where)
            k = d.get("k", 0)
            got = 0
            for o in outs:
                if k == 0:
                    sp, start, n = origin(ev, c, s)
                    d["start"] = start
                    ch = ev.chunks.get(start)
                    d["org"] = ev.getpos(c.st, sp)
                    size = vg._sub(ch[2], start) if ch is not None else None
                    if ch is not None and n is not None and size is not n and (eof_ok or vg.ult(size, n) is not vg.TRUE):
                        ev.problem("extent", "a chunk of %s bytes is decompressed from %s bytes" % (vg.show(vg._sub(ch[2], start)), vg.show(n)), c.where)
                else:
                    start = d["start"]
                    sp, _ = ev.dev(c.st, s)
                ch = ev.chunks.get(start)
                if ch is None:
                    if start is ev.END:
                        return got, True
                    ev.problem("not-a-chunk", "points are decompressed from %s, where no chunk starts" % vg.show(start, 6), c.where)
                    return got, True
                idx, cnt, end = ch
                if k >= cnt:
                    if not eof_ok:
                        ev.problem("past", "point %d of chunk %d is decompressed, which has %d" % (k, idx, cnt), c.where)
                    return got, True
                sel = d.get("sel")
                if sel is not None and sel is ev.allsel():
                    sel = None
                if ev.want_items is not None and d.get("items") != ev.want_items:
                    ev.problem("items", "points are decompressed with other items than the record's", c.where)
                n = ev.slice_len(c.st, o)
                if not (isc(n) and cval(n) == ev.psize):
                    ev.problem("point-size", "a point is decompressed into %s bytes, points have %d" % (vg.show(n), ev.psize), c.where)
                    return got, True
                for j in range(ev.psize):
                    ev.store(c.st, ev.elem_ptr(o, const(j, 64)), mk("op", ("pt", idx, k, j, sel), 8))
                k += 1
                got += 1
                q, w = ev.dev(c.st, sp)
                used = vg.sub(end, start)
                if not (k == cnt or ev.layered):
                    used = vg.sub(used, ev.atom(mk("op", ("rem", idx, k), 64), 0))
                ev.setpos(c.st, q, vg.add(d["org"], used))
                d["k"] = k
            d["k"] = k
            ev.ghost(c.st, p, tuple(sorted(d.items(), key=lambda x: x[0])))
            return got, False

        def outs(ev, c):
            q = M.as_slice(ev, c.st, c.args[1])
            n = ev.slice_len(c.st, q)
            if not isc(n):
                raise Unsupported("points of unknown number")
            if cval(n) > 1 << 24:
                raise Unsupported("%d bytes of points are asked for" % cval(n))
            return cval(n), [ev.subslice(q, const(i * ev.psize, 64), const(ev.psize, 64)) for i in range(cval(n) // ev.psize)]

        @hook(*ev_impls(self, RD, "decompress_next"))
        def decompress_next(ev, c):
            if ev.fail("decompress_next", c):
                return ev.ioerr(c)
            got, e = decode(ev, c, [M.as_slice(ev, c.st, c.args[1])])
            return ev.ioerr(c) if e else ev.ok(vg.UNIT)

        @hook(*ev_impls(self, RD, "decompress_many"))
        def decompress_many(ev, c):
            if ev.fail("decompress_many", c):
                return ev.ioerr(c)
            n, o = outs(ev, c)
            if n % ev.psize:
                ev.problem("point-size", "%d bytes are decompressed, points have %d" % (n, ev.psize), c.where)
            got, e = decode(ev, c, o)
            return ev.ioerr(c) if e else ev.ok(vg.UNIT)

        @hook(*ev_impls(self, RD, "decompress_until_end_of_file"))
        def until_eof(ev, c):
            if ev.fail("decompress_until_end_of_file", c):
                return ev.ioerr(c)
            n, o = outs(ev, c)
            got, e = decode(ev, c, o, True)
            return ev.ok(const(got * ev.psize, 64))

        # ------------------------------------------------ rayon
        @hook("rayon::iter::IntoParallelIterator::into_par_iter", "rayon::iter::IntoParallelRefIterator::par_iter", "rayon::iter::IntoParallelRefMutIterator::par_iter_mut")
        def into_par(ev, c):
            v = c.args[0]
            if v.op == "st" and v.args[0] == ("par",):
                return v
            return par(M.to_iter(ev, c.st, v))

        @hook("rayon::slice::ParallelSlice::par_chunks", "rayon::slice::ParallelSliceMut::par_chunks_mut", "rayon::slice::ParallelSlice::par_chunks_exact", "rayon::slice::ParallelSliceMut::par_chunks_exact_mut")
        def par_chunks(ev, c):
            q = M.as_slice(ev, c.st, c.args[0])
            return par(M.it("chunks" if "exact" in c.name else "chunksr", p=q, n=c.args[1], i=const(0, 64)))

        for nm in ("map", "filter", "zip", "enumerate", "map_init", "with_min_len", "with_max_len", "copied", "cloned", "chain", "take", "skip", "rev", "filter_map"):
            def adapt(ev, c, nm=nm):
                a = ev.project(c.args[0], "a")
                if nm in ("with_min_len", "with_max_len"):
                    return c.args[0]
                if nm == "map":
                    return par(M.it("map", a=a, f=c.args[1]))
                if nm == "filter":
                    return par(M.it("filter", a=a, f=c.args[1]))
                if nm == "filter_map":
                    return par(M.it("filtermap", a=a, f=c.args[1]))
                if nm == "enumerate":
                    return par(M.it("enum", a=a, i=const(0, 64)))
                if nm in ("copied", "cloned"):
                    return par(M.it("deref", a=a))
                if nm == "take":
                    return par(M.it("take", a=a, n=c.args[1]))
                if nm in ("zip", "chain"):
                    b = c.args[1]
                    b = ev.project(b, "a") if b.op == "st" and b.args[0] == ("par",) else M.to_iter(ev, c.st, b)
                    return par(M.it("zip", a=a, b=b) if nm == "zip" else M.it("chain", a=a, b=b))
                return NotImplemented
            h["rayon::iter::ParallelIterator::" + nm] = adapt
            h["rayon::iter::IndexedParallelIterator::" + nm] = adapt

        @hook("rayon::iter::ParallelIterator::collect", "rayon::iter::FromParallelIterator::from_par_iter", "rayon::iter::IndexedParallelIterator::collect_into_vec",
              "rayon::iter::ParallelIterator::try_for_each", "rayon::iter::ParallelIterator::for_each", "rayon::iter::ParallelIterator::count")
        def consume(ev, c):
            v = c.args[0]
            a = ev.project(v, "a") if v.op == "st" and v.args[0] == ("par",) else M.to_iter(ev, c.st, v)
            ev.inpar += 1
            try:
                xs, pc = M.drain(ev, c, a)
                if c.name in ("for_each", "try_for_each"):
                    rs = []
                    for x in xs:
                        r, pc = ev.call_closure(c.args[1], [x], pc, c.st, c.where)
                        rs.append(r)
                    if c.name == "for_each":
                        return vg.UNIT, pc
                    xs = rs
            finally:
                ev.inpar -= 1
            if c.name == "count":
                return const(len(xs), 64), pc
            if c.name == "collect_into_vec":
                ev.store(c.st, c.args[1], ev.vec(ev.array(xs), const(len(xs), 64), None))
                return vg.UNIT, pc
            t = c.dty if c.dty is not None else (c.targs[1] if len(c.targs) > 1 else None)
            return M.collect_into(ev, xs, t if c.name != "try_for_each" else ("adt", "std::result::Result", (("tuple", ()), None))), pc

        @hook("rayon::join", "rayon_core::join", "rayon::join::join")
        def join(ev, c):
            ev.inpar += 1
            try:
                a, pc = ev.call_closure(c.args[0], [], c.pc, c.st, c.where)
                b, pc = ev.call_closure(c.args[1], [], pc, c.st, c.where)
            finally:
                ev.inpar -= 1
            return mk("st", (("tuple", (None, None)), None, (("0", a), ("1", b)))), pc
        for k in list(h):
            p = k.split("::")
            if p[0] == "rayon" and len(p) > 3:
                h["rayon::prelude::" + "::".join(p[2:])] = h[k]
                h["rayon::" + "::".join(p[2:])] = h[k]
        return h

    def is_comp(self, c):
        p, v = self.dev(c.st, c.args[0])
        t = v.args[0] if v.op == "st" else v.ty
        return self.P.find_impl("record::RecordCompressor", "compress_next", t) is not None

    def allsel(self):
        if self.allsel_ is None:
            self.allsel_, _ = self.run(method(self.P, "DecompressionSelection", "all"), [], vg.TRUE, {}, {})
        return self.allsel_

    def intcoder(self, what, bits=32, contexts=2):
        """the integer (de)compressor the public builder makes"""
        P = self.P
        n = "Integer%sBuilder" % what
        k = ("intcoder", what, bits, contexts)
        if k not in self.genv_cache:
            st = {}
            v, _ = self.run(method(P, n, "new"), [], vg.TRUE, st, {})
            for m, x in (("bits", bits), ("contexts", contexts)):
                p = self.alloc(st, v, "B")
                v, _ = self.run(method(P, n, m), [p, const(x, 32)], vg.TRUE, st, {})
                v = self.load(st, v) if v.op == "ptr" else v
            v, _ = self.run(method(P, n, "build_initialized"), [self.alloc(st, v, "B")], vg.TRUE, st, {})
            self.genv_cache[k] = v
        return self.genv_cache[k]

    # ---- buffers as streams
    def cursor_data(self, st, p):
        q = self.field_ptr(p, "inner")
        for _ in range(6):
            v = self.load(st, q)
            if v.op == "ptr":
                q = v
                if q.args[2] is not None or q.args[3] is not None:
                    return q
                continue
            break
        return M.as_slice(self, st, q)

    def cursor_len(self, st, p):
        return self.slice_len(st, self.cursor_data(st, p))

    def stored(self, pos, n):
        """value of n bytes of the device at a position, whatever pieces they were written in"""
        m = self.media.get(pos)
        if m is not None and m[0] == n:
            return m[1]
        out, any_ = [], False
        for i in range(n):
            x = None
            for k in range(16):
                m = self.media.get(vg.sub(vg.add(pos, const(i, 64)), const(k, 64)))
                if m is not None:
                    if isinstance(m[0], int) and m[0] > k and m[1].w == 8 * m[0]:
                        x = vg.bslice(m[1], 8 * k, 8)
                    break
            any_ = any_ or x is not None
            out.append(x)
        if not any_:
            return None
        return M.cat_bytes([x if x is not None else mk("op", ("data", vg.add(pos, const(i, 64)), 1), 8) for i, x in enumerate(out)])

    def at(self, c, p, pos, n):
        """value of n bytes at a position"""
        p, v = self.dev(c.st, p)
        if self.kind(v) == "dev":
            if pos is self.END:
                return None
            m = self.stored(pos, n)
            return m if m is not None else mk("op", ("data", pos, n), 8 * n)
        q = self.cursor_data(c.st, p)
        v = self.load(c.st, mk("ptr", (q.args[0], q.args[1], None, None)))
        if v.op == "op" and v.args[0] == "dev":
            a = vg.add(v.args[1], pos if q.args[2] is None else vg.add(q.args[2], pos))
            m = self.stored(a, n)
            return m if m is not None else mk("op", ("data", a, n), 8 * n)
        return M.cat_bytes([self.load(c.st, self.elem_ptr(q, vg.add(pos, const(i, 64)))) for i in range(n)])

    def fill(self, c, q, n, src, pos):
        """copy n bytes of stream src at pos into slice q"""
        p, v = self.dev(c.st, src)
        if self.kind(v) != "dev":
            s = self.subslice(self.cursor_data(c.st, p), pos, n)
            if not isc(n):
                raise Unsupported("copy of unknown length")
            M.copy_elems(self, c, q, s, n)
            return
        if isc(n) and cval(n) <= 64:
            whole = self.stored(pos, cval(n)) if cval(n) <= 16 else None
            for i in range(cval(n)):
                x = vg.bslice(whole, 8 * i, 8) if whole is not None else mk("op", ("data", vg.add(pos, const(i, 64)), 1), 8)
                self.store(c.st, self.elem_ptr(q, const(i, 64)), x)
            return
        if q.op != "ptr" or not (q.args[2] is None or isc(q.args[2]) and cval(q.args[2]) == 0):
            raise Unsupported("read into a part of a buffer")
        if q.args[1] and q.args[1][-1] == "#arr":
            v = self.load(c.st, mk("ptr", (q.args[0], q.args[1][:-1], None, None)))
            if self.len_of(v) is not n:
                raise Unsupported("read into a part of a buffer")
        a = mk("op", ("dev", pos))
        a.ty = ("slice", U8)
        self.store(c.st, mk("ptr", (q.args[0], q.args[1], None, None)), a)


def ev_impls(ev, tr, name):
    return ev.impls(tr, name)


def par(a):
    return mk("st", (("par",), None, (("a", a),)))


# ------------------------------------------------------------------ utilities

def adt(P, name):
    """path of the type with this last segment"""
    c = [a for a in P.adts if a.split("::")[-1] == name]
    if len(c) != 1:
        raise Unsupported("type %s: %s" % (name, c))
    return c[0]


def method(P, tyname, name):
    """inherent method of a type, by name"""
    path = adt(P, tyname)
    for b in P.bodies.values():
        if b.get("impl_self") is not None and b.get("impl_trait") is None and b["name"] == name:
            t = P.rty(b["impl_self"])
            if t[0] == "adt" and t[1] == path:
                return b["id"]
    raise Unsupported("no %s of %s" % (name, tyname))


def traitmethod(P, tyname, trait, name):
    path = adt(P, tyname)
    for b in P.bodies.values():
        if b.get("impl_self") is not None and b.get("impl_trait") is not None and b["impl_trait"].split("::")[-1] == trait and b["name"] == name:
            t = P.rty(b["impl_self"])
            if t[0] == "adt" and t[1] == path:
                return b["id"]
    raise Unsupported("no %s::%s of %s" % (trait, name, tyname))


def func(P, name):
    c = [b["id"] for b in P.bodies.values() if b.get("name") == name and b.get("impl_self") is None and b["id"].split("::")[-1] == name and "{closure" not in b["id"]]
    if len(c) != 1:
        raise Unsupported("function %s: %s" % (name, c))
    return c[0]


def env(P, bid, **kw):
    return {g: kw.get(g, ("param", g)) for g in P.bodies[bid]["generics"]}


def mkvlr(E, sizes=(2, 1), chunk=None, version=2, compressor=None):
    """a LazVlr made by the public builder; chunk: number, "var" or None"""
    P = E.P
    its = [item(P, "Byte" if version < 3 else "Byte14", version, size=n, count=n) for n in sizes]
    LIt = ("adt", LI, ())
    st = {}
    v, _ = E.run(method(P, "LazVlrBuilder", "new"), [E.vec(E.array(its, LIt), const(len(its), 64), LIt)], vg.TRUE, st, {})
    if chunk == "var":
        v, _ = E.run(method(P, "LazVlrBuilder", "with_variable_chunk_size"), [v], vg.TRUE, st, {})
    elif chunk is not None:
        v, _ = E.run(method(P, "LazVlrBuilder", "with_fixed_chunk_size"), [v, chunk if isinstance(chunk, Term) else const(chunk, 32)], vg.TRUE, st, {})
    v, _ = E.run(method(P, "LazVlrBuilder", "build"), [v], vg.TRUE, st, {})
    if compressor is not None:
        v = E.setpath(v, ("compressor", "#d"), const(compressor, 64))
    return v


def isok(E, r):
    d = E.project(r, "#d")
    return isc(d) and cval(d) == 0


def iserr(E, r):
    d = E.project(r, "#d")
    return isc(d) and cval(d) == 1


def point(i, psize):
    return [mk("sym", ("p%d.%d" % (i, j),), 8) for j in range(psize)]


def pointval(i, psize):
    return M.cat_bytes(point(i, psize))
