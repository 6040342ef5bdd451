"""Writer scenarios: sequences of calls on a compressor, and the image they leave."""
import vg
from vg import mk, const, isc, cval, Unsupported
import sea
import models as M
from sea import Sea, U8, isok, iserr, method, traitmethod, func, env, mkvlr, pointval, point
from codec import ptr

W = ("param", "W")
VEC8 = ("adt", "std::vec::Vec", (U8,))


class Writer:
    """one compressor (seq / par) on the abstract device"""

    def __init__(self, P, kind, chunk, psize=3, layered=False, failat=None, E=None, vlr=None, tolerant=False):
        self.P = P
        self.kind = kind
        self.E = E or Sea(P, psize, layered)
        self.E.failat = failat
        self.ty = {"seq": "LasZipCompressor", "par": "ParLasZipCompressor"}[kind]
        self.chunk = chunk
        self.psize = psize
        self.vlr = vlr if vlr is not None else mkvlr(self.E, (psize - 1, 1), chunk, 3 if layered else 2)
        self.st = {}
        self.n = 0
        self.groups = []          # points per call group, for variable-size chunks
        self.open = 0
        self.dead = None
        self.results = []

    def do(self, bid, args, e=None):
        E = self.E
        f0 = E.failed
        r, pc = E.run(bid, args, vg.TRUE, self.st, e or env(self.P, bid, W=W))
        self.results.append((bid, r, pc, E.failed is not None and f0 is None))
        if r is None or pc is vg.FALSE:
            self.dead = "%s does not return" % bid
            raise Stop()
        return r

    def new(self):
        E = self.E
        b = method(self.P, self.ty, "new")
        r = self.do(b, [E.stream(), self.vlr])
        self.expect(r)
        self.st[("C",)] = E.project(r, "Ok.0")
        return self

    def expect(self, r):
        if not isok(self.E, r):
            if self.E.failed is None:
                self.dead = "%s returns an error or an undecided result" % self.results[-1][0]
            raise Stop()

    def data(self, k):
        E = self.E
        bs = []
        for i in range(k):
            bs += point(self.n + i, self.psize)
        self.n += k
        self.nd = getattr(self, "nd", 0) + 1
        root = ("IN", self.nd)
        self.st[root] = E.array(bs, U8)
        return mk("ptr", (root, (), const(0, 64), const(len(bs), 64)))

    def many(self, k, trait=False):
        b = traitmethod(self.P, self.ty, "LazCompressor", "compress_many") if trait else method(self.P, self.ty, "compress_many")
        self.account(k)
        self.expect(self.do(b, [ptr(("C",)), self.data(k)]))
        return self

    def one(self):
        b = method(self.P, self.ty, "compress_one") if self.kind == "seq" else traitmethod(self.P, self.ty, "LazCompressor", "compress_one")
        self.account(1)
        self.expect(self.do(b, [ptr(("C",)), self.data(1)]))
        return self

    def account(self, k):
        self.open += k
        if self.chunk != "var":
            while self.open > self.chunk or (self.open == self.chunk):
                self.groups.append(self.chunk)
                self.open -= self.chunk

    def finish(self):
        if self.open:
            self.groups.append(self.open)
        self.open = 0
        self.expect(self.do(method(self.P, self.ty, "finish_current_chunk"), [ptr(("C",))]))
        return self

    def chunks(self, ks):
        E = self.E
        vs = []
        for k in ks:
            p = self.data(k)
            vs.append(E.vec(self.st[p.args[0]], const(k * self.psize, 64), U8))
            k += self.open                      # the first chunk continues the open one
            self.open = 0
            if k:
                self.groups.append(k)
        v = E.vec(E.array(vs, VEC8), const(len(vs), 64), VEC8)
        b = method(self.P, self.ty, "compress_chunks")
        self.expect(self.do(b, [ptr(("C",)), v], env(self.P, b, W=W, Chunks=("adt", "std::vec::Vec", (VEC8,)), Item=VEC8)))
        return self

    def reserve(self):
        self.expect(self.do(method(self.P, self.ty, "reserve_offset_to_chunk_table"), [ptr(("C",))]))
        return self

    def done(self, trait=False):
        if self.open:
            self.groups.append(self.open)
            self.open = 0
        b = traitmethod(self.P, self.ty, "LazCompressor", "done") if trait else method(self.P, self.ty, "done")
        self.expect(self.do(b, [ptr(("C",))]))
        return self

    def buffer(self, k, name="compress_buffer"):
        """compress_buffer / par_compress_buffer"""
        self.st[("W",)] = self.E.stream()
        self.inner_ = ptr(("W",))
        self.account(k)
        v = self.vlr
        if name != "compress_buffer":
            self.st[("VLR",)] = v
            v = ptr(("VLR",))
        p = self.data(k)
        if self.open:
            self.groups.append(self.open)
            self.open = 0
        self.expect(self.do(func(self.P, name), [ptr(("W",)), p, v]))
        return self

    def parbuffer(self, k):
        return self.buffer(k, "par_compress_buffer")

    def inner(self):
        """into_inner hands the destination back"""
        b = method(self.P, self.ty, "into_inner")
        r = self.do(b, [self.st[("C",)]])
        self.st[("INNER",)] = r
        self.inner_ = ptr(("INNER",))
        return self

    def stream(self):
        if getattr(self, "inner_", None) is not None:
            return self.inner_
        b = method(self.P, self.ty, "get_mut")
        r = self.do(b, [ptr(("C",))])
        return r


class Appender(Writer):
    """an appender on a file that holds chunks of `counts` points"""

    def __init__(self, P, kind, counts, chunk, point_count=None, psize=3, layered=False, failat=None, table="start"):
        from sear import Reader
        Writer.__init__(self, P, kind, chunk, psize, layered, failat)
        self.comp = self.ty
        self.ty = {"seq": "LasZipAppender", "par": "ParLasZipAppender"}[kind]
        self.rd = Reader(P, kind, counts, chunk, psize, layered, table, failat, self.E, self.vlr)
        self.E.want_items = itemkey(self.E, self.vlr)
        self.counts = list(counts)
        total = sum(counts)
        self.point_count = total if point_count is None else point_count
        keep = min(self.point_count, total)
        # chunk that holds the last point that is kept: coded again with what follows
        n = 0
        k = 0
        while k < len(counts) and n + counts[k] < keep:
            n += counts[k]
            k += 1
        self.kept = k
        again = keep - n
        self.old = [oldpoint(k, i, psize) for i in range(again)]
        self.base = n
        self.account(again) if chunk != "var" or kind == "seq" else None
        if chunk == "var" and kind == "par" and again:
            self.groups.append(again)

    def new(self):
        E = self.E
        r = self.do(method(self.P, self.ty, "new"), [E.stream(), self.vlr, const(self.point_count, 64)])
        self.expect(r)
        self.st[("C",)] = E.project(r, "Ok.0")
        return self

    def want(self):
        E = self.E
        before = [(self.counts[i] if self.chunk == "var" else None, self.rd.sizes[i]) for i in range(self.kept)]
        return expected(E, self.groups, self.chunk == "var", itemkey(E, self.vlr), before=before, old=self.old, psize=self.psize)


def oldpoint(idx, k, psize):
    return M.cat_bytes([mk("op", ("pt", idx, k, j, None), 8) for j in range(psize)])


class Stop(Exception):
    pass


def table(E, counts, sizes, variable):
    """content of a chunk table with these entries, after its header"""
    out = []
    pc = pb = const(0, 32)
    par = (E.intcoder("Compressor"),)
    for c, s in zip(counts, sizes):
        if variable:
            out.append(mk("int", (pc, const(c, 32), const(0, 32)) + par))
            pc = const(c, 32)
        b = vg.trunc(s, 32)
        out.append(mk("int", (pb, b, const(1, 32)) + par))
        pb = b
    return mk("ints", tuple(out))


def expected(E, groups, variable, items, first=0, psize=3, base=None, before=(), old=()):
    """[(label, position, length, content)] of the image of these chunks; before: (count, size) of chunks already there"""
    P0 = base if base is not None else E.P0
    pos = vg.add(P0, const(8, 64))
    counts, sizes = [c for c, _ in before], [s for _, s in before]
    for s in sizes:
        pos = vg.add(pos, s)
    out = []
    n = first - len(old)
    for k, g in enumerate(groups):
        pts = tuple(pointval(n + i, psize) if n + i >= first else old[n + i - first] for i in range(g))
        n += g
        size = E.csz(pts, True)
        out.append(("chunk %d" % (len(before) + k), pos, size, mk("op", ("coded", items, pts))))
        pos = vg.add(pos, size)
        counts.append(g)
        sizes.append(size)
    T = pos
    out.append(("table version", T, const(4, 64), const(0, 32)))
    out.append(("table count", vg.add(T, const(4, 64)), const(4, 64), const(len(counts), 32)))
    end = vg.add(T, const(8, 64))
    if counts:
        t = table(E, counts, sizes, variable)
        n = E.atom(mk("op", ("tsz", t), 64))
        out.append(("table entries", end, n, t))
        end = vg.add(end, n)
    out.append(("table offset", P0, const(8, 64), T))
    return out, end, T


def image(E):
    """last content written at each position: {position: (length, content, pc, where)}"""
    m = {}
    for pos, n, x, pc, where in E.log:
        for p, b in split(pos, n, x):
            m[p] = (n if b is x else const(1, 64), b, pc, where)
    return m


def split(pos, n, x):
    """small writes byte by byte, so that how they are grouped does not matter; coded data as a whole"""
    if isc(n) and 0 < cval(n) <= 64 and x.w == 8 * cval(n):
        return [(vg.add(pos, const(i, 64)), vg.bslice(x, 8 * i, 8)) for i in range(cval(n))]
    if isc(n) and cval(n) == 0:
        return []
    return [(pos, x)]


def itemkey(E, vlr):
    v = E.project(vlr, "items")
    out = []
    n = E.len_of(v)
    for i in range(cval(n)):
        e = E.index(E.project(v, "#arr"), const(i, 64))
        out.append((E.project(E.project(e, "item_type"), "#d"), E.project(e, "size"), E.project(e, "version")))
    return tuple(out)


def show(x):
    return vg.show(x, 5)[:160] if x is not None else "?"


def compare(E, want, allow=()):
    """[(key, text, where)] differences between the device image and the expected one"""
    m = image(E)
    out = []
    seen = set()
    for label, pos, n, x in want:
        key = label.split()[0] if label.startswith("chunk") else label
        parts = split(pos, n, x)
        got = [m.get(p) for p, _ in parts]
        if any(g is None for g in got):
            out.append((key, "%s is not written at its position (%s)" % (label, show(pos)), None))
            seen.update(p for p, _ in parts)
            continue
        seen.update(p for p, _ in parts)
        if any(g[2] is not vg.TRUE for g in got):
            out.append((key, "%s is written under a condition" % label, got[0][3]))
        elif any(g[1] is not b or len(parts) == 1 and g[0] is not n for g, (_, b) in zip(got, parts)):
            v = catb([g[1] for g in got]) if len(got) > 1 else got[0][1]
            out.append((key, "%s holds %s, should hold %s" % (label, content(v), content(x)), got[0][3]))
    for pos, g in m.items():
        if pos not in seen and pos not in allow:
            out.append(("extra", "%s is written at %s, where nothing belongs" % (content(g[1]), show(pos)), g[3]))
    return out


def catb(bs):
    import models
    return models.cat_bytes(bs) if all(b.w == 8 for b in bs) else bs[0]


def content(x):
    if x.op == "op" and x.args[0] == "coded":
        return "a chunk of %d points (%s)" % (len(x.args[2]), ", ".join(pname(p) for p in x.args[2][:6]))
    if x.op == "ints":
        return "%d coded table values (%s)" % (len(x.args), "; ".join("%s<-%s ctx %s" % (show(i.args[1])[:40], show(i.args[0])[:40], show(i.args[2])) for i in x.args[:4]))
    return show(x)


def pname(p):
    s = vg.show(p, 3)
    import re
    m = re.findall(r"p(\d+)\.", s)
    return "point " + "/".join(sorted(set(m))) if m else s[:20]
