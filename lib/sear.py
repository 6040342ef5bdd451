"""Reader scenarios: a chunked file on the abstract device, and what a decompressor makes of it."""
import vg
from vg import mk, const, isc, cval, Unsupported
import sea
from sea import Sea, U8, isok, iserr, method, traitmethod, func, env, mkvlr
from seaw import Stop, itemkey
from codec import ptr

R = ("param", "R")


class Reader:
    """one decompressor (seq / par) on a device that holds chunks of `counts` points"""

    def __init__(self, P, kind, counts, chunk, psize=3, layered=False, table="start", failat=None, E=None, vlr=None, compressor=None, base=None, sel=None):
        self.P = P
        self.kind = kind
        E = self.E = E or Sea(P, psize, layered)
        E.failat = failat
        self.ty = {"seq": "LasZipDecompressor", "par": "ParLasZipDecompressor"}[kind]
        self.counts = list(counts)
        self.variable = chunk == "var"
        self.chunk = chunk
        self.psize = psize
        self.table = table
        self.vlr = vlr if vlr is not None else mkvlr(E, (psize - 1, 1), chunk, 3 if layered else 2, compressor)
        self.st = {}
        self.cur = 0
        self.total = sum(counts)
        self.dead = None
        self.err = None
        self.out = []             # (key, text, where)
        self.nout = 0
        self.layout(base)
        self.sel = sel
        E.want_items = itemkey(E, self.vlr)

    def layout(self, base=None):
        E = self.E
        P0 = self.P0 = base if base is not None else E.P0
        pos = vg.add(P0, const(8, 64)) if self.table != "pointwise" else P0
        self.where = []
        self.sizes = []
        for i, c in enumerate(self.counts):
            s32 = mk("sym", ("sz%d" % i,), 32)
            s = E.atom(vg.zext(s32, 64))
            self.sizes.append(s)
            end = vg.add(pos, s)
            E.chunks[pos] = (i, c, end)
            for k in range(c):
                self.where.append((i, k))
            pos = end
        self.T = T = pos
        E.tab["counts"] = [const(c, 32) for c in self.counts] if self.variable else []
        E.tab["sizes"] = [vg.trunc(s, 32) for s in self.sizes]
        n8 = const(8, 64)
        E.END = vg.add(T, E.atom(mk("sym", ("tail",), 64), 24)) if self.table != "pointwise" else T
        slot = {"start": T, "end": const(-1, 64), "endself": P0, "none": const(-1, 64), "noneself": P0}.get(self.table)
        if slot is not None:
            E.media[P0] = (8, slot)
            E.media[vg.sub(E.END, n8)] = (8, T if self.table.startswith("end") else const(0, 64))
            E.media[T] = (4, const(0, 32))
            E.media[vg.add(T, const(4, 64))] = (4, const(len(self.counts), 32))

    def do(self, bid, args, e=None):
        E = self.E
        r, pc = E.run(bid, args, vg.TRUE, self.st, e or env(self.P, bid, R=R))
        if r is None or pc is vg.FALSE:
            self.dead = "%s does not return" % bid
            raise Stop()
        return r

    def good(self, r, what):
        E = self.E
        if isok(E, r):
            return
        if iserr(E, r):
            self.err = what
        else:
            self.dead = "the result of %s is not decided" % what
        raise Stop()

    def new(self, selective=False):
        E = self.E
        if selective:
            self.sel = self.selsym()
            r = self.do(method(self.P, self.ty, "selective"), [E.stream(), self.vlr, self.sel])
        else:
            self.sel = None
            r = self.do(method(self.P, self.ty, "new"), [E.stream(), self.vlr])
        self.good(r, "new")
        self.st[("D",)] = E.project(r, "Ok.0")
        return self

    def buf(self, n):
        self.nout += 1
        root = ("OUT", self.nout)
        self.st[root] = self.E.array([mk("sym", ("old%d.%d" % (self.nout, i),), 8) for i in range(n)], U8)
        return mk("ptr", (root, (), const(0, 64), const(n, 64))), root

    def verify(self, root, first, k, what):
        E = self.E
        v = self.st[root]
        for i in range(k):
            idx, kk = self.where[first + i]
            for j in range(self.psize):
                x = E.index(v, const(i * self.psize + j, 64))
                w = mk("op", ("pt", idx, kk, j, self.sel), 8)
                if x is not w:
                    self.out.append((what, "point %d of the file is %s" % (first + i, describe(x, self.sel, idx, kk, j)), None))
                    return

    def many(self, k, trait=False):
        p, root = self.buf(k * self.psize)
        b = traitmethod(self.P, self.ty, "LazDecompressor", "decompress_many") if trait else method(self.P, self.ty, "decompress_many")
        r = self.do(b, [ptr(("D",)), p])
        self.after(r, root, k, "decompress_many")
        return self

    def one(self):
        p, root = self.buf(self.psize)
        b = method(self.P, self.ty, "decompress_one") if self.kind == "seq" else traitmethod(self.P, self.ty, "LazDecompressor", "decompress_one")
        r = self.do(b, [ptr(("D",)), p])
        self.after(r, root, 1, "decompress_one")
        return self

    def after(self, r, root, k, what):
        if self.cur + k > self.total:
            if not iserr(self.E, r):
                self.out.append(("past-end", "%s of %d points at point %d of %d does not report an error" % (what, k, self.cur, self.total), None))
            raise Stop()
        self.good(r, what)
        self.verify(root, self.cur, k, what)
        self.cur += k

    # ---- one-call functions, on data in memory
    def raw(self, base=None):
        """the file in memory"""
        E = self.E
        a = mk("op", ("dev", self.P0))
        a.ty = ("slice", U8)
        self.st[("FILE",)] = a
        self.file = mk("ptr", (("FILE",), (), const(0, 64), vg.sub(E.END, self.P0)))
        return self

    def buffer(self, k, name="decompress_buffer"):
        p, root = self.buf(k * self.psize)
        v = self.vlr
        if name != "decompress_buffer":
            self.st[("VLR",)] = v
            v = ptr(("VLR",))
        r = self.do(func(self.P, name), [self.file, p, v])
        self.after(r, root, k, name)
        return self

    def parbuffer(self, k):
        return self.buffer(k, "par_decompress_buffer")

    def pardecompress(self, k, selective=False, nchunks=None):
        """par_decompress of the first chunks with their table entries"""
        E = self.E
        p, root = self.buf(k * self.psize)
        n = len(self.counts) if nchunks is None else nchunks
        T = ("adt", sea.adt(self.P, "ChunkTableEntry"), ())
        es = []
        tot = const(0, 64)
        for i in range(n):
            c = self.counts[i] if self.variable else self.chunk
            e = mk("st", (T, None, (("byte_count", self.sizes[i]), ("point_count", const(c, 64)))))
            e.ty = T
            es.append(e)
            tot = vg.add(tot, self.sizes[i])
        self.st[("TAB",)] = E.array(es, T)
        tab = mk("ptr", (("TAB",), (), const(0, 64), const(n, 64)))
        self.st[("VLR",)] = self.vlr
        src = E.subslice(self.file, const(8, 64), tot)
        args = [src, p, ptr(("VLR",)), tab]
        if selective:
            self.sel = self.selsym()
            args.append(self.sel)
        r = self.do(func(self.P, "par_decompress_selective" if selective else "par_decompress"), args)
        self.after(r, root, k, "par_decompress")
        return self

    def selsym(self):
        s = mk("sym", ("SEL",), None)
        s.ty = ("adt", sea.adt(self.P, "DecompressionSelection"), ())
        return s

    def inner(self):
        """into_inner hands the source back"""
        r = self.do(method(self.P, self.ty, "into_inner"), [self.st[("D",)]])
        if self.E.project(r, "name") is not mk("sym", ("dev",), None):
            self.out.append(("inner", "into_inner does not hand the source back", None))
        return self

    def seek(self, i, trait=False):
        b = traitmethod(self.P, self.ty, "LazDecompressor", "seek") if trait else method(self.P, self.ty, "seek")
        r = self.do(b, [ptr(("D",)), const(i, 64)])
        self.good(r, "seek")
        self.cur = i
        return self


def describe(x, sel, idx, kk, j):
    if x.op == "op" and x.args[0] == "pt":
        if x.args[1:4] == (idx, kk, j):
            return "decompressed with another selection"
        return "filled with byte %d of point %d of chunk %d (expected byte %d of point %d of chunk %d)" % (x.args[3], x.args[2], x.args[1], j, kk, idx)
    return "filled with %s" % vg.show(x, 4)[:120]
