"""Mirror analysis of the layered field codecs (four contexts, one byte stream per layer).

One step (compress_field_with / decompress_field_with) is compared from paired
arbitrary states, split by the context in use, the context of the point and
whether that context was used before in the chunk.
"""
import re
import vg
from vg import Unsupported, mk, const, ite, band, bor, bnot, isc, cval, Term
from prog import width
import codec
from codec import Side, Pair, Class, comp_hooks, decomp_hooks, fam_of, fstr, families, pair_families, ptr, provable_eq, group, ev_class, leafnames, OPAQUE, show
from facts import refuted, witness

NCTX = 4
TC, TD = "record::LayeredFieldCompressor", "record::LayeredFieldDecompressor"


def generic(name):
    """('contexts[].x', ['2']) of 'contexts[2].x'"""
    ks = re.findall(r"\[(\d*)\]", name)
    return re.sub(r"\[\d*\]", "[]", name), ks


def partgeneric(name):
    """the context index blank, later ones as they are"""
    return re.sub(r"\[\d*\]", "[]", name, count=1)


def concrete(name, ks):
    it = iter(ks)
    return re.sub(r"\[\]", lambda m: "[%s]" % next(it, ""), name)


class LSide(Side):
    def __init__(self, *a, **k):
        Side.__init__(self, *a, **k)
        self.boolfix = {}
        self.cmemo = {}

    def canonmerge(self, r, pc):
        """a merged value that is always one field of the input is that field"""
        if self.kind != "D":
            return r
        ls = list(vg.leafset(r))
        for l in ls:
            if l.op not in ("cat", "sym"):
                continue
            ps = [p for p in vg.pieces(l) if p[0] is not None]
            if len(ps) == 1 and ps[0][0].op == "sym" and ps[0][0].args[0] == "in":
                k = (r.id, l.id, pc.id)
                v = self.cmemo.get(k)
                if v is None:
                    v = self.cmemo[k] = provable_eq(r, l, pc)
                if v:
                    return l
        return r

    def pairname(self, fam):
        if fam in self.modelmap:
            return self.modelmap[fam]
        g, ks = generic(fam)
        if g in self.modelmap:
            return concrete(self.modelmap[g], ks)
        return fam

    def mkleaf(self, fam, idx, ty):
        g, ks = generic(fam)
        f0 = fam[2:] if fam.startswith("s.") else fam
        b = self.boolfix.get(f0, self.boolfix.get(g[2:] if g.startswith("s.") else g))
        if b is not None:
            return const(b, width(ty))
        n = self.rename.get(fam) or self.rename.get(partgeneric(fam)) or self.rename.get(g)
        if n is not None:
            fam = concrete(n, ks)
        keep, kn = self.rename, self.narrow
        g = generic(fam)[0]
        self.rename, self.narrow = {}, ({fam: kn[g]} if g in kn else {})
        try:
            return Side.mkleaf(self, fam, idx, ty)
        finally:
            self.rename, self.narrow = keep, kn

    def used(self, v, f, ty, path):
        """arbitrary state of a context in use; f: the same part of a context not used yet"""
        if width(ty) is not None:
            if ty[1] == "bool" and isc(v) and f.op != "bot" and isc(f) and v is not f:
                return v
            x = self.symbolise(v, ty, path)
            k = fixedbits(v)
            if k:
                ps, pos, pv = [], 0, 0
                for lo, n, c in k + [(v.w, 0, 0)]:
                    if lo > pos:
                        ps.append(vg._slice(x, pos, lo - pos))
                    if n:
                        ps.append(const(c, n))
                    pos = lo + n
                return codec.M.cat_bytes(ps)
            return x
        if ty[0] == "adt" and ty[1] not in OPAQUE:
            if ty[1] == "std::option::Option":
                d = self.project(v, "#d") if v.op != "bot" else vg.BOT
                e = self.project(f, "#d") if f.op != "bot" else vg.BOT
                if isc(d) and isc(e) and d is not e and cval(d) == 1:
                    return self.some(self.symbolise(self.project(v, "Some.0"), ty[2][0], path + ("Some.0",)))
                return self.symbolise(v, ty, path)
            a = self.P.adts.get(ty[1])
            if a and a["local"] and a["kind"] == "struct":
                items = []
                for n, t in self.P.fields_of(ty):
                    items.append((n, self.used(self.project(v, n) if v.op != "bot" else v, self.project(f, n) if f.op != "bot" else f, t, path + (n,))))
                r = mk("st", (ty, None, tuple(sorted(items))))
                r.ty = ty
                return r
        return self.symbolise(v, ty, path)

    def symbolise(self, v, ty, path=(), skip=()):
        if ty[0] == "adt" and ty[1] in ("encoders::ArithmeticEncoder", "decoders::ArithmeticDecoder"):
            return self.ssym(path, ty)
        return Side.symbolise(self, v, ty, path, skip)


def bit8(v, k):
    return vg.bitop("and", v, const(1 << k, 8))


def fixedbits(v):
    """[(position, width, value)] of bits that are constant in a value that is not"""
    if v.w is None or v.w <= 1 or v.op != "cat":
        return []
    out, pos = [], 0
    for t, lo, n in vg.pieces(v):
        if t is None:
            out.append((pos, n, lo))
        pos += n
    return out


def elems(ev, v, ty):
    """(array term, element type) when v is an array or vector of NCTX elements"""
    if ty[0] == "arr" and ty[2][1] == NCTX:
        return v, ty[1]
    if ty[0] == "adt" and ty[1] == "std::vec::Vec" and v.op == "st":
        ln = ev.len_of(v)
        if isc(ln) and cval(ln) == NCTX:
            return ev.project(v, "#arr"), ty[2][0]
    return None


class LayeredPair(Pair):
    def __init__(self, prog, cty, dty, n, label="", own_channel=False, structural=(), given=None, dprog=None):
        Pair.__init__(self, prog, cty, dty, label=label, dprog=dprog)
        self.C = LSide(prog, "C", hooks=comp_hooks())
        self.D = LSide(self.PD, "D", hooks=decomp_hooks())
        self.C.prune = self.D.prune = refuted
        self.D.peer = self.C
        self.D.classes = {}
        self.C.structural |= set(structural)
        self.D.structural |= set(structural)
        self.given = given or {}
        self.n = n
        self.own = own_channel
        self.label = label

    # ------------------------------------------------------------ inputs
    def input(self, ev, ch, name="in"):
        big = self.insub if self.insub is not None and name == "in" else mk("sym", (name,), 8 * self.n)
        bs = [vg.bslice(big, 8 * i, 8) for i in range(self.n)]
        if self.own and ch is not None:
            bs[15] = vg.bitop("or", vg.bitop("and", bs[15], const(0xCF, 8)), const(ch << 4, 8))
        return bs

    def run1(self, side, name, st, args, par):
        b, e = self.method(side, TC if side is self.C else TD, name, self.cty if side is self.C else self.dty)
        e[par] = ("param", par)
        return side.run(b, args, vg.TRUE, st, e)

    def c_first(self, cs, ch, ctx):
        C = self.C
        C.events, C.raw = [], []
        st = {("S",): cs, ("B",): C.array(self.input(C, ch), ("prim", "u8")), ("X",): ctx}
        self.run1(C, "init_first_point", st, [ptr(("S",)), ptr(("E",)), ptr(("B",), self.n), ptr(("X",))], "W")
        return st

    def d_first(self, ds, ctx, ch=None, peer=True):
        D = self.D
        D.events, D.reads, D.problems = [], [], []
        D.classes = {}
        keep = D.peer
        st = {("S",): ds, ("B",): codec.inbytes(D, self.n, "out0"), ("X",): ctx}
        self.run1(D, "init_first_point", st, [ptr(("S",)), ptr(("E",)), ptr(("B",), self.n), ptr(("X",))], "R")
        D.peer = keep
        return st

    def c_step(self, cs, ch, ctx):
        C = self.C
        C.events, C.raw = [], []
        st = {("S",): cs, ("B",): C.array(self.input(C, ch), ("prim", "u8")), ("X",): ctx}
        self.run1(C, "compress_field_with", st, [ptr(("S",)), ptr(("B",), self.n), ptr(("X",))], "W")
        return st

    def d_step(self, ds, ctx):
        D = self.D
        D.events, D.reads, D.problems, D.decoded, D.ics = [], [], [], {}, {}
        g = group(self.C.events, lambda e: (e.kind, e.fam))
        D.classes = {k: [Class(x) for x in ev_class(v)] for k, v in g.items()}
        st = {("S",): ds, ("B",): codec.inbytes(D, self.n, "out0"), ("X",): ctx}
        self.run1(D, "decompress_field_with", st, [ptr(("S",)), ptr(("B",), self.n), ptr(("X",))], "R")
        return st

    # ------------------------------------------------------------- state
    def prepare(self, cargs=None, dargs=None):
        C, D = self.C, self.D
        self.cinit, self.dinit = self.construct(C, self.cty, cargs), self.construct(D, self.dty, dargs)
        self.fc, self.fd = families(C, self.cinit, self.cty), families(D, self.dinit, self.dty)
        self.pairs, self.dun, self.cun = pair_families(self.fc, self.fd)
        self.framing()
        out = {generic(f)[0] for f in self.cflags | self.dflags | self.dreq}
        fc = [x for x in self.fc if fstr(x[0]) not in {generic(f)[0] for f in self.cflags}]
        fd = [x for x in self.fd if fstr(x[0]) not in {generic(f)[0] for f in self.dflags | self.dreq}]
        self.pairs, self.dun, self.cun = pair_families(fc, fd)
        self.setmaps()
        self.afterC = {ch: self.c_first(self.cinit, ch, const(ch, 64)) for ch in range(NCTX)}
        self.afterD = {}
        for ch in range(NCTX):
            self.c_first(self.cinit, ch, const(ch, 64))
            self.afterD[ch] = self.d_first(self.dinit, const(ch, 64))
        self.curfam = {"C": self.find_cur(C, self.cinit, self.cty, self.afterC), "D": self.find_cur(D, self.dinit, self.dty, self.afterD)}

    def setmaps(self, loose=()):
        D = self.D
        D.rename = {"s." + d: "s." + c for d, c in self.pairs.items()}
        D.rename.update({"s." + d: "s.loose." + d for d in loose})
        D.rename.update({"s." + f: "s.flag." + f for f in self.dflags | {generic(f)[0] for f in self.dflags}})
        D.modelmap = dict(self.pairs)

    def find_cur(self, ev, v0, ty, after):
        """top-level index fields that hold the context in use after the first point"""
        out = []
        for n, t in ev.P.fields_of(ty):
            if t == ("prim", "usize"):
                if all(isc(ev.project(after[ch][("S",)], n)) and cval(ev.project(after[ch][("S",)], n)) == ch for ch in range(NCTX)):
                    out.append(n)
        return out

    def state(self, ev, ty, after, cur, new, fresh):
        v = after[cur][("S",)]
        items = []
        for n, t in ev.P.fields_of(ty):
            x = ev.project(v, n)
            if n in self.curfam[ev.kind]:
                r = const(cur, 64)
            elif elems(ev, x, t) is not None:
                arr, et = elems(ev, x, t)
                out = []
                for j in range(NCTX):
                    if j == new and fresh and j != cur:
                        out.append(ev.index(arr, const(j, 64)))
                    else:
                        aj = elems(ev, ev.project(after[j][("S",)], n), t)[0]
                        out.append(ev.used(ev.index(aj, const(j, 64)), ev.index(aj, const((j + 1) % NCTX, 64)), et, (n, const(j, 64))))
                a = ev.array(out, et)
                r = a if t[0] == "arr" else ev.vec(a, const(NCTX, 64), et)
            else:
                r = ev.symbolise(x, t, (n,))
            items.append((n, r))
        r = mk("st", (ty, None, tuple(sorted(items))))
        r.ty = ty
        return r

    # ----------------------------------------------------------- framing
    def framing(self):
        """sizes and layers as written and as read; fills self.layers: (encoder, decoder, C flag, D flag)"""
        C, D = self.C, self.D
        self.cflags, self.dflags, self.dreq = set(), set(), set()
        # --- writing
        ev = LSide(self.PC, "C", hooks=comp_hooks())
        ev.prune = refuted
        fcur = C.symbolise(self.cinit, self.cty)
        dones = []

        def done(e, c):
            for g, root, fam, idx in e.model_of(c.args[0]):
                dones.append((fam, band(c.pc, g), c.where, len(ev.raw)))
                p = c.args[0]
            for g, q in vg.leaves(c.args[0]):
                fam, idx = fam_of(q.args[1])
                old = e.load(c.st, q)
                new = mk("sym", (("S", q.args[1] + ("@done",), "C"),), None)
                if new.ty is None:
                    new.ty = old.ty
                e.store(c.st, q, ite(band(c.pc, g), new, old))
            return e.ok(vg.UNIT)
        ev.hooks[codec.ENC + "done"] = done
        ev.structural = C.structural
        st = {("S",): fcur}
        self.run_on(ev, TC, "write_layers_sizes", self.cty, st, [ptr(("S",)), ptr(("T",))], "W")
        raw1 = list(ev.raw)
        ev.raw = []
        n1 = len(dones)
        self.run_on(ev, TC, "write_layers", self.cty, st, [ptr(("S",)), ptr(("T",))], "W")
        raw2 = list(ev.raw)
        self.ob(len(dones) == n1, "an encoder is finished after the layer sizes were written", "framing:late done", dones[-1][2] if len(dones) > n1 else "")
        sizes = []
        for k in range(0, len(raw1) - 3, 4):
            q = raw1[k:k + 4]
            self.ob(all(x[2] is not None and x[1] is vg.TRUE for x in q), "a layer size is not always written as four bytes", "framing:size#%d" % (k // 4), q[0][3])
            sizes.append((codec.M.cat_bytes([x[2] for x in q]), q[0][3]))
        self.ob(len(raw1) % 4 == 0, "%d bytes of layer sizes" % len(raw1), "framing:sizes")
        layers = []
        for s, pc, v, w, p, ln in raw2:
            if v is not None:
                self.ob(False, "a layer is written byte by byte", "framing:layer bytes", w)
                continue
            fams = sorted({f for _, _, f, _ in ev.model_of(p)})
            enc = fams[0].split("@done")[0].split(".out_stream")[0] if len(fams) == 1 else None
            off = p.args[2] if p.op == "ptr" else None
            self.ob(off is not None and isc(off) and cval(off) == 0, "a layer is not written from its start", "framing:layer start", w)
            # the whole buffer: the length is the vector's own length
            layers.append((enc, pc, ln, w, p))
        self.ob(len(sizes) == len(layers), "%d layer sizes but %d layers are written" % (len(sizes), len(layers)), "framing:count")
        self.layers = []
        for i, ((sz, w1), (enc, pc, ln, w2, p)) in enumerate(zip(sizes, layers)):
            nm = "layer %d (%s)" % (i, enc)
            want = ite(pc, vg.trunc(ln, 32), const(0, 32))
            self.ob(provable_eq(sz, want, vg.TRUE), "the size written for %s is not the number of bytes written for it: %s, layer %s" % (nm, show(sz, 4)[:200], show(want, 4)[:200]), "framing:size of layer %d" % i, w1 + " / " + w2)
            d = vg.FALSE
            for f, g, w, k in dones:
                if f == enc:
                    d = bor(d, g)
                    self.ob(refuted(band(g, self.earlier(raw1, ln, k))), "%s is finished after its size was taken" % nm, "framing:done order %d" % i, w)
            self.ob(refuted(band(pc, bnot(d))), "%s is written without finishing its encoder" % nm, "framing:done of layer %d" % i, w2)
            self.cflags |= {f[2:] for f in codec.leafterms(pc)}
            self.layers.append([enc, None, pc, None])
        # --- reading
        ev = LSide(self.PD, "D", hooks=decomp_hooks())
        ev.prune = refuted
        ev.structural = D.structural
        log = []
        layer_hooks(ev, log)
        ev.peer = None
        st = {("S",): self.plain(D, self.dinit, self.dty)}
        self.run_on(ev, TD, "read_layers_sizes", self.dty, st, [ptr(("S",)), ptr(("T",))], "R")
        self.ob(not log, "layer data is read with the sizes", "framing:early layers")
        nread = len(ev.reads)
        self.ob(nread == 4 * len(sizes), "%d bytes of layer sizes are read, %d written" % (nread, 4 * len(sizes)), "framing:sizes read")
        pre = st[("S",)]
        self.run_on(ev, TD, "read_layers", self.dty, st, [ptr(("S",)), ptr(("T",))], "R")
        self.ob(len(ev.reads) == nread, "single bytes are read between the layers", "framing:layer reads")
        post = st[("S",)]
        raws = [codec.M.cat_bytes([mk("sym", ("raw%d" % (4 * i + b),), 8) for b in range(4)]) for i in range(len(sizes))]
        last = -1
        for x in log:
            x["i"] = None
            if x["kind"] == "init":
                continue
            for i, r in enumerate(raws):
                if provable_eq(x["n"], vg.zext(r, x["n"].w or 64), x["pc"]):
                    x["i"] = i
                    break
            self.ob(x["i"] is not None, "reads or skips %s bytes, which is not the size of a layer" % show(x["n"], 3)[:160], "framing:amount", x["where"])
        for a in range(len(log)):
            for b in range(a + 1, len(log)):
                x, y = log[a], log[b]
                if x["i"] is not None and y["i"] is not None and x["i"] > y["i"]:
                    self.ob(refuted(band(x["pc"], y["pc"])), "layer %d is read before layer %d" % (x["i"], y["i"]), "framing:order %d %d" % (y["i"], x["i"]), x["where"])
        dfl = self.boolfams(ev, pre, post)
        for i in range(len(raws)):
            nm = "layer %d" % i
            sg = [x for x in log if x["i"] == i]
            dec = sorted({x["dec"] for x in sg if x["kind"] == "load"})
            if len(dec) != 1:
                self.ob(False, "%s is loaded into %s" % (nm, dec or "no decoder"), "framing:decoder of layer %d" % i, sg[0]["where"] if sg else "")
                continue
            load = self.orpc(sg, "load")
            skip = self.orpc(sg, "skip")
            ini = vg.FALSE
            for x in log:
                if x["kind"] == "init" and x["dec"] == dec[0]:
                    ini = bor(ini, x["pc"])
                    self.ob(provable_eq(x["len"], vg.zext(raws[i], 64), x["pc"]) and provable_eq(x["pos"], const(0, 64), x["pc"]),
                            "%s: the decoder does not start on exactly the bytes of its layer" % nm, "framing:buffer %d" % i, x["where"])
            nz = bnot(vg.eq(raws[i], const(0, 32)))
            self.ob(provable_eq(band(bor(load, skip), nz), nz, vg.TRUE), "%s: its bytes are not always read or skipped" % nm, "framing:consumed %d" % i, sg[0]["where"])
            for a in range(len(sg)):
                for b in range(a):
                    self.ob(refuted(band(sg[a]["pc"], sg[b]["pc"])), "%s: its bytes are read or skipped twice" % nm, "framing:twice %d" % i, sg[a]["where"])
            self.ob(provable_eq(band(load, nz), ini, vg.TRUE), "%s: the decoder is not started exactly when its bytes are loaded" % nm, "framing:init %d" % i, sg[0]["where"])
            lz = band(load, nz)
            req = set()
            req = sorted(r[2:] for r in codec.leafterms(lz) if r.startswith("s."))
            fams = [f for f, v in dfl.items() if provable_eq(v, lz, vg.TRUE)]
            always = provable_eq(lz, nz, vg.TRUE)
            if i < len(self.layers):
                self.layers[i][1] = dec[0]
                self.layers[i][3] = fams[0] if fams else None
                self.layers[i].append(req)
                self.layers[i].append(always)
                if not (always and self.layers[i][2] is vg.TRUE):
                    self.ob(len(fams) == 1, "%s: no flag says exactly whether the layer was loaded" % nm, "framing:flag %d" % i, sg[0]["where"])
                    self.ob(len(req) == 1 or always, "%s: whether it is loaded depends on %s" % (nm, req), "framing:requested %d" % i, sg[0]["where"])
            for f in fams:
                self.dflags.add(f)
            self.dreq |= set(req)
        for x in log:
            if x["kind"] == "init":
                self.ob(any(l[1] == x["dec"] for l in self.layers), "a decoder without a layer is started", "framing:stray init", x["where"])
        for f in dfl:
            self.ob(f in self.dflags, "%s changes but is not the flag of one layer" % f, "framing:stray flag " + f)
        return self

    def plain(self, ev, v, ty, path=()):
        """arbitrary scalars, concrete decoders"""
        if ty[0] == "adt" and ty[1] in OPAQUE:
            return v
        if width(ty) is not None:
            return Side.symbolise(ev, v, ty, path)
        if ty[0] == "adt" and ty[1] == "std::vec::Vec" and v.op == "st" and isc(ev.len_of(v)):
            n = cval(ev.len_of(v))
            arr = ev.project(v, "#arr")
            return ev.vec(ev.array([self.plain(ev, ev.index(arr, const(j, 64)), ty[2][0], path + (const(j, 64),)) for j in range(n)], ty[2][0]), const(n, 64), ty[2][0])
        a = ev.P.adts.get(ty[1]) if ty[0] == "adt" else None
        if a and a["local"] and a["kind"] == "struct":
            r = mk("st", (ty, None, tuple(sorted((n, self.plain(ev, ev.project(v, n), t, path + (n,))) for n, t in ev.P.fields_of(ty)))))
            r.ty = ty
            return r
        return v

    def boolfams(self, ev, pre, post):
        """boolean families that an operation assigned: concrete family -> value"""
        out = {}
        for p, k, t, v in self.fd:
            if k != "scalar" or t[1] != "bool" or p.count("[]") > 1:
                continue
            for ks in self.expand(ev, pre, p):
                a, b = self.at(ev, pre, p, ks), self.at(ev, post, p, ks)
                if a is not b:
                    out[concrete(fstr(p), [str(x) for x in ks])] = b
        return out

    def expand(self, ev, v, p):
        if "[]" not in p:
            return [()]
        i = p.index("[]")
        x = v
        for k in p[:i]:
            x = ev.project(x, k)
        if x.op == "st":
            ln = ev.len_of(x)
            n = cval(ln) if isc(ln) else 0
        else:
            n = len(x.args[1]) if x.op == "ar" else NCTX
        return [(j,) for j in range(n)]

    def at(self, ev, v, p, ks):
        it = iter(ks)
        for k in p:
            if k == "[]":
                x = next(it)
                v = ev.index(v if v.op != "st" else ev.project(v, "#arr"), x if isinstance(x, Term) else const(x, 64))
            else:
                v = ev.project(v, k)
        return v

    def earlier(self, raw, ln, k):
        """condition under which the length was already written before event k of the done list"""
        r = vg.FALSE
        for s, pc, v, w, p, n in raw[:k]:
            if v is not None:
                a, b = codec.leafterms(v), codec.leafterms(ln)
                if set(a) & set(b):
                    r = bor(r, pc)
        return r

    def orpc(self, sg, kind):
        r = vg.FALSE
        for x in sg:
            if x["kind"] == kind:
                r = bor(r, x["pc"])
        return r

    def run_on(self, ev, trait, name, ty, st, args, par):
        b, e = self.method(ev, trait, name, ty)
        e[par] = ("param", par)
        return ev.run(b, args, vg.TRUE, st, e)


    # -------------------------------------------------------------- steps
    narrowp = ()
    insub = None

    def partitions(self):
        for cur in range(NCTX):
            for new in range(NCTX):
                for fresh in ((False,) if new == cur else (False, True)):
                    yield cur, new, fresh

    def setup_step(self, cur, new, fresh):
        self.part = (cur, new, fresh)
        cs = self.state(self.C, self.cty, {k: v for k, v in self.afterC.items()}, cur, new, fresh)
        ds = self.state(self.D, self.dty, {k: v for k, v in self.afterD.items()}, cur, new, fresh)
        return cs, ds

    def step(self, cur, new, fresh):
        """everything decoded: the decoder mirrors the encoder"""
        self.D.boolfix = {f: 1 for f in self.dflags}
        cs, ds = self.setup_step(cur, new, fresh)
        ctx = self.ctxin(new)
        cst = self.c_step(cs, new, ctx)
        dst = self.d_step(ds, ctx)
        self.cst, self.dst = cst, dst
        self.evs = sorted(set("%s %s" % (e.kind, generic(e.fam)[0]) for e in self.C.events))
        lab = "%d>%d%s" % (cur, new, " first use" if fresh else "")
        keep = self.obl, len(self.viol)
        self.check_events()
        self.check_bytes(dst, new)
        a, b = self.C.getroot(cst, ("X",)), self.D.getroot(dst, ("X",))
        self.ob(provable_eq(a, b, vg.TRUE), "the context handed on differs: %s / %s" % (show(a, 3), show(b, 3)), "context out")
        self.ob(provable_eq(vg.bslice(a, 2, 62), const(0, 62), vg.TRUE), "a context that does not exist is handed on: %s" % show(a, 3), "context range")
        self.check_after(cs, ds, cst, dst, cur, new)
        return len(self.viol) - keep[1]

    def gated(self):
        """indices of the layers that can be missing"""
        return [i for i, l in enumerate(self.layers) if l[3] is not None]

    def off_run(self, i, cur, new, fresh):
        D = self.D
        off = [self.layers[k][3] for k in (i if isinstance(i, tuple) else (i,))]
        D.boolfix = {f: 0 if f in off else 1 for f in self.dflags}
        cs, ds = self.setup_step(cur, new, fresh)
        ctx = self.ctxin(new)
        cst = self.c_step(cs, new, ctx)
        return cs, ds, cst, self.d_step(ds, ctx)

    def own_bits(self, new, out):
        """bits of the point that do not come out as they went in: [(first bit, width, value)]"""
        want = self.input(self.C, new)
        bits = []
        for b in range(self.n):
            v = self.D.index(out, const(b, 64))
            if provable_eq(want[b], v, vg.TRUE):
                continue
            for k in range(8):
                if not provable_eq(bit8(want[b], k), bit8(v, k), vg.TRUE):
                    bits.append(8 * b + k)
        return bits

    def missing(self, i, cur, new, fresh, restored=False):
        """layer i not decoded: everything else is mirrored (restored: for a point that does not change it, everything)

        returns paired state that is no longer mirrored"""
        C, D = self.C, self.D
        enc, dec = self.layers[i][0], self.layers[i][1]
        self.insub = None
        cs, ds, cst, dst = self.off_run(i, cur, new, fresh)
        out = D.getroot(dst, ("B",))
        bits = self.own_bits(new, out)
        pre = "missing %s:" % enc
        if restored:
            pre = "unchanged %s:" % enc
            after = self.flagafter(C.getroot(cst, ("S",)), self.layers[i][2])
            self.ob(provable_eq(band(self.layers[i][2], after), self.layers[i][2], vg.TRUE), "layer %s: a change that was noted is forgotten" % enc, "sticky:" + enc)
            self.insub = self.unchanged(i, new, out, bits, bnot(after))
            if self.insub is None:
                return set()
            cs, ds, cst, dst = self.off_run(i, cur, new, fresh)
            out = D.getroot(dst, ("B",))
        n0 = len(self.viol)
        bad = [e for e in D.events if e.stream.lstrip(":") == dec]
        self.ob(not bad, "layer %s is decoded although it is not loaded" % dec, pre + "decoded", bad[0].where if bad else "")
        keep = C.events
        C.events = [e for e in keep if e.stream.lstrip(":") != enc]
        k0 = len(self.viol)
        self.check_events()
        self.viol[k0:] = [(pre + a, "with layer %s missing, %s" % (enc, b), w) for a, b, w in self.viol[k0:]]
        C.events = keep
        if restored:
            want = self.input(C, new)
            for b in range(self.n):
                v = D.index(out, const(b, 64))
                self.ob(provable_eq(want[b], v, vg.TRUE), "byte %d of a point is not restored when layer %s never changes: %s" % (b, enc, show(v, 4)[:300]), pre + "byte %d" % b)
        else:
            self.ownbits = getattr(self, "ownbits", {})
            self.ownbits.setdefault(i, set()).update(bits)
        a, b = C.getroot(cst, ("X",)), D.getroot(dst, ("X",))
        self.ob(provable_eq(a, b, vg.TRUE), "the context handed on depends on layer %s" % enc, pre + "context out")
        loose = set()
        self.compare(C.getroot(cst, ("S",)), D.getroot(dst, ("S",)), lambda j: j in (cur, new), models=False, differ=loose)
        self.insub = None
        return loose

    def unchanged(self, i, new, out, bits, pc):
        """what the layer's bits are when no change is noted, as the input that says so"""
        ok = True
        parts, pos = [], 0
        big = mk("sym", ("in",), 8 * self.n)
        runs = []
        for b in bits:
            if runs and runs[-1][0] + runs[-1][1] == b:
                runs[-1][1] += 1
            else:
                runs.append([b, 1])
        o = codec.M.cat_bytes([self.D.index(out, const(b, 64)) for b in range(self.n)])
        for lo, n in runs:
            v = vg.bslice(o, lo, n)
            x = vg._slice(big, lo, n)
            at = 0
            cut = [p[2] for p in vg.pieces(v)] if v.op == "cat" else [n]
            good = True
            for m in cut:
                a, b = vg.bslice(x, at, m), vg.bslice(v, at, m)
                good = good and (provable_eq(a, b, pc) or all(provable_eq(vg.bslice(a, k, min(8, m - k)), vg.bslice(b, k, min(8, m - k)), pc) for k in range(0, m, 8)))
                at += m
            self.ob(good, "a point can change bits %d..%d of layer %s without the change being noted: %s" % (lo, lo + n, self.layers[i][0], show(v, 4)[:200]), "unnoticed:%s %d" % (self.layers[i][0], lo))
            ok = ok and good
            if lo > pos:
                parts.append(vg._slice(big, pos, lo - pos))
            parts.append(v)
            pos = lo + n
        if pos < 8 * self.n:
            parts.append(vg._slice(big, pos, 8 * self.n - pos))
        return codec.M.cat_bytes(parts) if ok else None

    def flagafter(self, cp, cond):
        """the write condition with the flags as they are after the step"""
        if cond.op != "nd":
            return cond
        t, cuts, ch = cond.args[0], cond.args[1], cond.args[2]
        if t.op != "leaf" or t.w != 1 or tuple(cuts) != (1,):
            raise Unsupported("layer written under %s" % show(cond, 4))
        v = self.at(self.C, cp, *self.where(self.C, t.args[0][2:]))
        return ite(v, self.flagafter(cp, ch[1]), self.flagafter(cp, ch[0]))

    def where(self, ev, fam):
        """(path, indices) of a concrete family string"""
        g, ks = generic(fam)
        for p, k, t, v in (self.fc if ev is self.C else self.fd):
            if fstr(p) == g:
                return p, tuple(int(x) for x in ks)
        raise Unsupported("no state " + fam)

    def first(self, ch):
        """the first point of a chunk: raw bytes written are the bytes read and prime both sides equally"""
        C, D = self.C, self.D
        self.part = ("first", ch)
        D.boolfix = {}
        ctx = self.ctxin(ch)
        cst = self.c_first(self.cinit, ch, ctx)
        dst = self.d_first(self.dinit, ctx)
        self.ob(not C.events and not D.events, "first point: coded symbols", "first:events")
        self.ob(len(C.raw) == len(D.reads), "first point: %d raw bytes written but %d read" % (len(C.raw), len(D.reads)), "first:raw")
        for s, pc, v, w, p, ln in C.raw:
            self.ob(pc is vg.TRUE and v is not None, "first point: a byte is not always written", "first:always", w)
        for k, what, where in D.problems:
            self.ob(False, "first point: " + what, "first:" + k, where)
        self.check_bytes(dst, ch, label="first:output")
        a, b = C.getroot(cst, ("X",)), D.getroot(dst, ("X",))
        self.ob(provable_eq(a, b, vg.TRUE), "first point: the context handed on differs: %s / %s" % (show(a, 3), show(b, 3)), "first:context out")
        self.ob(provable_eq(a, const(ch, 64), vg.TRUE), "first point: the context handed on is not that of the point", "first:context")
        self.compare(C.getroot(cst, ("S",)), D.getroot(dst, ("S",)), lambda j: True, "first:")
        for n in self.curfam["C"]:
            self.ob(provable_eq(C.project(C.getroot(cst, ("S",)), n), const(ch, 64), vg.TRUE), "first point: the context does not become current", "first:current")

    def compare(self, cp, dp, which, pre="", skip=(), pc=vg.TRUE, models=True, differ=None):
        """paired state of the contexts chosen by which"""
        C, D = self.C, self.D
        cm = {(fstr(p), ks): (p, k, t, j) for p, k, t, ks, j in self.slots(C, cp, cp, self.fc)}
        for p, k, t, ks, j in self.slots(D, dp, dp, self.fd):
            d = fstr(p)
            c = self.pairs.get(d)
            if c is None or d in skip or k == "coder" or (j is not None and not which(j)):
                continue
            if len(ks) == 2 and isinstance(ks[1], Term) and isc(ks[1]):
                d = concrete(d, ["", str(cval(ks[1]))])
            if (c, ks) not in cm:
                self.ob(False, "%s has no counterpart %s" % (d, c), pre + "state:" + c)
                continue
            q = cm[(c, ks)][0]
            try:
                a, b = self.at(C, cp, q, ks), self.at(D, dp, p, ks)
            except Unsupported as e:
                self.ob(False, "%s: %s" % (c, e), pre + "state:" + c)
                continue
            if k == "scalar":
                if not self.isrel(c):
                    continue
                same = provable_eq(a, b, pc)
                if differ is not None:
                    if not same:
                        differ.add(d)
                    continue
                self.ob(same, "%s differs after the point: compressor %s, decompressor %s" % (c, show(a, 4)[:300], show(b, 4)[:300]), pre + "state:" + c)
            elif models:
                self.ob(self.samemodel(a, b), "model %s differs after the point: compressor %s, decompressor %s" % (c, show(a, 4)[:200], show(b, 4)[:200]), pre + "model:" + c)

    def ctxin(self, ch):
        """context handed in: anything for the field that determines it, the point's for the others"""
        return vg._zext(mk("sym", ("ctx",), 2), 64) if self.own else const(ch, 64)

    def check_bytes(self, dst, ch, own=None, label="output"):
        want = self.input(self.C, ch)
        out = self.D.getroot(dst, ("B",))
        bad = []
        for i in range(self.n):
            v = self.D.index(out, const(i, 64))
            if own is not None and i in own:
                continue
            ok = provable_eq(want[i], v, vg.TRUE)
            if own is None:
                self.ob(ok, "decoded byte %d differs from the input byte: %s" % (i, show(v, 4)[:300]), "%s byte %d" % (label, i))
            elif not ok:
                bad.append(i)
        return bad

    def slots(self, ev, v0, post, fams):
        """concrete (family, path, ks) with the outer context index expanded"""
        for p, k, t, v in fams:
            if "[]" in p:
                i = p.index("[]")
                x = v0
                try:
                    for key in p[:i]:
                        x = ev.project(x, key)
                except Unsupported:
                    continue
                top = p[:1] == p[:i] and elems(ev, x, self.topty(ev, p[0]))
                ln = self.lens(ev, v0, p)
                syms = tuple(isym("k%d" % j, ln[j]) for j in range(len(ln)))
                if top:
                    for j in range(NCTX):
                        if len(ln) == 2 and ln[1] in ev.structural and ln[1] <= 16:
                            for m in range(ln[1]):
                                yield p, k, t, (j, const(m, 64)), j
                            continue
                        yield p, k, t, (j,) + syms[1:], j
                else:
                    yield p, k, t, syms, None
            else:
                yield p, k, t, (), None

    def lens(self, ev, v, p):
        """lengths of the arrays along a family path (None when unknown)"""
        out = []
        ty = self.cty if ev is self.C else self.dty
        for k in p:
            if k == "[]":
                n = None
                if ty is not None and ty[0] == "arr":
                    n = ty[2][1] if isinstance(ty[2], tuple) else None
                    ty = ty[1]
                elif ty is not None and ty[0] == "adt" and ty[2]:
                    try:
                        x = ev.len_of(v)
                        n = cval(x) if isc(x) else None
                    except Unsupported:
                        pass
                    ty = ty[2][0]
                out.append(n)
                try:
                    v = ev.index(v if v.op != "st" else ev.project(v, "#arr"), const(0, 64))
                except Unsupported:
                    v = vg.BOT
            else:
                try:
                    v = ev.project(v, k)
                except Unsupported:
                    v = vg.BOT
                if ty is not None and ty[0] == "adt" and ty[1] == "std::option::Option":
                    ty = ty[2][0] if k == "Some.0" else None
                elif ty is not None and ty[0] == "adt":
                    ty = dict(ev.P.fields_of(ty)).get(k)
                elif ty is not None and ty[0] == "tuple":
                    ty = ty[1][int(k)]
        return out

    def infer_narrow(self):
        """low-bit widths of integer state kept by every step of the encoder"""
        self.C.narrow, self.D.narrow = {}, {}
        nar = {}
        fams = [f for f in self.fc if f[1] == "scalar" and f[2][1] in ("u8", "u16", "u32", "u64", "usize") and f[0][-1] != "#len" and "[]" in f[0]]
        for cur, new, fresh in ((0, 0, False), (0, 1, False), (0, 1, True)):
            cs, _ = self.setup_step(cur, new, fresh)
            cst = self.c_step(cs, new, self.ctxin(new))
            post = self.C.getroot(cst, ("S",))
            init = self.C.getroot(self.afterC[new], ("S",))
            for p, k, t, ks, j in self.slots(self.C, cs, post, fams):
                if j != new:
                    continue
                try:
                    a, b, i = self.at(self.C, cs, p, ks), self.at(self.C, post, p, ks), self.at(self.C, init, p, ks)
                except Unsupported:
                    continue
                n = max(codec.highbits(b, a), codec.highbits(i, None) if i.op != "bot" else 64)
                f = "s." + fstr(p)
                nar[f] = max(nar.get(f, 0), n)
        self.narrow = {f: n for f, n in nar.items() if 0 < n < 8}
        self.C.narrow = self.D.narrow = dict(self.narrow)
        self.narrowp = [(x, self.narrow["s." + fstr(x[0])]) for x in self.fc if "s." + fstr(x[0]) in self.narrow]

    def topty(self, ev, n):
        return dict(ev.P.fields_of(self.cty if ev is self.C else self.dty))[n]

    def check_after(self, cs, ds, cst, dst, cur, new, skip=()):
        C, D = self.C, self.D
        cp, dp = C.getroot(cst, ("S",)), D.getroot(dst, ("S",))
        # contexts not concerned stay as they are, the others are in use afterwards
        for ev, pre, post, fams, nm in ((C, cs, cp, self.fc, "compressor"), (D, ds, dp, self.fd, "decompressor")):
            for p, k, t, ks, j in self.slots(ev, pre, post, fams):
                if j is None or j in (cur, new):
                    continue
                try:
                    a, b = self.at(ev, pre, p, ks), self.at(ev, post, p, ks)
                except Unsupported:
                    continue
                self.ob(a is b or (a.w is not None and b.w is not None and provable_eq(a, b, vg.TRUE)), "%s: a context that is not concerned changes (%s)" % (nm, fstr(p)), "%s untouched %s" % (nm, fstr(p)))
        self.compare(cp, dp, lambda j: j in (cur, new), skip=skip)
        for x, n in self.narrowp:
            for p, k, t, ks, j in self.slots(C, cs, cp, [x]):
                if j == new:
                    v = self.at(C, cp, p, ks)
                    self.ob(provable_eq(vg.bslice(v, n, v.w - n), const(0, v.w - n), vg.TRUE), "%s does not stay below %d" % (fstr(p), 1 << n), "bound:" + fstr(p))
        # used / unused marks
        for ev, post, after, fams, nm in ((C, cp, self.afterC, self.fc, "compressor"), (D, dp, self.afterD, self.fd, "decompressor")):
            for p, t, u in self.marks(ev, after, fams):
                v = self.at(ev, post, p, (new,))
                self.ob(v is u or provable_eq(v, u, vg.TRUE), "%s: the context of the point is not marked as used (%s)" % (nm, fstr(p)), "%s mark %s" % (nm, fstr(p)))
            for p, k, t, ks, j in self.slots(ev, after[new][("S",)], post, fams):
                if k != "scalar" or j != new or p.count("[]") != 1:
                    continue
                try:
                    fb = fixedbits(self.at(ev, after[new][("S",)], p, ks))
                    v = self.at(ev, post, p, ks) if fb else None
                except Unsupported:
                    continue
                for lo, n, c in fb:
                    self.ob(provable_eq(vg.bslice(v, lo, n), const(c, n), vg.TRUE), "%s: bits %d..%d of %s do not stay %d" % (nm, lo, lo + n, fstr(p), c), "%s bits %s" % (nm, fstr(p)))
            for n in self.curfam[ev.kind]:
                v = ev.project(post, n)
                self.ob(provable_eq(v, const(new, 64), vg.TRUE), "%s: the context of the point does not become the current one" % nm, "%s current" % nm)

    def isrel(self, c):
        return True

    def marks(self, ev, after, fams):
        """per-context constants that tell a used context from an unused one: (path, type, used value)"""
        out = []
        for p, k, t, v in fams:
            if k != "scalar" or p.count("[]") != 1:
                continue
            st = after[1][("S",)]
            if elems(ev, self.at(ev, st, p[:p.index("[]")], ()), self.topty(ev, p[0])) is None:
                continue
            try:
                a, b = self.at(ev, st, p, (1,)), self.at(ev, st, p, (2,))
            except Unsupported:
                continue
            if t[1] in ("bool",) or p[-1] == "#d":
                if isc(a) and isc(b) and a is not b:
                    out.append((p, t, a))
        return out

    def samemodel(self, a, b):
        """models are created in the same situations from the same parameters"""
        ga, gb = {}, {}
        for v, g in ((a, ga), (b, gb)):
            for c, l in vg.leaves(v):
                if l.op == "op":
                    g[l] = bor(g.get(l, vg.FALSE), c)
                elif l.op == "bot":
                    g["bot"] = bor(g.get("bot", vg.FALSE), c)
        for k in set(ga) | set(gb):
            if k == "bot":
                continue
            if not provable_eq(ga.get(k, vg.FALSE), gb.get(k, vg.FALSE), bnot(bor(ga.get("bot", vg.FALSE), gb.get("bot", vg.FALSE)))):
                return False
        return True


def isym(name, n):
    """arbitrary index below n when n is a power of two"""
    if n and n > 1 and n & (n - 1) == 0:
        return vg._zext(mk("sym", (name,), n.bit_length() - 1), 64)
    return mk("sym", (name,), 64)


def layer_hooks(ev, log):
    h = ev.hooks
    exact = h["std::io::Read::read_exact"]

    def fam1(e, c, p):
        fs = sorted({("" if r == "self" else str(r) + ":") + f for _, r, f, _ in e.model_of(p)})
        return fs[0] if len(fs) == 1 else "|".join(fs)

    def read_exact(e, c):
        n = e.slice_len(c.st, c.args[1])
        if isc(n):
            return exact(e, c)
        f = fam1(e, c, c.args[1])
        d = f.split(".in_stream")[0]
        log.append({"kind": "load" if ".in_stream" in f else "skip", "pc": c.pc, "n": n, "dec": d, "where": c.where})
        return e.ok(vg.UNIT)

    def seek(e, c):
        w = c.args[1]
        ok = mk("sym", ("seekok%d" % len(log),), 1)
        ok = vg.boolsym(ok)
        d = e.project(w, "#d")
        n = e.project(w, "Current.0")
        if not isc(d) or n.op == "bot":
            raise Unsupported("seek that is not relative")
        log.append({"kind": "skip", "pc": band(c.pc, ok), "n": n, "dec": "-", "where": c.where})
        return e.merge(ok, e.ok(mk("sym", ("pos%d" % len(log),), 64)), e.err(mk("sym", ("seekerr",), None)))

    def init(e, c):
        v = e.load(c.st, e.field_ptr(c.args[0], "in_stream"))
        log.append({"kind": "init", "pc": c.pc, "dec": fam1(e, c, c.args[0]), "where": c.where, "len": e.len_of(e.project(v, "inner")), "pos": e.project(v, "pos")})
        return e.ok(vg.UNIT)
    h["std::io::Read::read_exact"] = read_exact
    h["std::io::Seek::seek"] = seek
    h[codec.DEC + "read_init_bytes"] = init


# ------------------------------------------------------------------- jobs

def field_pairs(P):
    """[(item name, version, count, index of the field)] of the layered field coders, each type pair once per count"""
    from dispatch import Record, item, item_types
    out, seen = [], set()
    for name, d, counted in item_types(P):
        for ver in (3, 4):
            for n in ((1, 2, 5) if counted else (0,)):
                c = Record(P, "C", "lay", [item(P, name, ver, n, n)])
                r = Record(P, "D", "lay", [item(P, name, ver, n, n)])
                if not c.ok or not r.ok:
                    continue
                for i in range(min(len(c.fields), len(r.fields))):
                    key = (c.fields[i][0], r.fields[i][0], n)
                    if key not in seen:
                        seen.add(key)
                        out.append((name, ver, n, i))
    return out


def label(name, ver, n, i):
    return "%s v%d%s%s" % (name, ver, " x%d" % n if n else "", " field %d" % i if i else "")


def build(P, name, ver, n, i, PD=None, cls=None):
    """a prepared pair (of two programs, when the decoder's is another one)"""
    from dispatch import Record, item
    PD = PD or P
    c = Record(P, "C", "lay", [item(P, name, ver, n, n)])
    d = Record(PD, "D", "lay", [item(PD, name, ver, n, n)], real=("decoders::ArithmeticDecoder::<T>::new",))
    ct, cv = c.fields[i]
    dt, dv = d.fields[i]
    sz = c.field_size(i, TC)
    if not isc(sz):
        raise Unsupported("unknown field size")
    p = (cls or LayeredPair)(P, ct, dt, cval(sz), label=label(name, ver, n, i), own_channel=cval(sz) == 30, structural=(n,) if n else (), given={"C": cv, "D": dv}, dprog=PD)
    p.prepare()
    p.infer_narrow()
    return p


def fixpoint(p, i, restored, parts):
    """missing() over the partitions with the smallest set of state that needs not be mirrored; the obligations of the last round"""
    loose = set()
    v0, o0 = list(p.viol), p.obl
    while True:
        p.viol, p.obl = list(v0), o0
        p.setmaps(loose)
        new = set()
        for q in parts:
            new |= p.missing(i, *q, restored=restored)
        if new <= loose:
            p.setmaps()
            return loose
        loose |= new
