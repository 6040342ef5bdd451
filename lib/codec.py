"""Mirror analysis of a compressor / decompressor pair.

The compressor body is evaluated to gated values first; the events it emits
(symbols, bit, integer-coder calls, raw bits) become, per model, a gated value.
The decompressor body is then evaluated with every decode result bound to that
value.  Obligations: same models in the same situations with the same context,
same order, equal state afterwards and output bytes equal to the input bytes.
"""
import itertools
import re
import vg
from vg import Unsupported, mk, const, ite, band, bor, bnot, isc, cval, Term
from ev import Ev
from prog import width
import models as M
import facts as _facts

MODEL = "models::ArithmeticModel"
BITMODEL = "models::ArithmeticBitModel"
OPAQUE = {MODEL, BITMODEL, "compressors::IntegerCompressor", "decompressors::IntegerDecompressor",
          "encoders::ArithmeticEncoder", "decoders::ArithmeticDecoder"}
ENC = "encoders::ArithmeticEncoder::<T>::"
DEC = "decoders::ArithmeticDecoder::<T>::"


def show(t, d=5):
    return vg.show(t, d)


def fam_of(path):
    """(family string, index terms) of a pointer path"""
    out, idx = "", []
    for k in path:
        if isinstance(k, Term):
            if isc(k):
                out += "[%d]" % cval(k)
            else:
                out += "[]"
                idx.append(k)
        elif k == "#arr":
            continue
        else:
            out += ("." if out else "") + k
    return out, tuple(idx)


class Side(Ev):
    """evaluator whose scalar state leaves have names shared by both sides"""

    def __init__(self, prog, kind, rename=None, **kw):
        Ev.__init__(self, prog, **kw)
        self.kind = kind
        self.rename = rename or {}
        self.peer = None          # Side C when this is D
        self.raw = []             # raw (stream, pc, bytes) writes
        self.ics = {}             # fam -> [(pc, class)]
        self.problems = []
        self.decoded = {}
        self.init_state = None
        self.narrow = {}          # family -> number of possibly non-zero low bits
        self.fixed = {}           # family -> value in the analysed partition
        self.structural = set()
        self.reads = []

    # ---------------------------------------------- canonical leaf names
    def fresh(self, op, args, ty):
        w = width(ty) if ty else None
        if op == "prj" and w is not None:
            c = self.canon(args[0], args[1])
            if c is not None:
                fam, idx = c
                return self.mkleaf(fam, idx, ty)
        return Ev.fresh(self, op, args, ty)

    def canon(self, v, key):
        path = [key]
        while v.op == "prj":
            path.append(v.args[1])
            v = v.args[0]
        if v.op == "sym" and isinstance(v.args[0], tuple) and v.args[0][0] == "S":
            path.extend(reversed(v.args[0][1]))
            fam, idx = fam_of(path[::-1])
            return "s." + fam, idx
        return None

    def leafname(self, path, ty):
        fam, idx = fam_of(path)
        return self.mkleaf("s." + fam, idx, ty)

    def mkleaf(self, fam, idx, ty):
        w = width(ty)
        name = self.rename.get(fam, fam)
        if callable(name):
            name, idx = name(idx)
        fx = self.fixed.get(name)
        if fx is not None:
            return const(fx, w)
        nw = min(w, self.narrow.get(name, w))
        if nw == 0:
            return const(0, w)
        t = mk("leaf", (name,) + tuple(idx), nw)
        if t.ty is None:
            t.ty = ty
        if w == 1:
            return vg.boolsym(t)
        return vg._zext(t, w)

    def ssym(self, path, ty):
        t = mk("sym", (("S", tuple(path), self.kind),), None)
        if t.ty is None:
            t.ty = ty
        return t

    def symbolise(self, v, ty, path=(), skip=()):
        """constructor value -> arbitrary state of the same shape"""
        fam = fam_of(path)[0]
        if any(fam == s or fam.startswith(s + ".") or fam.startswith(s + "[") for s in skip):
            return v
        if width(ty) is not None:
            if isc(v) and ty[1] == "usize" and cval(v) in self.structural:
                return v
            return self.leafname(path, ty)
        if ty[0] == "arr":
            return self.ssym(path, ty)
        if ty[0] == "tuple":
            return mk("st", (ty, None, tuple((str(i), self.symbolise(self.project(v, str(i)), x, path + (str(i),), skip)) for i, x in enumerate(ty[1]))))
        if ty[0] == "adt":
            if ty[1] in OPAQUE:
                return v
            if ty[1] == "std::vec::Vec":
                arr = self.ssym(path + ("#arr",), ("slice", ty[2][0]))
                ln = self.len_of(v) if v.op != "bot" else None
                if ln is None or not isc(ln):
                    ln = self.leafname(path + ("#len",), ("prim", "usize"))
                return self.vec(arr, ln, ty[2][0])
            a = self.P.adts.get(ty[1])
            if a and a["local"] and a["kind"] == "struct":
                items = []
                for n, t in self.P.fields_of(ty):
                    items.append((n, self.symbolise(self.project(v, n) if v.op != "bot" else v, t, path + (n,), skip)))
                r = mk("st", (ty, None, tuple(sorted(items))))
                r.ty = ty
                return r
            if a and a["kind"] == "enum" and all(not x["f"] for x in a["variants"]):
                return self.ssym(path, ty)
            return self.ssym(path, ty)
        return v

    # -------------------------------------------------- model pointers
    def model_of(self, p, st=None):
        """[(guard, stream/root, family, idx)] behind a model pointer"""
        out = []
        for c, q in vg.leaves(p):
            if q.op == "bot":
                continue
            if q.op != "ptr":
                raise Unsupported("model behind %s" % show(q))
            r, path = q.args[0], q.args[1]
            path = list(path)
            if r[0] == "ref":          # symbolic reference: follow its own projection chain
                t = r[1]
                pre = []
                while t.op == "prj":
                    pre.append(t.args[1])
                    t = t.args[0]
                if t.op == "sym" and isinstance(t.args[0], tuple) and t.args[0][0] == "S":
                    path = list(t.args[0][1]) + pre[::-1] + path
                    root = "self"
                else:
                    root = show(t)
            elif r == ("S",):
                root = "self"
            else:
                root = r[1] if len(r) > 1 else r[0]
            fam, idx = fam_of(path)
            out.append((c, root, fam, idx))
        return out


def ev_class(events):
    """split same-model events into occurrence classes of disjoint guards"""
    classes = []
    for e in events:
        for cl in classes:
            if all(band(e.pc, x.pc) is vg.FALSE for x in cl):
                cl.append(e)
                break
        else:
            classes.append([e])
    return classes


class Class:
    """merged occurrence: guard, argument values and index values"""

    def __init__(self, evs):
        self.evs = evs
        self.pc = vg.FALSE
        for e in evs:
            self.pc = bor(self.pc, e.pc)
        self.args = [self._m(evs, [e.args[i] for e in evs]) for i in range(len(evs[0].args))]
        self.idx = [self._m(evs, [e.idx[i] for e in evs]) for i in range(len(evs[0].idx))]

    @staticmethod
    def _m(evs, vals):
        r = vg.BOT
        for e, v in zip(evs, vals):
            r = ite(e.pc, v, r)
        return r


def group(events, key):
    d = {}
    for e in events:
        d.setdefault(key(e), []).append(e)
    return d


from facts import refuted, witness


def provable_eq(a, b, pc):
    """pc => a == b (BOT is don't care)"""
    if a is b or pc is vg.FALSE:
        return True
    if a.op == "bot" or b.op == "bot":
        return True
    try:
        e = vg.eq(a, b)
    except Unsupported:
        return False
    return refuted(band(pc, bnot(e)))


# ------------------------------------------------------------------ hooks

def _emit(side, c, kind, mp, args, stream):
    if mp is None:
        side.emit(kind, "-", (), args, c.pc, c.where, stream)
        return
    for g, root, fam, idx in side.model_of(mp):
        if root != "self":
            fam = "%s:%s" % (root, fam)
        side.emit(kind, fam, idx, args, band(c.pc, g), c.where, stream)


def through(side, p, st):
    """a stream reached through references to references"""
    for _ in range(6):
        if p.op != "ptr" or p.args[2] is not None:
            return p
        r, path = p.args[0], p.args[1]
        if r not in st:
            return p
        try:
            v = side.load(st, p)
        except Unsupported:
            return p
        if v.op != "ptr":
            return p
        p = v
    return p


def stream_of(side, p, st=None):
    if st is not None:
        p = through(side, p, st)
    fams = [(root, fam, idx) for _, root, fam, idx in side.model_of(p)]
    f = sorted(set((str(r) if r != "self" else "") + ":" + fm for r, fm, _ in fams))
    return "|".join(f)


def comp_hooks():
    h = {}

    def symbol(ev, c):
        _emit(ev, c, "sym", c.args[1], [c.args[2]], stream_of(ev, c.args[0], c.st))
        return ev.ok(vg.UNIT)

    def bit(ev, c):
        _emit(ev, c, "bit", c.args[1], [c.args[2]], stream_of(ev, c.args[0], c.st))
        return ev.ok(vg.UNIT)

    def ic(ev, c):
        _emit(ev, c, "ic", c.args[0], [c.args[3], c.args[2], c.args[4]], stream_of(ev, c.args[1], c.st))
        return ev.ok(vg.UNIT)

    def raw(n):
        def f(ev, c):
            if n is None:
                _emit(ev, c, "raw", None, [c.args[2], c.args[1]], stream_of(ev, c.args[0], c.st))
            else:
                _emit(ev, c, "raw", None, [c.args[1], const(n, 32)], stream_of(ev, c.args[0], c.st))
            return ev.ok(vg.UNIT)
        return f

    h[ENC + "encode_symbol"] = symbol
    h[ENC + "encode_bit"] = bit
    h["compressors::IntegerCompressor::compress"] = ic
    h["compressors::IntegerCompressor::k"] = kfun
    for nm, n in (("write_bit", 1), ("write_bits", None), ("write_byte", 8), ("write_short", 16), ("write_int", 32), ("write_int64", 64)):
        h[ENC + nm] = raw(n)
    common_hooks(h)
    return h


def kfun(ev, c):
    v = vg.BOT
    for g, root, fam, idx in ev.model_of(c.args[0]):
        key = ev.pairname(fam)
        r = mk("op", ("k0", key) + tuple(idx), 32)
        for j, cl in enumerate(ev_class([e for e in ev.events if e.kind == "ic" and e.fam == fam])):
            pc = vg.FALSE
            for e in cl:
                pc = bor(pc, e.pc)
            r = ite(pc, mk("op", ("k", key, j), 32), r)
        v = ite(g, r, v)
    return v


def pairname(self, fam):
    return self.modelmap.get(fam, fam)


Side.pairname = pairname
Side.modelmap = {}


def builder_hooks(h):
    def mbuild(ev, c):
        b = ev.load(c.st, c.args[0])
        n = ev.project(b, "symbols") if b.op == "st" else None
        t = mk("op", ("model", n), None)
        t.ty = c.dty
        return t
    h["models::ArithmeticModelBuilder::<'a>::build"] = mbuild

    def bnew(ev, c):
        t = mk("op", ("bitmodel",), None)
        t.ty = c.dty
        return t
    h["models::ArithmeticBitModel::new"] = bnew
    h["<models::ArithmeticBitModel as std::default::Default>::default"] = bnew

    def icnew(init):
        def f(ev, c):
            b = ev.load(c.st, c.args[0])
            t = mk("op", ("ic", ev.project(b, "bits"), ev.project(b, "contexts"), ev.project(b, "bits_high"), ev.project(b, "range"), init), None)
            t.ty = c.dty
            return t
        return f
    for p in ("compressors::IntegerCompressor", "decompressors::IntegerDecompressor"):
        h[p + "Builder::build"] = icnew(0)
        h[p + "Builder::build_initialized"] = icnew(1)

        def icinit(ev, c):
            v = ev.load(c.st, c.args[0])
            if v.op == "op" and v.args[0] == "ic":
                t = mk("op", v.args[:-1] + (1,), None)
                t.ty = v.ty
                ev.store(c.st, c.args[0], t)
            return vg.UNIT
        h[p + "::init"] = icinit
        h[p + "::new"] = lambda ev, c: _ty(mk("op", ("ic",) + tuple(c.args) + (0,), None), c.dty)
    h["encoders::ArithmeticEncoder::<T>::new"] = lambda ev, c: _ty(mk("op", ("encoder", c.args[0]), None), c.dty)
    h["decoders::ArithmeticDecoder::<T>::new"] = lambda ev, c: _ty(mk("op", ("decoder", c.args[0]), None), c.dty)
    return h


def _ty(t, ty):
    if t.ty is None:
        t.ty = ty
    return t


def big(c):
    """the call's byte order argument is big endian"""
    return any(isinstance(t, tuple) and t[0] == "adt" and t[1].endswith("BigEndian") for t in (c.targs or ()))


def common_hooks(h):
    builder_hooks(h)

    def write_all(ev, c):
        n = ev.slice_len(c.st, c.args[1])
        if not isc(n):
            ev.raw.append((stream_of(ev, c.args[0], c.st), c.pc, None, c.where, c.args[1], n))
            return ev.ok(vg.UNIT)
        for i in range(cval(n)):
            ev.raw.append((stream_of(ev, c.args[0], c.st), c.pc, ev.load(c.st, ev.elem_ptr(c.args[1], const(i, 64))), c.where, None, None))
        return ev.ok(vg.UNIT)
    h["std::io::Write::write_all"] = write_all
    for nm, n in (("write_u8", 8), ("write_i8", 8), ("write_u16", 16), ("write_i16", 16), ("write_u32", 32), ("write_i32", 32), ("write_u64", 64), ("write_i64", 64), ("write_f32", 32), ("write_f64", 64)):
        def w(ev, c, n=n):
            for i in (reversed(range(n // 8)) if big(c) else range(n // 8)):
                ev.raw.append((stream_of(ev, c.args[0], c.st), c.pc, vg.bslice(c.args[1], 8 * i, 8), c.where, None, None))
            return ev.ok(vg.UNIT)
        h["byteorder::WriteBytesExt::" + nm] = w

    def take(ev, c):
        if ev.peer is None or ev.peer.raw is None:
            ev.reads.append((c.pc, c.where))
            return mk("sym", ("raw%d" % (len(ev.reads) - 1),), 8)
        k = len(ev.reads)
        ev.reads.append((c.pc, c.where))
        if k >= len(ev.peer.raw):
            ev.problems.append(("raw", "reads more raw bytes than were written", c.where))
            return mk("sym", ("rawmissing%d" % k,), 8)
        s, pc, v, w, _, _ = ev.peer.raw[k]
        if v is None:
            raise Unsupported("raw write of unknown length")
        return v

    def read_exact(ev, c):
        n = ev.slice_len(c.st, c.args[1])
        if not isc(n):
            raise Unsupported("read of unknown length")
        for i in range(cval(n)):
            ev.store(c.st, ev.elem_ptr(c.args[1], const(i, 64)), take(ev, c))
        return ev.ok(vg.UNIT)
    h["std::io::Read::read_exact"] = read_exact
    for nm, n in (("read_u8", 8), ("read_i8", 8), ("read_u16", 16), ("read_i16", 16), ("read_u32", 32), ("read_i32", 32), ("read_u64", 64), ("read_i64", 64), ("read_f32", 32), ("read_f64", 64)):
        def r(ev, c, n=n):
            bs = [take(ev, c) for _ in range(n // 8)]
            return ev.ok(M.cat_bytes(bs[::-1] if big(c) else bs))
        h["byteorder::ReadBytesExt::" + nm] = r


def decomp_hooks():
    h = {}

    def bind(ev, c, kind, mp, given, stream, w):
        """value decoded at this site"""
        res = vg.BOT
        if mp is None:
            tg = [(vg.TRUE, "self", "-", ())]
        else:
            tg = ev.model_of(mp)
        for g, root, fam, idx in tg:
            pc = band(c.pc, g)
            if pc is vg.FALSE:
                continue
            key = (kind, ev.pairname(fam))
            cls = ev.classes.get(key, [])
            mine = [e for e in ev.events if (e.kind, e.fam) == (kind, fam)]
            e = ev.emit(kind, fam, idx, [None] + given, pc, c.where, stream)
            # occurrence class of this decode
            n = 0
            mycl = ev_class(mine + [e])
            for j, cl in enumerate(mycl):
                if e in cl:
                    n = j
            if n < len(cls):
                v = cls[n].args[0]
                e.res = v
                e.args = (v,) + tuple(given)
            else:
                ev.problems.append(("extra", "decodes %s from %s although the compressor never encodes it there" % (kind, fam), c.where))
                v = mk("sym", ("undecoded", kind, fam, n), w)
                e.args = (v,) + tuple(given)
            res = ite(g, v, res)
        return res

    def symbol(ev, c):
        return ev.ok(bind(ev, c, "sym", c.args[1], [], stream_of(ev, c.args[0], c.st), 32))

    def bit(ev, c):
        return ev.ok(bind(ev, c, "bit", c.args[1], [], stream_of(ev, c.args[0], c.st), 32))

    def ic(ev, c):
        return ev.ok(bind(ev, c, "ic", c.args[0], [c.args[2], c.args[3]], stream_of(ev, c.args[1], c.st), 32))

    def raw(n):
        def f(ev, c):
            k = const(n, 32) if n is not None else c.args[1]
            w = 64 if n == 64 else 32
            v = bind(ev, c, "raw", None, [k], stream_of(ev, c.args[0], c.st), w)
            wd = width(c.dty[2][0]) if c.dty and c.dty[0] == "adt" else w
            v = vg.apply_n(("fit", wd), lambda x: x if x.w == wd else (vg._slice(x, 0, wd) if x.w > wd else vg._zext(x, wd)), (v,))
            return ev.ok(v)
        return f
    h[DEC + "decode_symbol"] = symbol
    h[DEC + "decode_bit"] = bit
    h["decompressors::IntegerDecompressor::decompress"] = ic
    h["decompressors::IntegerDecompressor::k"] = kfun
    for nm, n in (("read_bit", 1), ("read_bits", None), ("read_byte", 8), ("read_short", 16), ("read_int", 32), ("read_int_64", 64)):
        h[DEC + nm] = raw(n)
    common_hooks(h)
    return h


# ------------------------------------------------------------- families

def families(ev, v, ty, path=(), out=None, depth=0):
    """[(path, kind, type, constructor value)] leaves of a state; arrays once, with a generic index"""
    if out is None:
        out = []
    if depth > 12:
        return out
    if ty is None:
        return out
    if width(ty) is not None:
        out.append((path, "scalar", ty, v))
    elif ty[0] == "arr" or (ty[0] == "adt" and ty[1] in ("std::vec::Vec",)):
        if ty[0] == "arr":
            et, n = ty[1], ty[2][1]
            arr = v
        else:
            et = ty[2][0]
            n = None
            arr = v
            if v is not None and v.op == "st":
                ln = ev.len_of(v)
                n = cval(ln) if isc(ln) else None
                arr = ev.project(v, "#arr")
            out.append((path + ("#len",), "scalar", ("prim", "usize"), ev.len_of(v) if v is not None and v.op in ("st", "sym", "prj") else None))
        e0 = None
        if v is not None and n:
            try:
                e0 = ev.index(arr, const(0, 64))
            except Unsupported:
                e0 = None
        families(ev, e0, et, path + ("[]",), out, depth + 1)
    elif ty[0] == "tuple":
        for i, t in enumerate(ty[1]):
            families(ev, None if v is None else ev.project(v, str(i)), t, path + (str(i),), out, depth + 1)
    elif ty[0] == "adt":
        if ty[1] in OPAQUE:
            out.append((path, {"ArithmeticModel": "model", "ArithmeticBitModel": "bitmodel", "IntegerCompressor": "ic", "IntegerDecompressor": "ic",
                               "ArithmeticEncoder": "coder", "ArithmeticDecoder": "coder"}[ty[1].split("::")[-1]], ty, v))
            return out
        a = ev.P.adts.get(ty[1])
        if ty[1] == "std::option::Option":
            out.append((path + ("#d",), "scalar", ("prim", "u64"), None if v is None or v.op == "bot" else ev.project(v, "#d")))
            x = None
            if v is not None and v.op == "st":
                x = ev.project(v, "Some.0")
                if x.op == "bot":
                    x = None
            families(ev, x, ty[2][0], path + ("Some.0",), out, depth + 1)
        elif a and a["local"] and a["kind"] == "struct":
            for n, t in ev.P.fields_of(ty):
                x = None
                if v is not None and v.op != "bot":
                    try:
                        x = ev.project(v, n)
                    except Unsupported:
                        x = None
                families(ev, x, t, path + (n,), out, depth + 1)
        elif a and a["kind"] == "enum" and all(not x["f"] for x in a["variants"]):
            out.append((path + ("#d",), "scalar", ("prim", "u64"), None if v is None or v.op == "bot" else ev.project(v, "#d")))
    return out


def fstr(path):
    s = ""
    for k in path:
        if k == "#arr":
            continue
        if k == "[]":
            s += "[]"
        else:
            s += ("." if s else "") + k
    return s


def normname(f):
    f = re.sub(r"\bSome\.0\b", "", f)
    f = re.sub(r"\bmodels?\b", "", f)
    f = re.sub(r"(^|[._])i(d?)c_", r"\1ic_", f)
    f = re.sub(r"(de)?compressors?", "X", f)
    f = re.sub(r"(en|de)coders?", "Y", f)
    f = re.sub(r"\.+", ".", f).strip(".")
    return f


def tykey(kind, ty):
    return (kind, ty) if kind == "scalar" else (kind,)


def pair_families(fc, fd):
    """decompressor family -> compressor family"""
    C = {fstr(p): (k, t) for p, k, t, v in fc}
    D = {fstr(p): (k, t) for p, k, t, v in fd}
    res = {}
    usedC = set()

    def tryset(d, cs):
        cs = [c for c in cs if c not in usedC and C[c][0] == D[d][0] and (C[c][0] != "scalar" or C[c][1] == D[d][1]) and c.count("[]") == d.count("[]")]
        if len(cs) == 1:
            res[d] = cs[0]
            usedC.add(cs[0])
            return True
        return False

    for d in D:
        tryset(d, [d] if d in C else [])
    for d in D:
        if d not in res:
            tryset(d, [c for c in C if normname(c) == normname(d)])
    # longest common name suffix
    todo = [d for d in D if d not in res]

    def suff(a, b):
        x, y = re.split(r"\.|\[\]", normname(a))[::-1], re.split(r"\.|\[\]", normname(b))[::-1]
        n = 0
        for p, q in zip(x, y):
            if p != q:
                break
            n += 1
        return n
    cand = []
    for d in todo:
        for c in C:
            if c in usedC or C[c][0] != D[d][0] or (C[c][0] == "scalar" and C[c][1] != D[d][1]) or c.count("[]") != d.count("[]"):
                continue
            n = suff(c, d)
            if n:
                cand.append((-n, todo.index(d), d, c))
    for n, _, d, c in sorted(cand):
        if d in res or c in usedC:
            continue
        res[d] = c
        usedC.add(c)
    return res, [d for d in D if d not in res], [c for c in C if c not in usedC]


def ptr(root, n=None):
    return mk("ptr", (root, (), const(0, 64) if n is not None else None, const(n, 64) if n is not None else None))


def inbytes(ev, n, name="in"):
    big = mk("sym", (name,), 8 * n)
    return ev.array([vg._slice(big, 8 * i, 8) for i in range(n)], ("prim", "u8"))


class Pair:
    """one compressor/decompressor pair under analysis"""

    def __init__(self, prog, cty, dty, ctor_args=None, label="", dprog=None):
        self.PC, self.PD = prog, dprog or prog      # the program of each side
        self.cty, self.dty = cty, dty
        self.label = label
        self.given = {}           # constructed values, when the caller has them
        self.viol = []
        self.obl = 0
        self.C = Side(prog, "C", hooks=comp_hooks())
        self.D = Side(self.PD, "D", hooks=decomp_hooks())
        self.C.prune = self.D.prune = refuted
        self.D.peer = self.C
        self.D.classes = {}

    def construct(self, side, ty, args):
        P = side.P
        pre = self.given.get(side.kind)
        if pre is not None:
            return pre
        st = {}
        hit = P.find_impl("std::default::Default", "default", ty)
        env = {}
        if args is None and hit:
            v, _ = side.run(hit[0], [], vg.TRUE, st, dict(hit[1]))
        else:
            # inherent constructor taking the given arguments
            bid, env = self.ctor(P, ty)
            v, _ = side.run(bid, args or [], vg.TRUE, st, env)
        self.ctor_state = st
        return v

    def ctor(self, P, ty):
        for b in P.bodies.values():
            if b.get("impl_self") is not None and b.get("impl_trait") is None and b["name"] == "new":
                env = {}
                if P.unify(P.rty(b["impl_self"]), ty, env):
                    return b["id"], env
        raise Unsupported("no constructor of %s" % P.tstr(ty))

    def ob(self, ok, what, key, where=""):
        self.obl += 1
        if not ok:
            self.viol.append((key, what, where))
            self.wit = getattr(self, "wit", {})
            self.wit[key] = witness()
        return ok

    def method(self, ev, trait, name, ty):
        hit = ev.P.find_impl(trait, name, ty)
        if not hit:
            raise Unsupported("no %s::%s for %s" % (trait, name, ev.P.tstr(ty)))
        return hit[0], dict(hit[1])

    # --- the standard per-point comparison
    def setup(self, cargs=None, dargs=None, skip=()):
        C, D = self.C, self.D
        cv = self.construct(C, self.cty, cargs)
        dv = self.construct(D, self.dty, dargs)
        self.cinit, self.dinit = cv, dv
        fc = families(C, cv, self.cty)
        fd = families(D, dv, self.dty)
        self.fc, self.fd = fc, fd
        self.pairs, self.dun, self.cun = pair_families(fc, fd)
        D.rename = {"s." + d: "s." + c for d, c in self.pairs.items()}
        D.modelmap = {d: c for d, c in self.pairs.items()}
        cs = C.symbolise(cv, self.cty, skip=skip)
        ds = D.symbolise(dv, self.dty, skip=skip)
        return cs, ds

    def check_init(self):
        """same initial model shapes and scalar state"""
        dc = {fstr(p): (k, t, v) for p, k, t, v in self.fc}
        dd = {fstr(p): (k, t, v) for p, k, t, v in self.fd}
        for d, c in sorted(self.pairs.items()):
            kc, tc, vc = dc[c]
            kd, td, vd = dd[d]
            if kc == "coder" or vc is None or vd is None:
                continue
            self.ob(vc is vd, "initial %s: compressor %s, decompressor %s" % (c, show(vc), show(vd)), "init:" + c)

    def check_events(self, gate=None, pc=vg.TRUE):
        """gate: stream read from -> condition under which it is available"""
        C, D = self.C, self.D
        gc = group(C.events, lambda e: (e.kind, e.fam))
        gd = group(D.events, lambda e: (e.kind, D.pairname(e.fam)))
        seq = []
        for key in sorted(set(gc) | set(gd), key=str):
            cc = [Class(x) for x in ev_class(gc.get(key, []))]
            dd = [Class(x) for x in ev_class(gd.get(key, []))]
            name = "%s %s" % key
            if len(cc) != len(dd):
                self.ob(False, "%s is coded %d time(s) but decoded %d time(s) per point" % (name, len(cc), len(dd)), "count:" + name,
                        (gc.get(key) or gd.get(key))[0].where)
                continue
            for j, (x, y) in enumerate(zip(cc, dd)):
                nm = "%s#%d" % (name, j)
                w = "%s / %s" % (x.evs[0].where, y.evs[0].where)
                xp = x.pc
                if gate is not None:
                    xp = band(x.pc, gate(sorted(set(e.stream for e in y.evs))))
                self.ob(provable_eq(xp, y.pc, pc), "%s is coded and decoded under different conditions" % nm, "guard:" + nm, w)
                xp = band(xp, pc)
                for i, (a, b) in enumerate(zip(x.args, y.args)):
                    lab = {"ic": ["value", "prediction", "context"], "raw": ["value", "width"]}.get(key[0], ["value", "?"])[i]
                    if i == 0:
                        continue
                    self.ob(provable_eq(a, b, xp), "%s uses a different %s on the two sides: %s vs %s" % (nm, lab, show(a, 3)[:160], show(b, 3)[:160]), "%s:%s" % (lab, nm), w)
                if len(x.idx) != len(y.idx):
                    self.ob(False, "%s is selected by a different number of indices" % nm, "index:" + nm, w)
                for a, b in zip(x.idx, y.idx):
                    self.ob(provable_eq(a, b, xp), "%s selects a different model instance: %s vs %s" % (nm, show(a, 3)[:160], show(b, 3)[:160]), "index:" + nm, w)
                sc = sorted(set(e.stream for e in x.evs))
                sd = sorted(set(e.stream for e in y.evs))
                seq.append((nm, x, y, sc, sd))
        # stream pairing and order
        smap = {}
        for nm, x, y, sc, sd in seq:
            if len(sc) != 1 or len(sd) != 1:
                self.ob(False, "%s is written to %s and read from %s" % (nm, sc, sd), "stream:" + nm, x.evs[0].where)
                continue
            a, b = sc[0], sd[0]
            k = smap.setdefault(("c", a), b)
            k2 = smap.setdefault(("d", b), a)
            pn = D.modelmap.get(b.lstrip(":"), None)
            self.ob(k == b and k2 == a and (pn is None or pn == a.lstrip(":")), "%s is written to stream %s but read from %s" % (nm, a, b), "stream:" + nm, x.evs[0].where + " / " + y.evs[0].where)
        for i in range(len(seq)):
            for j in range(i + 1, len(seq)):
                a, b = seq[i], seq[j]
                if a[3] != b[3]:
                    continue
                if band(a[1].pc, b[1].pc) is vg.FALSE or gate is not None:
                    continue
                b1, a1 = pair_order(a[1], b[1])
                b2, a2 = pair_order(a[2], b[2])
                self.ob(refuted(bor(band(b1, a2), band(a1, b2))), "%s and %s are coded and decoded in a different order" % (a[0], b[0]), "order:%s/%s" % (a[0], b[0]), a[1].evs[0].where)
        for k, what, where in D.problems:
            self.ob(False, what, k + ":" + what.split(" although")[0], where)

    def check_output(self, st, n, inname="in", pc=None, label="output"):
        D = self.D
        big = mk("sym", (inname,), 8 * n)
        out = D.getroot(st, ("B",))
        for i in range(n):
            v = D.index(out, const(i, 64))
            self.ob(provable_eq(vg._slice(big, 8 * i, 8), v, pc or vg.TRUE), "decoded byte %d differs from the input byte: %s" % (i, show(v, 4)[:300]), "%s byte %d" % (label, i))

    def check_state(self, cst, dst, pc=None, only=None, ignore=(), label="state", rel=None):
        """paired scalar families are equal after the point"""
        C, D = self.C, self.D
        cs, ds = C.getroot(cst, ("S",)), D.getroot(dst, ("S",))
        dc = {fstr(p): p for p, k, t, v in self.fc if k == "scalar"}
        dd = {fstr(p): p for p, k, t, v in self.fd if k == "scalar"}
        if rel is None:
            rel = self.relevant(cs, ds, dc, dd)
        self.rel = rel
        for d, c in sorted(self.pairs.items()):
            if c not in dc or d not in dd or "s." + c not in rel:
                continue
            if any(c == x or c.startswith(x) for x in ignore):
                continue
            try:
                a = self.leaf(C, cs, dc[c])
                b = self.leaf(D, ds, dd[d])
            except Unsupported as e:
                self.ob(False, label + " %s: %s" % (c, e), label + ":" + c)
                continue
            g = pc or vg.TRUE
            ok = provable_eq(a, b, g)
            self.ob(ok, label + " %s differs after the point: compressor %s, decompressor %s" % (c, show(a, 4)[:300], show(b, 4)[:300]), label + ":" + c)

    def relevant(self, cs, ds, dc, dd):
        """state families whose earlier value can influence what is coded, decoded or kept"""
        base = set()
        for e in self.C.events + self.D.events:
            for t in list(e.args) + list(e.idx) + [e.pc]:
                if isinstance(t, Term):
                    leafnames(t, base)
        if self.dst is not None:
            leafnames(self.D.getroot(self.dst, ("B",)), base)
        post = {}
        for ev, v, m, nm in ((self.C, cs, dc, lambda f: f), (self.D, ds, dd, lambda f: self.pairs.get(f))):
            for f, q in m.items():
                n = nm(f)
                if n is None:
                    continue
                try:
                    t = self.leaf(ev, v, q)
                except Unsupported:
                    base.add("s." + n)
                    continue
                pre = ev.mkleaf("s." + f, tuple(mk("sym", ("k%d" % i,), 64) for i in range(f.count("[]"))), ("prim", "u64"))
                s = set()
                leafnames(t, s, pre)
                post.setdefault("s." + n, set()).update(s)
        rel = set(base)
        todo = list(base)
        while todo:
            f = todo.pop()
            for g in post.get(f, ()):
                if g not in rel:
                    rel.add(g)
                    todo.append(g)
        return rel

    def leaf(self, ev, v, path):
        n = 0
        for k in path:
            if k == "[]":
                ik = mk("sym", ("k%d" % n,), 64)
                n += 1
                v = ev.index(v, ik)
            else:
                v = ev.project(v, k)
        return v


def leafnames(t, out, skip=None, seen=None):
    """names of the state leaves occurring in a term"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "leaf":
            nm = x.args[0]
            out.add(re.sub(r"\[\d+\]", "[]", nm))
        st.extend(x.args)
    return out


def pair_order(x, y):
    """(condition under which x comes before y, condition under which it comes after)"""
    before, after = vg.FALSE, vg.FALSE
    for a in x.evs:
        for b in y.evs:
            c = band(a.pc, b.pc)
            if c is vg.FALSE:
                continue
            if a.order < b.order:
                before = bor(before, c)
            else:
                after = bor(after, c)
    return before, after


def highbits(v, pre):
    """number of low bits of v that may be non-zero, ignoring leaves equal to the pre-state value"""
    n = 0
    for l in vg.leafset(v):
        if l.op == "bot" or l is pre:
            continue
        if l.w is None:
            return 0
        ps = vg.pieces(l)
        w = l.w
        if ps[-1][0] is None:
            w = w - ps[-1][2] + ps[-1][1].bit_length()
        n = max(n, w)
    return n


def infer_narrow(p, run, prefix=""):
    """inductive low-bit widths of the integer state families of the compressor"""
    C = p.C
    fc = {fstr(q): (q, t, v) for q, k, t, v in p.fc if k == "scalar" and t[1] in ("u8", "u16", "u32", "u64", "usize") and q[-1] != "#len"}
    pre, post = run()
    nar = {}
    for f, (q, t, v) in fc.items():
        try:
            a = p.leaf(C, pre, q)
            b = p.leaf(C, post, q)
        except Unsupported:
            continue
        if v is not None:
            init = highbits(v, None)
        else:
            init = 0
        n = max(init, highbits(b, a))
        if n < width(t):
            nar["s." + f] = n
    return nar


def storeidx(v, out):
    """index terms at which an array value has been updated"""
    st, seen = [v], set()
    while st:
        x = st.pop()
        if x is None or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sto":
            for l in vg.leafset(x.args[1]):
                out[l.id] = l
            st.append(x.args[0])
        elif x.op == "ar":
            st.append(x.args[0])
        elif x.op == "nd":
            st.extend(x.args[2])
    return out


def stateonly(t):
    """the term is computed from state leaves alone, and from at least one"""
    n = [0]
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "leaf" and x.args[0].startswith("s.") and len(x.args) == 1:
            n[0] += 1
            continue
        if x.op in ("sym", "leaf", "prj"):
            return False
        if x.op == "op" and x.args[0] not in ("tab", "and", "or", "xor", "mul", "shl", "shr"):
            return False
        st.extend(x.args)
    return n[0] > 0


class Inv:
    """scalar family X always equals element L (a function of scalar state) of array family A"""

    def __init__(self, X, A, L):
        self.X, self.A, self.L = X, A, L

    def __str__(self):
        return "%s == %s[%s]" % (fstr(self.X), fstr(self.A), show(self.L, 4))


def getpath(ev, v, path):
    for k in path:
        v = ev.project(v, k) if k == "#arr" or not isinstance(k, str) or k != "[]" else v
    return v


def apply_leaves(ev, L, leaves, post):
    """L with the pre-state leaves replaced by the (gated) values of a later state"""
    names = sorted(leaves)
    vals = [post[n] for n in names]

    def f(*vs):
        m = _facts.Map()
        for n, v in zip(names, vs):
            t = leaves[n]
            m.add(t, vg._slice(v, 0, t.w) if v.w != t.w else v)
        return _facts.subst(L, m, {})
    return vg.apply_n(("inv", L.id, tuple(names)), f, vals)


def leafterms(t):
    out = {}
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "leaf":
            out[x.args[0]] = x
        st.extend(x.args)
    return out


class PointPair(Pair):
    """first point and following points of a sequential field codec"""

    trait_c, trait_d = "record::FieldCompressor", "record::FieldDecompressor"

    def prepare(self, cargs, dargs):
        ca, da = cargs and cargs(self.C), dargs and dargs(self.D)
        for x in (ca or []):
            if isc(x):
                self.C.structural.add(cval(x))
                self.D.structural.add(cval(x))
        self.ca, self.da = ca, da
        return self.setup(ca, da)

    def c_run(self, name, cs):
        C, n = self.C, self.n
        b, e = self.method(C, self.trait_c, name, self.cty)
        e["W"] = ("param", "W")
        C.events, C.raw = [], []
        st = {("S",): cs, ("B",): inbytes(C, n)}
        C.run(b, [ptr(("S",)), ptr(("E",)), ptr(("B",), n)], vg.TRUE, st, e)
        return st

    def d_run(self, name, ds):
        D, n = self.D, self.n
        D.events, D.reads, D.problems, D.decoded, D.ics = [], [], [], {}, {}
        g = group(self.C.events, lambda e: (e.kind, e.fam))
        D.classes = {k: [Class(x) for x in ev_class(v)] for k, v in g.items()}
        b, e = self.method(D, self.trait_d, name, self.dty)
        e["R"] = ("param", "R")
        st = {("S",): ds, ("B",): inbytes(D, n, "out0")}
        D.run(b, [ptr(("S",)), ptr(("E",)), ptr(("B",), n)], vg.TRUE, st, e)
        return st

    def analyse(self, n, cargs=None, dargs=None):
        self.n = n
        cs, ds = self.prepare(cargs, dargs)
        self.check_init()
        n1 = infer_narrow(self, lambda: (cs, self.C.getroot(self.c_run("compress_with", cs), ("S",))))
        n2 = infer_narrow(self, lambda: (cs, self.C.getroot(self.c_run("compress_first", cs), ("S",))))
        self.narrow = self.C.narrow = self.D.narrow = {f: max(n1[f], n2[f]) for f in n1 if f in n2}
        small = [f for f, k in sorted(self.narrow.items()) if 0 < k <= 2 and f in self.idxfams()]
        self.parts = 0
        for vals in itertools.product(*[range(1 << self.narrow[f]) for f in small]):
            self.C.fixed = self.D.fixed = dict(zip(small, vals))
            self.partition()
            self.parts += 1
        self.C.fixed = self.D.fixed = {}
        self.first()
        return self

    def idxfams(self):
        """scalar families used to index the state"""
        return {"s." + fstr(q) for q, k, t, v in self.fc if k == "scalar" and t[1] == "usize" and q[-1] != "#len"}

    def partition(self):
        cs, ds = self.setup(self.ca, self.da)
        keep = list(self.viol), self.obl
        self.invs = []
        self.step(cs, ds)
        bad = [v for v in self.viol if v not in keep[0]]
        if bad:
            invs = self.discover(cs, ds)
            if invs:
                self.invs = invs
                self.viol, self.obl = list(keep[0]), keep[1]
                d2 = ds
                for iv in invs:
                    d2 = self.D.setpath(d2, iv.X, self.D.index(self.D.readpath_v(d2, iv.A), iv.L))
                self.step(cs, d2)

    def step(self, cs, ds):
        self.viol0 = len(self.viol)
        self.cst = self.c_run("compress_with", cs)
        cev = self.C.events
        self.dst = self.d_run("decompress_with", ds)
        self.check_events()
        self.check_output(self.dst, self.n)
        self.check_state(self.cst, self.dst)
        self.step_events = (cev, self.D.events)

    def first(self):
        """the first point is stored raw and primes both sides equally"""
        cst = self.c_run("compress_first", self.cinit)
        dst = self.d_run("decompress_first", self.dinit)
        D = self.D
        self.ob(not self.C.events and not D.events or len(self.C.events) == len(D.events), "first point: coded symbols", "first:events")
        self.ob(len(self.C.raw) == len(D.reads), "first point: %d raw bytes written but %d read" % (len(self.C.raw), len(D.reads)), "first:raw")
        for k, what, where in D.problems:
            self.ob(False, "first point: " + what, "first:" + k, where)
        self.check_output(dst, self.n, label="first:output")
        self.check_state(cst, dst, label="first:state", rel=self.rel)
        for iv in self.invs:
            a, b = self.inv_values(iv, D.getroot(dst, ("S",)))
            self.ob(provable_eq(a, b, vg.TRUE), "invariant %s does not hold after the first point" % iv, "first:inv")

    def inv_values(self, iv, post):
        D = self.D
        lt = leafterms(iv.L)
        vals = {}
        for nm in lt:
            fam = [d for d in self.dscal if "s." + self.pairs.get(d, d) == nm or "s." + d == nm]
            if not fam:
                raise Unsupported("invariant over " + nm)
            vals[nm] = D.readpath_v(post, self.dscal[fam[0]])
        ix = apply_leaves(D, iv.L, lt, vals)
        return D.readpath_v(post, iv.X), D.index(D.readpath_v(post, iv.A), ix)

    def discover(self, cs, ds):
        """candidate invariants X == A[L], each kept only when inductive"""
        D = self.D
        self.dscal = {fstr(p): p for p, k, t, v in self.fd if k == "scalar" and "[]" not in p}
        post = D.getroot(self.dst, ("S",))
        out = []
        for p, k, t, v in self.fd:
            if k != "scalar" or p.count("[]") != 1 or p[-1] != "[]":
                continue
            ap = p[:-1]
            try:
                arr = D.readpath_v(post, ap)
            except Unsupported:
                continue
            Ls = [l for l in storeidx(arr, {}).values() if stateonly(l)]
            for L in Ls[:2]:
                for f, xp in sorted(self.dscal.items()):
                    ty = [tt for q, _, tt, _ in self.fd if q == xp][0]
                    if ty != t:
                        continue
                    if not any(("s." + self.pairs.get(f, f)) in w for w in getattr(self, "wit", {}).values()):
                        continue
                    iv = Inv(xp, ap, L)
                    if self.inductive(iv, cs, ds):
                        out.append(iv)
        return out

    def inductive(self, iv, cs, ds):
        D = self.D
        try:
            x0, _ = D.readpath_v(self.dinit, iv.X), 0
            d2 = D.setpath(ds, iv.X, D.index(D.readpath_v(ds, iv.A), iv.L))
            cst = self.c_run("compress_with", cs)
            st = self.d_run("decompress_with", d2)
            a, b = self.inv_values(iv, D.getroot(st, ("S",)))
            if not provable_eq(a, b, vg.TRUE):
                return False
            cst = self.c_run("compress_first", self.cinit)
            st = self.d_run("decompress_first", self.dinit)
            a, b = self.inv_values(iv, D.getroot(st, ("S",)))
            return provable_eq(a, b, vg.TRUE)
        except Unsupported:
            return False


def seq_point(P, cty, dty, n, cargs=None, dargs=None, label="", given=None, structural=(), dprog=None):
    """mirror of compress_with / decompress_with for a sequential field codec"""
    p = PointPair(P, cty, dty, label=label, dprog=dprog)
    p.given = given or {}
    p.C.structural |= set(structural)
    p.D.structural |= set(structural)
    return p.analyse(n, cargs, dargs)
