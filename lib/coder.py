"""Evaluation of the arithmetic coders, models and integer (de)compressors from arbitrary states.

The renormalisation loop ends when the interval length, shifted, reaches the minimum. The length is an expression over the
model and the old interval, so at the loop the length is named anew, byte by byte (a cut), under the two facts that are
proved about the expression there (it is not zero; it is below the minimum, if that is so). The results are rewritten
back to the expression before they are compared."""
import vg
from vg import mk, const, isc, cval, band, bnot, bor, Unsupported
from ev import Ev, ptr_add
from facts import Map, subst, refuted
from codec import ptr, provable_eq

MIN = 1 << 24
NBUF = 8192
ENC = "encoders::ArithmeticEncoder::<T>::"
DEC = "decoders::ArithmeticDecoder::<T>::"
SYM = "models::ArithmeticModel"
BIT = "models::ArithmeticBitModel"


def sym(name, w, ty=None):
    t = mk("sym", (name,), w)
    if ty is not None and t.ty is None:
        t.ty = ty
    return t


def arr(name, prim="u32"):
    return sym(name, None, ("arr", ("prim", prim), None))


def ge(a, b):
    return bnot(vg.ult(a, b))


class Coder(Ev):
    """one program"""
    prune_loops = True

    def __init__(self, P):
        super().__init__(P, hooks={"std::io::Write::write_all": self.write_all, "std::io::Read::read_exact": self.read_exact,
                                  "byteorder::ReadBytesExt::read_u8": self.read_u8})
        self.prune = refuted
        self.panics = []
        self.env = {"T": ("param", "T")}
        self.cuts = []
        self.out = []
        self.inp = sym("in", None, ("arr", ("prim", "u8"), None))
        self.obligations = []

    # ---- the stream
    def write_all(self, ev, c):
        p = c.args[1]
        n = self.slice_len(c.st, p)
        self.out.append((self.content(c.st, p), n, c.pc))
        return self.ok(vg.UNIT)

    def content(self, st, p):
        """(array value, offset) of the slice p as it is now"""
        from ev import ptr_parts
        if p.op != "ptr":
            return p
        q = mk("ptr", (p.args[0], p.args[1], None, None)) if p.args[2] is not None else p
        path = p.args[1]
        off = const(0, 64)
        if p.args[2] is not None:
            off = p.args[2]
        v = self.load(st, q)
        while v.op == "st":
            v = self.project(v, "#arr")
        return (v, off)

    def read_exact(self, ev, c):
        p = c.args[1]
        n = self.slice_len(c.st, p)
        if not isc(n):
            raise Unsupported("read of a variable number of bytes")
        pos = self.getroot(c.st, ("POS",)) if ("POS",) in c.st else const(0, 64)
        for i in range(cval(n)):
            self.store(c.st, self.elem_ptr(p, const(i, 64)), self.index(self.inp, vg.add(pos, const(i, 64))))
        c.st[("POS",)] = vg.add(pos, n)
        return self.ok(vg.UNIT)

    def read_u8(self, ev, c):
        pos = self.getroot(c.st, ("POS",)) if ("POS",) in c.st else const(0, 64)
        c.st[("POS",)] = vg.add(pos, const(1, 64))
        return self.ok(self.index(self.inp, pos))

    # ---- the cut
    def loop_enter(self, fr, L, ins):
        if not self.shifts_length(fr.b, L):
            return ins
        pc, st = self.join(ins)
        st = dict(st)
        r = ("E",) if ("E",) in st else ("D",)
        Y = vg.simplify(self.load(st, self.field_ptr(ptr(r), "length")), pc)
        if isc(Y):
            return ins
        t = self.cutname()
        z = band(pc, vg.eq(Y, const(0, 32)))
        self.obligations.append(("the interval is not empty when it is renormalised", refuted(z)))
        npc = band(pc, bnot(vg.eq(t, const(0, 32))))
        if refuted(band(pc, ge(Y, const(MIN, 32)))):
            npc = band(npc, vg.ult(t, const(MIN, 32)))
        self.cuts.append((Y, pc))
        self.store(st, self.field_ptr(ptr(r), "length"), t)
        return [(npc, st)]

    def cutname(self):
        return sym(("cut",), 32)

    def shifts_length(self, b, L):
        k = (b["id"], L.header)
        if not hasattr(self, "_sl"):
            self._sl = {}
        if k not in self._sl:
            hit = False
            for x in L.blocks:
                for s in b["blocks"][x]["s"]:
                    if len(s) == 3 and isinstance(s[1], list) and len(s[1]) == 2 and isinstance(s[1][1], list):
                        if any(isinstance(q, dict) and q.get("f") == "length" for q in s[1][1]):
                            hit = True
            self._sl[k] = hit
        return self._sl[k]

    # ---- states
    def encoder(self, off=5, end=NBUF, chain=0, base=None, length=None):
        """a store with an encoder whose write position is `off`, the `chain` bytes before it being 0xFF"""
        st = {}
        stream = sym(("stream",), None, ("param", "T"))
        e, pc = self.run(ENC + "new", [stream], vg.TRUE, st, self.env)
        p = self.project(e, "out_byte")
        root, path = p.args[0], tuple(x for x in p.args[1] if not isinstance(x, int))
        a = arr("buf", "u8")
        for j in range(1, chain + 1):
            a = self.setindex(a, const((off - j) % NBUF, 64), const(255, 8))
        last = self.index(a, const((off - chain - 1) % NBUF, 64))
        v = st[root]
        for k in [x for x in p.args[1] if isinstance(x, str)]:
            v = self.setpath(v, (k,), a)
        st[root] = v
        self.bufroot = root
        e = self.setpath(e, ("out_byte",), ptr_add(self, p, const(off, 64)))
        e = self.setpath(e, ("end_byte",), ptr_add(self, p, const(end, 64)))
        e = self.setpath(e, ("base",), base if base is not None else sym("base", 32))
        e = self.setpath(e, ("length",), length if length is not None else sym("length", 32))
        st[("E",)] = e
        L = self.project(e, "length")
        pc = band(ge(L, const(MIN, 32)), bnot(vg.eq(last, const(255, 8))))
        return st, pc

    def decoder(self, value=None, length=None):
        st = {("POS",): const(0, 64)}
        stream = sym(("stream",), None, ("param", "T"))
        e, pc = self.run(DEC + "new", [stream], vg.TRUE, st, self.env)
        e = self.setpath(e, ("value",), value if value is not None else sym("value", 32))
        e = self.setpath(e, ("length",), length if length is not None else sym("length", 32))
        st[("D",)] = e
        L, V = self.project(e, "length"), self.project(e, "value")
        return st, band(ge(L, const(MIN, 32)), vg.ult(V, L))
