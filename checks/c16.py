"""C16: the arithmetic coders are inverse to each other, for every interval, model state, symbol and buffer position."""
from functools import reduce
import vg
from vg import const, isc, cval, bnot, add, sub, ult, eq, ite, Unsupported
from prog import Prog
from codec import ptr, provable_eq
from facts import refuted
from coder import Coder, sym, arr, ge, MIN, NBUF, ENC, DEC, SYM, BIT
from pool import pmap, TimeLimit

LEVEL = "other"
TRUSTED = ["rustc's MIR of /repo", "the value engine in /verif/lib (term rewriting, gated values, linear refutation)", "models of std functions in /verif/lib/models.py"]


def band(*a):
    return reduce(vg.band, [x for x in a if x is not None], vg.TRUE)


def shl(t, k):
    return vg._shl(t, k) if k else t


class Out:
    def __init__(self, lab):
        self.lab, self.ob, self.viol = lab, 0, []

    def check(self, ok, key, what):
        self.ob += 1
        if not ok:
            self.viol.append((key, "%s: %s" % (self.lab, what)))
        return ok

    def same(self, a, b, pc, key, what):
        ok = provable_eq(a, b, pc)
        return self.check(ok, key, what if ok else "%s: is %s, must be %s" % (what, vg.show(vg.simplify(a, pc), 4)[:200], vg.show(vg.simplify(b, pc), 4)[:200]))


def shifts(E, Y):
    """[(condition, number of bytes)] of the renormalisation, over the cut name of the length"""
    t = E.cutname()
    big = ge(Y, const(MIN, 32))
    lt = [ult(shl(t, 8 * j), const(MIN, 32)) for j in range(4)]
    return [(big, 0)] + [(band(bnot(big), *(lt[:n] + [bnot(lt[n])])), n) for n in (1, 2, 3)]


def offset(E, st, p):
    """position of a pointer into the output buffer"""
    def f(q):
        if q.op != "ptr" or q.args[0] != E.bufroot or not isinstance(q.args[1][-1], vg.Term):
            raise Unsupported("not a position in the output buffer: %s" % vg.show(q))
        return q.args[1][-1]
    return vg.apply_n(("off", E.bufroot), f, (p,))


def bufarr(E, st):
    v = E.getroot(st, E.bufroot)
    while v.op == "st":
        v = E.project(v, "#arr")
    return v


def cuts_ok(o, E, Y):
    for y, pc in E.cuts:
        o.same(y, Y, pc, "interval", "the new interval length")
    for what, ok in E.obligations:
        o.check(ok, "interval", what)


def pending(a, off, end):
    """the bytes of the buffer that are not written out yet: [(array, position)] in stream order"""
    half = NBUF // 2
    if end == NBUF:
        return [(a, i) for i in range(off)]
    return [(a, i) for i in range(half, NBUF)] + [(a, i) for i in range(off)]


def encode(o, E, run, X, Y, facts, off, end, chain):
    """evaluate one coding step and compare with the interval coder; run(st, pc) -> (ret, pc)"""
    st, pc = E.encoder(off, end, chain)
    e0 = E.getroot(st, ("E",))
    B = E.project(e0, "base")
    a0 = bufarr(E, st)
    pc = band(pc, facts)
    X0, Y0 = X, Y
    ret, rpc = run(st, pc)
    o.same(E.project(ret, "#d"), const(0, E.project(ret, "#d").w), rpc, "result", "the call succeeds")
    o.check(refuted(band(pc, *[c for c in [bnot(rpc)]])) or bool(E.cuts), "returns", "the call returns")
    cuts_ok(o, E, Y)
    e = E.getroot(st, ("E",))
    a = bufarr(E, st)
    B1 = add(B, X)
    carry = ult(B1, B)
    exp = a0
    for j in range(1, chain + 1):
        exp = E.setindex(exp, const((off - j) % NBUF, 64), ite(carry, const(0, 8), const(255, 8)))
    k = const((off - chain - 1) % NBUF, 64)
    b0 = E.index(a0, k)
    exp = E.setindex(exp, k, ite(carry, add(b0, const(1, 8)), b0))
    pos, lim = offset(E, st, E.project(e, "out_byte")), offset(E, st, E.project(e, "end_byte"))
    for c, n in shifts(E, Y):
        q = band(pc, c)
        if refuted(q):
            continue
        w = "%d byte%s out, position %d of %d, %d bytes of carry" % (n, "" if n == 1 else "s", off, end, chain)
        L1 = Y if n == 0 else shl(E.cutname(), 8 * n)
        o.same(E.project(e, "base"), shl(B1, 8 * n), q, "base", "the interval base (%s)" % w)
        o.same(E.project(e, "length"), L1, q, "interval", "the interval length (%s)" % w)
        emitted = [vg._slice(B1, 24 - 8 * j, 8) for j in range(n)]
        outs = []
        for (arr_, off_), ln, opc in E.out:
            x = band(q, opc)
            if refuted(x):
                continue
            o.check(refuted(band(q, bnot(opc))), "out", "a block is written out under no other condition (%s)" % w)
            if not isc(off_) or not isc(ln):
                raise Unsupported("block of unknown size written")
            outs += [(arr_, cval(off_) + i) for i in range(cval(ln))]
        p1 = vg.simplify(pos, q)
        l1 = vg.simplify(lim, q)
        if not isc(p1):
            p1 = const1(pos, q)
        if not isc(l1):
            l1 = const1(lim, q)
        if p1 is None or l1 is None or not isc(p1) or not isc(l1):
            o.check(False, "position", "the write position is known (%s): %s" % (w, vg.show(pos, 4)[:200]))
            continue
        if not o.check(cval(l1) in (NBUF // 2, NBUF) and 0 <= cval(p1) < cval(l1), "position", "the write position stays inside the buffer (%s): at %d of %d" % (w, cval(p1), cval(l1))):
            continue
        want = pending(exp, off, end) + [("b", x) for x in emitted]
        got = outs + pending(a, cval(p1), cval(l1))
        if not o.check(len(want) == len(got), "bytes", "no byte is lost or added (%s): %d instead of %d" % (w, len(got), len(want))):
            continue
        for i, (x, y) in enumerate(zip(got, want)):
            u = E.index(x[0], const(x[1], 64))
            v = y[1] if y[0] == "b" else E.index(y[0], const(y[1], 64))
            if u is v:
                continue
            if not provable_eq(u, v, q):
                o.check(False, "bytes", "byte %d of the output (%s): is %s, must be %s" % (i, w, vg.show(vg.simplify(u, q), 4)[:160], vg.show(vg.simplify(v, q), 4)[:160]))
                break
        o.ob += 1
    return st


def const1(t, q):
    """the only constant t can be under q"""
    vals = [x for x in vg.leafset(t) if isc(x)]
    ok = [x for x in vals if not refuted(band(q, eq(t, x)))]
    return ok[0] if len(ok) == 1 else None


def decode(o, E, run, X, Y, facts, s, w=32):
    st, pc = E.decoder()
    d0 = E.getroot(st, ("D",))
    V = E.project(d0, "value")
    pc = band(pc, ge(V, X), ult(V, add(X, Y)), facts)
    ret, rpc = run(st, pc)
    o.same(E.project(ret, "#d"), const(0, E.project(ret, "#d").w), band(pc, rpc), "result", "the call succeeds")
    cuts_ok(o, E, Y)
    o.same(E.project(ret, "Ok.0"), s, band(pc, rpc), "symbol", "the decoded value")
    d = E.getroot(st, ("D",))
    pos = st.get(("POS",))
    pos = const(0, 64) if pos is None else E.getroot(st, ("POS",))
    V1 = sub(V, X)
    for c, n in shifts(E, Y):
        q = band(pc, c)
        if refuted(q):
            continue
        w = "%d byte%s read" % (n, "" if n == 1 else "s")
        L1 = Y if n == 0 else shl(E.cutname(), 8 * n)
        ps = []
        for j in range(n):
            ps = vg.pieces(E.index(E.inp, const(n - 1 - j, 64))) * 0 + ps
        lo = [E.index(E.inp, const(n - 1 - j, 64)) for j in range(n)]
        v = V1 if n == 0 else vg.mkcat([p for x in lo for p in vg.pieces(x)] + vg.pieces(vg._slice(V1, 0, 32 - 8 * n)))
        o.same(E.project(d, "value"), v, q, "value", "the value relative to the interval (%s)" % w)
        o.same(E.project(d, "length"), L1, q, "interval", "the interval length (%s)" % w)
        o.same(pos, const(n, 64), q, "bytes", "the number of bytes taken (%s)" % w)
    return st


# ------------------------------------------------------------------ the cases
LAY = [(5, NBUF, 0), (5, NBUF, 1), (5, NBUF, 3), (4095, NBUF, 0), (4096, NBUF, 1), (8189, NBUF, 0), (8190, NBUF, 2), (8191, NBUF, 0),
       (0, 4096, 0), (0, 4096, 2), (1, 4096, 1), (1, 4096, 3), (4093, 4096, 0), (4094, 4096, 1), (4095, 4096, 0), (4096, NBUF, 0), (4097, NBUF, 2)]


def bitcase(P, lay):
    o = Out("encode_bit")
    for s in (0, 1):
        for side in ("enc", "dec"):
            for l in (lay if side == "enc" else [None]):
                E = Coder(P)
                m = sym("bit model", None, ("adt", BIT, ()))
                p = E.project(m, "bit_0_prob")
                L = sym("length", 32)
                x = vg._mul(p, vg._shr(L, 13))
                r = sub(L, x)
                facts = band(ult(const(0, 32), p), ult(p, const(1 << 13, 32)), ge(x, const(2048, 32)), ult(x, L), ge(r, const(2048, 32)),
                             ult(const(1, 32), E.project(m, "bits_until_update")))
                X, Y = (const(0, 32), x) if s == 0 else (x, r)

                def run(st, pc):
                    st[("M",)] = m
                    if side == "enc":
                        return E.run(ENC + "encode_bit", [ptr(("E",)), ptr(("M",)), const(s, 32)], pc, st, E.env)
                    return E.run(DEC + "decode_bit", [ptr(("D",)), ptr(("M",))], pc, st, E.env)
                if side == "enc":
                    st = encode(o, E, run, X, Y, facts, *l)
                else:
                    st = decode(o, E, run, X, Y, facts, const(s, 32))
                m1 = E.getroot(st, ("M",))
                q = facts
                o.same(E.project(m1, "bit_0_count"), add(E.project(m, "bit_0_count"), const(1 - s, 32)), q, "model", "the count of zero bits (%s)" % side)
                o.same(E.project(m1, "bits_until_update"), sub(E.project(m, "bits_until_update"), const(1, 32)), q, "model", "the update countdown (%s)" % side)
                for f in ("bit_count", "bit_0_prob", "update_cycle"):
                    o.same(E.project(m1, f), E.project(m, f), q, "model", "%s is kept (%s)" % (f, side))
    return o


def model_of(E, n=None, table=None, compress=0):
    """a model with symbolic counts; n: its number of symbols (None: any)"""
    m = sym("model", None, ("adt", SYM, ()))
    num = add(vg.zext(E.project(m, "last_symbol"), 64), const(1, 64)) if n is None else const(n, 64)
    d = E.vec(arr("distribution"), num, ("prim", "u32"))
    c = E.vec(arr("symbol_count"), num, ("prim", "u32"))
    m = E.setpath(E.setpath(m, ("distribution",), d), ("symbol_count",), c)
    if n is not None:
        m = E.setpath(E.setpath(m, ("symbols",), const(n, 32)), ("last_symbol",), const(n - 1, 32))
        m = E.setpath(m, ("compress",), vg.TRUE if compress else vg.FALSE)
    return m


def dist(E, m, k):
    return E.index(E.project(E.project(m, "distribution"), "#arr"), k if isinstance(k, vg.Term) else const(k, 64))


def model_after(o, E, m, m1, s, q, side):
    """the model after coding symbol s (no update due)"""
    s64 = vg.zext(s, 64)
    c0, c1 = [E.project(E.project(x, "symbol_count"), "#arr") for x in (m, m1)]
    o.same(E.index(c1, s64), add(E.index(c0, s64), const(1, 32)), q, "model", "the count of the coded symbol (%s)" % side)
    j = sym("other symbol", 64)
    o.same(E.index(c1, j), E.index(c0, j), band(q, bnot(eq(j, s64))), "model", "the other counts (%s)" % side)
    o.same(E.project(m1, "symbols_until_update"), sub(E.project(m, "symbols_until_update"), const(1, 32)), q, "model", "the update countdown (%s)" % side)
    for f in ("total_count", "update_cycle", "last_symbol", "symbols"):
        o.same(E.project(m1, f), E.project(m, f), q, "model", "%s is kept (%s)" % (f, side))
    o.same(dist(E, m1, j), dist(E, m, j), q, "model", "the distribution is kept (%s)" % side)


def intervals(E, m, L, s, n):
    """(X, Y) of symbol s among n (terms or numbers)"""
    r = vg._shr(L, 15)
    k = s if isinstance(s, vg.Term) else const(s, 64)
    X = vg._mul(dist(E, m, k), r)
    if isc(dist(E, m, k)):
        X = vg.mul(dist(E, m, k), r)
    if isinstance(s, vg.Term):
        Z = vg._mul(dist(E, m, add(k, const(1, 64))), r)
        return X, Z
    return X, (None if s == n - 1 else vg._mul(dist(E, m, s + 1), r))


def symenc(P, lay):
    """encode_symbol, for a model of any size and any symbol; the last symbol apart"""
    o = Out("encode_symbol")
    for last in (0, 1):
        for l in lay:
            E = Coder(P)
            m = model_of(E)
            s = sym("symbol", 32)
            L = sym("length", 32)
            nl = E.project(m, "last_symbol")
            X, Z = intervals(E, m, L, vg.zext(s, 64), None)
            Y = sub(L, X) if last else sub(Z, X)
            facts = band(eq(dist(E, m, vg.zext(add(s, const(1, 32)), 64)), dist(E, m, add(vg.zext(s, 64), const(1, 64)))), eq(s, nl) if last else ult(s, nl), ult(nl, const(2048, 32)), ult(X, L), ge(Y, const(512, 32)), bnot(ult(L, Y)),
                         None if last else ult(X, Z), None if last else ult(Z, L), ult(const(1, 32), E.project(m, "symbols_until_update")))

            def run(st, pc):
                st[("M",)] = m
                return E.run(ENC + "encode_symbol", [ptr(("E",)), ptr(("M",)), s], pc, st, E.env)
            st = encode(o, E, run, X, Y, facts, *l)
            model_after(o, E, m, E.getroot(st, ("M",)), s, facts, "enc")
    return o


def known(E, m, L, V, n, s):
    """facts: the value lies in the interval of symbol s, whose neighbours' intervals are ordered"""
    r = vg._shr(L, 15)
    dv = None
    out = []
    for k in range(1, n):
        x = vg._mul(dist(E, m, k), r)
        out.append(bnot(ult(V, x)) if k <= s else ult(V, x))
    return band(*out)


def symdec(P, a):
    """decode_symbol, by bisection over the distribution: every symbol of models of n symbols"""
    n, table = a
    o = Out("decode_symbol, %d symbols%s" % (n, ", decoder table" if table else ""))
    shapes = [(0, n - 1)] if not table else table
    for lo, hi in shapes:
        for s in range(lo, hi + 1):
            E = Coder(P)
            m = model_of(E, n)
            m = E.setpath(m, ("distribution", "#arr"), E.setindex(E.project(E.project(m, "distribution"), "#arr"), const(0, 64), const(0, 32)))
            L, V = sym("length", 32), sym("value", 32)
            r = vg._shr(L, 15)
            X, Z = intervals(E, m, L, s, n)
            Y = sub(L, X) if s == n - 1 else sub(Z, X)
            facts = [known(E, m, L, V, n, s), ult(X, L), ge(Y, const(512, 32)), ult(const(1, 32), E.project(m, "symbols_until_update")), bnot(ult(L, Y))]
            if s != n - 1:
                facts += [ult(X, Z), ult(Z, L)]
            if table:
                # the quotient lies between the bounds of the symbol; the table brackets it
                from ev import divrem
                dv = divrem("Div", V, r, 32, False)
                facts += [bnot(ult(dv, dist(E, m, k))) if k <= s else ult(dv, dist(E, m, k)) for k in range(1, n)]
                sh = const(15 - 3, 32)
                t = vg.zext(vg._shr(dv, 12), 64)
                tab = E.setindex(E.setindex(arr("table"), t, const(lo, 32)), add(t, const(1, 64)), const(hi, 32))
                m = E.setpath(m, ("decoder_table",), E.vec(tab, const(10, 64), ("prim", "u32")))
                m = E.setpath(m, ("table_shift",), sh)
                facts += [ult(t, const(9, 64)), bnot(eq(r, const(0, 32)))]
            else:
                m = E.setpath(m, ("decoder_table",), E.vec(arr("table"), const(0, 64), ("prim", "u32")))

            def run(st, pc):
                st[("M",)] = m
                return E.run(DEC + "decode_symbol", [ptr(("D",)), ptr(("M",))], pc, st, E.env)
            st = decode(o, E, run, X, Y, band(*facts), const(s, 32))
            model_after(o, E, m, E.getroot(st, ("M",)), const(s, 32), band(*facts), "dec")
    return o


RAW = [("write_bit", "read_bit", 1, 32), ("write_byte", "read_byte", 8, 8), ("write_short", "read_short", 16, 16)] + [("write_bits", "read_bits", k, 32) for k in range(1, 20)]


def rawcase(P, a):
    """uniformly distributed values of a number of bits"""
    lay, (wf, rf, k, w) = a
    o = Out("%s/%s of %d bits" % (wf, rf, k))
    L = sym("length", 32)
    r = vg._shr(L, k)
    s = vg.zext(sym("bits", w), 32) if w < 32 else sym("bits", 32)
    X = vg._mul(s, r)
    base = [ult(s, const(1 << k, 32)) if k < w else None, bnot(ult(L, add(X, r))), bnot(ult(add(X, r), X)), ge(r, const(1 << (24 - k), 32))]
    extra = [const(k, 32)] if wf == "write_bits" else []
    if ENC + wf in P.bodies:
        for l in lay:
            E = Coder(P)
            arg = sym("bits", w) if w < 32 else s
            encode(o, E, lambda st, pc: E.run(ENC + wf, [ptr(("E",))] + extra + [arg], pc, st, E.env), X, r, band(*base), *l)
    if DEC + rf in P.bodies:
        from ev import divrem
        E = Coder(P)
        V = sym("value", 32)
        f = band(eq(divrem("Div", V, r, 32, False), s), *base)
        decode(o, E, lambda st, pc: E.run(DEC + rf, [ptr(("D",))] + extra, pc, st, E.env), X, r, f, sym("bits", w) if w < 32 else s)
    return o


class Parts(Coder):
    """the 16-bit steps of the wider raw values, recorded instead of followed"""

    def __init__(self, P):
        super().__init__(P)
        self.shorts = []
        self.hooks = dict(self.hooks)
        self.hooks[ENC + "write_short"] = self.wshort
        self.hooks[DEC + "read_short"] = self.rshort

    def wshort(self, ev, c):
        self.shorts.append((c.args[1], c.pc))
        return self.ok(vg.UNIT)

    def rshort(self, ev, c):
        v = sym(("short", len(self.shorts)), 16)
        self.shorts.append((v, c.pc))
        return self.ok(v)


def wide(P, lay):
    """values wider than one step: the low 16 bits first"""
    o = Out("raw values of more than 19 bits")
    L = sym("length", 32)
    for k in range(20, 33):
        j = k - 16
        s = sym("bits", 32)
        hi, lo = vg._shr(s, 16), vg._slice(s, 0, 16)
        r = vg._shr(L, j)
        X = vg._mul(hi, r)
        base = [ult(s, const(1 << k, 32)) if k < 32 else None, bnot(ult(L, add(X, r))), bnot(ult(add(X, r), X)), ge(r, const(1 << (24 - j), 32))]
        if k < 32:      # the encoder's precondition is stated by a shift of k bits
            E = Parts(P)
            encode(o, E, lambda st, pc: E.run(ENC + "write_bits", [ptr(("E",)), const(k, 32), s], pc, st, E.env), X, r, band(*base), *lay[0])
            o.check(len(E.shorts) == 1 and provable_eq(E.shorts[0][0], lo, band(*base)), "symbol", "write_bits(%d): the low 16 bits go first" % k)
        from ev import divrem
        E = Parts(P)
        V = sym("value", 32)
        h = vg.zext(sym("high", j), 32)
        X = vg._mul(h, r)
        base = [bnot(ult(L, add(X, r))), bnot(ult(add(X, r), X)), ge(r, const(1 << (24 - j), 32)), eq(divrem("Div", V, r, 32, False), h)]
        want = vg.mkcat(vg.pieces(sym(("short", 0), 16)) + vg.pieces(vg._slice(h, 0, 16)))
        decode(o, E, lambda st, pc: E.run(DEC + "read_bits", [ptr(("D",)), const(k, 32)], pc, st, E.env), X, r, band(*base), want)
        o.check(len(E.shorts) == 1, "symbol", "read_bits(%d): one 16-bit step first" % k)
    for wf, rf, w in (("write_int", "read_int", 32), ("write_int64", "read_int_64", 64)):
        E = Parts(P)
        v = sym("bits", w)
        st, pc = E.encoder()
        ret, rpc = E.run(ENC + wf, [ptr(("E",)), v], pc, st, E.env)
        o.check(len(E.shorts) == w // 16, "symbol", "%s: %d steps of 16 bits" % (wf, w // 16))
        for i, (x, q) in enumerate(E.shorts):
            o.same(x, vg._slice(v, 16 * i, 16), q, "symbol", "%s: step %d" % (wf, i))
        E = Parts(P)
        st, pc = E.decoder()
        ret, rpc = E.run(DEC + rf, [ptr(("D",))], pc, st, E.env)
        o.check(len(E.shorts) == w // 16, "symbol", "%s: %d steps of 16 bits" % (rf, w // 16))
        o.same(E.project(ret, "Ok.0"), vg.mkcat([p for i in range(w // 16) for p in vg.pieces(sym(("short", i), 16))]), band(pc, rpc), "symbol", "%s: the value" % rf)
    return o


def start(P, _):
    """both coders start with the whole interval; the decoder takes the first four bytes, most significant first"""
    o = Out("start")
    befores = sorted({(off, end) for off, end, _ in LAY})
    for again in range(1 + len(befores)):
        for side, f, names in (("E", ENC, ("base", "length")), ("D", DEC, ("value", "length"))):
            if side == "D" and again > 1:
                continue
            E = Coder(P)
            if again:
                st, pc = E.encoder(*befores[again - 1]) if side == "E" else E.decoder()
                E.run(f + "reset", [ptr((side,))], pc, st, E.env)
                e = E.getroot(st, (side,))
            else:
                st = {}
                e, pc = E.run(f + "new", [sym(("stream",), None, ("param", "T"))], vg.TRUE, st, E.env)
            for n, v in zip(names, (0, 0xFFFFFFFF)):
                o.same(E.project(e, n), const(v, 32), pc, "start", "%s after %s" % (n, "reset" if again else "new"))
            if side == "E":
                if not again:
                    E.bufroot = E.project(e, "out_byte").args[0]
                o.same(offset(E, st, E.project(e, "out_byte")), const(0, 64), pc, "start", "the write position")
                o.same(offset(E, st, E.project(e, "end_byte")), const(NBUF, 64), pc, "start", "the end of the buffer")
    E = Coder(P)
    st, pc = E.decoder()
    E.run(DEC + "read_init_bytes", [ptr(("D",))], pc, st, E.env)
    d = E.getroot(st, ("D",))
    o.same(E.project(d, "value"), vg.mkcat([p for j in range(4) for p in vg.pieces(E.index(E.inp, const(3 - j, 64)))]), pc, "start", "the first value")
    o.same(E.getroot(st, ("POS",)), const(4, 64), pc, "start", "the number of bytes taken")
    return o


def finish(P, lay):
    """done: enough bytes to stay inside the last interval, then padding to four bytes in all"""
    o = Out("done")
    for big in (1, 0):
        for off, end, chain in lay:
            E = Coder(P)
            st, pc = E.encoder(off, end, chain)
            e0 = E.getroot(st, ("E",))
            B, L = E.project(e0, "base"), E.project(e0, "length")
            c = ult(const(2 * MIN, 32), L)
            pc = band(pc, c if big else bnot(c))
            a0 = bufarr(E, st)
            ret, rpc = E.run(ENC + "done", [ptr(("E",))], pc, st, E.env)
            o.same(E.project(ret, "#d"), const(0, E.project(ret, "#d").w), rpc, "result", "the call succeeds")
            B1 = add(B, const(MIN if big else MIN >> 1, 32))
            carry = ult(B1, B)
            exp = a0
            for j in range(1, chain + 1):
                exp = E.setindex(exp, const((off - j) % NBUF, 64), ite(carry, const(0, 8), const(255, 8)))
            k = const((off - chain - 1) % NBUF, 64)
            b0 = E.index(a0, k)
            exp = E.setindex(exp, k, ite(carry, add(b0, const(1, 8)), b0))
            n = 1 if big else 2
            want = pending(exp, off, end) + [("b", vg._slice(B1, 24 - 8 * j, 8)) for j in range(n)] + [("b", const(0, 8))] * (4 - n)
            got = []
            w = "position %d of %d, %d bytes of carry, %s interval" % (off, end, chain, "wide" if big else "narrow")
            for (arr_, off_), ln, opc in E.out:
                x = band(pc, opc)
                if refuted(x):
                    continue
                o.check(refuted(band(pc, bnot(opc))), "out", "a block is written out under no other condition (%s)" % w)
                off_, ln = [x if isc(x) else const1(x, pc) for x in (off_, ln)]
                if off_ is None or ln is None:
                    raise Unsupported("block of unknown size written")
                got += [(arr_, cval(off_) + i) for i in range(cval(ln))]
            if not o.check(len(want) == len(got), "bytes", "no byte is lost or added (%s): %d instead of %d" % (w, len(got), len(want))):
                continue
            for i, (x, y) in enumerate(zip(got, want)):
                u = E.index(x[0], const(x[1], 64))
                v = y[1] if y[0] == "b" else E.index(y[0], const(y[1], 64))
                if u is not v and not provable_eq(u, v, pc):
                    o.check(False, "bytes", "byte %d of the output (%s): is %s, must be %s" % (i, w, vg.show(vg.simplify(u, pc), 4)[:160], vg.show(vg.simplify(v, pc), 4)[:160]))
                    break
            o.ob += 1
    return o


def eqval(o, E, a, b, pc, key, what, depth=0):
    """structural equality of two values"""
    if a is b:
        o.ob += 1
        return
    if E._kind(a) == "st" or E._kind(b) == "st":
        ka = E._keys(a)[0] if a.op == "st" else set()
        kb = E._keys(b)[0] if b.op == "st" else set()
        for k in sorted(ka | kb):
            eqval(o, E, E.project(a, k), E.project(b, k), pc, key, "%s.%s" % (what, k), depth + 1)
        return
    if E._kind(a) == "arr" or E._kind(b) == "arr":
        idx = set()
        for v in (a, b):
            for base, items in [E._chain(v)]:
                idx |= set(i for i, _ in items)
        for i in sorted(idx, key=lambda i: cval(i) if isinstance(i, vg.Term) and isc(i) else (i if isinstance(i, int) else 0)):
            k = i if isinstance(i, vg.Term) else const(i, 64)
            o.same(E.index(a, k), E.index(b, k), pc, key, "%s[%s]" % (what, vg.show(k)))
        return
    o.same(a, b, pc, key, what)


def update(Ps, a):
    """the periodic update of a model, from any counts, against the reference model"""
    n, compress = a
    o = Out("update of a model of %d symbols%s" % (n, "" if not compress else " (encoder only)"))
    res = []
    for P in Ps:
        E = Coder(P)
        st = {}
        m = model_of(E, n, compress=compress)
        bits = 0
        if n > 16 and not compress:
            bits = 3
            while n > 1 << (bits + 2):
                bits += 1
            m = E.setpath(m, ("decoder_table",), E.vec(arr("table"), const((1 << bits) + 2, 64), ("prim", "u32")))
            m = E.setpath(m, ("table_size",), const(1 << bits, 32))
            m = E.setpath(m, ("table_shift",), const(15 - bits, 32))
        else:
            m = E.setpath(m, ("decoder_table",), E.vec(arr("table"), const(0, 64), ("prim", "u32")))
            m = E.setpath(m, ("table_size",), const(0, 32))
        st[("M",)] = m
        r, pc = E.run("models::ArithmeticModel::update", [ptr(("M",))], vg.TRUE, st, {})
        res.append((E, pc, E.getroot(st, ("M",))))
    E = res[0][0]
    eqval(o, E, res[0][2], res[1][2], res[1][1], "update", "the model")
    return o


def table(P, ws):
    """the decoder table after an update, for the way the scaled counts fall into its slots: it brackets every quotient"""
    n = len(ws)
    bits = 3
    while n > 1 << (bits + 2):
        bits += 1
    o = Out("decoder table of a model of %d symbols" % n)
    E = Coder(P)
    m = model_of(E, n)
    m = E.setpath(m, ("decoder_table",), E.vec(arr("table"), const((1 << bits) + 2, 64), ("prim", "u32")))
    m = E.setpath(m, ("table_size",), const(1 << bits, 32))
    m = E.setpath(m, ("table_shift",), const(15 - bits, 32))
    c = E.project(E.project(m, "symbol_count"), "#arr")
    tot = add(E.project(m, "total_count"), E.project(m, "update_cycle"))
    from ev import divrem
    scale = divrem("Div", const(1 << 31, 32), tot, 32, False)
    S = const(0, 32)
    facts = [ult(tot, const((1 << 15) + 1, 32)), bnot(eq(tot, const(0, 32)))]
    d = []
    for k in range(n):
        x = vg._shr(vg._mul(scale, S) if k else const(0, 32), 16)
        d.append(x)
        if k:
            facts.append(eq(vg._shr(x, 15 - bits), const(ws[k], 32)))
        S = add(S, E.index(c, const(k, 64)))
    pc = band(*facts)
    st = {("M",): m}
    r, rpc = E.run("models::ArithmeticModel::update", [ptr(("M",))], pc, st, {})
    m1 = E.getroot(st, ("M",))
    for k in range(n):
        o.same(dist(E, m1, k), d[k], pc, "distribution", "the start of symbol %d" % k)
    t1 = E.project(E.project(m1, "decoder_table"), "#arr")
    tab = []
    for i in range((1 << bits) + 1):
        x = vg.simplify(E.index(t1, const(i, 64)), pc)
        tab.append(cval(x) if isc(x) else None)
        if tab[-1] is None:
            x = const1(x, pc)
            tab[-1] = cval(x) if x is not None else None
    for i in range(1 << bits):
        a, b = tab[i], tab[i + 1]
        if not o.check(a is not None and b is not None and a < n and b < n, "table", "the entries %d and %d name symbols" % (i, i + 1)):
            continue
        o.check(a == 0 or ws[a] < i, "table", "entry %d (%d) starts at or before every quotient of its slot (slots %s)" % (i, a, ws))
        o.check(b == n - 1 or ws[b + 1] > i, "table", "entry %d (%d) ends after every quotient of the slot before (slots %s)" % (i + 1, b, ws))
    return o


def newmodel(Ps, a):
    """a fresh model: counts, distribution, table and update cycle as the reference has them; every interval non-empty"""
    n, compress = a
    o = Out("new model of %d symbols, %s" % (n, "encoder" if compress else "decoder"))
    res = []
    for P in Ps:
        E = Coder(P)
        E.maxiter = 5000
        st = {}
        init = E.alloc(st, E.vec(arr("init"), const(0, 64), ("prim", "u32")))
        none = mk_slice(init)
        m, pc = E.run("models::ArithmeticModel::new", [const(n, 32), vg.TRUE if compress else vg.FALSE, none], vg.TRUE, st, {})
        res.append(m)
    eqval(o, E, res[0], res[1], vg.TRUE, "new", "the model")
    m = res[0]
    d = [dist(E, m, k) for k in range(n)]
    ok = all(isc(x) for x in d)
    o.check(ok and cval(d[0]) == 0 and all(cval(x) < cval(y) for x, y in zip(d, d[1:])) and cval(d[-1]) < 1 << 15, "new", "the intervals of the symbols are ordered and not empty")
    return o


def mk_slice(p):
    return vg.mk("ptr", (p.args[0], p.args[1] + ("#arr",) if "#arr" not in p.args[1] else p.args[1], const(0, 64), const(0, 64)))


def bitupdate(Ps, _):
    o = Out("update of a bit model")
    res, new = [], []
    for P in Ps:
        E = Coder(P)
        m = sym("bit model", None, ("adt", BIT, ()))
        st = {("M",): m}
        r, pc = E.run("models::ArithmeticBitModel::update", [ptr(("M",))], vg.TRUE, st, {})
        res.append((E, pc, E.getroot(st, ("M",))))
        st = {}
        new.append(E.run("models::ArithmeticBitModel::new", [], vg.TRUE, st, {})[0])
    for f in ("bit_0_count", "bit_count", "bit_0_prob", "bits_until_update", "update_cycle"):
        o.same(E.project(res[0][2], f), E.project(res[1][2], f), res[1][1], "update", f)
        o.same(E.project(new[0], f), E.project(new[1], f), vg.TRUE, "new", "%s of a new bit model" % f)
    return o


# ------------------------------------------------------------------ integers
class Sides(Coder):
    """the coded items of the integer (de)compressor, recorded (encoder) and given back (decoder)"""

    def __init__(self, P, items=None, names=None):
        super().__init__(P)
        self.items = [] if items is None else list(items)
        self.k = 0
        self.dec = items is not None
        self.problem = []
        self.names = names
        self.hooks = dict(self.hooks)
        self.maxiter = 200
        self.hooks["models::ArithmeticModel::new"] = self.newmodel
        self.hooks["models::ArithmeticModelBuilder::<'a>::build"] = self.buildmodel
        for n in ("encode_symbol", "encode_bit"):
            self.hooks[ENC + n] = lambda ev, c, n=n: self.put(n[7:], c.args[1], c.args[2], c)
        for n, w in (("write_bit", 1), ("write_byte", 8), ("write_short", 16), ("write_int", 32)):
            self.hooks[ENC + n] = lambda ev, c, w=w: self.put("raw", w, c.args[1], c)
        self.hooks[ENC + "write_bits"] = lambda ev, c: self.put("raw", c.args[1], c.args[2], c)
        for n in ("decode_symbol", "decode_bit"):
            self.hooks[DEC + n] = lambda ev, c, n=n: self.get(n[7:], c.args[1], c)
        for n, w in (("read_bit", 1), ("read_byte", 8), ("read_short", 16), ("read_int", 32)):
            self.hooks[DEC + n] = lambda ev, c, w=w: self.get("raw", w, c)
        self.hooks[DEC + "read_bits"] = lambda ev, c: self.get("raw", c.args[1], c)

    def key(self, kind, x, c):
        if kind == "raw":
            x = x if isinstance(x, int) else x
            if not isinstance(x, int):
                x = vg.simplify(x, c.pc)
                if not isc(x):
                    raise Unsupported("raw bits of unknown number %s" % vg.show(x,5))
                x = cval(x)
            return x
        out = []
        for p in x.args[1]:
            if isinstance(p, vg.Term):
                p = vg.simplify(p, c.pc)
                p = cval(p) if isc(p) else vg.show(p)
            out.append(p)
        return (x.args[0],) + tuple(out)

    def newmodel(self, ev, c):
        return vg.mk("op", ("model", c.args[0]), None, ("adt", SYM, ()))

    def buildmodel(self, ev, c):
        return vg.mk("op", ("model", self.project(self.load(c.st, c.args[0]), "symbols")), None, ("adt", SYM, ()))

    def alphabet(self, x, c):
        """number of symbols of the model x points to"""
        ns = set()
        for m in vg.leafset(self.load(c.st, x)):
            ns.add(m.args[1] if m.op == "op" and m.args[0] == "model" else None)
        return ns.pop() if len(ns) == 1 else None

    def put(self, kind, x, v, c):
        if refuted(c.pc):
            return self.ok(vg.UNIT)
        n = const(2, 32) if kind == "bit" else vg.add(const(0, 32), const(1 << x, 32)) if isinstance(x, int) and x < 32 else self.alphabet(x, c) if kind == "symbol" else None
        if kind == "raw" and not isinstance(x, int):
            n = const(1 << self.key(kind, x, c), 32) if self.key(kind, x, c) < 32 else None
        if n is not None and not refuted(band(c.pc, bnot(ult(vg._zext(v, 32) if v.w < 32 else v, n)))):
            self.problem.append("%s out of range: %s, of %s" % (kind, vg.show(vg.simplify(v, c.pc), 4)[:200], vg.show(n)))
        elif n is None and kind == "symbol":
            self.problem.append("symbol of an unknown model")
        self.items.append((kind, self.key(kind, x, c), v, c.pc, n))
        return self.ok(vg.UNIT)

    def get(self, kind, x, c):
        if refuted(c.pc):
            return self.ok(const(0, 32))
        key = self.key(kind, x, c)
        if self.k >= len(self.items):
            self.problem.append("%s is decoded but was not encoded" % kind)
            return self.ok(const(0, 32))
        k2, key2, v, pc2, n2 = self.items[self.k]
        self.k += 1
        if k2 != kind:
            self.problem.append("%s is decoded where %s was encoded" % (kind, k2))
        elif kind == "raw" and key != key2:
            self.problem.append("%d raw bits are decoded where %d were encoded" % (key, key2))
        elif kind != "raw":
            self.names.append((key2, key))
            if kind == "symbol" and self.alphabet(x, c) is not n2:
                self.problem.append("models of %s and %s symbols" % (n2 and vg.show(n2), vg.show(self.alphabet(x, c)) if self.alphabet(x, c) else "?"))
        w = 16 if kind == "raw" and c.dty and vg_width(c.dty) == 16 else 32
        if v.w != w:
            v = vg._slice(v, 0, w) if v.w > w else vg._zext(v, w)
        return self.ok(v)


def vg_width(ty):
    try:
        from ev import width
        return width(ty[2][0])
    except Exception:
        return None


def coderstate(E, P, which, bits, rng=0):
    """an integer (de)compressor of the given width (or for the given number of values) with models of any state"""
    st = {}
    if rng:
        path = "%s::Integer%s::" % (("compressors", "Compressor") if which == "C" else ("decompressors", "Decompressor"))
        b, pc = E.run(path + "new", [const(bits, 32), const(2, 32), const(8, 32), const(rng, 32)], vg.TRUE, st, {})
        st[("B",)] = b
        r, pc = E.run(path + "init", [ptr(("B",))], pc, st, {})
        return E.getroot(st, ("B",)), pc, st
    path = "%s::Integer%sBuilder::" % (("compressors", "Compressor") if which == "C" else ("decompressors", "Decompressor"))
    b, pc = E.run(path + "new", [], vg.TRUE, st, {})
    st[("B",)] = b
    r, pc = E.run(path + "bits", [ptr(("B",)), const(bits, 32)], pc, st, {})
    r, pc = E.run(path + "contexts", [ptr(("B",)), const(2, 32)], pc, st, {})
    v, pc = E.run(path + "build_initialized", [ptr(("B",))], pc, st, {})
    return v, pc, st


def corrections(bits, k):
    """[(label, correction term, constraint)] of the corrections coded with k bits, in the width of the coder"""
    free = sym("fraction", k - 1) if 1 < k < 32 else None
    if k == 0:
        return [("0", const(0, 32)), ("1", const(1, 32))]
    if k == 32:
        return [("-2^31", const(1 << 31, 32))]
    top = vg.mkcat((vg.pieces(free) if free is not None else []) + [(None, 1, 33 - k)])       # 2^(k-1) + fraction
    out = [("negative", vg.neg(top) if bits >= 32 or free is None else sub(vg.zext(free, 32), const((1 << k) - 1, 32)))]
    if k < bits:
        out.append(("positive", add(top, const(1, 32))))
    return out


def bitwise(t):
    """t as a sum over single bits (complements written out)"""
    def f(x):
        k, d = vg._lin(x)
        out = {}
        for y, c in d.items():
            if y.op != "cat":
                out[y] = out.get(y, 0) + c
                continue
            pos = 0
            for p, lo, l in y.args:
                if p is None:
                    k += c * (lo << pos)
                else:
                    comp = p.op == "lin" and p.args[0] == (1 << p.w) - 1 and len(p.args[1]) == 1 and p.args[1][0][1] == (1 << p.w) - 1
                    src = p.args[1][0][0] if comp else p
                    for i in range(l):
                        b = vg._zext(vg._slice(src, lo + i, 1), x.w)
                        e = c << (pos + i)
                        if comp:
                            k += e
                            e = -e
                        out[b] = out.get(b, 0) + e
                pos += l
        return vg.mklin(k, out, x.w)
    return vg.apply_n("bitwise", f, (t,))


def integer(P, a):
    """the integer decompressor gives back what the compressor was given: for each number k of correction bits"""
    bits, k = a[:2]
    rng = a[2] if len(a) > 2 else 0
    vg.NOTCAT = True
    o = Out("integer coder of %s, corrections of %d bits" % ("%d values" % rng if rng else "%d bits" % bits, k))
    full = bits >= 32 and not rng
    R = rng or 1 << bits
    pred = sym("prediction", 32)
    names = []
    for lab, c in corrections(bits, k):
        for fold in ((0,) if full else (-1, 0, 1)):
            E = Sides(P)
            v, pc, st = coderstate(E, P, "C", bits, rng)
            real = add(pred, add(c, const(fold * R, 32)))
            q = vg.TRUE
            if not full:
                q = band(ult(pred, const(R, 32)), ult(real, const(R, 32)))
                # the correction taken is the one inside [-R/2, R/2)
                q = band(q, vg.bnot(vg.slt(c, const(-(R // 2), 32))), vg.slt(c, const(R - R // 2, 32)))
            elif k == 31 and lab == "positive":
                q = vg.slt(const(0, 32), c)          # 2^31 is not an i32
            if refuted(q):
                continue
            w = "%s, %s" % (lab, {0: "no folding", 1: "folded up", -1: "folded down"}[fold])
            st[("C",)] = v
            st[("E",)] = sym("encoder", None, ("adt", "encoders::ArithmeticEncoder", (("param", "T"),)))
            ctx = const(1, 32)
            ret, rpc = E.run("compressors::IntegerCompressor::compress", [ptr(("C",)), ptr(("E",)), pred, real, ctx], band(pc, q), st, E.env)
            ks, kpc = E.run("compressors::IntegerCompressor::k", [ptr(("C",))], rpc, st, E.env)
            o.same(ks, const(k, 32), band(q, rpc), "k", "the number of correction bits (%s)" % w)
            items = E.items
            for it in items:
                o.check(refuted(band(q, bnot(it[3]))), "items", "one sequence of coded items (%s)" % w)
            for p in E.problem:
                o.check(False, "items", "%s (%s)" % (p, w))
            o.ob += len(items)
            D = Sides(P, items, names)
            dv, dpc, dst = coderstate(D, P, "D", bits, rng)
            dst[("C",)] = dv
            dst[("E",)] = sym("decoder", None, ("adt", "decoders::ArithmeticDecoder", (("param", "T"),)))
            ret, rpc = D.run("decompressors::IntegerDecompressor::decompress", [ptr(("C",)), ptr(("E",)), pred, ctx], band(dpc, q), dst, D.env)
            for p in D.problem:
                o.check(False, "items", "%s (%s)" % (p, w))
            o.check(D.k == len(items), "items", "every coded item is decoded (%s): %d of %d" % (w, D.k, len(items)))
            o.same(bitwise(D.project(ret, "Ok.0")), bitwise(real), band(q, rpc), "integer", "the value (%s)" % w)
            ks, kpc = D.run("decompressors::IntegerDecompressor::k", [ptr(("C",))], rpc, dst, D.env)
            o.same(ks, const(k, 32), band(q, rpc), "k", "the number of correction bits seen by the decoder (%s)" % w)
    vg.NOTCAT = False
    m = {}
    for x, y in names:
        o.check(m.setdefault(x, y) == y, "models", "one decoder model for each encoder model: %s with %s and %s" % (x, m[x], y))
    o.check(len(set(m.values())) == len(m), "models", "one encoder model for each decoder model")
    return o


RANGES = [1, 2, 3, 4, 5, 7, 8, 9, 100, 127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 30) + 1, (1 << 31) - 1, 1 << 31]


def settings(P, _):
    """an integer coder set up for a width or for a number of values: the corrections it allows, the same on both sides"""
    o = Out("integer coder settings")
    for bits, rng in [(b, 0) for b in range(1, 33)] + [(b, r) for b in (16, 32) for r in RANGES]:
        if rng:
            cb, R = rng.bit_length() - (rng & (rng - 1) == 0), rng
        else:
            cb, R = bits, (1 << bits if bits < 32 else 0)
        lo = -(R // 2) if R else -(1 << 31)
        hi = lo + R - 1 if R else (1 << 31) - 1
        for side, f, full in (("compressor", "compressors::IntegerCompressor::new", True), ("decompressor", "decompressors::IntegerDecompressor::new", False)):
            E = Coder(P)
            v, pc = E.run(f, [const(bits, 32), const(3, 32), const(8, 32), const(rng, 32)], vg.TRUE, {}, {})
            have = [x["n"] for w in P.adts[f.rsplit("::", 1)[0]]["variants"] for x in w["f"]]
            for n, x in (("k", 0), ("contexts", 3), ("bits_high", 8), ("corr_bits", cb), ("corr_range", R)) + ((("corr_min", lo), ("corr_max", hi)) if full else ()):
                if n in have:
                    o.same(E.project(v, n), const(x & 0xFFFFFFFF, 32), pc, "settings", "%s of a %s of %d bits%s" % (n, side, bits, " and %d values" % rng if rng else ""))
    return o


def due(P, _):
    """the model is updated after exactly the item that exhausts its countdown, with that item counted, on both sides"""
    o = Out("update due")
    for kind in ("symbol", "bit"):
        for side in ("enc", "dec"):
            for s in (0, 1):
                E = Coder(P)
                got = []
                upd = "models::%s::update" % ("ArithmeticModel" if kind == "symbol" else "ArithmeticBitModel")

                def h(ev, c):
                    if not refuted(c.pc):
                        got.append((c.args[0], ev.load(c.st, c.args[0]), c.pc))
                    return vg.UNIT
                E.hooks = dict(E.hooks)
                E.hooks[upd] = h
                L = sym("length", 32)
                if kind == "symbol":
                    m = model_of(E, 2)
                    m = E.setpath(m, ("distribution", "#arr"), E.setindex(E.project(E.project(m, "distribution"), "#arr"), const(0, 64), const(0, 32)))
                    m = E.setpath(m, ("decoder_table",), E.vec(arr("table"), const(0, 64), ("prim", "u32")))
                    X, Z = intervals(E, m, L, s, 2)
                    Y = sub(L, X) if s else sub(Z, X)
                    facts = band(ult(X, L), ge(Y, const(512, 32)), bnot(ult(L, Y)), None if s else ult(X, Z), None if s else ult(Z, L), known(E, m, L, sym("value", 32), 2, s) if side == "dec" else None)
                    cnt, name = E.project(m, "symbols_until_update"), "symbol"
                else:
                    m = sym("bit model", None, ("adt", BIT, ()))
                    p = E.project(m, "bit_0_prob")
                    x = vg._mul(p, vg._shr(L, 13))
                    facts = band(ult(const(0, 32), p), ult(p, const(1 << 13, 32)), ge(x, const(2048, 32)), ult(x, L), ge(sub(L, x), const(2048, 32)))
                    V = sym("value", 32)
                    if side == "dec":
                        facts = band(facts, ge(V, x) if s else ult(V, x))
                    Y = sub(L, x) if s else x
                    cnt, name = E.project(m, "bits_until_update"), "bit"
                facts = band(facts, eq(cnt, const(1, 32)))
                if side == "enc":
                    st, pc = E.encoder(5, NBUF, 0)
                    f, args = ENC + "encode_" + name, [ptr(("E",)), ptr(("M",)), const(s, 32)]
                else:
                    st, pc = E.decoder()
                    pc = band(pc, ult(E.project(E.getroot(st, ("D",)), "value"), L))
                    f, args = DEC + "decode_" + name, [ptr(("D",)), ptr(("M",))]
                st[("M",)] = m
                E.run(f, args, band(pc, facts), st, E.env)
                w = "%s %d, %s" % (kind, s, side)
                o.check(len(got) == 1 and all(refuted(band(pc, facts, c, bnot(q))) for _, _, q in got for c, _ in shifts(E, Y)), "due", "the model is updated once when its countdown ends (%s): %d times" % (w, len(got)))
                for q, mm, upc in got:
                    o.check(q.args[0] == ("M",), "due", "the coded model is the one updated (%s)" % w)
                    x = band(facts, upc)
                    if kind == "symbol":
                        c0, c1 = [E.project(E.project(y, "symbol_count"), "#arr") for y in (m, mm)]
                        for k in (0, 1):
                            e = E.index(c0, const(k, 64))
                            o.same(E.index(c1, const(k, 64)), add(e, const(1, 32)) if k == s else e, x, "due", "the count of symbol %d when the model is updated (%s)" % (k, w))
                    else:
                        o.same(E.project(mm, "bit_0_count"), add(E.project(m, "bit_0_count"), const(1 - s, 32)), x, "due", "the count of zero bits when the model is updated (%s)" % w)
    return o


FIELDS = {"encoders::ArithmeticEncoder": ("out_buffer", "base", "length", "out_byte", "end_byte"), "decoders::ArithmeticDecoder": ("in_stream", "value", "length"),
          SYM: ("symbols", "compress", "distribution", "symbol_count", "decoder_table", "total_count", "update_cycle", "symbols_until_update", "last_symbol", "table_size", "table_shift"),
          BIT: ("bit_0_count", "bit_count", "bit_0_prob", "bits_until_update", "update_cycle")}


def patterns(n, deep):
    """ways the starts of n symbols fall into the slots of the decoder table"""
    bits = 3
    while n > 1 << (bits + 2):
        bits += 1
    t = 1 << bits
    out = [[k * t // n for k in range(n)], [0] * (n - 1) + [t - 1], [0] + [t - 1] * (n - 1), [0] * n, [0] * (n // 2) + [t // 2] * (n - n // 2),
           [min(t - 1, k // 2) for k in range(n)], [min(k, t - 1) for k in range(n)], [0] + [1 + k * (t - 1) // n for k in range(1, n)]]
    if deep:
        import random
        r = random.Random(n)
        out += [[0] + sorted(r.randrange(t) for _ in range(n - 1)) for _ in range(24)]
    return out


def job(a):
    path, rpath, fn, arg = a
    vg.reset()
    f = globals()[fn]
    try:
        P = Prog(path)
        x = (P, Prog(rpath)) if fn in ("update", "newmodel", "bitupdate", "table2") else P
        o = f(x, arg)
        return fn, arg, o.lab, o.ob, o.viol, None
    except KeyError as e:
        return fn, arg, fn, 1, [], "Unmodelled: %s %s: the function or field it is anchored at is not there (%s)" % (fn, str(arg)[:40], e)
    except (MemoryError, TimeLimit):
        raise
    except Exception as e:
        import os, traceback
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return fn, arg, fn, 1, [("undecided:" + fn, "%s %s: %s %s" % (fn, str(arg)[:60], type(e).__name__, str(e)[:300]))], None


def run(ctx):
    path = ctx.facts()["default"]
    import runner
    rpath = runner.facts("/verif/ref", ("default",))["default"]
    P = ctx.prog("default")
    need = [ENC + x for x in ("new", "encode_bit", "encode_symbol", "write_bits", "write_int", "done")] + [DEC + x for x in ("new", "decode_bit", "decode_symbol", "read_bits", "read_int", "read_init_bytes")]
    need += ["models::ArithmeticModel::new", "models::ArithmeticModel::update", "models::ArithmeticBitModel::update", "compressors::IntegerCompressor::compress", "decompressors::IntegerDecompressor::decompress"]
    for x in need:
        if x not in P.bodies:
            ctx.undecided([("anchor", "Unmodelled: no function " + x)])
    for t, fs in FIELDS.items():
        have = [x["n"] for v in P.adts.get(t, {}).get("variants", []) for x in v["f"]]
        for f in fs:
            if f not in have:
                ctx.undecided([("anchor", "Unmodelled: no field %s of %s" % (f, t))])
    if ctx.und:
        ctx.explanation = "The coders do not have the functions or fields the analysis is anchored at: no verdict."
        return
    deep = ctx.deep
    jobs = []
    for i in range(0, len(LAY), 2):
        l = LAY[i:i + 2]
        jobs += [("symenc", l), ("bitcase", l), ("wide", l) if i == 0 else ("finish", l)]
    jobs.append(("finish", LAY[:2]))
    jobs += [("symdec", (n, None)) for n in (range(2, 17) if not deep else range(2, 25))]
    shapes = [(a, b) for a in range(0, 17) for b in range(a, 17) if b - a in ((0, 1, 2, 3, 7, 16) if not deep else range(17))]
    jobs += [("symdec", (17, shapes[i::8])) for i in range(8)]
    jobs += [("rawcase", (LAY if i < 3 or deep else LAY[i % 4::4], r)) for i, r in enumerate(RAW)]
    jobs += [("start", None), ("due", None), ("settings", None)]
    jobs += [("update", (n, c)) for n in (2, 3, 5, 9, 16) for c in (0, 1)] + [("update", (40, 1))] + [("bitupdate", 0)]
    for n in (17, 33, 64) if not deep else (17, 18, 33, 64, 66, 128):
        jobs += [("table", w) for w in patterns(n, deep)]
    jobs += [("newmodel", (n, c)) for n in (2, 3, 4, 5, 6, 9, 13, 16, 17, 33, 64, 66, 128, 256, 516) for c in (0, 1)]
    if deep:
        jobs += [("newmodel", (n, c)) for n in (18, 20, 22, 48, 65, 129, 257, 512, 515, 1024, 2048) for c in (0, 1)]
    jobs += [("integer", (b, k)) for b in (8, 16, 32) for k in range(b + 1)]
    jobs += [("integer", (n, k, r)) for r in RANGES if r <= 1 << 20 for n in (r.bit_length() - (r & (r - 1) == 0),) for k in range(n + 1)]
    slow = {"symenc": 0, "newmodel": 1, "table": 2, "symdec": 3}
    jobs.sort(key=lambda j: (slow.get(j[0], 9), -(j[1][0] if j[0] == "newmodel" else 0)))
    res = pmap(job, [(path, rpath) + j for j in jobs], 800)
    cases = {}
    for fn, arg, lab, ob, viol, und in res:
        ctx.ob(lab, ob)
        cases[fn] = cases.get(fn, 0) + 1
        if und:
            ctx.undecided([("%s %s" % (fn, str(arg)[:40]), und)])
        for k, what in viol:
            ctx.viol("%s:%s" % (k if k.startswith("undecided") else fn, k), what)
        if not viol and not und:
            ctx.sample("%s: %d obligations" % (lab, ob))
    ctx.extra["cases"] = cases
    for fn, n in (("symenc", 5), ("symdec", 15), ("rawcase", 15), ("integer", 50), ("newmodel", 20), ("update", 8), ("table", 12)):
        ctx.floor(fn + " cases", cases.get(fn, 0), n)
    ctx.explanation = ("Each coding step is evaluated from an arbitrary interval and model, for a position of the output buffer and a length of pending carry (in the middle, at both half ends and around them). "
                       "The encoder must move to exactly the interval of the coded value and its bytes (written out or pending) must be the number base + X shifted by the renormalisation, with the carry propagated; the decoder, for every "
                       "value inside that interval, must return the coded value, keep its value relative to the same new interval and take as many bytes. Models must be counted and updated alike and as the reference model is, "
                       "new models and their intervals be the format's, the decoder's table bracket every quotient, and the integer decompressor return what the compressor was given for each number of correction bits.")
    ctx.assumptions = ["the interval invariants (length at least 2^24, non-empty intervals of at least 512) hold; they follow from the model and renormalisation", "pending carry chains shorter than half the buffer",
                       "decoder tables of updated models are checked for sampled patterns of starts; update of models of more than 16 symbols is compared for the encoder's kind"]
