"""C14: a selection decides exactly which fields are decoded, and leaves everything else as it is."""
from pool import pmap
import vg
from vg import mk, const, isc, cval, band, bnot, Unsupported
from prog import Prog
import codec
from codec import Side, decomp_hooks, comp_hooks, ptr, provable_eq, refuted
import layer
from layer import NCTX, TD, LSide
from dispatch import Record, item

LEVEL = "other"
TRUSTED = ["rustc's MIR of /repo", "the value engine in /verif/lib", "models of std functions in /verif/lib/models.py"]
SEL = "las::selective::DecompressionSelection"
FIELDS = ["z", "classification", "flags", "intensity", "scan_angle", "user_data", "point_source_id", "gps_time", "rgb", "nir", "wavepacket", "extra_bytes"]
BITS = {n: i for i, n in enumerate(FIELDS)}


def rng(a, b):
    return set(range(a, b))


# LAS 1.4 point record formats 6..10: bits of the 30 byte core (little-endian)
CORE = {"z": rng(64, 96), "intensity": rng(96, 112), "flags": rng(120, 124) | rng(126, 128), "classification": rng(128, 136), "user_data": rng(136, 144),
        "scan_angle": rng(144, 160), "point_source_id": rng(160, 176), "gps_time": rng(176, 240)}


def wanted(name, i, nbytes):
    """(layer's bits -> selection field) of one layered field coder"""
    if name == "Point14":
        return dict(CORE)
    if name in ("RGB14", "RGBNIR14") and i == 0:
        return {"rgb": rng(0, 48)}
    if name == "RGBNIR14":
        return {"nir": rng(0, 16)}
    if name == "WavePacket14":
        return {"wavepacket": rng(0, 8 * nbytes)}
    return {"extra_bytes": rng(0, 8 * nbytes)}


def mask(E):
    m = mk("sym", ("mask",), 32)
    return m, mk("st", (("adt", SEL, ()), None, (("0", m),)))


def bitset(m, k):
    return bnot(vg.eq(vg.bitop("and", m, const(1 << k, 32)), const(0, 32)))


def selection(p):
    """request flag (concrete family) -> bit of the mask it stands for"""
    D = LSide(p.PD, "D", hooks=decomp_hooks())
    D.prune = refuted
    D.structural = p.D.structural
    m, sv = mask(D)
    st = {("S",): p.plain(D, p.dinit, p.dty)}
    pre = st[("S",)]
    b, e = p.method(D, TD, "set_selection", p.dty)
    e["R"] = ("param", "R")
    D.run(b, [ptr(("S",)), sv], vg.TRUE, st, e)
    ch = p.boolfams(D, pre, st[("S",)])
    out = {}
    for f, v in ch.items():
        ks = [k for k in range(32) if provable_eq(v, bitset(m, k), vg.TRUE)]
        out[f] = ks[0] if len(ks) == 1 else None
    return out, pre, st[("S",)], D


def one(a):
    path, key, layers = a
    lab = layer.label(*key)
    vg.reset()
    try:
        P = Prog(path)
        p = layer.build(P, *key)
        p.viol, p.obl = [], 0
        rows = []
        sel, pre, post, D = selection(p)
        want = wanted(key[0], key[3], p.n)
        if 0 in layers:
            for f in sel:
                p.ob(any(f in (l[4] if len(l) > 4 else []) for l in p.layers), "set_selection changes %s, which does not decide about a layer" % f, "stray:" + f)
            # nothing else of the decoder changes
            for q, k, t, v in p.fd:
                if k != "scalar" or t[1] == "bool":
                    continue
                for ks in p.expand(D, pre, q) if q.count("[]") <= 1 else []:
                    x, y = p.at(D, pre, q, ks), p.at(D, post, q, ks)
                    p.ob(x is y, "set_selection changes %s" % codec.fstr(q), "state:" + codec.fstr(q))
            # a new decoder decodes everything
            for l in p.layers:
                for f in (l[4] if len(l) > 4 else []):
                    try:
                        v = p.at(p.D, p.dinit, *p.where(p.D, f))
                    except Unsupported:
                        continue
                    p.ob(isc(v) and cval(v) == 1, "a new decoder does not decode layer %s" % l[1], "default:" + f)
        seen = set()
        for i in p.gated():
            l = p.layers[i]
            if i not in layers:
                continue
            req = l[4]
            if len(req) != 1:
                p.ob(False, "layer %s is loaded on %s" % (l[1], req or "no request"), "request:" + l[1])
                continue
            bit = sel.get(req[0])
            p.ob(bit is not None and bit < len(FIELDS), "whether layer %s is decoded does not follow one bit of the selection" % l[1], "bit:" + l[1])
            loose = layer.fixpoint(p, i, False, list(p.partitions()))
            own = p.ownbits.get(i, set())
            name = FIELDS[bit] if bit is not None and bit < len(FIELDS) else "?"
            exp = want.get(name)
            if key[0] == "Byte14" and exp is not None:
                k = sorted(own)[0] // 8 if own else -1
                exp = rng(8 * k, 8 * k + 8)
            p.ob(exp is not None and own == exp, "layer %s is decoded on request of %s but holds bits %s of the field" % (l[1], name, runs(own)), "bits:" + l[1])
            rows.append((name, runs(own), sorted(own), sorted(loose)))
        fixed = [l for l in p.layers if l[3] is None]
        return lab, p.obl, p.viol, rows, [l[1] for l in fixed], p.n, len(p.layers)
    except Exception as e:
        return lab, 0, [("undecided", "%s %s" % (type(e).__name__, e), getattr(e, "where", "") or "")], [], [], 0, 0


def runs(bits):
    out = []
    for b in sorted(bits):
        if out and out[-1][1] == b:
            out[-1][1] = b + 1
        else:
            out.append([b, b + 1])
    return ["%d..%d" % (a, b) for a, b in out]


def builder(ctx, P):
    """the methods of DecompressionSelection"""
    ty = ("adt", SEL, ())
    n = 0

    def fn(name):
        c = [k for k, b in P.bodies.items() if b.get("name") == name and b.get("impl_self") is not None and b.get("impl_trait") is None and P.rty(b["impl_self"]) == ty]
        return c[0] if len(c) == 1 else None

    def run(name, arg):
        E = Side(P, "D", hooks={})
        E.prune = refuted
        b = fn(name)
        if b is None:
            raise Unsupported("no method " + name)
        return E.run(b, [arg] if arg is not None else [], vg.TRUE, {}, {})[0]
    E = Side(P, "D", hooks={})
    m, sv = mask(E)
    for f in FIELDS:
        k = BITS[f]
        for name, w in (("decompress_" + f, lambda: vg.bitop("or", m, const(1 << k, 32))), ("skip_" + f, lambda: vg.bitop("and", m, const(0xFFFFFFFF ^ (1 << k), 32)))):
            try:
                v = E.project(run(name, sv), "0")
                ok = provable_eq(v, w(), vg.TRUE)
            except Exception as e:
                ctx.viol("builder:" + name, "%s: %s" % (name, e))
                continue
            n += 1
            ctx.ob("builder", 1)
            if not ok:
                ctx.viol("builder:" + name, "%s does not change exactly the bit of its field" % name, fn(name))
        try:
            v = run("should_decompress_" + f, sv)
            n += 1
            ctx.ob("builder", 1)
            if not provable_eq(v, bitset(m, k), vg.TRUE):
                ctx.viol("builder:should_decompress_" + f, "should_decompress_%s does not read the bit of its field" % f, fn("should_decompress_" + f))
        except Exception as e:
            ctx.viol("builder:should_decompress_" + f, "%s" % e)
    for name, w in (("all", 0xFFFFFFFF), ("base", 0), ("xy_returns_channel", 0)):
        try:
            v = E.project(run(name, None), "0")
            n += 1
            ctx.ob("builder", 1)
            known = (1 << len(FIELDS)) - 1
            if not isc(v) or (cval(v) & known) != (w & known):
                ctx.viol("builder:" + name, "%s() does not select %s" % (name, "everything" if w else "nothing"), fn(name))
        except Exception as e:
            ctx.viol("builder:" + name, "%s" % e)
    return n


def run(ctx):
    path = ctx.facts()["parallel"]
    P = ctx.prog()
    fp = layer.field_pairs(P)
    ctx.floor("layered field codec pairs", len(fp), 10)
    ctx.floor("builder methods", builder(ctx, P), 30)
    forwarded(ctx, P)
    jobs = []
    for k in fp:
        if k[0] == "Point14":
            jobs = [(path, k, (i,)) for i in range(0, 12)] + jobs
        else:
            jobs.append((path, k, tuple(range(64))))
    res = pmap(one, jobs)
    by = {}
    for (_, key, _), (lab, obl, viol, rows, fixed, nb, nl) in zip(jobs, res):
        ctx.ob(lab, obl)
        x = by.setdefault(lab, [key, set(), 0, []])
        for name, rs, own, loose in rows:
            x[1] |= set(own)
            x[3].append(name)
            ctx.sample("%s: %s holds bits %s; stale when skipped: %s" % (lab, name, rs, loose))
        x[2] = max(x[2], nb)
        for k, what, where in viol:
            ctx.viol("%s:%s" % (lab, k), "%s: %s" % (lab, what), where)
    for lab, (key, own, nb, names) in by.items():
        want = wanted(key[0], key[3], nb)
        exp = set().union(*want.values())
        ctx.ob(lab, 1)
        if own != exp or sorted(set(names)) != sorted(want):
            ctx.viol("%s:selectable" % lab, "%s: the parts that can be left out are %s (%s)" % (lab, sorted(set(names)), runs(own)))
    ctx.extra["layers that can be left out"] = sum(len(x[3]) for x in by.values())
    ctx.explanation = ("The selection's methods are evaluated for every mask. For each layered decoder, set_selection is evaluated on an arbitrary state (which request follows which bit) and, per layer, the decode step is "
                       "evaluated with that layer missing, for an arbitrary point and any (stale) state the missing layer would have kept: the layer is not decoded, every other coded item is decoded with the same "
                       "model, context, prediction and condition, every bit outside the layer's own and all other state is as the encoder's. The layer's own bits must be the field's bits of the LAS record.")
    ctx.assumptions = ["extra bytes analysed for 1, 2 and 5 bytes", "layers are considered missing one at a time (their effects are shown not to overlap)"]


def forwarded(ctx, P):
    """the layered record decoder hands the selection to every field decoder"""
    for items in ([("Point14", 0), ("RGBNIR14", 0), ("Byte14", 3)], [("Point14", 0), ("RGB14", 0), ("WavePacket14", 0)]):
        lab = "record " + "+".join(n for n, _ in items)
        try:
            got = []

            def h(ev, c):
                got.append((c.args[0], c.args[1], c.pc))
                return vg.UNIT
            r = Record(P, "D", "lay", [item(P, n, 3, k, k) for n, k in items], real=("decoders::ArithmeticDecoder::<T>::new",))
            E = r.ev
            E.hooks[TD + "::set_selection"] = h
            for t, v in r.fields:
                x = P.find_impl(TD, "set_selection", t)
                if x:
                    E.hooks[x[0]] = h
            m, sv = mask(E)
            hit = P.find_impl("record::RecordDecompressor", "set_selection", r.ty)
            E.run(hit[0], [ptr(("REC",)), sv], vg.TRUE, r.st, dict(hit[1], R=("param", "R")))
            vals = [E.load(r.st, p) for p, _, pc in got]
            ctx.ob(lab, 1 + len(r.fields))
            seen = set()
            for (p, s, pc), v in zip(got, vals):
                if pc is not vg.TRUE or not provable_eq(E.project(s, "0"), m, vg.TRUE):
                    ctx.viol(lab + ":mask", "%s: a field decoder does not get the selection as it is" % lab, hit[0])
                seen.add((p.args[0], str(p.args[1])))
            if len(seen) != len(r.fields):
                ctx.viol(lab + ":fields", "%s: %d of %d field decoders get the selection" % (lab, len(seen), len(r.fields)), hit[0])
        except Exception as e:
            ctx.viol(lab + ":undecided", "%s: %s %s" % (lab, type(e).__name__, e))
