"""C17: no value of a point makes a field codec panic: arithmetic, indices, shifts and divisions stay in range."""
from pool import pmap
import vg, layer, facts, ranges
from vg import isc, cval, band, bnot
from prog import Prog, width
from codec import PointPair, fstr
from dispatch import Record, item
from layer import NCTX, LayeredPair
import c11

LEVEL = "other"
TRUSTED = c11.TRUSTED
STEPS = (1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 32767, 65535)


class Note:
    """the places that would panic, with their conditions, the values the state takes, and what is coded"""

    def __init__(self):
        self.seen, self.posts, self.units, self.n = [], [], 0, 0
        self.alph, self.coded = {}, []

    def arm(self, *sides):
        for s in sides:
            s.panics, s.overflows, s.nchecked = [], True, 0

    def take(self, *sides):
        for s in sides:
            for cond, kind, where, body in s.panics:
                self.seen.append((s.kind, cond, kind, where, body))
            self.n += s.nchecked
            s.panics, s.overflows, s.nchecked = None, False, 0


class SeqWatch(PointPair):
    def step(self, cs, ds):
        if getattr(self, "done", None) is None:
            self.done = set()
        N = self.note
        N.arm(self.C, self.D)
        cst = self.c_run("compress_with", cs)
        self.d_run("decompress_with", ds)
        N.take(self.C, self.D)
        N.posts.append(values(self, self.C, cst))
        domain(N, self, self.C, (self.cinit, self.C.getroot(cst, ("S",))), models, self.C.events)
        N.units += 2

    def first(self):
        N = self.note
        N.arm(self.C, self.D)
        cst = self.c_run("compress_first", self.cinit)
        self.d_run("decompress_first", self.dinit)
        N.take(self.C, self.D)
        N.base = values(self, self.C, cst)
        N.units += 2


def values(p, ev, st):
    """family -> value after the point (arrays: at an arbitrary index)"""
    post = ev.getroot(st, ("S",))
    out = []
    for q, k, t, v in p.fc:
        if k == "scalar" and t[1] != "bool" and q[-1] != "#len" and width(t):
            try:
                out.append(("s." + fstr(q), p.leaf(ev, post, q)))
            except vg.Unsupported:
                pass
    return out


def lvalues(p, ev, st):
    post = ev.getroot(st, ("S",))
    out = []
    for q, k, t, ks, j in p.slots(ev, post, post, p.fc):
        if k == "scalar" and t[1] != "bool" and q[-1] != "#len" and width(t):
            try:
                out.append(("s." + fstr(q), p.at(ev, post, q, ks)))
            except vg.Unsupported:
                pass
    return out


class LayWatch(LayeredPair):
    def step(self, cur, new, fresh):
        N = self.note
        C, D = self.C, self.D
        D.boolfix = {f: 1 for f in self.dflags}
        cs, ds = self.setup_step(cur, new, fresh)
        ctx = self.ctxin(new)
        N.arm(C, D)
        cst = self.c_step(cs, new, ctx)
        self.d_step(ds, ctx)
        N.take(C, D)
        N.posts.append(lvalues(self, C, cst))
        domain(N, self, C, cst, lmodels, C.events)
        N.units += 2

    def first(self, ch):
        N = self.note
        self.part = ("first", ch)
        self.D.boolfix = {}
        ctx = self.ctxin(ch)
        N.arm(self.C, self.D)
        cst = self.c_first(self.cinit, ch, ctx)
        self.d_first(self.dinit, ctx)
        N.take(self.C, self.D)
        N.base = getattr(N, "base", []) + lvalues(self, self.C, cst)
        domain(N, self, self.C, cst, lmodels, ())
        N.units += 2


def domain(note, p, ev, st, vals, events):
    """symbols stay below the alphabets of their models, contexts below those of their integer coders"""
    n = note.alph
    for f, v in vals(p, ev, st):
        for l in made(v):
            n.setdefault(f, set()).add(l.args[1] if l.args[0] == "model" else l.args[2])
    for e in events:
        if e.kind in ("sym", "ic"):
            note.coded.append((e.kind, e.fam, e.args[0] if e.kind == "sym" else e.args[2], e.pc, e.where))


def made(v):
    """the models and coders made that occur in a value"""
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, vg.Term) and x.id not in seen:
            seen.add(x.id)
            if x.op == "op" and x.args[0] in ("model", "ic"):
                out.append(x)
            else:
                st.extend(x.args)
    return out


def models(p, ev, st):
    return [(fstr(q), p.leaf(ev, v, q)) for v in st for q, k, t, _ in p.fc if k in ("model", "ic")]


def lmodels(p, ev, st):
    post = ev.getroot(st, ("S",))
    return [(fstr(q), p.at(ev, post, q, ks)) for q, k, t, ks, j in p.slots(ev, post, post, p.fc) if k in ("model", "ic")]


def plain(f):
    return __import__("re").sub(r"\[\d*\]", "[]", f)


def coded(N):
    """conditions that a coded symbol is beyond its alphabet or a context beyond its coder's"""
    al = {}
    for f, ns in N.alph.items():
        al.setdefault(plain(f), set()).update(ns)
    for kind, fam, v, pc, where in N.coded:
        ns = al.get(plain(fam))
        what = "symbol beyond the alphabet" if kind == "sym" else "context beyond the coder's"
        if not ns:
            raise vg.Unsupported("no alphabet known for %s" % fam)
        for n in ns:
            N.n += 1
            N.seen.append(("C", band(pc, bnot(vg.ult(v, n))), what, where, fam))


def hull(vals, fam, fams):
    R = ranges.Ranges(None, fams)
    rs = []
    for f, v in vals:
        if ranges.famkey(f) == fam:
            for l in vg.leafset(v):
                if l.op != "bot":
                    rs.append(R.u(l))
    return max([b for _, b in rs]) if rs else 0


def within(vals, fam, fams):
    """the family's values stay within its range"""
    hi = fams[fam][1]
    for f, v in vals:
        if ranges.famkey(f) != fam:
            continue
        w = next((l.w for l in vg.leafset(v) if l.op != "bot"), None)
        if w is None or hi >= (1 << w) - 1:
            continue
        bad = bnot(vg.apply_n(("upto", hi), lambda x: vg.FALSE if x.op == "bot" else vg.inset(x, [(0, hi + 1)]), (v,)))
        if ranges.excluded(bad, fams, facts.infeasible) is not None:
            return False
    return True


def mentioned(path):
    out = set()
    seen, st = set(), [s for s, _, _ in path]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, vg.Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "leaf":
            out.add(ranges.famkey(x.args[0]))
        st.extend(x.args)
    return out


def decide(N):
    """[(side, kind, where, body, path)] of the panics that are not excluded, and the ranges of the state used"""
    open_ = {}
    for side, cond, kind, where, body in N.seen:
        if facts.refuted(cond):
            continue
        p = ranges.excluded(cond, {}, facts.infeasible)
        if p is not None:
            open_.setdefault((side, kind, where, body), []).append((cond, p))
    if not open_:
        return [], {}
    want = set()
    for v in open_.values():
        for c, p in v:
            want |= mentioned(p[-3:])
    fams = {f: (0, hull(N.base, f, {})) for f in want}
    fams = {f: (0, next((s for s in STEPS if s >= hi), None)) for f, (_, hi) in fams.items()}
    fams = {f: r for f, r in fams.items() if r[1] is not None}
    go = True
    while go:
        go = False
        for f in list(fams):
            if not all(within(vs, f, fams) for vs in N.posts + [N.base]):
                nx = next((s for s in STEPS if s > fams[f][1]), None)
                if nx is None:
                    del fams[f]
                else:
                    fams[f] = (0, nx)
                go = True
    out = []
    for k, v in sorted(open_.items()):
        for c, p in v:
            q = ranges.excluded(c, fams, facts.infeasible)
            if q is not None:
                out.append(k + (q,))
                break
    return out, fams


def report(lab, N):
    coded(N)
    bad, fams = decide(N)
    viol = []
    for side, kind, where, body, path in bad:
        o = [s for s, lo, hi in path if s.op == "op" and s.args[0] == "ovf" and lo == 1]
        what = "%s of %s and %s" % (o[-1].args[1].lower(), vg.show(o[-1].args[3], 3)[:120], vg.show(o[-1].args[4], 3)[:120]) if o else vg.show(path[-1][0], 3)[:200] if path else "always"
        viol.append(("%s:%s:%s" % ("encoder" if side == "C" else "decoder", kind, body.split("::{impl")[0]), "the %s can panic (%s): %s" % ("encoder" if side == "C" else "decoder", kind, what), where))
    inv = ["%s <= %d" % (f[2:], r[1]) for f, r in sorted(fams.items())]
    return lab, N.units, N.n, viol, inv


def seq(a):
    path, (name, ver, n, i) = a
    P = Prog(path)
    vg.reset()
    lab = "%s v%d%s" % (name, ver, " x%d" % n if n else "")
    N = Note()
    try:
        c = Record(P, "C", "seq", [item(P, name, ver, n, n)])
        r = Record(P, "D", "seq", [item(P, name, ver, n, n)])
        (ct, cv), (dt, dv) = c.fields[i], r.fields[i]
        p = SeqWatch(P, ct, dt, label=lab)
        p.given = {"C": cv, "D": dv}
        p.note = N
        if n:
            p.C.structural.add(n)
            p.D.structural.add(n)
        p.analyse(cval(c.field_size(i, "record::FieldCompressor")))
        return report(lab, N)
    except Exception as e:
        if __import__("os").environ.get("VERIF_DEBUG"):
            __import__("traceback").print_exc()
        return lab, N.units, 0, [("undecided", "%s %s" % (type(e).__name__, e), getattr(e, "where", "") or "")], []


def lay(a):
    path, key = a
    lab = layer.label(*key)
    vg.reset()
    N = Note()
    try:
        P = Prog(path)
        p = layer.build(P, *key, cls=LayWatch)
        p.note = N
        for q in p.partitions():
            p.step(*q)
        for ch in range(NCTX):
            p.first(ch)
        return report(lab, N)
    except Exception as e:
        if __import__("os").environ.get("VERIF_DEBUG"):
            __import__("traceback").print_exc()
        return lab, N.units, 0, [("undecided", "%s %s" % (type(e).__name__, e), getattr(e, "where", "") or "")], []


def job(x):
    return x[0](x[1])


def run(ctx):
    path = ctx.facts()["parallel"]
    P = Prog(path)
    js = c11.jobs(P)
    fp = layer.field_pairs(P)
    ctx.floor("codecs", len(js) + len(fp), 18)
    jobs = [(lay, (path, k)) for k in sorted(fp, key=lambda k: k[0] != "Point14")] + [(seq, (path, j)) for j in js]
    for lab, units, n, viol, inv in pmap(job, jobs):
        ctx.ob(lab, n)
        ctx.sample("%s: %d runs, %d conditions shown not to panic, ranges of the state %s" % (lab, units, n, inv))
        for k, what, where in viol:
            ctx.viol("%s:%s" % (lab, k), "%s: %s" % (lab, what), where)
    ctx.assumptions += ["all layers are decoded (streams left out by a selection keep their fields constant)", "the decoder is given what the encoder wrote for the point: decoding other data is N02",
                        "an array index of a state is within its array when the value it was computed from is; ranges of the state are inductive thresholds"]
    ctx.explanation = ("Each field codec of every version is evaluated over MIR from an arbitrary state of the chunk and for an arbitrary point (layered codecs: for every scanner channel context), with the overflow flags of checked "
                       "arithmetic kept. Every condition under which an arithmetic check, a bounds check, an unchecked access, an unwrap or an explicit panic would fire is collected with its path condition and must be impossible: by "
                       "the predicate facts, or by a wrapped-interval analysis (lib/ranges.py) over every path of the conditional value. Where a value kept from point to point is involved, its range is inferred: the least "
                       "threshold that holds for the first point and is kept by every point. In the same way every symbol coded is below the alphabet of its model and every context below the number its integer coder was made with.")
