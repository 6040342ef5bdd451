"""C11: every sequential (version 1, 2) field decoder mirrors its encoder for every point."""
from pool import pmap
import vg
from prog import Prog
from vg import isc, cval, const
from codec import seq_point, PointPair
from dispatch import Record, item, item_types

LEVEL = "other"
TRUSTED = ["rustc's MIR of /repo", "the value engine in /verif/lib (term rewriting, gated values, linear refutation)",
           "models of std functions in /verif/lib/models.py", "the entropy coder contract (a decode with the same model, context and history returns the coded value; C16)"]


def jobs(P):
    """distinct (compressor type, decompressor type, width) pairs the record coders are set up with"""
    out, seen = [], set()
    for name, d, counted in item_types(P):
        for ver in (1, 2):
            for n in ((1, 2, 5) if counted else (0,)):
                c = Record(P, "C", "seq", [item(P, name, ver, n, n)])
                r = Record(P, "D", "seq", [item(P, name, ver, n, n)])
                if not c.ok or not r.ok:
                    continue
                for i in range(min(len(c.fields), len(r.fields))):
                    key = (c.fields[i][0], r.fields[i][0], n)
                    if key not in seen:
                        seen.add(key)
                        out.append((name, ver, n, i))
    return out


def one(a):
    path, (name, ver, n, i) = a
    vg.reset()
    P = Prog(path)
    c = Record(P, "C", "seq", [item(P, name, ver, n, n)])
    r = Record(P, "D", "seq", [item(P, name, ver, n, n)])
    (ct, cv), (dt, dv) = c.fields[i], r.fields[i]
    sz = c.field_size(i, "record::FieldCompressor")
    lab = "%s v%d%s" % (name, ver, " x%d" % n if n else "")
    if not isc(sz):
        return lab, ct[1], dt[1], 0, [("undecided", "unknown field size", "")], 0, []
    try:
        p = seq_point(P, ct, dt, cval(sz), label=lab, given={"C": cv, "D": dv}, structural=(n,) if n else ())
    except Exception as e:
        return lab, ct[1], dt[1], 0, [("undecided", "%s %s" % (type(e).__name__, e), getattr(e, "where", "") or "")], 0, []
    ev = sorted(set("%s %s" % (e.kind, e.fam) for e in p.step_events[0]))
    return lab, ct[1], dt[1], p.obl, p.viol, p.parts, ev


def run(ctx):
    path = ctx.facts()["parallel"]
    P = ctx.prog()
    js = jobs(P)
    ctx.floor("sequential field codec pairs", len(js), 8)
    res = pmap(one, [(path, j) for j in js])
    pairs = []
    for lab, c, d, obl, viol, parts, ev in res:
        ctx.ob(lab, obl)
        ctx.sample("%s: %s / %s, %d obligations, %d partition(s), coded items %s" % (lab, c, d, obl, parts, ev))
        pairs.append((c, d))
        if not ev and not any(v[0] == "undecided" for v in viol):
            ctx.viol("%s:empty" % lab, "no coded item was found for %s" % c)
        for k, what, where in viol:
            ctx.viol("%s:%s" % (lab, k), "%s: %s" % (lab, what), where)
    ctx.extra["pairs"] = len(set(pairs))
    ctx.explanation = ("Each encoder's step is evaluated over the compiler's MIR into gated values for an arbitrary earlier state and an arbitrary point; the decoder's step is evaluated "
                       "with each decode bound to the encoder's coded value. Discharged per pair: same coded items under the same condition, with the same model instance, context, prediction and order; "
                       "every output byte equal to the input byte; every piece of state that matters equal afterwards; same initial state and first point (induction over the points of a chunk).")
    ctx.assumptions = ["field sizes for per-point extra bytes analysed for 1, 2 and 5 bytes (the per-byte loop is uniform)", "usize is 64 bits", "release arithmetic (wrapping); overflow panics are C17's subject"]
