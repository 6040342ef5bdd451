"""C26: the field codecs keep to the LAZ format: interchangeable, point after point, with the reference codecs kept in /verif/ref."""
import os
from pool import pmap
import vg, layer, runner
from prog import Prog
from vg import isc, cval
from codec import seq_point
from dispatch import Record, item, item_types
from layer import NCTX
import c11, c12

LEVEL = "other"
TRUSTED = c11.TRUSTED + ["the reference codecs in /verif/ref (laz-rs at the pinned commit with its repairs, reviewed against the LASzip format)"]
WAYS = ("repo>ref", "ref>repo")


def both(paths, way):
    a, b = Prog(paths[0]), Prog(paths[1])
    return (a, b) if way == "repo>ref" else (b, a)


def seq(a):
    paths, way, (name, ver, n, i) = a
    vg.reset()
    lab = "%s v%d%s %s" % (name, ver, " x%d" % n if n else "", way)
    try:
        PC, PD = both(paths, way)
        c = Record(PC, "C", "seq", [item(PC, name, ver, n, n)])
        r = Record(PD, "D", "seq", [item(PD, name, ver, n, n)])
        if not c.ok or not r.ok or len(c.fields) <= i or len(r.fields) <= i:
            return lab, 1, [("missing", "no codec on one side", "")], []
        (ct, cv), (dt, dv) = c.fields[i], r.fields[i]
        sz = c.field_size(i, "record::FieldCompressor")
        if not isc(sz):
            raise vg.Unsupported("unknown field size")
        p = seq_point(PC, ct, dt, cval(sz), label=lab, given={"C": cv, "D": dv}, structural=(n,) if n else (), dprog=PD)
        return lab, p.obl, p.viol, sorted(set("%s %s" % (e.kind, e.fam) for e in p.step_events[0]))
    except Exception as e:
        return lab, 0, [("undecided", "%s %s" % (type(e).__name__, e), getattr(e, "where", "") or "")], []


def lay(a):
    paths, way, key = a
    lab = "%s %s" % (layer.label(*key), way)
    vg.reset()
    try:
        PC, PD = both(paths, way)
        p = layer.build(PC, *key, PD=PD)
        for q in p.partitions():
            p.step(*q)
        for ch in range(NCTX):
            p.first(ch)
        return lab, p.obl, p.viol, p.evs
    except Exception as e:
        return lab, 0, [("undecided", "%s %s" % (type(e).__name__, e), getattr(e, "where", "") or "")], []


def job(x):
    return x[0](x[1])


def run(ctx):
    path = ctx.facts()["parallel"]
    ref = runner.facts(os.path.join(runner.VERIF, "ref"), ("default",))["default"]
    R = Prog(ref)
    js = c11.jobs(R)
    fp = layer.field_pairs(R)
    ctx.floor("reference codecs", len(js) + len(fp), 18)
    jobs = [(lay, ((path, ref), w, k)) for k in sorted(fp, key=lambda k: k[0] != "Point14") for w in WAYS]
    jobs += [(seq, ((path, ref), w, j)) for j in js for w in WAYS]
    res = pmap(job, jobs)
    for lab, obl, viol, ev in res:
        ctx.ob(lab, obl)
        ctx.sample("%s: %d obligations, coded items %s" % (lab, obl, ev))
        for k, what, where in viol:
            ctx.viol("%s:%s" % (lab, k), "%s: %s" % (lab, what), where)
    ctx.explanation = ("The mirror analysis of C11 and C12 applied across two programs: the encoders of the current source against the reference decoders, and the reference encoders against the decoders of the current source, "
                       "for every item version. Same coded items under the same conditions with the same model alphabets, contexts, predictions, order and layers, same bytes and equivalent states, for every state and point: "
                       "a change made alike to encoder and decoder, which no round trip sees, is seen here.")
    ctx.assumptions = ["the reference codecs are the format (they decode the reference files of the test suite; the rest was reviewed by hand)", "the entropy coders of both programs agree (C16)"]
