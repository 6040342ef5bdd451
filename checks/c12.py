"""C12: every layered (version 3, 4) field decoder mirrors its encoder for every point and context."""
from pool import pmap
import vg
from prog import Prog
import layer
from layer import NCTX

LEVEL = "other"
TRUSTED = ["rustc's MIR of /repo", "the value engine in /verif/lib (term rewriting, gated values, linear refutation)",
           "models of std functions in /verif/lib/models.py", "the entropy coder contract (a decode with the same model, context and history returns the coded value; C16)"]


def one(a):
    path, key, kind, layers = a
    lab = layer.label(*key)
    vg.reset()
    try:
        P = Prog(path)
        p = layer.build(P, *key)
        p.viol, p.obl = [], 0            # framing is C13's subject
        notes = []
        if kind == "step":
            for q in p.partitions():
                p.step(*q)
            for ch in range(NCTX):
                p.first(ch)
            notes.append("%d layers, coded items %s" % (len(p.layers), p.evs))
        else:
            for i in p.gated():
                if i in layers and p.layers[i][2] is not vg.TRUE:
                    loose = layer.fixpoint(p, i, True, list(p.partitions()))
                    notes.append("layer %s never changes: everything restored, not kept equal: %s" % (p.layers[i][0], sorted(loose)))
        return lab, kind, p.obl, p.viol, notes, (p.cty[1], p.dty[1])
    except Exception as e:
        return lab, kind, 0, [("undecided", "%s %s" % (type(e).__name__, e), getattr(e, "where", "") or "")], [], ("?", "?")


def run(ctx):
    path = ctx.facts()["parallel"]
    P = ctx.prog()
    fp = layer.field_pairs(P)
    ctx.floor("layered field codec pairs", len(fp), 10)
    jobs = []
    for k in fp:
        if k[0] == "Point14":
            jobs = [(path, k, "rest", (i,)) for i in range(1, 12)] + jobs
        else:
            jobs.append((path, k, "rest", tuple(range(64))))
        jobs.append((path, k, "step", ()))
    res = pmap(one, jobs)
    pairs, steps = set(), 0
    for lab, kind, obl, viol, notes, tys in res:
        ctx.ob(lab, obl)
        pairs.add(tys)
        for n in notes:
            ctx.sample("%s: %s" % (lab, n))
        if kind == "step":
            steps += 1
        for k, what, where in viol:
            ctx.viol("%s:%s" % (lab, k), "%s: %s" % (lab, what), where)
    ctx.extra["pairs"] = len(pairs)
    ctx.extra["steps analysed"] = steps * 28
    ctx.explanation = ("For every layered field codec the compress step is evaluated over the compiler's MIR into gated values for an arbitrary earlier state of the four contexts, split by the context in use, the "
                       "context of the point and whether that context was used before (28 cases), and the decompress step with each decode bound to the coded value. Discharged: same coded items under the same "
                       "condition, model instance, context, prediction, order and layer; output bytes equal input bytes; paired state, created models and handed-on context equal; other contexts untouched; the raw "
                       "first point primes both sides equally. For each layer that is left out when it never changed: no change noted implies the left-out bytes are those the decoder restores, and with them everything else is mirrored.")
    ctx.assumptions = ["extra bytes analysed for 1, 2 and 5 bytes", "a non-empty layer is read back as non-empty", "usize is 64 bits", "release arithmetic (wrapping); overflow panics are C17's subject"]
