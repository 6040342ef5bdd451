"""C13: layer sizes and layers of every layered field codec are written and read consistently."""
from pool import pmap
import vg
from prog import Prog
import layer

LEVEL = "other"
TRUSTED = ["rustc's MIR of /repo", "the value engine in /verif/lib", "models of std functions in /verif/lib/models.py"]


def one(a):
    path, key = a
    lab = layer.label(*key)
    vg.reset()
    try:
        p = layer.build(Prog(path), *key)
        rows = ["%s -> %s, written %s, loaded on request %s" % (l[0], l[1], "always" if l[2] is vg.TRUE else "when changed", l[4] if len(l) > 4 else "?") for l in p.layers]
        return lab, p.obl, p.viol, rows
    except Exception as e:
        return lab, 0, [("undecided", "%s %s" % (type(e).__name__, e), getattr(e, "where", "") or "")], []


def run(ctx):
    path = ctx.facts()["parallel"]
    fp = layer.field_pairs(ctx.prog())
    ctx.floor("layered field codec pairs", len(fp), 10)
    res = pmap(one, [(path, k) for k in fp])
    n = 0
    for lab, obl, viol, rows in res:
        ctx.ob(lab, obl)
        n += len(rows)
        for r in rows:
            ctx.sample("%s: layer %s" % (lab, r))
        if not rows and not viol:
            ctx.viol("%s:empty" % lab, "%s: no layers were found" % lab)
        for k, what, where in viol:
            ctx.viol("%s:%s" % (lab, k), "%s: %s" % (lab, what), where)
    ctx.floor("layers", n, 40)
    ctx.extra["layers"] = n
    ctx.explanation = ("write_layers_sizes / write_layers and read_layers_sizes / read_layers of every layered field codec are evaluated for arbitrary change flags, requests and sizes. Discharged per layer: the size "
                       "written is the number of bytes written, zero when the layer is left out; the encoder is finished before its size is taken; sizes and layers come in the same order on both sides; "
                       "each layer of non-zero size is either loaded in full into its own decoder, which starts on exactly those bytes, or skipped in full, never both; a flag per layer says whether it was loaded.")
    ctx.assumptions = ["extra bytes analysed for 1, 2 and 5 bytes", "layers are shorter than 4 GiB"]
