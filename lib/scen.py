"""Scenarios of calls on (de)compressors, evaluated in parallel; each reports its differences with the specification."""
from pool import pmap
import os, traceback, multiprocessing as mp
import vg
from vg import Unsupported, isc, cval
from prog import Prog
import sea
from seaw import Writer, Appender, Stop, expected, compare, itemkey, table, image
from sear import Reader

_P = {}


def prog(path):
    if path not in _P:
        _P[path] = Prog(path)
    return _P[path]


class Res:
    __slots__ = ("spec", "diffs", "undecided", "ops", "ob", "facts")

    def __init__(self, spec):
        self.spec = spec
        self.diffs = []           # (key, text, where)
        self.undecided = None
        self.ops = 0
        self.ob = 0
        self.facts = {}


def label(spec):
    steps = " ".join("%s(%s)" % (s[0], ",".join(str(x) for x in s[1:])) for s in spec["steps"])
    o = []
    for k in ("counts", "chunk", "layered", "table", "failat", "point_count", "psize"):
        if spec.get(k) is not None and not (k == "layered" and not spec[k]) and not (k == "table" and spec[k] == "start") and not (k == "psize" and spec[k] == 3):
            o.append("%s=%s" % (k, spec[k]))
    return "%s %s [%s]: %s" % (spec["kind"], spec["what"], " ".join(o), steps)


def make(P, s):
    kw = {k: s[k] for k in ("layered", "failat", "psize") if s.get(k) is not None}
    if s["what"] == "write":
        return Writer(P, s["kind"], s["chunk"], **kw)
    if s["what"] == "append":
        return Appender(P, s["kind"], s["counts"], s["chunk"], point_count=s.get("point_count"), table=s.get("table", "start"), **kw)
    if s["steps"] and s["steps"][0][0] == "raw":
        kw["base"] = vg.const(0, 64)
    if s.get("compressor") is not None:
        kw["compressor"] = s["compressor"]
    return Reader(P, s["kind"], s["counts"], s["chunk"], table=s.get("table", "start"), **kw)


def play(P, s):
    vg.reset()
    x = make(P, s)
    stop = False
    try:
        if not s["steps"] or s["steps"][0][0] not in ("new", "raw", "buffer", "parbuffer"):
            x.new()
        for st in s["steps"]:
            before = x.E.failed
            step = st[0]
            getattr(x, step)(*st[1:])
            if x.E.failed and not before:
                x.failstep = step
    except Stop:
        stop = True
    return x, stop


def evaluate(P, s):
    r = Res(s)
    try:
        x, stop = play(P, s)
        E = x.E
        r.ops = E.ops
        r.facts["opnames"] = [n for n, _ in E.opnames]
        r.facts["failed"] = E.failed
        if x.dead:
            r.diffs.append(("stuck", x.dead, None))
        if s.get("failat") is not None:
            fails(x, r, stop)
        elif s["what"] in ("write", "append"):
            image_diffs(x, r, stop)
        else:
            read_diffs(x, r, stop)
    except vg.Unmodelled as e:
        r.undecided = str(e)
    except Unsupported as e:
        r.diffs.append(("undecided", "the analysis cannot follow this sequence of calls: %s" % str(e)[:300], None))
    except (TypeError, ValueError, AttributeError, KeyError, IndexError, RecursionError) as e:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        r.diffs.append(("undecided", "the analysis cannot follow this sequence of calls: %s: %s" % (type(e).__name__, str(e)[:200]), None))
    return r


def image_diffs(x, r, stop):
    E = x.E
    for k, t, w in E.problems:
        r.diffs.append((k, t, w))
    r.ob += 1
    if stop:
        if not x.dead:
            r.diffs.append(("error", "a call returns an error although nothing failed", None))
        return
    if not any(s[0] in ("done", "buffer", "parbuffer") for s in r.spec["steps"]):
        return
    if r.spec["what"] == "append":
        want, end, T = x.want()
    else:
        want, end, T = expected(E, x.groups, x.chunk == "var", itemkey(E, x.vlr), psize=x.psize)
    r.ob += len(want) + 1
    d = compare(E, want)
    if r.spec["what"] == "append":
        d = [y for y in d if y[0] != "untouched"]
    r.diffs += d
    pos = E.getpos(x.st, x.stream())
    if pos is not end:
        r.diffs.append(("end", "the destination is left at %s, the data ends at %s" % (vg.show(pos, 5)[:100], vg.show(end, 5)[:100]), None))


def read_diffs(x, r, stop):
    E = x.E
    r.ob += x.cur * x.psize + 1
    for k, t, w in x.out:
        r.diffs.append((k, t, w))
    for k, t, w in E.problems:
        if k == "past" and (stop or r.spec.get("past")):
            continue
        r.diffs.append((k, t, w))
    if x.err and not r.spec.get("err"):
        r.diffs.append(("error", "%s reports an error although nothing failed" % x.err, None))
    if r.spec.get("err") and x.err != r.spec["err"]:
        r.diffs.append(("no-error", "%s does not report an error" % r.spec["err"], None))


def fails(x, r, stop):
    """an operation failed: the call it happened in must say so"""
    E = x.E
    r.ob += 1
    if E.failed is None:
        return
    name, where = E.failed
    if r.spec["what"] in ("write", "append"):
        for bid, v, pc, hit in x.results:
            if hit and not (v is not None and sea.iserr(E, v)):
                r.diffs.append(("swallowed:%s:%s" % (bid.split("::")[-1], name), "%s does not report the failure of %s" % (bid, name), where))
    else:
        if x.err is None and not x.dead:
            # tolerated (missing chunk table): what was read must still be right
            for k, t, w in x.out + E.problems:
                r.diffs.append(("after-failure:" + k, "after a failure of %s: %s" % (name, t), w or where))
            if not r.spec.get("tolerant") or getattr(x, "failstep", "new") not in ("new", "buffer"):
                r.diffs.append(("swallowed:%s" % name, "the failure of %s is not reported" % name, where))


def _job(a):
    path, specs = a
    P = prog(path)
    return [evaluate(P, s) for s in specs]


def run(ctx, specs, cfg="parallel", unit=None):
    """evaluate all scenarios; obligations and violations go to ctx"""
    path = ctx.facts()[cfg]
    n = max(1, min(60, len(specs) // 32 or 1))
    parts = [specs[i:i + n] for i in range(0, len(specs), n)]
    res = [r for p in pmap(_job, [(path, p) for p in parts]) for r in p]
    und = []
    seen = {}
    for r in res:
        u = unit or "%s %s" % (r.spec["kind"], r.spec["what"])
        ctx.ob(u, max(1, r.ob))
        if r.undecided:
            und.append((label(r.spec), r.undecided))
        for k, t, w in r.diffs:
            key = "%s:%s:%s" % (r.spec["kind"], r.spec["what"], k)
            if key in seen:
                seen[key][1] += 1
            else:
                seen[key] = [(label(r.spec), t, w), 1]
    for key, ((lab, t, w), n) in seen.items():
        ctx.viol(key, "%s -- %s%s" % (lab, t, "" if n == 1 else " (and %d more scenarios)" % (n - 1)), w)
    if und:
        ctx.undecided(und)
    ctx.extra["scenarios"] = ctx.extra.get("scenarios", 0) + len(specs)
    ctx.extra["device_and_coder_operations"] = ctx.extra.get("device_and_coder_operations", 0) + sum(r.ops for r in res)
    if not any(s.startswith("scenario") for s in ctx.samples):
        for r in res[:: max(1, len(res) // 4)][:5]:
            ctx.sample("scenario %s" % label(r.spec))
    return res
