"""C20: unsupported configurations are refused with an error before anything is written or decoded."""
import vg
from vg import mk, const, isc, cval, Unsupported
import sea
from sea import Sea, mkvlr, method, env, isok, iserr
from seaw import Writer, Appender, Stop
from sear import Reader

LEVEL = "other"
OK = {("seq", "write"): (2, 3), ("par", "write"): (2, 3), ("seq", "append"): (2, 3), ("par", "append"): (2, 3), ("seq", "read"): (1, 2, 3), ("par", "read"): (2, 3)}


def make(P, kind, what, chunk, lay, comp, version=None, reject=False):
    vg.reset()
    E = Sea(P, 3, lay)
    E.reject = reject
    vlr = mkvlr(E, (2, 1), chunk, 3 if lay else 2, comp)
    if version is not None:
        v = E.project(vlr, "items")
        arr = E.project(v, "#arr")
        its = [E.setkey(E.index(v, const(i, 64)), "version", const(version, 16)) for i in range(2)]
        vlr = E.setpath(vlr, ("items",), E.vec(E.array(its), const(2, 64), None))
    if what == "write":
        return Writer(P, kind, chunk, layered=lay, E=E, vlr=vlr)
    if what == "append":
        x = Appender(P, kind, (2, 2, 1), chunk, layered=lay)
        x.vlr = x.rd.vlr = vlr if version is None and comp is None else vlr
        x.E.reject = reject
        return x
    return Reader(P, kind, (2, 2, 1), chunk, layered=lay, E=E, vlr=vlr, table="pointwise" if comp == 1 else "start")


def outcome(x, what, steps=()):
    """ok / error / stuck"""
    try:
        x.new()
        for s in steps:
            getattr(x, s[0])(*s[1:])
        return "ok"
    except Stop:
        if what == "read":
            return "stuck" if x.dead else "error"
        r = x.results[-1][1]
        if x.results[-1][2] is vg.FALSE or r is None:
            return "stuck"
        return "error" if iserr(x.E, r) else "stuck"


def run(ctx):
    P = ctx.prog()
    n = 0
    for (kind, what), good in sorted(OK.items()):
        for lay in (False, True):
            for comp in (0, 1, 2, 3):
                x = make(P, kind, what, 2, lay, comp)
                o = outcome(x, what)
                n += 1
                want = "ok" if comp in good else "error"
                lab = "%s %s, compressor type %d%s" % (kind, what, comp, ", layered items" if lay else "")
                ctx.check(o == want, "compressor types", "%s:%s:type%d" % (kind, what, comp), "%s: creating it is %s, should be %s" % (lab, o, want))
                if want == "error":
                    ctx.check(not x.E.log, "nothing written", "%s:%s:written%d" % (kind, what, comp), "%s: something is written before the configuration is refused" % lab, x.E.log[0][4] if x.E.log else None)
            for version in (0, 5, 6, 255, 256, 257, 258, 65535):
                x = make(P, kind, what, 2, lay, None, version)
                steps = {"write": [("many", 3), ("done",)], "append": [("many", 3), ("done",)], "read": [("many", 3)]}[what]
                o = outcome(x, what, steps)
                n += 1
                ctx.check(o == "error", "item versions", "%s:%s:version" % (kind, what), "%s %s with items of version %d is %s, should be an error" % (kind, what, version, o))
                bad = [y for y in x.E.log if vg.ult(y[0], vg.add(x.E.P0, const(8, 64))) is not vg.TRUE]
                ctx.check(not bad, "nothing written", "%s:%s:versionwritten" % (kind, what), "%s %s with items of version %d writes points or a table" % (kind, what, version), bad[0][4] if bad else None)
            # the record coder refuses the items
            x = make(P, kind, what, 2, lay, None, None, True)
            steps = {"write": [("many", 3), ("done",)], "append": [("many", 3), ("done",)], "read": [("many", 3)]}[what]
            o = outcome(x, what, steps)
            n += 1
            ctx.check(o == "error", "refused items", "%s:%s:items" % (kind, what), "%s %s with items the record coder refuses is %s, should be an error" % (kind, what, o))
            bad = [y for y in x.E.log if vg.ult(y[0], vg.add(x.E.P0, const(8, 64))) is not vg.TRUE]
            ctx.check(not bad, "nothing written", "%s:%s:itemswritten" % (kind, what), "%s %s with items the record coder refuses writes points or a table" % (kind, what), bad[0][4] if bad else None)
            if what == "write":
                x = make(P, kind, what, 2, lay, None, None, True)
                try:
                    x.buffer(5, "compress_buffer" if kind == "seq" else "par_compress_buffer")
                    o = "ok"
                except Stop:
                    o = "error" if x.results[-1][1] is not None and iserr(x.E, x.results[-1][1]) else "stuck"
                ctx.check(o == "error", "refused items", "%s:%s:bufferitems" % (kind, what), "compressing a buffer with items the record coder refuses is %s, should be an error" % o)
    # variable-size chunks need the table with point-wise coding
    for kind in ("seq", "par"):
        for table in ("none", "noneself"):
            vg.reset()
            x = Reader(P, kind, (2, 1), "var", table=table)
            o = outcome(x, "read")
            ctx.check(o == "error", "missing table", "%s:missing" % kind, "reading variable-size point-wise chunks without chunk table is %s, should be an error" % o)
    ctx.floor("configurations", n, 100)
    ctx.explanation = ("Every constructor is evaluated for every compressor type and for items of unsupported versions, and with record coders that refuse their items: the result must be an error, returned (not a panic), with no point or table written before. "
                       "Which item lists the record coders refuse is C07.")
    ctx.assumptions = []
