"""C03: the offset to the chunk table is reserved, updated and followed as documented."""
import vg
from vg import mk, const, isc, cval
import gen, scen
from seaw import Writer, Appender, Stop, split, catb

LEVEL = "other"


def unfinished(ctx, P, kind, what, chunk, lay, steps, counts=()):
    """before done: one slot, marked as not filled, points after it"""
    unit = "slot while writing"
    lab = "%s %s %s" % (kind, what, steps)
    vg.reset()
    w = Writer(P, kind, chunk, layered=lay) if what == "write" else Appender(P, kind, counts, chunk, layered=lay)
    E = w.E
    try:
        w.new()
        for s in steps:
            getattr(w, s[0])(*s[1:])
    except vg.Unmodelled as e:
        ctx.undecided([(lab, str(e))])
        return
    except Stop:
        ctx.viol("%s:%s:stuck" % (kind, what), "%s: %s" % (lab, w.dead or "an error is returned"))
        return
    slot = [vg.add(E.P0, const(i, 64)) for i in range(8)]
    vals = {}
    for pos, n, x, pc, wh in E.log:
        for p, b in split(pos, n, x):
            if p in slot:
                ctx.check(b.w == 8, unit, "%s:%s:overlap" % (kind, what), "%s: something is written into the offset's bytes" % lab, wh)
                vals[p] = b
                if what == "write":
                    ctx.check(pc is vg.TRUE, unit, "%s:%s:slot" % (kind, what), "%s: room for the offset is only reserved under a condition" % lab, wh)
            else:
                ctx.check(len(vals) == 8, unit, "%s:%s:first" % (kind, what), "%s: %s bytes are written at %s before room is reserved for the offset" % (lab, vg.show(n), vg.show(p)), wh)
                ctx.check(vg.ult(p, vg.add(E.P0, const(8, 64))) is vg.FALSE, unit, "%s:%s:overlap" % (kind, what), "%s: something is written into the offset's bytes" % lab, wh)
    if steps or what == "append":
        if not ctx.check(len(vals) == 8, unit, "%s:%s:slot" % (kind, what), "%s: no room is reserved for the offset" % lab):
            return
    if vals:
        x = catb([vals[p] for p in slot])
        ctx.check(vg.slt(E.P0, x) is vg.FALSE, unit, "%s:%s:value" % (kind, what), "%s: while the table is not written the offset is %s, which a reader would follow" % (lab, vg.show(x)))
    for k, t, wh in E.problems:
        ctx.viol("%s:%s:%s" % (kind, what, k), "%s: %s" % (lab, t), wh)


def run(ctx):
    P = ctx.prog()
    for kind in ("seq", "par"):
        for lay in (False, True):
            for N in (2, "var"):
                al = [("reserve",)]
                al += [("many", k) for k in (1, 2, 5)] if N != "var" else [("chunks", (1,)), ("chunks", (2, 0, 3))]
                if kind == "seq":
                    al += [("one",)]
                for a in al:
                    unfinished(ctx, P, kind, "write", N, lay, [a])
                    for b in al[1:]:
                        unfinished(ctx, P, kind, "write", N, lay, [a, b])
                for counts in ((), (2, 2, 1), (2, 2)):
                    unfinished(ctx, P, kind, "append", N, lay, [], counts)
                    unfinished(ctx, P, kind, "append", N, lay, [al[1]], counts)
    specs = [s for k in ("seq", "par") for s in gen.writers(k) if len(s["steps"]) <= 3]
    scen.run(ctx, specs, unit="offset written by done")
    specs = [s for k in ("seq", "par") for s in gen.readers(k) if s.get("table", "start") != "start" or len(s["steps"]) <= 2]
    specs += [s for k in ("seq", "par") for s in gen.seeks(k) if s.get("table", "start") != "start"]
    specs += [s for k in ("seq", "par") for s in gen.appends(k) if s.get("table", "start") != "start"]
    ctx.floor("files with the offset elsewhere or missing", len([s for s in specs if s.get("table", "start") != "start"]), 200)
    scen.run(ctx, specs, unit="offset followed")
    ctx.explanation = ("Compressors and appenders are evaluated up to a point before done: the first thing written must be one 8-byte slot at the starting position whose value is not greater than that position, so a reader takes it for missing, and nothing "
                       "may be written into it. After done it must hold the table's position and the destination must be at the end of the table. Readers are evaluated on files with the offset in the slot, in the last 8 bytes (slot -1 or its own "
                       "position), or nowhere: the first two must read the same points, the last must read them when they can be told apart without the table and report an error when they cannot.")
    ctx.assumptions = ["positions and sizes are below 2^40"]
