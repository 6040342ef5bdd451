"""The step over a chunk boundary for an arbitrary chunk size: the point counter is found by its behaviour and replaced by a symbol."""
import vg
from vg import mk, const, isc, cval, Unsupported
from seaw import Writer, Stop, expected, compare, itemkey
from sear import Reader
from codec import ptr


def leafdiff(a, b, path=()):
    """[(path, leaf of a, leaf of b)] of two struct values"""
    if a is b:
        return []
    if a.op == "st" and b.op == "st":
        da, db = fields(a), fields(b)
        out = []
        for k in sorted(set(da) | set(db)):
            x, y = da.get(k), db.get(k)
            if x is None or y is None:
                return [(path, a, b)]
            out += leafdiff(x, y, path + (k,))
        return out
    return [(path, a, b)]


def fields(v):
    d = dict(fields(v.args[1])) if v.args[1] is not None and v.args[1].op == "st" else {}
    d.update(v.args[2])
    return d


def counters(a, b, n):
    return [p for p, x, y in leafdiff(a, b) if x is const(n, 64) and y is const(n + 1, 64)]


def attempt(ctx, unit, f):
    try:
        return f()
    except vg.Unmodelled as e:
        ctx.undecided([(unit, str(e))])
    except Unsupported as e:
        ctx.undecided([(unit, "no counter to generalise: %s" % e)])
    except Stop:
        ctx.undecided([(unit, "a call fails")])


def writer(ctx, lay):
    P = ctx.prog()
    unit = "chunk boundary for any chunk size"

    def go(d):
        vg.reset()
        w = Writer(P, "seq", 10 ** 6, layered=lay)
        E = w.E
        n32 = mk("sym", ("N",), 32)
        E.atom(n32, 1000, 1 << 31)
        N = E.atom(vg.zext(n32, 64), 1000, 1 << 31)
        from sea import mkvlr
        w.vlr = mkvlr(E, (w.psize - 1, 1), n32, 3 if lay else 2)
        w.new()
        for _ in range(4):
            w.one()
        a = w.st[("C",)]
        w.one()
        cs = counters(a, w.st[("C",)], 4)
        if not cs:
            raise Unsupported("no field counts the points")
        v = w.st[("C",)]
        for p in cs:
            v = E.setpath(v, p, vg.sub(N, d))
        w.st[("C",)] = v
        return w, E, N

    lab = "layered" if lay else "point-wise"

    def last():
        # N - 1 points so far: one more fits, the next one opens a new chunk
        w, E, N = go(const(1, 64))
        w.one()
        n = sum(1 for x in E.log if x[2].op == "op" and x[2].args[0] == "coded")
        ctx.check(n == 0, unit, "early:" + lab, "a chunk is closed before it has chunk_size points")
        w.one()
        w.done()
        want, end, T = expected(E, [6, 1], False, itemkey(E, w.vlr))
        for k, t, wh in compare(E, want) + E.problems:
            ctx.viol("boundary:%s:%s" % (lab, k), "chunk size N, N + 1 points: %s" % t, wh)
        ctx.ob(unit, len(want))

    def before():
        w, E, N = go(const(2, 64))
        w.one()
        n = sum(1 for x in E.log if x[2].op == "op" and x[2].args[0] == "coded")
        ctx.check(n == 0, unit, "early:" + lab, "a chunk is closed before it has chunk_size points")
        for k, t, wh in E.problems:
            ctx.viol("boundary:%s:%s" % (lab, k), "chunk size N, fewer points: %s" % t, wh)

    attempt(ctx, unit + " " + lab, last)
    attempt(ctx, unit + " " + lab, before)


def reader(ctx, lay, var):
    P = ctx.prog()
    unit = "chunk boundary for any chunk size"
    lab = ("layered" if lay else "point-wise") + (" variable" if var else "")

    def go(d, counts):
        vg.reset()
        from sea import Sea, mkvlr
        E = Sea(P, 3, lay)
        n32 = mk("sym", ("N",), 32)
        E.atom(n32, 1000, 1 << 31)
        N = E.atom(vg.zext(n32, 64), 1000, 1 << 31)
        vlr = mkvlr(E, (2, 1), "var" if var else n32, 3 if lay else 2)
        r = Reader(P, "seq", counts, "var" if var else 10 ** 6, layered=lay, E=E, vlr=vlr)
        if var:
            E.tab["counts"] = [n32, const(1, 32)]
        r.new(True)
        for _ in range(4):
            r.one()
        a = r.st[("D",)]
        r.one()
        cs = counters(a, r.st[("D",)], 4)
        if not cs:
            raise Unsupported("no field counts the points")
        v = r.st[("D",)]
        for p in cs:
            v = E.setpath(v, p, vg.sub(N, d))
        r.st[("D",)] = v
        return r, E

    def last():
        r, E = go(const(1, 64), [6, 1])
        r.one()
        r.one()
        report(r, E, "N + 1 points")

    def before():
        r, E = go(const(2, 64), [7, 1])
        r.one()
        r.one()
        report(r, E, "fewer than N points")

    def report(r, E, what):
        ctx.ob(unit, r.cur * r.psize)
        for k, t, wh in r.out + E.problems:
            ctx.viol("boundary:%s:%s" % (lab, k), "chunks of N points, %s read: %s" % (what, t), wh)

    attempt(ctx, unit + " " + lab, last)
    attempt(ctx, unit + " " + lab, before)
