"""C18: failures of the underlying stream are reported, never swallowed, and no short read or write is taken for a whole one."""
import multiprocessing as mp
import gen, scen, results

LEVEL = "other"


def picks():
    out = []
    for kind in ("seq", "par"):
        for lay in (False, True):
            for chunk in (2, "var"):
                if chunk == "var":
                    st = [("chunks", (2, 1))] if kind == "par" else [("many", 2), ("finish",), ("one",)]
                else:
                    st = [("many", 3), ("many", 2)]
                out.append(dict(what="write", kind=kind, chunk=chunk, layered=lay, steps=st + [("done",)]))
                out.append(dict(what="write", kind=kind, chunk=chunk, layered=lay, steps=[("reserve",), ("done",)]))
                counts = (2, 2, 1)
                out.append(dict(what="append", kind=kind, counts=counts, chunk=chunk, layered=lay, steps=st + [("done",)]))
                n = 5
                tol = kind == "seq"
                for table in ("start", "end"):
                    out.append(dict(what="read", kind=kind, counts=counts, chunk=chunk, layered=lay, table=table, tolerant=tol, steps=[("new",), ("many", 3), ("many", 2)]))
                out.append(dict(what="read", kind=kind, counts=counts, chunk=chunk, layered=lay, tolerant=tol, steps=[("new",), ("seek", 3), ("many", 1), ("seek", 0), ("many", 2), ("seek", 4), ("many", 1)]))
                out.append(dict(what="read", kind=kind, counts=counts, chunk=chunk, layered=lay, tolerant=tol, steps=[("raw",), ("buffer" if kind == "seq" else "parbuffer", n)]))
        for lay in (False, True):
            out.append(dict(what="write", kind=kind, chunk=2, layered=lay, steps=[("buffer" if kind == "seq" else "parbuffer", 5)]))
    return out


def run(ctx):
    base = picks()
    res = scen.run(ctx, base, unit="runs without failure")
    specs = []
    for r in res:
        for i in range(len(r.facts.get("opnames", ()))):
            specs.append(dict(r.spec, failat=i))
    ctx.floor("failure points", len(specs), 500)
    scen.run(ctx, specs, unit="failure points")
    results.census(ctx)
    ctx.explanation = ("Each device or coder operation of %d representative runs of the (de)compressors, appenders and buffer functions fails once; the call it happens in must return an error (not success, not a panic). Only the sequential "
                       "decompressor may go on when the chunk table cannot be read and is not needed, and must then still return the right points. For the whole crate, every call that returns a Result is followed to the use of that "
                       "Result, and calls of Read::read / Write::write whose count could be ignored are reported." % len(base))
    ctx.assumptions = ["set-up of record coders with items accepted before cannot fail later"]
