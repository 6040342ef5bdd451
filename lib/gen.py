"""Sequences of calls that are evaluated by the file-level checks."""
import itertools


def writers(kind, deep=False):
    out = []
    add = lambda **k: out.append(dict(what="write", kind=kind, **k))
    for lay in (False, True):
        for N in (1, 2, 3, 4):
            al = [("many", k) for k in range(0, 2 * N + 2)] + [("one",)]
            top = 3 if deep or (N < 3 and not lay) else 2
            for L in range(0, top + 1):
                for st in itertools.product(al, repeat=L):
                    add(chunk=N, layered=lay, steps=list(st) + [("done",)])
                    if L == 1:
                        add(chunk=N, layered=lay, steps=[("reserve",)] + list(st) + [("done",)])
                        add(chunk=N, layered=lay, steps=[s + (True,) if s[0] == "many" else s for s in st] + [("done", True)])
                        add(chunk=N, layered=lay, steps=list(st) + [("done",), ("inner",)])
        add(chunk=3, layered=lay, psize=1, steps=[("one",)] * 40 + [("done",)])
        add(chunk=7, layered=lay, psize=2, steps=[("many", k) for k in (1, 6, 7, 8, 13, 14, 15, 3, 0, 50)] + [("done",)])
        add(chunk=1, layered=lay, psize=1, steps=[("many", 300), ("done",)])
        add(chunk=300, layered=lay, psize=1, steps=[("many", 299), ("one",), ("many", 301), ("done",)])
        # variable-size chunks
        cs = [(), (0,), (1,), (2,), (0, 3), (2, 0, 1), (1, 2, 3)]
        if kind == "seq":
            al = [("many", 0), ("many", 1), ("many", 3), ("one",), ("finish",), ("chunks", (2,)), ("chunks", (0,)), ("chunks", (1, 0, 2))]
        else:
            al = [("chunks", c) for c in cs]
        top = 4 if deep and kind == "seq" else 3
        for L in range(0, top + 1):
            for st in itertools.product(al, repeat=L):
                add(chunk="var", layered=lay, steps=list(st) + [("done",)])
                if L == 1:
                    add(chunk="var", layered=lay, steps=[("reserve",)] + list(st) + [("done",)])
        if kind == "seq":
            add(chunk="var", layered=lay, psize=1, steps=[x for i in range(40) for x in (("many", i % 5), ("finish",))] + [("done",)])
            add(chunk="var", layered=lay, psize=1, steps=[("many", 300), ("finish",), ("many", 2), ("done",)])
        else:
            add(chunk="var", layered=lay, psize=1, steps=[("chunks", tuple(i % 5 for i in range(40))), ("done",)])
            add(chunk="var", layered=lay, psize=1, steps=[("chunks", (300, 2)), ("done",)])
        for N in (1, 2, 3, 5):
            for k in range(0, 3 * N + 1):
                add(chunk=N, layered=lay, steps=[("buffer" if kind == "seq" else "parbuffer", k)])
        if kind == "seq":
            add(chunk="var", layered=lay, steps=[("buffer", 4)])
    return out


FILES = [((3,), 3), ((2,), 3), ((3, 3), 3), ((3, 3, 1), 3), ((3, 3, 3, 2), 3), ((1,), 1), ((1, 1, 1), 1), ((2, 2, 1), 2), ((2,), 5)]
VAR = [(1,), (3,), (2, 4, 1), (1, 1, 1), (4, 1, 3, 2)]


def files():
    return FILES + [(c, "var") for c in VAR]


def readers(kind, deep=False):
    out = []
    add = lambda **k: out.append(dict(what="read", kind=kind, **k))
    for lay in (False, True):
        for counts, chunk in files():
            n = sum(counts)
            for table in ("start", "end", "endself"):
                add(counts=counts, chunk=chunk, layered=lay, table=table, steps=[("new",), ("many", n), ("inner",)])
                add(counts=counts, chunk=chunk, layered=lay, table=table, steps=[("new", True), ("many", n)])
            add(counts=counts, chunk=chunk, layered=lay, steps=[("new",)] + [("one",)] * n)
            add(counts=counts, chunk=chunk, layered=lay, steps=[("new", True), ("many", 0)] + [("many", 1, True)] * n)
            for a in range(0, n + 1):
                for b in range(0, n - a + 1):
                    if not deep and n > 5 and (a * b) % 3 == 2:
                        continue
                    add(counts=counts, chunk=chunk, layered=lay, steps=[("new", True), ("many", a), ("many", b), ("many", n - a - b)])
            for table in ("none", "noneself"):
                if kind == "par":
                    add(counts=counts, chunk=chunk, layered=lay, table=table, steps=[("new",)], err="new")
                elif chunk == "var" and not lay:
                    add(counts=counts, chunk=chunk, layered=lay, table=table, steps=[("new",)], err="new")
                else:
                    for a in range(0, n + 1):
                        add(counts=counts, chunk=chunk, layered=lay, table=table, steps=[("new", a % 2 == 0), ("many", a), ("many", n - a)])
            for k in range(0, n + 1):
                if kind == "seq":
                    add(counts=counts, chunk=chunk, layered=lay, steps=[("raw",), ("buffer", k)])
                elif k == n:
                    add(counts=counts, chunk=chunk, layered=lay, steps=[("raw",), ("parbuffer", k)])
                    add(counts=counts, chunk=chunk, layered=lay, steps=[("raw",), ("pardecompress", k)])
                    add(counts=counts, chunk=chunk, layered=lay, steps=[("raw",), ("pardecompress", k, True)])
                    for m in range(1, len(counts)):
                        add(counts=counts, chunk=chunk, layered=lay, steps=[("raw",), ("pardecompress", sum(counts[:m]), True, m)])
            if kind == "par":
                add(counts=counts, chunk=chunk, layered=lay, past=True, steps=[("new",), ("many", n), ("many", 1)])
                add(counts=counts, chunk=chunk, layered=lay, past=True, steps=[("new",), ("many", n + 1)])
        add(counts=(1,) * 120, chunk=1, layered=lay, psize=2, steps=[("new",), ("many", 70), ("many", 50)])
        add(counts=(60, 60, 31), chunk=60, layered=lay, psize=2, steps=[("new",), ("many", 1), ("many", 130), ("many", 20)])
        add(counts=(300, 2), chunk="var", layered=lay, psize=2, steps=[("new",), ("many", 299), ("many", 3)])
        if kind == "seq":
            # everything in one chunk, no table
            add(counts=(5,), chunk=None, table="pointwise", compressor=1, steps=[("new",), ("many", 2), ("one",), ("many", 2)]) if not lay else None
    return out


def seeks(kind, deep=False):
    out = []
    add = lambda **k: out.append(dict(what="read", kind=kind, **k))
    for lay in (False, True):
        for counts, chunk in files():
            n = sum(counts)
            for i in range(0, n):
                for a in sorted({0, 1, n // 2, n}):
                    add(counts=counts, chunk=chunk, layered=lay, steps=[("new", a % 2 == 1), ("many", a), ("seek", i), ("many", n - i)])
                add(counts=counts, chunk=chunk, layered=lay, steps=[("new",), ("seek", i, True), ("many", 1, True)])
                for j in range(0, n) if deep or n < 5 else (0, n - 1, n // 2):
                    add(counts=counts, chunk=chunk, layered=lay, steps=[("new", True), ("seek", i), ("seek", j), ("many", n - j)])
                    add(counts=counts, chunk=chunk, layered=lay, steps=[("new", True), ("seek", i), ("one",), ("seek", j), ("many", n - j)])
            for i in (n, n + 1, n + 50):
                for a in (0, 1, n):
                    if chunk == "var" or i >= len(counts) * chunk or kind == "par":
                        add(counts=counts, chunk=chunk, layered=lay, past=True, beyond=True, steps=[("new",), ("many", a), ("seek", i), ("many", 1)])
                        if n:
                            add(counts=counts, chunk=chunk, layered=lay, past=True, beyond=True, steps=[("new",), ("many", a), ("seek", i), ("seek", 0), ("many", n)])
            if kind == "par" or not lay and chunk == "var":
                add(counts=counts, chunk=chunk, layered=lay, table="end", steps=[("new",), ("seek", n - 1), ("many", 1)])
            if kind == "seq" and not (chunk == "var" and not lay):
                add(counts=counts, chunk=chunk, layered=lay, table="none", steps=[("new",), ("seek", 0)], err="seek")
    return out


def appends(kind, deep=False):
    out = []
    add = lambda **k: out.append(dict(what="append", kind=kind, **k))
    for lay in (False, True):
        for counts, chunk in [((), 3), ((), "var")] + files():
            n = sum(counts)
            N = chunk if chunk != "var" else 3
            if chunk == "var" and kind == "par":
                al = [("chunks", ()), ("chunks", (2,)), ("chunks", (0,)), ("chunks", (1, 0, 3))]
            elif chunk == "var":
                al = [("many", 0), ("many", 2), ("one",), ("finish",), ("chunks", (1, 0, 2))]
            else:
                al = [("many", k) for k in range(0, N + 2)] + ([("one",)] if kind == "seq" else [])
            for L in range(0, 3 if len(counts) < 4 or deep else 2):
                for st in itertools.product(al, repeat=L):
                    add(counts=counts, chunk=chunk, layered=lay, steps=list(st) + [("done",)])
                    if L == 1:
                        add(counts=counts, chunk=chunk, layered=lay, table="end", steps=list(st) + [("done",)])
                        add(counts=counts, chunk=chunk, layered=lay, steps=list(st) + [("done",), ("inner",)])
            zero = {0} if n and (chunk == "var" or len(counts) > 1) else set()     # a single chunk of fixed size is kept whole
            for pc in sorted(({1, n // 2, n - 1, n + 1, n + 100} - {0, -1, n}) | zero):
                for st in al[1:3]:
                    if counts and not (pc > n and chunk == "var"):
                        add(counts=counts, chunk=chunk, layered=lay, point_count=pc, steps=[st, ("done",)])
    return out
