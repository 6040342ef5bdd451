"""Interval reasoning about overflow: wrapped intervals of leaf terms under the interval facts of a path."""
import re
import vg
from vg import mk, isc, cval


def full(w):
    return 0, (1 << w) - 1


def meet(a, b, w):
    """of two representations of the same value the tighter one"""
    return a if a[1] - a[0] <= b[1] - b[0] else b


def clip(r, lo, hi, w):
    """r intersected with the unsigned interval [lo, hi]; None when empty (keeps r when the result is no interval)"""
    m = 1 << w
    parts = []
    for k in range(-1 - (abs(r[0]) >> w), 2 + (abs(r[1]) >> w)):
        a, b = max(r[0], lo + k * m), min(r[1], hi + k * m)
        if a <= b:
            parts.append((a, b))
    if not parts:
        return None
    if len(parts) == 1:
        return parts[0]
    if hi - lo < r[1] - r[0]:
        return lo, hi
    return r


def table(v, n):
    """least and largest entry of a table of constants"""
    if v.op == "c":
        return cval(v), cval(v)
    if v.op != "ar" or v.args[0] is not None or not v.args[1]:
        return None
    rs = [table(x, n - 1) for _, x in v.args[1]]
    if any(r is None for r in rs):
        return None
    return min(a for a, _ in rs), max(b for _, b in rs)


def famkey(name):
    return re.sub(r"\[\d+\]", "[]", name) if isinstance(name, str) else name


class Ranges:
    """env: term id -> (lo, hi) inclusive, unsigned"""

    def __init__(self, env=None, fams=None):
        self.env = env or {}
        self.fams = fams or {}      # state family -> (lo, hi)
        self.memo = {}
        self.sums = []              # sums with facts
        self.mods = []              # [(n, term of n bits, lo, hi)] facts about low bits
        self.empty = False

    def rng(self, t):
        """(lo, hi): the value is congruent to a number of [lo, hi]"""
        r = self.memo.get(t.id)
        if r is None:
            self.memo[t.id] = full(t.w)
            r = self.raw(t)
            if self.sums:
                r = self.rest(t, r)
            if r[1] - r[0] >= (1 << t.w) - 1:
                r = full(t.w)
            e = self.env.get(t.id)
            if e is not None:
                c = clip(r, e[0], e[1], t.w)
                if c is None:
                    self.empty = True
                    c = e
                r = c
                if t.op == "lin" and self.mods:
                    r = self.low(t, r)
            self.memo[t.id] = r
        return r

    def rest(self, t, best):
        """a term taken apart at a sum the path knows the range of"""
        items = t.args[1] if t.op == "lin" else ((t, 1),)
        if t.op == "c":
            return best
        have = {x.id for x, _ in items}
        for f, (p, q) in self.sums:
            if f is t or f.w != t.w or not any(x.id in have for x, _ in f.args[1]):
                continue
            for sg in (1, -1):
                o = vg.sub(t, f) if sg == 1 else vg.add(t, f)
                if len(o.args[1] if o.op == "lin" else (o,)) >= len(items) + (t.op != "lin"):
                    continue
                b = self.rng(o)
                r = (p + b[0], q + b[1]) if sg == 1 else (b[0] - q, b[1] - p)
                if r[1] - r[0] >= (1 << t.w) - 1:
                    continue
                c = clip(best, r[0], r[1], t.w)
                if c is None:
                    self.empty = True
                    return best
                best = c
        return best

    def low(self, t, r):
        """narrowed by what is known of the low bits of a sum"""
        for n, x, lo, hi in self.mods:
            if n >= t.w or r[1] - r[0] > 1 << (n + 3):
                continue
            try:
                y = vg._slice(t, 0, n)
            except vg.Unsupported:
                continue
            if y is x:
                a, b = lo, hi
            elif y is vg.neg(x):
                a, b = -hi, -lo
            else:
                continue
            m = 1 << n
            k0 = (r[0] - b) // m - 1
            parts = []
            for k in range(k0, k0 + (r[1] - r[0]) // m + 4):
                p, q = max(r[0], a + k * m), min(r[1], b + k * m)
                if p <= q:
                    parts.append((p, q))
            if not parts:
                self.empty = True
                return r
            r = parts[0][0], parts[-1][1]
        return r

    def u(self, t):
        r = self.rng(t)
        m = 1 << t.w
        k = r[0] // m
        lo, hi = r[0] - k * m, r[1] - k * m
        return (lo, hi) if hi < m else full(t.w)

    def s(self, t):
        r = self.rng(t)
        m = 1 << t.w
        h = m >> 1
        k = (r[0] + h) // m
        lo, hi = r[0] - k * m, r[1] - k * m
        return (lo, hi) if hi < h else (-h, h - 1)

    def raw(self, t):
        o, w = t.op, t.w
        if o == "c":
            return t.args[0], t.args[0]
        if o == "lin":
            k, items = t.args
            if k:
                base = vg.mklin(0, dict(items), w)
                e = self.low(base, self.rng(base))
                s = k - (1 << w) if k >> (w - 1) else k
                return e[0] + s, e[1] + s
            best = None
            for signed in (True, False):
                lo = hi = 0
                for x, c in items:
                    c = c - (1 << w) if c >> (w - 1) else c
                    a, b = self.s(x) if signed else self.u(x)
                    if c < 0:
                        a, b = b, a
                    lo, hi = lo + c * a, hi + c * b
                if best is None or hi - lo < best[1] - best[0]:
                    best = lo, hi
            return self.low(t, best)
        if o == "leaf" and self.fams:
            f = self.fams.get(famkey(t.args[0]))
            if f is not None:
                return f
        if o == "cat":
            lo = hi = pos = 0
            for x, v, n in t.args:
                if x is None:
                    a = b = v
                elif v == 0:
                    a, b = self.u(x)
                    if b >> n:
                        a, b = full(n)
                else:
                    a, b = self.u(x)
                    a, b = a >> v, b >> v
                    if b >> n:
                        a, b = full(n)
                lo, hi = lo + (a << pos), hi + (b << pos)
                pos += n
            return lo, hi
        if o == "sx":
            return self.s(t.args[0])
        if o == "nd":
            rs = [self.rng(l) for l in vg.leafset(t) if l.op != "bot"]
            if w is None or not rs:
                return full(w or 64)
            m = 1 << w
            us = [(a % m, b + (a % m) - a) for a, b in rs]
            if all(b < m for _, b in us):
                u = min(a for a, _ in us), max(b for _, b in us)
                ss = []
                for a, b in rs:
                    k = (a + (m >> 1)) // m
                    ss.append((a - k * m, b - k * m))
                if all(b < m >> 1 for _, b in ss):
                    s = min(a for a, _ in ss), max(b for _, b in ss)
                    return u if u[1] - u[0] <= s[1] - s[0] else s
                return u
            return full(w)
        if o == "op":
            n = t.args[0]
            if n == "tab":
                b = table(t.args[1], len(t.args) - 2)
                return b if b is not None else full(w)
            if n in ("k", "k0"):
                return 0, 32        # number of bits of an integer coder's correction
            if n == "ovf":
                return 0, (1 if self.may(*t.args[1:]) else 0)
            if len(t.args) == 3 and isinstance(t.args[1], vg.Term) and isinstance(t.args[2], vg.Term) and t.args[1].w == w:
                a, b = t.args[1:]
                if n == "and":
                    return 0, min(self.u(a)[1], self.u(b)[1])
                if n in ("or", "xor"):
                    x = max(self.u(a)[1], self.u(b)[1])
                    return (max(self.u(a)[0], self.u(b)[0]) if n == "or" else 0), (1 << x.bit_length()) - 1
                if n == "mul":
                    best = full(w)
                    for f in (self.u, self.s):
                        p, q = f(a), f(b)
                        v = [x * y for x in p for y in q]
                        best = meet(best, (min(v), max(v)), w)
                    return best
                if n == "udiv":
                    p, q = self.u(a), self.u(b)
                    return p[0] // max(q[1], 1), p[1] // max(q[0], 1)
                if n == "sdiv":
                    p, q = self.s(a), self.s(b)
                    if q[0] > 0 or q[1] < 0:
                        v = [abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1) for x in p for y in q]
                        return min(v + [0]) if p[0] < 0 < p[1] else min(v), max(v + [0]) if p[0] < 0 < p[1] else max(v)
                    x = max(abs(p[0]), abs(p[1]))
                    return -x, x
                if n == "urem":
                    return 0, min(self.u(a)[1], max(self.u(b)[1] - 1, 0))
                if n == "srem":
                    p, q = self.s(a), self.s(b)
                    x = max(max(abs(q[0]), abs(q[1])) - 1, 0)
                    return (-x if p[0] < 0 else 0), (x if p[1] > 0 else 0)
                if n == "shr":
                    return 0, self.u(a)[1]
                if n == "sar":
                    p = self.s(a)
                    return min(p[0], 0), max(p[1], -1 if p[1] < 0 else p[1])
            if n == "ult" and len(t.args) == 3:
                p, q = self.u(t.args[1]), self.u(t.args[2])
                return int(p[1] < q[0]), int(p[0] < q[1])
            if n == "slt" and len(t.args) == 3:
                p, q = self.s(t.args[1]), self.s(t.args[2])
                return int(p[1] < q[0]), int(p[0] < q[1])
        return full(w)

    def may(self, base, signed, a, b):
        """can the operation overflow"""
        w = a.w
        f = self.s if signed else self.u
        p, q = f(a), f(b)
        if base == "Add":
            lo, hi = p[0] + q[0], p[1] + q[1]
        elif base == "Sub":
            lo, hi = p[0] - q[1], p[1] - q[0]
        else:
            v = [x * y for x in p for y in q]
            lo, hi = min(v), max(v)
        if signed:
            return lo < -(1 << (w - 1)) or hi >= 1 << (w - 1)
        return lo < 0 or hi >= 1 << w


def _leaf(base, signed):
    R = Ranges()

    def f(a, b):
        w = a.w
        if isc(a) and isc(b):
            x, y = (vg.sval(a), vg.sval(b)) if signed else (cval(a), cval(b))
            v = {"Add": x + y, "Sub": x - y, "Mul": x * y}[base]
            ok = -(1 << (w - 1)) <= v < 1 << (w - 1) if signed else 0 <= v < 1 << w
            return vg.FALSE if ok else vg.TRUE
        if not R.may(base, signed, a, b):
            return vg.FALSE
        return vg.boolsym(mk("op", ("ovf", base, signed, a, b), 1))
    return f


def overflow(base, signed, a, b):
    """the condition that a (+ - *) b does not fit its type"""
    return vg.apply_n(("ovf", base, signed), _leaf(base, signed), (a, b))


def impossible(path, env, fams=None):
    """the facts of a path [(subject, lo, hi)) exclude each other, by intervals"""
    e = dict(env)
    for s, lo, hi in path:
        if s.w is None:
            continue
        a, b = e.get(s.id, (lo, hi - 1))
        a, b = max(a, lo), min(b, hi - 1)
        if a > b:
            return True
        e[s.id] = (a, b)
    R = Ranges(e, fams)
    R.mods = [(s.w, s, lo, hi - 1) for s, lo, hi in path if s.w is not None and 1 < s.w <= 16 and s.op == "lin"]
    sums = [s for s, lo, hi in path if s.op == "lin" and s.w is not None and s.w > 16 and len(s.args[1]) > 1]
    if sums:
        R.sums = [(s, R.rng(s)) for s in sums]
        R.memo = {}
    for s, lo, hi in path:
        if s.w is not None:
            R.rng(s)
            if R.empty:
                return True
    return False


def excluded(cond, fams, infeasible, budget=4000):
    """None when the condition cannot hold, else a path on which it might"""
    n = [0]
    nogoods = {}
    here = {}

    def hit(s, lo, hi):
        for core in nogoods.get(s.id, ()):
            for f, a, b in core:
                if f is s:
                    if lo < a or hi > b:
                        break
                else:
                    q = here.get(f.id)
                    if q is None or q[0] < a or q[1] > b:
                        break
            else:
                return True
        return False

    def no(path):
        if impossible(path, {}, fams):
            return lambda p: impossible(p, {}, fams)
        if infeasible(path):
            return infeasible
        return None

    def rec(x, path):
        if x.op != "nd":
            if x is not vg.TRUE:
                return None
            n[0] += 1
            why = no(path) if n[0] <= budget else None
            if why is None:
                return path
            core = list(path)
            i = len(core) - 1
            while i >= 0 and len(core) > 1:
                c2 = core[:i] + core[i + 1:]
                if why(c2):
                    core = c2
                i -= 1
            if core:
                last = max(core, key=lambda f: next(j for j, g in enumerate(path) if g[0] is f[0]))
                nogoods.setdefault(last[0].id, []).append(core)
            return None
        s, cuts, ch = x.args
        for i, c in enumerate(ch):
            if c.op != "nd" and c is not vg.TRUE:
                continue
            lo = 0 if i == 0 else cuts[i - 1]
            hi = cuts[i] if i < len(cuts) else 1 << s.w
            if hit(s, lo, hi):
                continue
            here[s.id] = (lo, hi)
            r = rec(c, path + [(s, lo, hi)])
            del here[s.id]
            if r is not None:
                return r
        return None
    return rec(cond, [])
