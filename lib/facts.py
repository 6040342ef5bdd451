"""Refutation of gate conditions by linear facts collected along the diagram."""
import vg
from vg import mk, const, isc, cval, Term


def fold(n, a, w):
    """constant folding of the division operators"""
    if n in ("sdiv", "srem", "udiv", "urem") and isc(a[1]) and isc(a[2]) and cval(a[2]):
        if n[0] == "s":
            p, q = vg.sval(a[1]), vg.sval(a[2])
            d = abs(p) // abs(q)
            if (p < 0) != (q < 0):
                d = -d
            return const(d if n == "sdiv" else p - d * q, w)
        p, q = cval(a[1]), cval(a[2])
        return const(p // q if n == "udiv" else p % q, w)
    if n in ("leading_zeros", "trailing_zeros", "count_ones"):
        return vg.bitcount(n, a[1], w)
    if n in ("ult", "slt") and w == 1:
        x, y = a[1], a[2]
        if x is y:
            return vg.FALSE
        if isc(x) and isc(y):
            p, q = (cval(x), cval(y)) if n == "ult" else (vg.sval(x), vg.sval(y))
            return vg.TRUE if p < q else vg.FALSE
    return None


def tabfold(a, w):
    v = a[1]
    for i in a[2:]:
        if not isc(i):
            return mk("op", a, w)
        d = dict(v.args[1])
        v = d.get(cval(i))
        if v is None:
            return vg.BOT
    if w is not None and v.op == "c" and v.w > w:
        v = vg._slice(v, 0, w)
    return v


class Map:
    """replacement of whole terms and of bit ranges of terms"""

    def __init__(self):
        self.m = {}
        self.pm = {}
        self.keep = set()     # terms only rewritten through their parts

    def add(self, x, y):
        if x.op == "cat" and len(x.args) == 1:
            t, lo, n = x.args[0]
            self.pm.setdefault(t, []).append((lo, n, y))
        elif x.op == "cat":
            pos = 0
            for t, lo, n in x.args:
                if t is not None:
                    self.pm.setdefault(t, []).append((lo, n, vg._slice(y, pos, n)))
                pos += n
        else:
            self.m[x] = y

    def piece(self, t, lo, n):
        """pieces of bits [lo,lo+n) of t after replacement"""
        for a, k, y in self.pm.get(t, ()):
            x0, x1 = max(lo, a), min(lo + n, a + k)
            if x0 < x1:
                out = []
                if lo < x0:
                    out += self.piece(t, lo, x0 - lo)
                out += vg.pieces(vg._slice(y, x0 - a, x1 - x0))
                if x1 < lo + n:
                    out += self.piece(t, x1, lo + n - x1)
                return out
        return [(t, lo, n)]


def subst(t, M, memo):
    """rewrite t bottom-up with the replacement map"""
    r = memo.get(t.id)
    if r is not None:
        return r
    m = M.m
    if t in m:
        r = m[t]
    elif t in M.pm and t.op != "cat" and t.id not in M.keep:
        r = vg.mkcat(M.piece(t, 0, t.w))
        if r.op == "cat" and r.args == ((t, 0, t.w),):
            r = t
    elif t.op in ("c", "sym", "bot"):
        r = t
    elif t.op == "leaf":
        r = t
        if len(t.args) > 1:
            a = tuple(subst(x, M, memo) if isinstance(x, Term) else x for x in t.args)
            r = canonleaf(a[0], a[1:], t.w) if a != t.args else t
    elif t.op == "lin":
        k, its = t.args
        d = {}
        for x, c in its:
            y = subst(x, M, memo)
            kk, dd = vg._lin(y)
            k += kk * c
            for z, cz in dd.items():
                d[z] = d.get(z, 0) + cz * c
        r = vg.mklin(k, d, t.w)
    elif t.op == "cat":
        ps = []
        for x, lo, n in t.args:
            if x is None:
                ps.append((x, lo, n))
            elif x in M.pm:
                ps.extend(M.piece(x, lo, n))
            else:
                y = subst(x, M, memo)
                ps.extend(vg.pieces(vg._slice(y, lo, n)) if y is not x else [(x, lo, n)])
        r = vg.mkcat(ps)
    elif t.op == "sx":
        y = subst(t.args[0], M, memo)
        r = vg._sext(y, t.w)
    elif t.op == "op":
        a = tuple(subst(x, M, memo) if isinstance(x, Term) else x for x in t.args)
        if a == t.args:
            r = t
        else:
            n = a[0]
            if n == "tab":
                r = tabfold(a, t.w)
            elif n == "mul":
                r = vg._mul(a[1], a[2])
            elif n in ("and", "or", "xor"):
                r = vg._bitop(n, a[1], a[2])
            elif n in ("shl", "shr", "sar") and isc(a[2]):
                r = {"shl": vg._shl, "shr": vg._shr, "sar": vg._sar}[n](a[1], cval(a[2]))
            elif len(a) == 3 and isinstance(a[1], Term) and isinstance(a[2], Term):
                r = fold(n, a, t.w) or mk("op", a, t.w)
            else:
                r = mk("op", a, t.w)
    else:
        r = t
    r = m.get(r, r)
    memo[t.id] = r
    return r


def subst_args(t, M):
    """rewrite inside t but leave t itself in place"""
    if t.op in ("sym", "c") or (t.op == "leaf" and len(t.args) == 1):
        return t
    M2 = Map()
    M2.keep = M.keep
    M2.m = {k: v for k, v in M.m.items() if k is not t}
    M2.pm = {k: v for k, v in M.pm.items() if k is not t}
    return subst(t, M2, {}) if M2.m or M2.pm else t


def contains(t, x, memo=None):
    if t is x:
        return True
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    memo[t.id] = False
    r = False
    for a in t.args:
        if isinstance(a, Term):
            if contains(a, x, memo):
                r = True
                break
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, Term):
                    if contains(b, x, memo):
                        r = True
                        break
                elif isinstance(b, tuple):
                    if any(isinstance(c, Term) and contains(c, x, memo) for c in b):
                        r = True
                        break
            if r:
                break
    memo[t.id] = r
    return r


def solve(subj, v):
    """replacement from the equation subj == v, or None"""
    w = subj.w
    if subj.op == "lin":
        k, its = subj.args
        M = 1 << w
        best = None
        for i, (x, c) in enumerate(its):
            if c not in (1, M - 1):
                continue
            if any(j != i and contains(y, x) for j, (y, _) in enumerate(its)):
                continue
            # prefer the most structured term, then the youngest
            key = (0 if x.op in ("sx", "op") else 1 if x.op == "leaf" else 2, -x.id)
            if best is None or key < best[0]:
                best = (key, i)
        if best is None:
            return None
        i = best[1]
        x, c = its[i]
        # c*x + rest + k = v
        s = -1 if c == 1 else 1
        d = {y: cy * s for j, (y, cy) in enumerate(its) if j != i}
        kk = (k - v) * s
        return x, vg.mklin(kk, d, w)
    return subj, const(v, w)


MAXP = 30000
LAST = []
NOGOODS = {}         # subject id -> infeasible fact sets ending in that subject
vg.ONRESET.append(NOGOODS.clear)
ASSUME = []          # equations (x, y) taken as inductive facts


def canonleaf(name, idx, w):
    """leaf with constant indices folded into its name"""
    if any(isc(i) for i in idx):
        parts = name.split("[]")
        if len(parts) == len(idx) + 1:
            out, rest = parts[0], []
            for i, p in zip(idx, parts[1:]):
                if isc(i):
                    out += "[%d]" % cval(i)
                else:
                    out += "[]"
                    rest.append(i)
                out += p
            name, idx = out, tuple(rest)
    return mk("leaf", (name,) + tuple(idx), w)


def diff(x, y):
    return vg.add(x, vg.neg(y))


def prefixes(path):
    """True when intervals of a term and of its leading bits exclude each other"""
    by = {}
    for s, lo, hi in path:
        if s.op == "cat" and len(s.args) == 1:
            t, a, n = s.args[0]
        elif s.w and s.op != "cat":
            t, a, n = s, 0, s.w
        else:
            continue
        by.setdefault((t.id, a + n), []).append((a, lo, hi))
    if len(by) > 1:
        # a term below 2^k is its own low bits
        for k in sorted(by, key=lambda k: -k[1]):
            m = {}
            for a, lo, hi in by[k]:
                x, y = m.get(a, (lo, hi))
                m[a] = (max(x, lo), min(y, hi))
            for a, (lo, hi) in m.items():
                if hi <= 1 << (k[1] - 1 - a):
                    top = max((k2[1] for k2 in by if k2[0] == k[0] and a < k2[1] < k[1] and hi <= 1 << (k2[1] - a)), default=None)
                    if top is not None:
                        by[(k[0], top)].append((a, lo, hi))
    for l in by.values():
        if len(l) < 2:
            continue
        l.sort()
        a0, lo, hi = l[0]
        for a, x, y in l:
            k = a - a0
            lo, hi = max(lo, x << k), min(hi, y << k)
            if lo >= hi:
                return True
    return False


def infeasible(path):
    """path: [(subject, lo, hi)] with value in [lo,hi)"""
    if prefixes(path):
        return True
    M = Map()
    work = [(s, const(lo, s.w)) for s, lo, hi in path if hi == lo + 1]
    if not work:
        return False
    # linear facts first: they rename state and input, the rest follows by congruence
    work = [e for e in work if e[0].w != 1] + [e for e in work if e[0].w == 1]
    work = [e for e in ASSUME] + work
    work.reverse()
    rest = [(s, lo, hi) for s, lo, hi in path if hi != lo + 1]
    n = 0
    whole = set()
    while work:
        n += 1
        if n > 400:
            break
        x, y = work.pop()
        memo = {}
        x, y = subst(x, M, memo), subst(y, M, memo)
        if x is y:
            continue
        if isc(x) and isc(y):
            return True
        if x.w == 1 or y.w == 1 or x.w is None:
            if isc(x):
                x, y = y, x
            if isc(x):
                return True
            r = (x, y)
        elif isc(y) and x.op == "cat" and len(x.args) > 1:
            # a concatenation equal to a constant: piece by piece
            pos = 0
            for t, lo, k in x.args:
                v = (cval(y) >> pos) & ((1 << k) - 1)
                if t is None:
                    if lo != v:
                        return True
                else:
                    work.append((vg._slice(t, lo, k), const(v, k)))
                pos += k
            continue
        elif x.op == "nd" or y.op == "nd":
            continue
        else:
            d = diff(x, y) if not isc(y) or x.op == "lin" else None
            if d is None:
                r = (x, y)
            elif isc(d):
                if cval(d):
                    return True
                continue
            else:
                r = solve(d, 0)
                if r is None:
                    if isc(y):
                        rest.append((x, cval(y), cval(y) + 1))
                    continue
        x, y = r
        if x.op == "cat" and len(x.args) == 1 and x.args[0][0].op == "lin":
            # the high part of a sum is known: the sum is its low part extended by it
            t, lo, k = x.args[0]
            if lo and lo + k == t.w and t.id not in whole:
                whole.add(t.id)
                z = vg.mkcat(vg.pieces(subst(vg._slice(t, 0, lo), M, {})) + vg.pieces(y))
                if z.op == "cat" and len(z.args) > 1:
                    M.m.setdefault(z, t)
                    M.keep.add(t.id)
        N = Map()
        N.keep = M.keep
        N.add(x, y)
        memo = {}
        for k in list(M.m):
            v = subst(M.m[k], N, memo)
            k2 = subst_args(k, N)
            if k2 is not k:
                del M.m[k]
                work.append((k2, v))
            else:
                M.m[k] = v
        for k in list(M.pm):
            k2 = subst_args(k, N)
            if k2 is not k:
                for lo, w, z in M.pm.pop(k):
                    work.append((vg._slice(k2, lo, w), subst(z, N, memo)))
            else:
                M.pm[k] = [(lo, w, subst(z, N, memo)) for lo, w, z in M.pm[k]]
        M.add(x, y)
    memo = {}
    for s, lo, hi in rest:
        s2 = subst(s, M, memo)
        if s2 is s:
            continue
        if isc(s2):
            if not (lo <= cval(s2) < hi):
                return True
            continue
        r = vg.inset(s2, [(lo, hi)])
        if r is vg.FALSE:
            return True
        # the rewritten constraint against the other facts
        if r.op == "nd" and consistent(r, path, None, None) is False:
            return True
    return False


def consistent(r, path, m, memo):
    """False when r is false under the interval facts of the path"""
    iv = {}
    for s, lo, hi in path:
        a, b = iv.get(s.id, (0, 1 << s.w))
        iv[s.id] = (max(a, lo), min(b, hi))
    seen = {}

    def rec(x):
        if x.op != "nd":
            return x is not vg.FALSE
        if x.id in seen:
            return seen[x.id]
        s, cuts, ch = x.args
        a, b = iv.get(s.id, (0, 1 << s.w))
        res = False
        for i, c in enumerate(ch):
            lo = 0 if i == 0 else cuts[i - 1]
            hi = cuts[i] if i < len(cuts) else 1 << s.w
            if max(a, lo) < min(b, hi) and rec(c):
                res = True
                break
        seen[x.id] = res
        return res
    return rec(r)


def refuted(v):
    """True when the condition v cannot hold"""
    if v is vg.FALSE:
        return True
    if v is vg.TRUE:
        return False
    if all(l is not vg.TRUE for l in vg.leafset(v)):
        return True
    n = [0]
    here = {}

    def hit(s, lo, hi):
        for core in NOGOODS.get(s.id, ()):
            for f, a, b in core:
                if f is s:
                    if lo < a or hi > b:
                        break
                else:
                    q = here.get(f.id)
                    if q is None or q[0] < a or q[1] > b:
                        break
            else:
                return True
        return False

    def rec(x, path):
        if x.op != "nd":
            if x is not vg.TRUE:
                return True
            n[0] += 1
            if n[0] > MAXP:
                LAST[:] = ["budget"]
                return False
            if infeasible(path):
                core = list(path)
                i = len(core) - 1
                while i >= 0 and len(core) > 1:
                    c2 = core[:i] + core[i + 1:]
                    if infeasible(c2):
                        core = c2
                    i -= 1
                NOGOODS.setdefault(core[-1][0].id, []).append(core)
                return True
            LAST[:] = path
            return False
        s, cuts, ch = x.args
        for i, c in enumerate(ch):
            if c.op != "nd" and c is not vg.TRUE:
                continue
            lo = 0 if i == 0 else cuts[i - 1]
            hi = cuts[i] if i < len(cuts) else 1 << s.w
            if hit(s, lo, hi):
                continue
            here[s.id] = (lo, hi)
            ok = rec(c, path + [(s, lo, hi)])
            del here[s.id]
            if not ok:
                return False
        return True
    return rec(v, [])


def witness():
    """the path conditions left over by the last failed refutation"""
    if LAST == ["budget"]:
        return "budget"
    return ", ".join("%s in [%d,%d)" % (vg.show(s, 4), lo, hi) for s, lo, hi in LAST)
