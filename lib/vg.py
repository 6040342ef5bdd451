"""Interned value terms and gated values (interval decision diagrams).

A value is a Term.  `nd` terms are gates: (subject, cuts, children) selects a
child by the unsigned value of the subject term.  All gates are hash-consed and
ordered, so equal functions of equal subjects are the same object.
"""
import sys
sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Unmodelled(Unsupported):
    """a library function without a model is used"""


class Term:
    __slots__ = ("op", "args", "w", "ty", "id", "rank", "_h")

    def __repr__(self):
        return show(self, 4)


_tab = {}
_cnt = [0]
_rank = [0]
ONRESET = []


def reset():
    """Forget every term (one analysis run = one table)."""
    _tab.clear()
    _memo.clear()
    _cnt[0] = 0
    _rank[0] = 0
    for f in ONRESET:
        f()
    global TRUE, FALSE, BOT, UNIT, ORDER
    ORDER = None
    TRUE = mk("c", (1,), 1)
    FALSE = mk("c", (0,), 1)
    BOT = mk("bot", (), None)
    UNIT = mk("st", (("tuple", ()), None, ()), None)


def mk(op, args, w=None, ty=None):
    k = (op, args, w)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.w = w
        t.ty = ty
        _cnt[0] += 1
        t.id = _cnt[0]
        t.rank = None
        _tab[k] = t
    return t


_memo = {}
reset_done = False


def const(v, w):
    return mk("c", (v & ((1 << w) - 1),), w)


def isc(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def sval(t):
    v = t.args[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


def top_rank(t):
    return t.args[0].rank if t.op == "nd" else 1 << 60


def nd_raw(subj, cuts, ch):
    """Node whose children are known to be ordered below subj."""
    nc, nch = [], [ch[0]]
    for c, x in zip(cuts, ch[1:]):
        if x is not nch[-1]:
            nc.append(c)
            nch.append(x)
    if not nc:
        return nch[0]
    return mk("nd", (subj, tuple(nc), tuple(nch)), nch[0].w)


def ensure_rank(subj):
    if subj.rank is None:
        _rank[0] += 1
        subj.rank = _rank[0]


def bool_in(subj, cuts, first):
    """Boolean: membership of subj; alternating starting with `first`."""
    ensure_rank(subj)
    if not cuts:
        return TRUE if first else FALSE
    ch = []
    b = first
    for _ in range(len(cuts) + 1):
        ch.append(TRUE if b else FALSE)
        b = not b
    return nd_raw(subj, cuts, ch)


def boolsym(t):
    """Turn a width-1 opaque term into its gate form."""
    if t.op in ("c", "nd", "bot"):
        return t
    return bool_in(t, [1], False)


SIZE_CAP = 60000


class TooBig(Unsupported):
    pass


def apply_n(name, f, vals):
    """Lift the leaf function f over gated values."""
    memo = _memo.setdefault(("ap", name), {})
    return _apply(f, tuple(vals), memo, [0])


def _apply(f, vals, memo, budget):
    best = None
    for v in vals:
        if v.op == "nd":
            r = v.args[0].rank
            if best is None or r < best[0]:
                best = (r, v.args[0])
    if best is None:
        for v in vals:
            if v.op == "bot":
                return BOT
        return f(*vals)
    key = tuple(v.id for v in vals)
    res = memo.get(key)
    if res is not None:
        return res
    budget[0] += 1
    if budget[0] > SIZE_CAP:
        raise TooBig("gated value too large")
    subj = best[1]
    tops = [v.op == "nd" and v.args[0] is subj for v in vals]
    # union of cuts
    cuts = sorted(set(c for v, t in zip(vals, tops) if t for c in v.args[1]))
    idx = [0] * len(vals)
    ch = []
    for i in range(len(cuts) + 1):
        lo = 0 if i == 0 else cuts[i - 1]
        sub = []
        for j, v in enumerate(vals):
            if tops[j]:
                cs = v.args[1]
                while idx[j] < len(cs) and cs[idx[j]] <= lo:
                    idx[j] += 1
                sub.append(v.args[2][idx[j]])
            else:
                sub.append(v)
        ch.append(_apply(f, tuple(sub), memo, budget))
    res = node(subj, cuts, ch)
    memo[key] = res
    return res


def node(subj, cuts, ch):
    ensure_rank(subj)
    first = ch[0]
    if all(c is first for c in ch):
        return first
    r = subj.rank
    if all(top_rank(c) > r for c in ch):
        return nd_raw(subj, cuts, ch)
    # children test lower-ranked subjects: rebuild through ite
    res = ch[-1]
    for i in range(len(ch) - 2, -1, -1):
        c = bool_in(subj, [cuts[i]], True)
        res = ite(c, ch[i], res)
    return res


def _ite_leaf(c, a, b):
    return a if c.args[0] else b


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "bot":
        return BOT
    memo = _memo.setdefault("ite", {})
    return _ite(c, a, b, memo)


def _ite(c, a, b, memo):
    if c.op == "c":
        return a if c.args[0] else b
    if c.op == "bot":
        return BOT
    if a is b:
        return a
    key = (c.id, a.id, b.id)
    res = memo.get(key)
    if res is not None:
        return res
    vals = (c, a, b)
    subj = min((v.args[0] for v in vals if v.op == "nd"), key=lambda s: s.rank)
    tops = [v.op == "nd" and v.args[0] is subj for v in vals]
    cuts = sorted(set(k for v, t in zip(vals, tops) if t for k in v.args[1]))
    idx = [0, 0, 0]
    ch = []
    for i in range(len(cuts) + 1):
        lo = 0 if i == 0 else cuts[i - 1]
        sub = []
        for j, v in enumerate(vals):
            if tops[j]:
                cs = v.args[1]
                while idx[j] < len(cs) and cs[idx[j]] <= lo:
                    idx[j] += 1
                sub.append(v.args[2][idx[j]])
            else:
                sub.append(v)
        ch.append(_ite(sub[0], sub[1], sub[2], memo))
    res = nd_raw(subj, cuts, ch)
    memo[key] = res
    return res


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    return ite(a, b, FALSE)


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def leaves(v):
    """[(condition, leaf)] of a gated value."""
    if v.op != "nd":
        return [(TRUE, v)]
    out = {}
    order = []

    def rec(x, c):
        if x.op != "nd":
            if x.id in out:
                out[x.id][0] = bor(out[x.id][0], c)
            else:
                out[x.id] = [c, x]
                order.append(x.id)
            return
        s, cuts, ch = x.args
        for i, y in enumerate(ch):
            lo = 0 if i == 0 else cuts[i - 1]
            if i == 0:
                k = bool_in(s, [cuts[0]], True)
            elif i == len(ch) - 1:
                k = bool_in(s, [lo], False)
            else:
                k = bool_in(s, [lo, cuts[i]], False)
            rec(y, band(c, k))

    rec(v, TRUE)
    return [(out[i][0], out[i][1]) for i in order]


def leafset(v):
    seen, out, st = set(), [], [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "nd":
            st.extend(x.args[2])
        else:
            out.append(x)
    return out


def simplify(v, c):
    """some value equal to v wherever c holds, with decisions settled by c removed"""
    if v.op != "nd" or c.op != "nd":
        return v
    memo = _memo.setdefault("simp", {})
    return _simp(v, c, memo)


def _simp(v, c, memo):
    if v.op != "nd" or c is TRUE or c.op == "bot":
        return v
    if c is FALSE:
        return None
    key = (v.id, c.id)
    if key in memo:
        return memo[key]
    sv, sc = v.args[0], c.args[0]
    if sc.rank < sv.rank:
        d = FALSE
        for x in c.args[2]:
            d = bor(d, x)
            if d is TRUE:
                break
        r = _simp(v, d, memo)
    else:
        same = sv is sc
        cuts = sorted(set(v.args[1]) | set(c.args[1])) if same else list(v.args[1])
        ch, prev = [], None
        iv = ic = 0
        for i in range(len(cuts) + 1):
            lo = 0 if i == 0 else cuts[i - 1]
            while iv < len(v.args[1]) and v.args[1][iv] <= lo:
                iv += 1
            x = v.args[2][iv]
            if same:
                while ic < len(c.args[1]) and c.args[1][ic] <= lo:
                    ic += 1
                k = c.args[2][ic]
            else:
                k = c
            y = None if k is FALSE else _simp(x, k, memo)
            ch.append(y)
        if all(y is None for y in ch):
            memo[key] = None
            return None
        # don't-care children take the value of a neighbour
        last = next(y for y in ch if y is not None)
        for i, y in enumerate(ch):
            if y is None:
                ch[i] = last
            else:
                last = y
        r = nd_raw(sv, cuts, ch)
    memo[key] = r
    return r


def restrict(v, c):
    """v where c holds, BOT elsewhere."""
    return ite(c, v, BOT)


# ---------------------------------------------------------------- linear

def _lin(t):
    """-> (const, {term: coef})"""
    if t.op == "c":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


NOTCAT = False      # write constants minus values as complements where that is exact


def mklin(k, d, w):
    m = (1 << w) - 1
    k &= m
    items = tuple(sorted(((a, c & m) for a, c in d.items() if c & m), key=lambda x: x[0].id))
    if not items:
        return const(k, w)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    if NOTCAT and len(items) == 1 and items[0][1] == m and items[0][0].op == "cat":
        # 2^n*K + (2^n - 1) - x, x below 2^n: the complement of the low n bits
        ps = items[0][0].args
        n = w - ps[-1][2] if ps[-1][0] is None else w
        if ps[-1][0] is None and ps[-1][1]:
            n = w - ps[-1][2] + ps[-1][1].bit_length()
        if 0 < n < w and k & ((1 << n) - 1) == (1 << n) - 1:
            out = []
            for t, lo, l in ps:
                if t is None:
                    out.append((None, ~lo & ((1 << l) - 1), l))
                else:
                    out += pieces(mklin(-1, {_slice(t, lo, l): -1}, l))
            x = mkcat(slice_pieces(out, 0, n) + [(None, k >> n, w - n)])
            return x
    return mk("lin", (k, items), w)


def _add(a, b):
    if a.w == 1 or b.w == 1:
        raise Unsupported("bool arithmetic")
    r = _disjoint_or(a, b)
    if r is not None:
        return r
    ka, da = _lin(a)
    kb, db = _lin(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) + c
    return mklin(ka + kb, da, a.w)


def _sub(a, b):
    ka, da = _lin(a)
    kb, db = _lin(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) - c
    return mklin(ka - kb, da, a.w)


def _mul(a, b):
    if isc(b):
        a, b = b, a
    if isc(a):
        c = cval(a)
        if c and c & (c - 1) == 0 and b.op not in ("lin", "c"):
            return _shl(b, c.bit_length() - 1)
        k, d = _lin(b)
        return mklin(k * c, {t: x * c for t, x in d.items()}, a.w)
    if a.id > b.id:
        a, b = b, a
    return mk("op", ("mul", a, b), a.w)


def add(a, b):
    return apply_n("add", _add, (a, b))


def sub(a, b):
    return apply_n("sub", _sub, (a, b))


def mul(a, b):
    return apply_n("mul", _mul, (a, b))


def neg(a):
    return sub(const(0, a.w if a.op != "nd" else leafset(a)[0].w), a)


# ---------------------------------------------------------------- bits
# pieces: LSB first, tuple of (term or None, lo_or_value, width)

def pieces(t):
    if t.op == "c":
        return [(None, t.args[0], t.w)]
    if t.op == "cat":
        return list(t.args)
    return [(t, 0, t.w)]


def _expand(p):
    t, lo, n = p
    if t is not None and not (lo == 0 and n == t.w):
        o = t.op
        if o == "op" and (t.args[0] in ("and", "or", "xor") or (t.args[0] == "mul" and lo == 0)):
            return pieces(_slice(t, lo, n))
        if o == "sx" and lo >= t.args[0].w:
            return [p]
        if o == "sx" or (o == "lin" and lo == 0):
            return pieces(_slice(t, lo, n))
        if o == "lin" and lo:
            k, its = t.args
            j = lo if not k else min(lo, (k & -k).bit_length() - 1)
            for x, c in its:
                j = min(j, (c & -c).bit_length() - 1)
                if not j:
                    break
            if j:           # bits lo.. of 2^j * z are bits lo-j.. of z
                return _expand((mklin(k >> j, {x: c >> j for x, c in its}, t.w), lo - j, n))
    elif t is not None and t.op == "cat":
        return list(t.args)
    return [p]


def mkcat(ps):
    out = []
    qs = []
    for p in ps:
        if p[2]:
            qs.extend(_expand(p))
    for p in qs:
        if out:
            q = out[-1]
            if p[0] is None and q[0] is None:
                out[-1] = (None, q[1] | (p[1] << q[2]), q[2] + p[2])
                continue
            if p[0] is not None and q[0] is p[0] and q[1] + q[2] == p[1]:
                out[-1] = (q[0], q[1], q[2] + p[2])
                continue
        out.append(p)
    w = sum(p[2] for p in out)
    if len(out) == 1:
        t, lo, n = out[0]
        if t is None:
            return const(lo, w)
        if lo == 0 and n == t.w:
            return t
    return mk("cat", tuple(out), w)


def slice_pieces(ps, lo, n):
    out = []
    pos = 0
    hi = lo + n
    for t, v, w in ps:
        a, b = max(lo, pos), min(hi, pos + w)
        if a < b:
            off = a - pos
            if t is None:
                out.append((None, (v >> off) & ((1 << (b - a)) - 1), b - a))
            else:
                out.append((t, v + off, b - a))
        pos += w
    return out


def _slice(t, lo, n):
    if lo == 0 and n == t.w:
        return t
    if t.op == "lin" and lo == 0:
        k, its = t.args
        d = {}
        for a, c in its:
            s = _slice(a, 0, n)
            ks, ds = _lin(s)
            k += ks * c
            for x, y in ds.items():
                d[x] = d.get(x, 0) + y * c
        return mklin(k, d, n)
    if t.op == "op" and t.args[0] in ("and", "or", "xor"):
        return _bitop(t.args[0], _slice(t.args[1], lo, n), _slice(t.args[2], lo, n))
    if t.op == "op" and t.args[0] == "mul" and lo == 0:
        return _mul(_slice(t.args[1], 0, n), _slice(t.args[2], 0, n))
    if t.op == "sx":
        b = t.args[0]
        if lo + n <= b.w:
            return _slice(b, lo, n)
        if lo == 0:
            return _sext(b, n)
    if t.op == "sx":                 # straddles the sign: keep low part exact
        b = t.args[0]
        if lo < b.w:
            return mkcat([(_slice(b, lo, b.w - lo), 0, b.w - lo), (t, b.w, lo + n - b.w)])
        return mk("cat", ((t, lo, n),), n)
    return mkcat(slice_pieces(pieces(t), lo, n))


def bslice(t, lo, n):
    return apply_n(("slice", lo, n), lambda x: _slice(x, lo, n), (t,))


def trunc(t, n):
    return bslice(t, 0, n)


def _zext(t, n):
    if t.w == n:
        return t
    return mkcat(pieces(t) + [(None, 0, n - t.w)])


def zext(t, n):
    return apply_n(("zext", n), lambda x: _zext(x, n), (t,))


def _sext(t, n):
    if t.w == n:
        return t
    if isc(t):
        return const(sval(t), n)
    ps = pieces(t)
    if ps[-1][0] is None:
        top = ps[-1]
        bit = (top[1] >> (top[2] - 1)) & 1
        fill = ((1 << (n - t.w)) - 1) if bit else 0
        return mkcat(ps + [(None, fill, n - t.w)])
    if t.op == "sx":
        return _sext(t.args[0], n)
    return mk("sx", (t,), n)


def sext(t, n):
    return apply_n(("sext", n), lambda x: _sext(x, n), (t,))


def cast(v, n, signed_src):
    """integer cast of v to n bits"""
    def f(x):
        if x.w is None:
            raise Unsupported("cast of non-scalar")
        if x.w == n:
            return x
        if x.w > n:
            return _slice(x, 0, n)
        return _sext(x, n) if signed_src else _zext(x, n)
    return apply_n(("cast", n, signed_src), f, (v,))


def _align(a, b):
    """common refinement of two piece lists"""
    out = []
    i = j = 0
    pa, pb = list(pieces(a)), list(pieces(b))
    ra = rb = 0
    while i < len(pa):
        ta, va, wa = pa[i]
        tb, vb, wb = pb[j]
        n = min(wa - ra, wb - rb)
        out.append((
            (None, (va >> ra) & ((1 << n) - 1), n) if ta is None else (ta, va + ra, n),
            (None, (vb >> rb) & ((1 << n) - 1), n) if tb is None else (tb, vb + rb, n)))
        ra += n
        rb += n
        if ra == wa:
            i += 1
            ra = 0
        if rb == wb:
            j += 1
            rb = 0
    return out


def _disjoint_or(a, b):
    """a|b when their non-zero bits are disjoint (a+b too), else None."""
    if a.op not in ("cat", "c") or b.op not in ("cat", "c"):
        return None
    if a.op == "c" and b.op == "c":
        return None
    out = []
    for p, q in _align(a, b):
        if p[0] is None and p[1] == 0:
            out.append(q)
        elif q[0] is None and q[1] == 0:
            out.append(p)
        else:
            return None
    return mkcat(out)


def _single(p):
    return mkcat([p])


def _bitop(op, a, b):
    w = a.w
    if isc(a) and isc(b):
        x, y = cval(a), cval(b)
        return const({"and": x & y, "or": x | y, "xor": x ^ y}[op], w)
    if a is b:
        return const(0, w) if op == "xor" else a
    out = []
    for p, q in _align(a, b):
        n = p[2]
        if p[0] is None and q[0] is None:
            v = {"and": p[1] & q[1], "or": p[1] | q[1], "xor": p[1] ^ q[1]}[op]
            out.append((None, v, n))
            continue
        if p[0] is not None and q[0] is not None:
            if p == q:
                out.append((None, 0, n) if op == "xor" else p)
                continue
            x, y = _single(p), _single(q)
            if isc(x) or isc(y):
                out += pieces(_bitop(op, x, y))
                continue
            if x.id > y.id:
                x, y = y, x
            out.append((mk("op", (op, x, y), n), 0, n))
            continue
        if p[0] is None:
            p, q = q, p
        c = q[1]
        # split constant into runs of 0s / 1s
        pos = 0
        while pos < n:
            bit = (c >> pos) & 1
            e = pos
            while e < n and ((c >> e) & 1) == bit:
                e += 1
            piece = (p[0], p[1] + pos, e - pos)
            if op == "and":
                out.append(piece if bit else (None, 0, e - pos))
            elif op == "or":
                out.append((None, (1 << (e - pos)) - 1, e - pos) if bit else piece)
            elif bit:
                x = _single(piece)
                out.append((_sub(const(-1, x.w), x) if x.w > 1 else mk("op", ("not", x), 1), 0, e - pos))
            else:
                out.append(piece)
            pos = e
    return mkcat(out)


def bitop(op, a, b):
    def f(x, y):
        if x.w == 1 and y.w == 1:
            raise Unsupported("bool leaf")
        return _bitop(op, x, y)
    wa = leafset(a)[0].w
    if wa == 1:
        if op == "and":
            return ite(a, b, FALSE)
        if op == "or":
            return ite(a, TRUE, b)
        return ite(a, bnot(b), b)
    return apply_n(op, f, (a, b))


def _shl(t, k):
    if k >= t.w:
        return const(0, t.w)
    if t.op == "lin":
        kk, d = _lin(t)
        return mklin(kk << k, {x: c << k for x, c in d.items()}, t.w)
    return mkcat([(None, 0, k)] + slice_pieces(pieces(t), 0, t.w - k))


def _shr(t, k):
    if k >= t.w:
        return const(0, t.w)
    return mkcat(slice_pieces(pieces(t), k, t.w - k) + [(None, 0, k)])


def _sar(t, k):
    if k == 0:
        return t
    if isc(t):
        return const(sval(t) >> k, t.w)
    s = _slice(t, k, t.w - k) if t.op != "lin" else mkcat(slice_pieces(pieces(t), k, t.w - k))
    return _sext(s, t.w)


def shift(kind, a, b):
    def f(x, y):
        if isc(y):
            k = cval(y) & (x.w - 1)
            return {"shl": _shl, "shr": _shr, "sar": _sar}[kind](x, k)
        if isc(x) and cval(x) == 0:
            return x
        return mk("op", (kind, x, y), x.w)
    return apply_n(kind, f, (a, b))


def bitcount(name, x, w):
    """leading_zeros and the like, where the constant bits settle it"""
    if isc(x):
        v = cval(x)
        if name == "count_ones":
            return const(bin(v).count("1"), w)
        if v == 0:
            return const(x.w, w)
        return const(x.w - v.bit_length() if name == "leading_zeros" else (v & -v).bit_length() - 1, w)
    if name == "count_ones" or x.op != "cat":
        return None
    n = 0
    for t, lo, l in (reversed(x.args) if name == "leading_zeros" else x.args):
        if t is not None:
            return None
        if lo:
            return const(n + (l - lo.bit_length() if name == "leading_zeros" else (lo & -lo).bit_length() - 1), w)
        n += l
    return None


def opaque(name, vals, w, lift=True):
    """Uninterpreted function of scalar/gated operands."""
    def f(*xs):
        if name in ("leading_zeros", "trailing_zeros", "count_ones"):
            r = bitcount(name, xs[0], w)
            if r is not None:
                return r
        t = mk("op", (name,) + xs, w)
        return boolsym(t) if w == 1 else t
    if not lift:
        return f(*vals)
    try:
        return apply_n(("opq", name, w), f, vals)
    except TooBig:
        return f(*vals)


# ------------------------------------------------------------ comparisons

def _norm_set(cuts, first, w):
    """cuts with alternation -> list of [lo,hi) intervals"""
    out = []
    lo = 0
    b = first
    for c in list(cuts) + [1 << w]:
        if b and lo < c:
            out.append((lo, c))
        lo = c
        b = not b
    return out


def _set_to_bool(subj, ivs):
    ivs = sorted((a, b) for a, b in ivs if a < b)
    m = []
    for a, b in ivs:
        if m and a <= m[-1][1]:
            m[-1] = (m[-1][0], max(b, m[-1][1]))
        else:
            m.append((a, b))
    full = 1 << subj.w
    cuts = []
    first = False
    for a, b in m:
        if a == 0:
            first = True
        else:
            cuts.append(a)
        if b < full:
            cuts.append(b)
    if not m:
        return FALSE
    if not cuts:
        return TRUE
    return bool_in(subj, cuts, first)


def _shift_set(ivs, k, w):
    """{x : x + k in S}"""
    M = 1 << w
    out = []
    for a, b in ivs:
        a2, b2 = (a - k) % M, (b - 1 - k) % M
        if a2 <= b2:
            out.append((a2, b2 + 1))
        else:
            out.append((a2, M))
            out.append((0, b2 + 1))
    return out


def _neg_set(ivs, w):
    """{x : -x in S}"""
    M = 1 << w
    out = []
    for a, b in ivs:
        # -x in [a,b-1]  <=> x in [-(b-1), -a]
        lo, hi = (-(b - 1)) % M, (-a) % M
        if lo <= hi:
            out.append((lo, hi + 1))
        else:
            out.append((lo, M))
            out.append((0, hi + 1))
    return out


def inset(t, ivs):
    """Boolean: leaf t (unsigned) lies in the union of [lo,hi)."""
    w = t.w
    if isc(t):
        v = cval(t)
        return TRUE if any(a <= v < b for a, b in ivs) else FALSE
    if ORDER is not None and w >= 32:
        ivs = [(a, b) for a, b in ivs if b - a != 1 or ORDER("eq", t, const(a, w)) is not False]
        if not ivs:
            return FALSE
    if t.op == "lin":
        k, its = t.args
        if k:
            ivs = _shift_set(ivs, k, w)
            t = mklin(0, dict(its), w)
            return inset(t, ivs)
        its = sorted(its, key=lambda x: x[0].id)
        c0 = its[0][1]
        if c0 > (1 << (w - 1)) or (len(its) == 1 and c0 == (1 << w) - 1):
            return inset(mklin(0, {a: -c for a, c in its}, w), _neg_set(ivs, w))
        # zero-difference of zero-extended values compares the narrow values
        if len(its) == 2 and ivs in ([(0, 1)], [(1, 1 << w)]) and c0 == 1 and its[1][1] == (1 << w) - 1:
            r = _eq_pieces(its[0][0], its[1][0])
            if r is not None:
                return r if ivs == [(0, 1)] else bnot(r)
        return _set_to_bool(t, ivs)
    if t.op == "op" and t.args[0] == "xor" and ivs in ([(0, 1)], [(1, 1 << w)]):
        r = _eq(t.args[1], t.args[2])
        return r if ivs == [(0, 1)] else bnot(r)
    if t.op == "op" and t.args[0] == "not":
        return inset(t.args[1], [(1 - x, 2 - x) for a, b in ivs for x in range(a, b)])
    if t.op == "sx":
        b = t.args[0]
        h = 1 << (b.w - 1)
        M = 1 << w
        out = []
        for a, e in ivs:
            x, y = max(a, 0), min(e, h)
            if x < y:
                out.append((x, y))
            x, y = max(a, M - h), min(e, M)
            if x < y:
                out.append((x - (M - 2 * h), y - (M - 2 * h)))
        return inset(b, out)
    if t.op == "cat":
        ps = list(t.args)
        if ps[-1][0] is None:
            tw = sum(p[2] for p in ps[:-1])
            base = ps[-1][1] << tw
            out = []
            for a, e in ivs:
                x, y = max(a, base), min(e, base + (1 << tw))
                if x < y:
                    out.append((x - base, y - base))
            return inset(mkcat(ps[:-1]), out)
        if ps[0][0] is None:
            k = ps[0][2]
            c = ps[0][1]
            out = []
            for a, e in ivs:
                x = -((-(a - c)) >> k)
                y = -((-(e - c)) >> k)
                x = max(x, 0)
                if x < y:
                    out.append((x, y))
            return inset(mkcat(ps[1:]), out)
        if len(ps) > 1:
            pts = None
            if sum(e - a for a, e in ivs) <= 2:
                pts = ([v for a, e in ivs for v in range(a, e)], False)
            else:
                M = 1 << w
                comp = []
                lo = 0
                for a, e in sorted(ivs):
                    comp.append((lo, a))
                    lo = e
                comp.append((lo, M))
                if sum(e - a for a, e in comp) <= 2:
                    pts = ([v for a, e in comp for v in range(a, e)], True)
            if pts is not None:
                r = FALSE
                for v in pts[0]:
                    c = TRUE
                    pos = 0
                    for p in ps:
                        x = (v >> pos) & ((1 << p[2]) - 1)
                        c = band(c, inset(_single(p), [(x, x + 1)]))
                        pos += p[2]
                    r = bor(r, c)
                return bnot(r) if pts[1] else r
        elif ps[0][0].op == "sx":
            s = _slice(ps[0][0], ps[0][1], ps[0][2])
            if s is not t:
                return inset(s, ivs)
    return _set_to_bool(t, ivs)


def _eq_pieces(a, b):
    """equality of two terms with the same piece structure, or None"""
    if a.op != "cat" and b.op != "cat":
        if a.op == "sx" and b.op == "sx" and a.args[0].w == b.args[0].w:
            return inset(_sub(a.args[0], b.args[0]), [(0, 1)])
        return None
    al = _align(a, b)
    if len(al) == 1:
        return None
    r = TRUE
    for p, q in al:
        if p[0] is None and q[0] is None:
            if p[1] != q[1]:
                return FALSE
            continue
        x, y = _single(p), _single(q)
        r = band(r, inset(_sub(x, y), [(0, 1)]))
    return r


def _eq(a, b):
    if a is b:
        return TRUE
    if a.w is None or b.w is None:
        return eq_agg(a, b)
    if not isc(a) and not isc(b):
        r = _eq_pieces(a, b) if (a.op in ("cat", "sx") or b.op in ("cat", "sx")) else None
        if r is not None:
            return r
    if ORDER is not None and ORDER("eq", a, b) is False:
        return FALSE
    d = _sub(a, b)
    return inset(d, [(0, 1)])


def eq_agg(a, b):
    if a.op == "ptr" and b.op == "ptr":
        return TRUE if a is b else boolsym(mk("op", ("ptreq", a, b), 1))
    return boolsym(mk("op", ("aggeq", a, b), 1))


def eq(a, b):
    ls = leafset(a)
    if ls[0].w == 1:
        return ite(a, b, bnot(b))
    return apply_n("eq", _eq, (a, b))


ORDER = None        # optional oracle: (kind, a, b) -> True / False / None


def _ult(a, b):
    w = a.w
    if ORDER is not None:
        r = ORDER("lt", a, b)
        if r is not None:
            return TRUE if r else FALSE
    if isc(b):
        return inset(a, [(0, cval(b))])
    if isc(a):
        return inset(b, [(cval(a) + 1, 1 << w)])
    if a is b:
        return FALSE
    # strip common zero extension
    pa, pb = pieces(a), pieces(b)
    if pa[-1][0] is None and pb[-1][0] is None and pa[-1][1] == 0 and pb[-1][1] == 0:
        n = w - min(pa[-1][2], pb[-1][2])
        return _ult(_slice(a, 0, n), _slice(b, 0, n))
    if a.op == "lin" or b.op == "lin":
        d = _sub(a, b)
        if isc(d):      # a + c below a: a wrapped; a below a + c: a did not
            c = cval(d)
            return inset(b, [((1 << w) - c, 1 << w)]) if b.op != "lin" or not b.args[0] else inset(a, [(0, c)])
    return boolsym(mk("op", ("ult", a, b), 1))


def _slt(a, b):
    w = a.w
    if ORDER is not None:
        r = ORDER("lt", a, b)
        if r is not None:
            return TRUE if r else FALSE
    H = 1 << (w - 1)
    if isc(b):
        v = sval(b)
        # signed x < v
        if v <= 0:
            return inset(a, [(H, v + 2 * H)])
        return inset(a, [(0, v), (H, 2 * H)])
    if isc(a):
        v = sval(a)
        if v >= 0:
            return inset(b, [(v + 1, H)])
        return inset(b, [(v + 1 + 2 * H, 2 * H), (0, H)])
    if a is b:
        return FALSE
    pa, pb = pieces(a), pieces(b)
    if pa[-1][0] is None and pb[-1][0] is None and pa[-1][1] == 0 and pb[-1][1] == 0:
        return _ult(a, b)
    if a.op == "sx" and b.op == "sx" and a.args[0].w == b.args[0].w:
        return _slt(a.args[0], b.args[0])
    return boolsym(mk("op", ("slt", a, b), 1))


def ult(a, b):
    return apply_n("ult", _ult, (a, b))


def slt(a, b):
    return apply_n("slt", _slt, (a, b))


# ------------------------------------------------------------ pretty print

def show(t, depth=3):
    if depth < 0:
        return ".."
    o = t.op
    if o == "c":
        return str(cval(t))
    if o == "bot":
        return "_|_"
    if o == "sym":
        return str(t.args[0])
    if o == "prj":
        return "%s.%s" % (show(t.args[0], depth), t.args[1] if isinstance(t.args[1], str) else "[" + show(t.args[1], depth - 1) + "]")
    if o == "lin":
        s = []
        h = 1 << (t.w - 1)
        for a, c in t.args[1]:
            c = c - 2 * h if c >= h else c
            s.append(("%+d*" % c if c not in (1, -1) else ("+" if c == 1 else "-")) + show(a, depth - 1))
        k = t.args[0]
        if k:
            k = k - 2 * h if k >= h else k
            s.append("%+d" % k)
        return "(" + " ".join(s) + ")"
    if o == "cat":
        if len(t.args) == 2 and t.args[1][0] is None and t.args[1][1] == 0 and t.args[0][0] is not None and t.args[0][1] == 0 and t.args[0][2] == t.args[0][0].w:
            return "zx%d(%s)" % (t.w, show(t.args[0][0], depth - 1))
        return "{" + ",".join(("%d'%d" % (p[2], p[1])) if p[0] is None else "%s[%d+:%d]" % (show(p[0], depth - 1), p[1], p[2]) for p in reversed(t.args)) + "}"
    if o == "sx":
        return "sx%d(%s)" % (t.w, show(t.args[0], depth - 1))
    if o == "op" and t.args[0] == "tab":
        return "table%d[%s]" % (t.args[1].id, ", ".join(show(x, depth - 1) for x in t.args[2:]))
    if o == "op":
        return "%s(%s)" % (t.args[0], ", ".join(show(x, depth - 1) if isinstance(x, Term) else str(x) for x in t.args[1:]))
    if o == "nd":
        s, cuts, ch = t.args
        if t.w == 1 and len(ch) == 2 and ch[0].op == "c" and ch[1].op == "c":
            return "(%s %s %d)" % (show(s, depth - 1), ">=" if ch[1] is TRUE else "<", cuts[0])
        return "case(%s: %s)" % (show(s, depth - 1), "; ".join(
            ("<%d" % cuts[i] if i < len(cuts) else "else") + "=>" + show(c, depth - 1) for i, c in enumerate(ch)))
    if o == "st":
        ty = t.args[0]
        return "%s{%s%s}" % (str(ty[1]).split("::")[-1] if ty and len(ty) > 1 else "?",
                             "" if t.args[1] is None else "..%s " % show(t.args[1], 1),
                             ", ".join("%s:%s" % (k, show(v, depth - 1)) for k, v in t.args[2]))
    if o == "ar":
        return "[%s%s]" % ("" if t.args[0] is None else "..%s " % show(t.args[0], 1),
                           ", ".join("%d:%s" % (k, show(v, depth - 1)) for k, v in t.args[1]))
    if o == "sto":
        return "%s[%s<-%s]" % (show(t.args[0], depth - 1), show(t.args[1], depth - 1), show(t.args[2], depth - 1))
    if o == "ptr":
        r, p, off, n = t.args
        return "&%s%s" % (r, "".join("." + (e if isinstance(e, str) else "[" + show(e, 2) + "]") for e in p))
    return "%s%r" % (o, t.args)


reset()
