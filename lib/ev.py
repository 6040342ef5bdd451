"""Gated value-numbering of MIR: a forward dataflow evaluation that gives every
memory cell a gated value, inlining local calls through the resolved call graph.

No paths are enumerated and no solver is used: at each join the incoming states
are merged cell by cell into gates; loops are unrolled only where the trip
count folds to a constant.
"""
import vg
import ranges
from vg import Term, Unsupported, mk, const, ite, band, bor, bnot, isc, cval
from prog import Prog, width, SIGNED, FLOAT, WID

U64 = ("prim", "usize")



def _tabbits(v, n):
    if v.op == "c":
        return cval(v).bit_length()
    if n == 0 or v.op != "ar":
        return 64
    return max([_tabbits(x, n - 1) for _, x in v.args[1]] or [0])


def _mktab(args, w):
    """lookup term, no wider than the largest entry"""
    nb = _tabbits(args[1], len(args) - 2)
    if 1 < nb < w:
        return vg._zext(mk("op", args, nb), w)
    return mk("op", args, w)


def _tabwidth(v, depth):
    """width of the scalar entries of a constant table with `depth` dimensions"""
    if v.op != "ar" or v.args[0] is not None or not v.args[1]:
        return None
    w = None
    for _, x in v.args[1]:
        if depth == 1:
            y = x.w if x.op == "c" else None
        else:
            y = _tabwidth(x, depth - 1)
        if y is None or (w is not None and y != w):
            return None
        w = y
    return w


def divrem(base, a, b, w, signed):
    def f(x, y):
        if isc(x) and isc(y) and cval(y) != 0:
            if signed:
                p, q = vg.sval(x), vg.sval(y)
                d = abs(p) // abs(q)
                if (p < 0) != (q < 0):
                    d = -d
                return const(d if base == "Div" else p - d * q, w)
            p, q = cval(x), cval(y)
            return const(p // q if base == "Div" else p % q, w)
        if isc(y) and cval(y) == 1:
            return x if base == "Div" else const(0, w)
        if isc(y) and not signed and cval(y) & (cval(y) - 1) == 0 and cval(y):
            k = cval(y).bit_length() - 1
            return vg._shr(x, k) if base == "Div" else vg._bitop("and", x, const(cval(y) - 1, w))
        if base == "Rem" and not signed and not isc(y):
            return vg._sub(x, vg._mul(mk("op", ("udiv", x, y), w), y))
        return mk("op", (("s" if signed else "u") + base.lower(), x, y), w)
    return vg.apply_n((base, signed, w), f, (a, b))


class Lazy:
    __slots__ = ("alts", "val")

    def __init__(self, alts):
        self.alts = alts  # [(cond, value-or-Lazy)]
        self.val = None


class Event:
    __slots__ = ("kind", "fam", "idx", "args", "pc", "order", "where", "stream", "res", "extra")

    def __repr__(self):
        return "<%s %s%s %s @%s>" % (self.kind, self.fam, list(self.idx), self.args, self.where)


class Call:
    __slots__ = ("path", "rpath", "name", "trait", "targs", "args", "argtys", "pc", "st", "dty", "where", "rk", "frame")


class Ev:
    prune_loops = False       # drop iterations whose condition is refuted
    loop_enter = None         # called when a loop is entered: (frame, loop, [(condition, store)]) -> the same, possibly abstracted

    def __init__(self, prog, hooks=None, opaque_unknown=False, maxiter=70):
        self.P = prog
        self.hooks = hooks or {}
        self.events = []
        self.order = 0
        self.nframe = 0
        self.nheap = 0
        self.curpc = vg.TRUE
        self._tabs = {}
        self.rootinit = {}
        self.stack = []
        self.opaque_unknown = opaque_unknown
        self.maxiter = maxiter
        self.unmodelled = {}
        self.functions = set()
        self.nchecked = 0         # assertions looked at
        self.constoverflow = False   # the same, where both operands are known
        self.overflows = False    # whether the overflow flags of checked arithmetic are conditions (or never set)
        self.panics = None        # when a list: [(condition, kind, where, body)] of paths the evaluation drops because they panic
        self.calls = 0
        self.notes = []
        self.prune = None
        import models
        self.models = models.TABLE
        self.trait_models = models.TRAIT_TABLE
        self.suffix_models = models.PATTERNS

    # ------------------------------------------------------------ fresh
    def fresh(self, op, args, ty):
        """an unknown value of type ty named by (op,args)"""
        w = width(ty) if ty else None
        if ty is not None and ty[0] == "never":
            return vg.BOT
        if w is not None:
            t = mk(op, args, w)
            if t.ty is None:
                t.ty = ty
            return vg.boolsym(t) if w == 1 else t
        if ty is not None and ty[0] in ("ref", "ptr"):
            base = mk(op, args, None)
            return self.refto(base, ty[2])
        if ty is not None and ty[0] == "adt" and ty[1] == "std::boxed::Box":
            return self.refto(mk(op, args, None), ty[2][0])
        if ty is not None and ty[0] == "tuple" and not ty[1]:
            return vg.UNIT
        t = mk(op, args, None)
        if t.ty is None:
            t.ty = ty
        return t

    def refto(self, base, pointee):
        root = ("ref", base)
        if root not in self.rootinit:
            self.rootinit[root] = pointee
        if pointee[0] == "slice":
            return mk("ptr", (root, (), const(0, 64), mk("op", ("len", base), 64)))
        if pointee[0] == "str":
            return mk("ptr", (root, (), const(0, 64), mk("op", ("len", base), 64)))
        return mk("ptr", (root, (), None, None))

    def sym(self, name, ty):
        return self.fresh("sym", (name,), ty)

    # --------------------------------------------------------- projection
    def project(self, v, key):
        if isinstance(key, Term):
            return self.index(v, key)
        op = v.op
        if op == "nd":
            return self.lift1(("prj", key), lambda x: self.project(x, key), v)
        if op == "bot":
            return v
        if op == "st":
            for k, x in v.args[2]:
                if k == key:
                    return x
            if v.args[1] is not None:
                return self.project(v.args[1], key)
            return vg.BOT
        if op == "ptr":
            if key in ("0", "pointer", "1"):
                return v
            raise Unsupported("project %s of pointer" % key)
        if op in ("ar", "sto") and key == "#arr":
            return v
        if op in ("sym", "prj", "op"):
            ft = self.P.field_ty(v.ty, key)
            return self.fresh("prj", (v, key), ft)
        if op == "c" and key in ("0",):
            return v
        raise Unsupported("project %s of %s" % (key, vg.show(v)))

    def lift1(self, name, f, v):
        memo = {}

        def rec(x):
            if x.op != "nd":
                return f(x)
            r = memo.get(x.id)
            if r is None:
                s, cuts, ch = x.args
                chs = [rec(c) for c in ch]
                r = self.gate(s, cuts, chs)
                memo[x.id] = r
            return r
        return rec(v)

    def gate(self, s, cuts, chs):
        r = chs[-1]
        for i in range(len(chs) - 2, -1, -1):
            r = self.merge(vg.bool_in(s, [cuts[i]], True), chs[i], r)
        return r

    def elem_ty(self, v):
        while v.op == "sto" or (v.op == "ar" and v.args[0] is not None):
            v = v.args[0]
        if v.ty is not None and v.ty[0] in ("arr", "slice"):
            return v.ty[1]
        return None

    def index(self, v, i):
        if v.op == "bot":
            return v
        if i.op == "nd":
            return self.lift1("ix", lambda k: self.index(v, k) if k.op != "bot" else k, i)
        if v.op == "nd":
            return self.lift1("ix", lambda x: self.index(x, i), v)
        if v.op == "st":
            return self.index(self.project(v, "#arr"), i)
        if v.op == "sto":
            b, j, x = v.args
            if j is i:
                return x
            c = vg._eq(i, j)
            if c is vg.TRUE:
                return x
            if c is vg.FALSE:
                return self.index(b, i)
            return self.merge(c, x, self.index(b, i))
        if v.op == "ar":
            base, items = v.args
            if isc(i):
                k = cval(i)
                for j, x in items:
                    if j == k:
                        return x
                if base is None:
                    return vg.BOT
                return self.index(base, i)
            if base is None and len(items) > 3:
                t = self.table(v, i)
                if t is not None:
                    return t
            r = self.index(base, i) if base is not None else None
            for j, x in reversed(items):
                if r is None:
                    r = x
                else:
                    r = self.merge(vg._eq(i, const(j, 64)), x, r)
            return r if r is not None else vg.BOT
        if v.op == "op" and v.args[0] == "tab" and v.w is None:
            if isc(i):
                col = self.table(v.args[1], v.args[2], cval(i))
                if col is not None:
                    return col
            w = _tabwidth(v.args[1], 2)
            return _mktab(v.args + (i,), w) if w else vg.BOT
        if v.op in ("sym", "prj", "op"):
            if v.ty is not None and v.ty[0] == "adt" and v.ty[1] == "std::vec::Vec":
                return self.index(self.project(v, "#arr"), i)
            et = v.ty[1] if v.ty is not None and v.ty[0] in ("arr", "slice") else None
            return self.fresh("prj", (v, i), et)
        raise Unsupported("index of %s" % vg.show(v))

    def table(self, v, i, col=None):
        """lookup in a constant table by a computed index, kept opaque"""
        key = (v.id, col)
        r = self._tabs.get(key)
        if r is None:
            r = (None, None)
            vals = [x for _, x in v.args[1]]
            if col is not None:
                vals = [dict(x.args[1]).get(col, vg.BOT) if x.op == "ar" and x.args[0] is None else vg.BOT for x in vals]
            if all(x.op == "c" for x in vals) and [k for k, _ in v.args[1]] == list(range(len(vals))):
                if vals[0].w > 1:
                    r = (self.array(vals), vals[0].w)
            elif col is None and _tabwidth(v, 2):
                r = (v, None)
            self._tabs[key] = r
        if r[0] is None:
            return None
        vals = r[0].args[1]
        if all(x is vals[0][1] for _, x in vals):
            return vals[0][1]
        if r[1] is not None:
            return _mktab(("tab", r[0], i), r[1])
        t = mk("op", ("tab", r[0], i), r[1])
        if t.ty is None and r[1] is None:
            t.ty = v.ty[1] if v.ty is not None and v.ty[0] == "arr" else None
        return t

    def setkey(self, v, key, x):
        """functional update"""
        if v is None:
            v = vg.BOT
        if isinstance(key, Term):
            return self.setindex(v, key, x)
        if v.op == "nd":
            return self.lift1(("set", key), lambda y: self.setkey(y, key, x), v)
        if v.op == "bot":
            return mk("st", (None, None, ((key, x),)))
        if v.op == "st":
            ty, base, items = v.args
            d = dict(items)
            d[key] = x
            if base is not None and self.project(base, key) is x:
                del d[key]
                if not d:
                    return base
            r = mk("st", (ty, base, tuple(sorted(d.items(), key=lambda kv: kv[0]))))
            return r
        if v.op in ("sym", "prj", "op"):
            if self.project(v, key) is x:
                return v
            r = mk("st", (v.ty, v, ((key, x),)))
            r.ty = v.ty
            return r
        if v.op in ("ar", "sto") and key == "#arr":
            return x
        raise Unsupported("set %s of %s" % (key, vg.show(v)))

    def setindex(self, v, i, x):
        if i.op == "nd":
            r = v
            for c, k in vg.leaves(i):
                if k.op == "bot":
                    continue
                r = self.setindex(r, k, self.merge(c, x, self.index(r, k)))
            return r
        if v.op == "nd":
            return self.lift1("setix", lambda y: self.setindex(y, i, x), v)
        if v.op == "st":
            return self.setkey(v, "#arr", self.setindex(self.project(v, "#arr"), i, x))
        if v.op == "bot":
            return vg.BOT
        if v.op in ("sym", "prj", "op") and v.ty is not None and v.ty[0] == "adt" and v.ty[1] == "std::vec::Vec":
            return self.setkey(v, "#arr", self.setindex(self.project(v, "#arr"), i, x))
        if self.index(v, i) is x:
            return v
        if isc(i):
            if v.op == "ar":
                base, items = v.args
                d = dict(items)
                d[cval(i)] = x
                r = mk("ar", (base, tuple(sorted(d.items()))))
                r.ty = v.ty
                return r
            if v.op in ("sym", "prj", "op"):
                r = mk("ar", (v, ((cval(i), x),)))
                r.ty = v.ty
                return r
        if v.op == "sto" and v.args[1] is i:
            v = v.args[0]
            return self.setindex(v, i, x)
        r = mk("sto", (v, i, x))
        r.ty = v.ty
        return r

    # ------------------------------------------------------------- merge
    def merge(self, c, a, b):
        """ite(c,a,b) on arbitrary values, cell by cell on aggregates"""
        if a is b or c is vg.TRUE:
            return a
        if c is vg.FALSE:
            return b
        if a.op == "bot" and (b.w is None):
            return b
        if b.op == "bot" and (a.w is None):
            return a
        if a.w is not None and b.w is not None:
            return ite(c, a, b)
        if a.op == "bot" or b.op == "bot":
            return ite(c, a, b)
        if a.op in ("nd",) or b.op in ("nd",):
            if self._kind(a) == "st" or self._kind(b) == "st":
                return self._merge_st(c, a, b)
            return ite(c, a, b)
        ka, kb = self._kind(a), self._kind(b)
        if "arr" in (ka, kb):
            r = self._merge_arr(c, a, b)
            if r is not None:
                return r
            return ite(c, a, b)
        if "st" in (ka, kb) or (a.op in ("sym", "prj") and b.op in ("sym", "prj")):
            return self._merge_st(c, a, b)
        return ite(c, a, b)

    def _kind(self, v):
        if v.op == "st":
            return "st"
        if v.op in ("ar", "sto"):
            return "arr"
        if v.op in ("sym", "prj", "op") and v.w is None and v.ty is not None:
            if v.ty[0] in ("arr", "slice"):
                return "arr"
            if v.ty[0] in ("adt", "tuple", "closure"):
                return "sym"
        if v.op == "nd":
            for l in vg.leafset(v):
                k = self._kind(l)
                if k:
                    return k
        return None

    def _keys(self, v):
        ks = set()
        while v is not None and v.op == "st":
            ks.update(k for k, _ in v.args[2])
            v = v.args[1]
        return ks, v

    def _merge_st(self, c, a, b):
        if a.op == "nd" or b.op == "nd":
            return ite(c, a, b)
        ka, ba = self._keys(a)
        kb, bb = self._keys(b)
        keys = ka | kb
        base = None
        if ba is bb:
            base = ba
        else:
            tb = (ba if ba is not None else bb)
            more = self._allkeys(tb.ty)
            if more is None:
                return ite(c, a, b)
            keys |= set(more)
        items = {}
        for k in keys:
            x, y = self.project(a, k), self.project(b, k)
            if x.op == "bot" and "." in k:
                v = y
            elif y.op == "bot" and "." in k:
                v = x
            else:
                v = self.merge(c, x, y)
            if base is not None and self.project(base, k) is v:
                continue
            items[k] = v
        ty = a.args[0] if a.op == "st" else (b.args[0] if b.op == "st" else a.ty)
        if ty is None:
            ty = a.ty or b.ty
        if not items and base is not None:
            return base
        r = mk("st", (ty, base, tuple(sorted(items.items(), key=lambda kv: kv[0]))))
        if r.ty is None:
            r.ty = a.ty or b.ty
        return r

    def _allkeys(self, ty):
        if ty is None:
            return None
        if ty[0] == "tuple":
            return [str(i) for i in range(len(ty[1]))]
        if ty[0] == "adt":
            if ty[1] == "std::vec::Vec":
                return ["#arr", "#len"]
            if ty[1] == "std::option::Option":
                return ["#d", "Some.0"]
            if ty[1] == "std::result::Result":
                return ["#d", "Ok.0", "Err.0"]
            a = self.P.adts.get(ty[1])
            if a is None or not a["local"]:
                return None
            if a["kind"] == "enum":
                ks = ["#d"]
                for v in a["variants"]:
                    ks += ["%s.%s" % (v["n"], f["n"]) for f in v["f"]]
                return ks
            return [f["n"] for f in a["variants"][0]["f"]]
        return None

    def _chain(self, v):
        """array -> (base, [(idx, val)] oldest first)"""
        out = []
        while True:
            if v.op == "sto":
                out.append((v.args[1], v.args[2]))
                v = v.args[0]
            elif v.op == "ar":
                for k, x in reversed(v.args[1]):
                    out.append((const(k, 64), x))
                if v.args[0] is None:
                    return v, None, out[::-1]
                v = v.args[0]
            else:
                return v, v, out[::-1]

    def _merge_arr(self, c, a, b):
        if a.op == "nd" or b.op == "nd":
            return None
        if a.op == "ar" and b.op == "ar":
            da, db = dict(a.args[1]), dict(b.args[1])
            if a.args[0] is None and b.args[0] is None:
                if set(da) == set(db):
                    r = mk("ar", (None, tuple((k, self.merge(c, da[k], db[k])) for k in sorted(da))))
                    r.ty = a.ty
                    return r
                return None
        # common ancestor of the store chains
        anc = {}
        v = a
        while True:
            anc[v.id] = v
            if v.op in ("sto", "ar") and v.args[0] is not None:
                v = v.args[0]
            else:
                break
        v = b
        while v.id not in anc:
            if v.op in ("sto", "ar") and v.args[0] is not None:
                v = v.args[0]
            else:
                return None
        base = v
        def upto(x):
            out = []
            while x is not base:
                if x.op == "sto":
                    out.append((x.args[1], x.args[2]))
                else:
                    for k, y in reversed(x.args[1]):
                        out.append((const(k, 64), y))
                x = x.args[0]
            return out[::-1]
        sa, sb = upto(a), upto(b)
        r = base
        if [i for i, _ in sa] == [i for i, _ in sb]:
            for (i, x), (_, y) in zip(sa, sb):
                r = self.setindex(r, i, self.merge(c, x, y))
            return r
        for i, x in sa:
            r = self.setindex(r, i, self.merge(c, x, self.index(r, i)))
        for i, y in sb:
            r = self.setindex(r, i, self.merge(c, self.index(r, i), y))
        return r

    # ------------------------------------------------------------ memory
    def getroot(self, st, root):
        v = st.get(root)
        if v is None:
            if root in self.rootinit:
                v = self.fresh("sym", ("*%s" % _rootname(root),) if root[0] != "ref" else ("deref", root[1].id, _rootname(root)), self.rootinit[root])
                st[root] = v
                return v
            return vg.BOT
        if v.__class__ is Lazy:
            v = self.force(v)
            st[root] = v
        return v

    canonmerge = None

    def force(self, z):
        if z.val is None:
            alts = z.alts
            vals = [(c, self.force(v) if v.__class__ is Lazy else v) for c, v in alts]
            r = vals[-1][1]
            if any(v is not r for _, v in vals):
                for c, v in reversed(vals[:-1]):
                    r = self.merge(c, v, r)
                if self.canonmerge is not None and r.op == "nd" and r.w is not None and r.w > 1:
                    pc = vg.FALSE
                    for c, _ in vals:
                        pc = vg.bor(pc, c)
                    r = self.canonmerge(r, pc)
            z.val = r
            z.alts = None
        return z.val

    def readpath(self, st, root, path):
        v = self.getroot(st, root)
        for k in path:
            v = self.project(v, k)
        return v

    def readpath_v(self, v, path):
        for k in path:
            if k != "[]":
                v = self.project(v, k)
        return v

    def setpath(self, v, path, x):
        if not path:
            return x
        k = path[0]
        if len(path) == 1:
            return self.setkey(v, k, x)
        if isinstance(k, Term) and k.op == "nd":
            r = v
            for c, kk in vg.leaves(k):
                if kk.op == "bot":
                    continue
                old = self.index(r, kk)
                new = self.setpath(old, path[1:], x)
                r = self.setindex(r, kk, self.merge(c, new, old))
            return r
        if v.op == "bot":
            inner = vg.BOT
        else:
            inner = self.project(v, k)
        return self.setkey(v, k, self.setpath(inner, path[1:], x))

    def writepath(self, st, root, path, x, cond=None):
        v = self.getroot(st, root)
        if cond is not None and cond is not vg.TRUE:
            old = v
            for k in path:
                old = self.project(old, k)
            x = self.merge(cond, x, old)
        st[root] = self.setpath(v, path, x)

    def load(self, st, p):
        """value behind a (gated) pointer"""
        if p.op == "ptr":
            r, path, off, n = p.args
            v = self.readpath(st, r, path)
            return v
        if p.op == "nd":
            return self.lift1("load", lambda x: self.load(st, x), p)
        if p.op == "bot":
            return p
        raise Unsupported("load through %s" % vg.show(p))

    def store(self, st, p, x):
        for c, q in vg.leaves(p):
            if q.op == "bot":
                continue
            if q.op != "ptr":
                raise Unsupported("store through %s" % vg.show(q))
            self.writepath(st, q.args[0], q.args[1], x, c)

    def elem_ptr(self, p, i):
        """pointer to element i of a slice / array / vec pointer"""
        if i.op == "nd":
            i = self.settle(i)

        def f(q):
            if q.op == "bot":
                return q
            r, path, off, n = q.args
            ix = i if off is None else vg.add(off, i)
            return mk("ptr", (r, path + (ix,), None, None))
        return self.lift1("elem", f, p)

    def settle(self, v):
        r = vg.simplify(v, self.curpc)
        return v if r is None else r

    def field_ptr(self, p, k):
        def f(q):
            if q.op == "bot":
                return q
            return mk("ptr", (q.args[0], q.args[1] + (k,), None, None))
        return self.lift1("fld", f, p)

    def slice_len(self, st, p, ty=None):
        def f(q):
            if q.op == "bot":
                return q
            if q.op == "ptr" and q.args[3] is not None:
                return q.args[3]
            v = self.load(st, q)
            return self.len_of(v, ty)
        return self.lift1("len", f, p)

    def len_of(self, v, ty=None):
        if v.op == "st":
            for k, x in v.args[2]:
                if k == "#len":
                    return x
            if v.args[1] is not None:
                return self.len_of(v.args[1])
        if v.op == "nd":
            return self.lift1("len", self.len_of, v)
        while v.op == "sto":
            v = v.args[0]
        if v.op == "ar" and v.args[0] is None:
            return const(len(v.args[1]), 64)
        t = ty or v.ty
        if t is not None and t[0] == "arr" and t[2][1] is not None:
            return const(t[2][1], 64)
        if v.op == "ar":
            return self.len_of(v.args[0])
        if t is not None and t[0] == "adt" and t[1] == "std::vec::Vec":
            return self.fresh("prj", (v, "#len"), U64)
        raise Unsupported("length of %s" % vg.show(v))

    def subslice(self, p, a, n):
        def f(q):
            if q.op == "bot":
                return q
            r, path, off, ln = q.args
            o = a if off is None else vg.add(off, a)
            return mk("ptr", (r, path, o, n))
        return self.lift1("sub", f, p)

    def alloc(self, st, v, tag="H"):
        self.nheap += 1
        root = (tag, self.nheap)
        st[root] = v
        return mk("ptr", (root, (), None, None))

    def array(self, vals, et=None):
        r = mk("ar", (None, tuple(enumerate(vals))))
        if r.ty is None and et is not None:
            r.ty = ("arr", et, ("const", len(vals)))
        return r

    def vec(self, arr, n, et=None):
        return mk("st", (("adt", "std::vec::Vec", (et,)), None, (("#arr", arr), ("#len", n))))

    def struct(self, ty, **kw):
        return mk("st", (ty, None, tuple(sorted(kw.items()))))

    def enum(self, ty, d, **kw):
        items = {"#d": const(d, 64)}
        for k, v in kw.items():
            items[k.replace("__", ".")] = v
        return mk("st", (ty, None, tuple(sorted(items.items()))))

    def some(self, v):
        return self.enum(("adt", "std::option::Option", (None,)), 1, Some__0=v)

    def none(self):
        return self.enum(("adt", "std::option::Option", (None,)), 0)

    def ok(self, v):
        return self.enum(("adt", "std::result::Result", (None, None)), 0, Ok__0=v)

    def err(self, v):
        return self.enum(("adt", "std::result::Result", (None, None)), 1, Err__0=v)

    # --------------------------------------------------------- evaluation
    def run(self, bid, args, pc, st, env=None, depth=0):
        """inline body `bid`; returns the return value. st is updated in place."""
        b = self.P.bodies[bid]
        self.functions.add(bid)
        self.calls += 1
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        self.nframe += 1
        fr = Frame(self, b, env or {}, self.nframe)
        c = self.P.cfg(b)
        for i, a in enumerate(args):
            st[fr.L(i + 1)] = a
        self.stack.append(bid)
        fr.ret = []
        try:
            fr.run_loop(c.top, [(pc, dict(st))])
        finally:
            self.stack.pop()
        if not fr.ret:
            return None, vg.FALSE
        rpc, rst = self.join(fr.ret)
        rv = self.getroot(rst, fr.L(0))
        if rv.op == "bot" and width(fr.lty(0)) is None and fr.lty(0) == ("tuple", ()):
            rv = vg.UNIT
        st.clear()
        keep = fr.promoted
        for k, v in rst.items():
            if k[0] == "L" and k[1] == fr.id and not keep:
                continue
            st[k] = v
        return rv, rpc

    def join(self, ins):
        if len(ins) == 1:
            return ins[0]
        # drop unreachable
        live = [(p, s) for p, s in ins if p is not vg.FALSE]
        if len(live) == 1:
            return live[0]
        if not live:
            return ins[0]
        pc = live[0][0]
        for p, _ in live[1:]:
            pc = bor(pc, p)
        out = {}
        s0 = live[0][1]
        keys = dict.fromkeys(s0)
        for _, s in live[1:]:
            for k in s:
                keys.setdefault(k)
        for k in keys:
            vals = [(p, s[k]) for p, s in live if k in s]
            if len(vals) != len(live) and k[0] != "L" and k in self.rootinit:
                vals = [(p, self.getroot(s, k)) for p, s in live]
            v0 = vals[0][1]
            if all(v is v0 for _, v in vals):
                out[k] = v0
            else:
                out[k] = Lazy(vals)
        return pc, out

    def emit(self, kind, fam, idx, args, pc, where, stream=None, extra=None):
        e = Event()
        e.kind, e.fam, e.idx, e.args, e.pc, e.where = kind, fam, tuple(idx), tuple(args), pc, where
        e.stream = stream
        e.extra = extra
        self.order += 1
        e.order = self.order
        e.res = None
        self.events.append(e)
        return e


def nobot(c):
    """undefined decisions are unreachable"""
    if c.op == "c":
        return c
    if all(l.op != "bot" for l in vg.leafset(c)):
        return c
    memo = {}

    def rec(x):
        if x.op == "bot":
            return vg.FALSE
        if x.op != "nd":
            return x
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = vg.nd_raw(x.args[0], x.args[1], [rec(y) for y in x.args[2]])
        return r
    return rec(c)


def _rootname(root):
    r = root[1]
    if isinstance(r, Term):
        return vg.show(r, 6)
    return str(r)


def ptr_parts(p):
    """(base pointer without its last index, index term) of a raw element pointer"""
    if p.op != "ptr" or not p.args[1] or not isinstance(p.args[1][-1], Term) or p.args[3] is not None:
        return None
    return (p.args[0], p.args[1][:-1]), p.args[1][-1]


def ptr_eq(a, b):
    x, y = ptr_parts(a), ptr_parts(b)
    if x and y and x[0] == y[0]:
        return vg.eq(x[1], y[1])
    return vg.eq_agg(a, b)


def bit_of(v):
    """the bit a condition tests for one, if it is one of a value"""
    if v.op == "nd" and v.args[0].w == 1 and v.args[2] == (vg.FALSE, vg.TRUE) and v.args[0].op == "cat":
        return v.args[0]
    return None


def ptr_cmp(op, a, b):
    x, y = ptr_parts(a), ptr_parts(b)
    if x and y and x[0] == y[0]:
        i, j = x[1], y[1]
        if op in ("Gt", "Le"):
            i, j = j, i
        e = vg.ult(i, j)
        return bnot(e) if op in ("Le", "Ge") else e
    return mk("op", ("ptr" + op, a, b), 1)


def ptr_addr(p):
    """address of an element of one byte"""
    x = ptr_parts(p)
    if x is None:
        return mk("op", ("addr", p), 64)
    return vg.add(mk("sym", ("address", repr(x[0])), 64), x[1])


def ptr_add(ev, p, n):
    """raw element pointer moved by n elements"""
    def f(q):
        x = ptr_parts(q)
        if x is None:
            raise Unsupported("offset of pointer %s" % vg.show(q))
        return mk("ptr", (q.args[0], q.args[1][:-1] + (vg.add(x[1], n),), None, None))
    return ev.lift1("padd", f, p)


class Frame:
    def __init__(self, ev, b, env, fid):
        self.ev = ev
        self.b = b
        self.env = env
        self.id = fid
        self.cfg = ev.P.cfg(b)
        self.promoted = b["kind"] == "promoted"

    def L(self, i):
        return ("L", self.id, i)

    def lty(self, i):
        return self.ev.P.rty(self.b["locals"][i], self.env)

    # ---- loops
    def run_loop(self, L, ins):
        ev = self.ev
        exits = {}
        it = 0
        cur = ins if L.is_top or ev.loop_enter is None else ev.loop_enter(self, L, ins)
        while True:
            pend = {L.header: cur}
            back = []
            for x in L.order:
                inp = pend.pop(x, None)
                if not inp:
                    continue
                inp = [(p, s) for p, s in inp if p is not vg.FALSE]
                if not inp:
                    continue
                inner = L.inner.get(x)
                if inner is not None:
                    outs = self.run_loop(inner, inp)
                else:
                    pc, st = ev.join(inp)
                    st = dict(st)
                    outs = self.block(x, pc, st)
                for t, pc, st in outs:
                    if pc is vg.FALSE:
                        continue
                    if not L.is_top and t == L.header:
                        back.append((pc, st))
                    elif t in L.blocks:
                        k = L.inner[t].header if t in L.inner else t
                        pend.setdefault(k, []).append((pc, st))
                    else:
                        exits.setdefault(t, []).append((pc, st))
            if ev.prune_loops and it >= 2:
                back = [x for x in back if not ev.prune(x[0])]
            if L.is_top or not back:
                break
            it += 1
            if it > ev.maxiter:
                raise Unsupported("loop at %s:%s of %s has no constant bound" % (
                    self.b["file"], self.b["blocks"][L.header]["l"], self.b["id"]))
            cur = [ev.join(back)]
        out = []
        for t, l in exits.items():
            pc, st = ev.join(l)
            out.append((t, pc, st))
        return out

    # ---- places
    def locs(self, pl, st):
        """-> gated pointer to the place"""
        ev = self.ev
        p = mk("ptr", (self.L(pl[0]), (), None, None))
        down = None
        for e in pl[1]:
            if e == "*":
                v = ev.load(st, p)
                p = v
                if p.op not in ("ptr", "nd", "bot"):
                    raise Unsupported("deref of %s in %s" % (vg.show(p), self.b["id"]))
                continue
            if "f" in e:
                k = e["f"] if down is None else "%s.%s" % (down, e["f"])
                down = None
                if k in ("0", "pointer"):
                    # boxes are plain pointers here
                    v = self.tryload(st, p)
                    if v is not None and (v.op == "ptr" or (v.op == "nd" and v.w is None and all(l.op == "ptr" for l in vg.leafset(v)))):
                        continue
                p = ev.field_ptr(p, k)
            elif "d" in e:
                down = e["d"]
            elif "x" in e:
                i = ev.getroot(st, self.L(e["x"]))
                p = ev.elem_ptr(p, i)
            elif "c" in e:
                if e["e"]:
                    n = ev.slice_len(st, p)
                    i = vg.sub(n, const(e["c"], 64))
                else:
                    i = const(e["c"], 64)
                p = ev.elem_ptr(p, i)
            elif "s" in e:
                a, b = e["s"]
                n = ev.slice_len(st, p)
                if e["e"]:
                    ln = vg.sub(n, const(a + b, 64))
                else:
                    ln = const(b - a, 64)
                p = ev.subslice(p, const(a, 64), ln)
        if down is not None:
            p = mk("ptr", (p.args[0], p.args[1], ("down", down), None)) if p.op == "ptr" else p
        return p

    def tryload(self, st, p):
        try:
            return self.ev.load(st, p)
        except Unsupported:
            return None

    def place_ty(self, pl):
        P = self.ev.P
        t = self.lty(pl[0])
        for e in pl[1]:
            if e == "*":
                if t[0] in ("ref", "ptr"):
                    t = t[2]
                elif t[0] == "adt" and t[2]:
                    t = t[2][0]
            elif "f" in e:
                t = P.rty(e["t"], self.env)
            elif "x" in e or "c" in e:
                t = t[1]
            elif "s" in e:
                t = ("slice", t[1])
        return t

    def read(self, pl, st):
        ev = self.ev
        if not pl[1]:
            return ev.getroot(st, self.L(pl[0]))
        return ev.load(st, self.locs(pl, st))

    def write(self, pl, v, st):
        ev = self.ev
        if not pl[1]:
            st[self.L(pl[0])] = v
            return
        ev.store(st, self.locs(pl, st), v)

    def operand(self, o, st):
        if "cp" in o:
            return self.read(o["cp"], st)
        if "mv" in o:
            return self.read(o["mv"], st)
        if "c" in o:
            return self.const(o["c"], st)
        return vg.FALSE

    def op_ty(self, o):
        if "cp" in o:
            return self.place_ty(o["cp"])
        if "mv" in o:
            return self.place_ty(o["mv"])
        if "c" in o:
            return self.ev.P.rty(o["c"]["t"], self.env)
        return ("prim", "bool")

    def const(self, c, st):
        ev = self.ev
        P = ev.P
        ty = P.rty(c["t"], self.env)
        if "fn" in c:
            f = c["fn"]
            r = f["r"] or {}
            a = tuple(P.rarg(x, self.env) for x in f["a"])
            ra = tuple(P.rarg(x, self.env) for x in r["a"]) if "a" in r else None
            return mk("fn", (f["p"], r.get("p"), r.get("k"), f["n"], f["tr"], a, ra))
        if "v" in c:
            return self.scalar_const(int(c["v"]), ty)
        if "promoted" in c:
            bid = "%s#p%d" % (c["of"], c["promoted"])
            v, _ = ev.run(bid, [], vg.TRUE, st, self.env)
            return v
        if "ct" in c:
            x = c["ct"]
            if "v" in x:
                return self.scalar_const(int(x["v"]), ty)
            if "cp" in x:
                e = self.env.get(x["cp"])
                if e and e[0] == "const" and e[1] is not None:
                    return self.scalar_const(e[1], ty)
            return ev.sym("const " + str(x), ty)
        if "str" in c:
            s = c["str"]
            return mk("ptr", (("str", s), (), const(0, 64), const(len(s.encode()), 64)))
        if "static" in c:
            root = ("static", c["static"])
            k = P.consts.get(c["static"])
            if root not in st:
                if k and "bytes" in k:
                    v, _ = self.decode(bytes(k["bytes"]), 0, P.rty(k["t"]))
                    st[root] = v
                else:
                    ev.rootinit[root] = ty[2] if ty[0] in ("ref", "ptr") else ty
            return mk("ptr", (root, (), None, None))
        if "mem" in c and ty[0] in ("ref", "ptr"):
            root = ("cmem", c["t"], tuple(c["mem"]))
            if root not in st:
                pt = ty[2]
                if pt[0] == "slice":
                    et = pt[1]
                    sz = self.size(et)
                    n = len(c["mem"]) // sz
                    v, _ = self.decode(bytes(c["mem"]), 0, ("arr", et, ("const", n)))
                else:
                    v, _ = self.decode(bytes(c["mem"]), 0, pt)
                st[root] = v
            if ty[2][0] == "slice":
                n = len(c["mem"]) // self.size(ty[2][1])
                return mk("ptr", (root, (), const(0, 64), const(n, 64)))
            return mk("ptr", (root, (), None, None))
        if "bytes" in c:
            try:
                v, _ = self.decode(bytes(c["bytes"]), 0, ty)
                return v
            except Unsupported:
                return ev.sym("const:" + ",".join(map(str, c["bytes"])) + P.tstr(ty), ty)
        if "def" in c:
            # generic associated constant: evaluated per instance is out of reach
            return ev.sym("const " + c["def"], ty)
        if ty[0] == "tuple" and not ty[1]:
            return vg.UNIT
        if ty[0] == "closure":
            return mk("st", (ty, None, ()))
        if ty[0] == "fndef":
            return mk("fn", (ty[1], None, None, ty[1].split("::")[-1], None, ty[2], None))
        if ty[0] == "adt":
            a = P.adts.get(ty[1])
            if a and a["kind"] == "struct":
                return mk("st", (ty, None, ()))
            if a and a["kind"] == "enum" and "zst" in c:
                return mk("st", (ty, None, (("#d", const(int(a["variants"][0]["d"]), 64)),)))
        return ev.sym("const ty=" + P.tstr(ty), ty)

    def scalar_const(self, v, ty):
        ev = self.ev
        w = width(ty)
        if w is not None:
            return const(v, w)
        if ty[0] == "adt":
            a = ev.P.adts.get(ty[1])
            if a:
                if a["kind"] == "struct" and a["local"]:
                    fs = ev.P.fields_of(ty)
                    if len(fs) == 1:
                        return mk("st", (ty, None, ((fs[0][0], self.scalar_const(v, fs[0][1])),)))
                if a["kind"] == "enum" and all(not x["f"] for x in a["variants"]):
                    return mk("st", (ty, None, (("#d", const(v, 64)),)))
        return ev.sym("const %d:%s" % (v, ev.P.tstr(ty)), ty)

    def size(self, ty):
        w = width(ty)
        if w is not None:
            return max(1, w // 8)
        if ty[0] == "arr":
            return self.size(ty[1]) * ty[2][1]
        if ty[0] == "tuple":
            if not ty[1]:
                return 0
        raise Unsupported("size of %s" % (ty,))

    def decode(self, bs, off, ty):
        w = width(ty)
        if w is not None:
            n = max(1, w // 8)
            return const(int.from_bytes(bs[off:off + n], "little"), w), off + n
        if ty[0] == "arr":
            vals = []
            for _ in range(ty[2][1]):
                v, off = self.decode(bs, off, ty[1])
                vals.append(v)
            return self.ev.array(vals, ty[1]), off
        if ty[0] == "adt":
            a = self.ev.P.adts.get(ty[1])
            fs = self.ev.P.fields_of(ty) if a and a["kind"] == "struct" and a["local"] else None
            if fs is not None and len(fs) == 1:
                v, off = self.decode(bs, off, fs[0][1])
                return mk("st", (ty, None, ((fs[0][0], v),))), off
        raise Unsupported("decode %s" % (ty,))

    # ---- rvalues
    def rvalue(self, r, st, dty):
        ev = self.ev
        k = r["k"]
        if k == "use":
            return self.operand(r["o"], st)
        if k == "ref":
            p = r["p"]
            # reborrow of a fat pointer keeps its window
            q = self.locs(p, st)
            if q.op == "ptr" and q.args[2] is not None and not isinstance(q.args[2], Term):
                q = mk("ptr", (q.args[0], q.args[1], None, None))
            return q
        if k == "bin":
            return self.binop(r["op"], self.operand(r["a"], st), self.operand(r["b"], st), self.op_ty(r["a"]), self.op_ty(r["b"]))
        if k == "un":
            a = self.operand(r["a"], st)
            t = self.op_ty(r["a"])
            if r["op"] == "Not":
                if t[1] == "bool":
                    return bnot(a)
                return vg.sub(const(-1, width(t)), a)
            if r["op"] == "Neg":
                if t[1] in FLOAT:
                    return vg.opaque("fneg", [a], width(t))
                return vg.sub(const(0, width(t)), a)
            if r["op"] == "PtrMetadata":
                return ev.slice_len(st, a)
            raise Unsupported("unop " + r["op"])
        if k == "cast":
            return self.cast(r, st)
        if k == "discr":
            v = self.read(r["p"], st)
            d = ev.project(v, "#d")
            w = width(dty)
            if w and w < 64:
                d = vg.trunc(d, w)
            return d
        if k == "agg":
            ops = [self.operand(o, st) for o in r["ops"]]
            ak = r["ak"]
            if ak == "array":
                return ev.array(ops, dty[1] if dty[0] == "arr" else None)
            if ak == "tuple":
                if not ops:
                    return vg.UNIT
                return mk("st", (dty, None, tuple(sorted((str(i), o) for i, o in enumerate(ops)))))
            if ak == "closure":
                return mk("st", (("closure", r["cl"], (), tuple(sorted(self.env.items()))), None, tuple(sorted((str(i), o) for i, o in enumerate(ops)))))
            if ak == "adt":
                a = ev.P.adts[r["adt"]]
                ty = ("adt", r["adt"], tuple(ev.P.rarg(x, self.env) for x in r["ga"]))
                if a["kind"] == "enum":
                    items = {"#d": const(int(a["variants"][r["vi"]]["d"]), 64)}
                    for n, o in zip(r["fn"], ops):
                        items["%s.%s" % (r["v"], n)] = o
                else:
                    items = dict(zip(r["fn"], ops))
                    if r["adt"] in ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull") and len(ops) >= 1:
                        return ops[0]
                t = mk("st", (ty, None, tuple(sorted(items.items()))))
                t.ty = ty
                return t
            raise Unsupported("aggregate " + ak)
        if k == "repeat":
            v = self.operand(r["o"], st)
            n = ev.P.rarg(r["n"], self.env)[1]
            if not isinstance(n, int):
                raise Unsupported("repeat count")
            if n > 256:
                z = mk("op", ("repeat", v), None)
                z.ty = ("arr", self.op_ty(r["o"]), ("const", n))
                return z
            return ev.array([v] * n, self.op_ty(r["o"]))
        if k == "setdiscr":
            raise Unsupported("setdiscr")
        raise Unsupported("rvalue %s" % r.get("s", k))

    def cast(self, r, st):
        ev = self.ev
        v = self.operand(r["o"], st)
        src = self.op_ty(r["o"])
        dst = ev.P.rty(r["t"], self.env)
        ck = r["ck"]
        ws, wd = width(src), width(dst)
        if ck == "IntToInt" and ws is not None and wd is not None:
            if src[1] == "bool":
                b = bit_of(v)
                return vg.zext(b, wd) if b is not None else ite(v, const(1, wd), const(0, wd))
            return vg.cast(v, wd, src[1] in SIGNED)
        if ck in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            return vg.opaque("cast_%s_%s" % (src[1], dst[1]), [v], wd)
        if "Unsize" in ck:
            if src[0] in ("ref", "ptr") and src[2][0] == "arr" and dst[2][0] == "slice":
                n = const(src[2][2][1], 64)
                return ev.lift1("unsz", lambda p: mk("ptr", (p.args[0], p.args[1], const(0, 64), n)) if p.op == "ptr" else p, v)
            return v
        if ck == "PointerExposeProvenance" and wd is not None:
            return self.ev.lift1("addr", ptr_addr, v)
        if ck == "IntToInt" and src[0] == "adt":
            d = ev.project(v, "#d")
            return vg.cast(d, wd, False)
        return v

    def binop(self, op, a, b, ta, tb):
        ev = self.ev
        if ta[0] != "prim":
            if op in ("Eq", "Ne") and ta[0] in ("ptr", "ref"):
                e = vg.apply_n("ptreq", ptr_eq, (a, b))
                return e if op == "Eq" else bnot(e)
            if op in ("Lt", "Le", "Gt", "Ge"):
                e = vg.apply_n("ptr" + op, lambda x, y: ptr_cmp(op, x, y), (a, b))
                if e is not None:
                    return e
            if op == "Offset":
                return self.ptr_offset(a, b)
            return vg.opaque("ptr" + op, [a, b], 1 if op in ("Lt", "Le", "Gt", "Ge") else 64, lift=False)
        n = ta[1]
        w = width(ta)
        if n in FLOAT:
            if op in ("Eq", "Ne"):
                x, y = (a, b) if a.id <= b.id else (b, a)
                e = vg.opaque("feq%d" % w, [x, y], 1)
                return e if op == "Eq" else bnot(e)
            if op in ("Lt", "Le", "Gt", "Ge"):
                if op in ("Gt", "Ge"):
                    a, b = b, a
                    op = {"Gt": "Lt", "Ge": "Le"}[op]
                return vg.opaque("f" + op.lower(), [a, b], 1)
            return vg.opaque("f%s%d" % (op.lower(), w), [a, b], w)
        signed = n in SIGNED
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            r = {"Add": vg.add, "Sub": vg.sub, "Mul": vg.mul}[base](a, b)
            if op.endswith("WithOverflow"):
                o = vg.FALSE
                if self.ev.overflows or (self.ev.constoverflow and vg.isc(a) and vg.isc(b)):
                    o = ranges.overflow(base, signed, a, b)
                return mk("st", (("tuple", (ta, ("prim", "bool"))), None, (("0", r), ("1", o))))
            return r
        if base in ("BitAnd", "BitOr", "BitXor"):
            return vg.bitop({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[base], a, b)
        if base in ("Shl", "Shr"):
            kind = "shl" if base == "Shl" else ("sar" if signed else "shr")
            return vg.shift(kind, a, b)
        if base in ("Eq", "Ne"):
            e = vg.eq(a, b)
            return e if base == "Eq" else bnot(e)
        if base in ("Lt", "Le", "Gt", "Ge"):
            lt = vg.slt if signed else vg.ult
            if n == "bool":
                raise Unsupported("bool order")
            if base == "Lt":
                return lt(a, b)
            if base == "Gt":
                return lt(b, a)
            if base == "Le":
                return bnot(lt(b, a))
            return bnot(lt(a, b))
        if base in ("Div", "Rem"):
            return divrem(base, a, b, w, signed)
        if base == "Cmp":
            raise Unsupported("cmp")
        raise Unsupported("binop " + op)

    def ptr_offset(self, a, b):
        r = ptr_add(self.ev, a, b)
        if r is not None:
            return r
        return vg.opaque("ptroff", [a, b], None, lift=False)

    # ---- blocks
    def block(self, bi, pc, st):
        ev = self.ev
        B = self.b["blocks"][bi]
        try:
            for ln, pl, rv in B["s"]:
                dty = self.place_ty(pl) if not pl[1] or rv["k"] in ("discr", "agg") else None
                if dty is None:
                    dty = self.place_ty(pl)
                if rv["k"] == "setdiscr":
                    raise Unsupported("setdiscr")
                ev.curpc = pc
                v = self.rvalue(rv, st, dty)
                if v.op == "nd":
                    v = ev.settle(v)
                self.write(pl, v, st)
        except Unsupported as e:
            if not getattr(e, "where", None):
                e.where = "%s:%s (%s)" % (self.b["file"], ln, self.b["id"])
                e.stack = list(ev.stack)
            raise
        t = B["t"]
        k = t["k"]
        self.line = B["l"]
        live = self.cfg.live
        if k == "assert" and ev.panics is not None:
            self.note_assert(t, pc, st, B["l"])
        if k == "assert" and ev.constoverflow:
            c = self.operand(t["c"], st)
            if c is (vg.FALSE if t["e"] else vg.TRUE):
                return []       # panics
        if k in ("goto", "drop", "assert"):
            return [(t["t"], pc, st)] if t["t"] in live else []
        if k == "return":
            self.ret.append((pc, st))
            return []
        if k == "switch":
            return self.switch(t, pc, st)
        if k == "call":
            if t["t"] is None or t["t"] not in live:
                if ev.panics is not None:
                    ev.panics.append((pc, "call", "%s:%s" % (self.b["file"], B["l"]), self.b["id"]))
                return []
            ev.curpc = pc
            try:
                r, rpc = self.call(t, pc, st, B["l"])
            except Unsupported as e:
                if not getattr(e, "where", None):
                    e.where = "%s:%s (%s)" % (self.b["file"], B["l"], self.b["id"])
                    e.stack = list(ev.stack)
                raise
            if rpc is vg.FALSE:
                return []
            ev.curpc = rpc
            if r.op == "nd":
                r = ev.settle(r)
            self.write(t["d"], r, st)
            return [(t["t"], rpc, st)]
        if k in ("unreachable", "resume"):
            return []
        raise Unsupported("terminator " + k)

    def panics_at(self, x):
        """does block x end in a panic (not in `unreachable`)"""
        seen = set()
        while x not in seen:
            seen.add(x)
            t = self.b["blocks"][x]["t"]
            if t["k"] == "unreachable":
                return False
            if t["k"] in ("call", "resume"):
                return True
            n = t.get("t")
            if not isinstance(n, int):
                return True
            x = n
        return True

    def note_dead(self, t, d, arms, els, pc):
        """records the conditions of the branches of a switch that panic"""
        live = self.cfg.live
        rest = vg.TRUE
        w = d.w or 64
        out = vg.FALSE
        for v, b in arms:
            c = (d if v == 1 else bnot(d)) if d.w == 1 else vg.apply_n(("inpt", v), lambda x: vg.inset(x, [(v, v + 1)]), (d,))
            if b not in live and self.panics_at(b):
                out = bor(out, c)
            rest = band(rest, bnot(c))
        if t["else"] is not None and t["else"] not in live and self.panics_at(t["else"]):
            out = bor(out, rest)
        out = band(pc, out)
        if out is not vg.FALSE:
            self.ev.panics.append((out, "branch", "%s:%s" % (self.b["file"], self.line), self.b["id"]))

    def note_assert(self, t, pc, st, line):
        c = self.operand(t["c"], st)
        bad = bnot(c) if t["e"] else c
        bad = band(pc, bad)
        self.ev.nchecked += 1
        if bad is not vg.FALSE:
            self.ev.panics.append((bad, t["m"]["k"] + (" " + t["m"]["op"] if "op" in t["m"] else ""), "%s:%s" % (self.b["file"], line), self.b["id"]))

    def switch(self, t, pc, st):
        live = self.cfg.live
        self.ev.curpc = pc
        d = self.operand(t["d"], st)
        ty = self.op_ty(t["d"])
        w = width(ty) or (d.w if d.w else 64)
        outs = []
        conds = {}
        arms = [(int(v) & ((1 << w) - 1), b) for v, b in t["v"]]
        els = t["else"] if t["else"] in live else None
        alive = [(v, b) for v, b in arms if b in live]
        if els is None and not alive:
            if self.ev.panics is not None:
                self.note_dead(t, d, arms, els, pc)
            return []
        catch = els if els is not None else alive[-1][1]
        rest = vg.TRUE
        for v, b in (alive if els is not None else alive[:-1]):
            if d.w == 1:
                c = d if v == 1 else bnot(d)
            else:
                c = vg.apply_n(("inpt", v), lambda x: vg.inset(x, [(v, v + 1)]), (d,))
            conds[b] = bor(conds.get(b, vg.FALSE), c)
            rest = band(rest, bnot(c))
        if self.ev.panics is not None:
            self.note_dead(t, d, arms, els, pc)
        conds[catch] = bor(conds.get(catch, vg.FALSE), rest)
        tgt = [(b, c) for b, c in conds.items() if c is not vg.FALSE]
        for b, c in tgt:
            npc = pc if c is vg.TRUE else nobot(band(pc, c))
            if npc is vg.FALSE:
                continue
            outs.append((b, npc, st if len(tgt) == 1 else dict(st)))
        return outs

    def call(self, t, pc, st, line):
        ev = self.ev
        P = ev.P
        args = [self.operand(o, st) for o in t["a"]]
        f = t["f"]
        where = "%s:%d" % (self.b["file"], t.get("fl", line))
        dty = self.place_ty(t["d"])
        argtys = [self.op_ty(o) for o in t["a"]]
        if "c" in f and "fn" in f["c"]:
            fv = self.const(f["c"], st)
        else:
            fv = self.operand(f, st)
        return ev.call_value(fv, args, argtys, pc, st, dty, where, self)


def call_value(self, fv, args, argtys, pc, st, dty, where, frame):
    """call of a function item value"""
    if fv.op != "fn":
        raise Unsupported("indirect call of %s" % vg.show(fv))
    p, rp, rk, name, tr, a, ra = fv.args
    c = Call()
    c.path, c.rpath, c.rk, c.name, c.trait, c.targs = p, rp, rk, name, tr, a
    c.args, c.argtys, c.pc, c.st, c.dty, c.where, c.frame = args, argtys, pc, st, dty, where, frame
    P = self.P
    bid, env = None, None
    if rp is not None and rp in P.bodies and rk == "item" and not (P.bodies[rp]["kind"] == "closure" and tr is not None and tr.startswith("std::ops::Fn")):
        bid = rp
        env = dict(zip(P.bodies[bid]["generics"], ra))
    elif tr is not None and a and rk != "virtual":
        s = a[0]
        if s[0] not in ("param",):
            hit = P.find_impl(tr, name, s, a)
            if hit:
                bid, ienv, im = hit
                gens = P.bodies[bid]["generics"]
                env = dict(ienv)
                own = [g for g in gens if g not in env]
                nt = len(im["targs"])
                for g, x in zip(own, a[nt:]):
                    env[g] = x
            elif p in P.bodies and any(i["trait"] == tr and P.unify(P.rty(i["self"]), s, {}) for i in P.impls):
                bid = p
                env = dict(zip(P.bodies[bid]["generics"], a))
    if bid is None and tr is not None and args and (rk == "virtual" or (a and a[0][0] == "dyn")):
        hit = self.dyn(tr, name, args[0], st)
        if hit is not None:
            bid, env = hit
            gens = P.bodies[bid]["generics"]
            im = a[1:]
            for g, x in zip([g for g in gens if g not in env], im):
                env[g] = x
    c.rpath = bid or rp
    for key in (bid, rp, p):
        if key is not None and key in self.hooks:
            r = self.hooks[key](self, c)
            if r is not NotImplemented:
                return self.ret(c, r)
    if "*" in self.hooks:
        r = self.hooks["*"](self, c)
        if r is not NotImplemented:
            return self.ret(c, r)
    if bid is not None and self.stack.count(bid) >= 2 and self.prune is not None and self.prune(c.pc):
        return vg.BOT, vg.FALSE
    if bid is not None and self.stack.count(bid) > 2:
        if "rec" in self.hooks:
            r = self.hooks["rec"](self, c)
            if r is not NotImplemented:
                return self.ret(c, r)
        raise Unsupported("recursive call of %s" % bid)
    if bid is not None:
        return self.run(bid, args, pc, st, env)
    for key in (rp, p):
        m = self.models.get(key) if key is not None else None
        if m is not None:
            r = m(self, c)
            if r is not NotImplemented:
                return self.ret(c, r)
    if tr is not None:
        m = self.trait_models.get((tr, name))
        if m is not None:
            r = m(self, c)
            if r is not NotImplemented:
                return self.ret(c, r)
    for rx, m in self.suffix_models:
        for key in (rp, p):
            if key is not None:
                mm = rx.match(key)
                if mm:
                    r = m(self, c, mm)
                    if r is not NotImplemented:
                        return self.ret(c, r)
    for key, ga in ((p, a), (rp, ra)) if tr is not None and tr.startswith("std::iter::") else ((rp, ra), (p, a)):
        if key is not None and key in P.ext:
            b = P.ext[key]
            try:
                return self.run("ext:" + key, args, pc, st, dict(zip([g for g in b["generics"] if not g.startswith("'")], ga)))
            except vg.Unmodelled:
                raise
            except Unsupported as e:
                raise vg.Unmodelled("Unmodelled: library function %s: %s" % (key, e))
    self.unmodelled[rp or p] = self.unmodelled.get(rp or p, 0) + 1
    if not self.opaque_unknown:
        raise vg.Unmodelled("Unmodelled: call of %s" % (rp or p))
    key = tuple(x for x in args)
    return self.ret(c, self.fresh("op", ("call", rp or p) + key, dty))


def dyn(self, tr, name, p, st):
    """dispatch on the concrete type of the value behind a trait object"""
    for _ in range(4):
        if p.op != "ptr" or p.args[2] is not None:
            return None
        v = self.load(st, p)
        if v.op == "ptr":
            p = v
            continue
        ty = v.args[0] if v.op == "st" else v.ty
        if ty is None or ty[0] != "adt":
            return None
        hit = self.P.find_impl(tr, name, ty)
        return (hit[0], dict(hit[1])) if hit else None
    return None


Ev.dyn = dyn


def ret(self, c, r):
    if isinstance(r, tuple):
        return r
    return r, c.pc


def call_closure(self, fv, args, pc, st, where, frame=None):
    """call a closure / fn value with untupled args; returns (value, pc)"""
    if fv.op == "ptr":
        fv2 = self.load(st, fv)
        if fv2.op in ("st", "fn"):
            return self.call_closure(fv2, args, pc, st, where, frame) if fv2.op == "fn" else self._closure(fv2, fv, args, pc, st)
        raise Unsupported("closure pointer")
    if fv.op == "fn":
        return self.call_value(fv, args, [None] * len(args), pc, st, None, where, frame)
    if fv.op == "st" and fv.args[0] and fv.args[0][0] == "closure":
        return self._closure(fv, None, args, pc, st)
    raise Unsupported("call of closure value %s" % vg.show(fv))


def _closure(self, cv, ptr, args, pc, st):
    bid = cv.args[0][1]
    b = self.P.bodies[bid]
    env = dict(cv.args[0][3]) if len(cv.args[0]) > 3 else {}
    t1 = self.P.T[b["locals"][1]]
    tmp = None
    if t1["k"] == "ref":
        if ptr is None:
            ptr = self.alloc(st, cv, "C")
        self_arg = ptr
    else:
        self_arg = cv
    return self.run(bid, [self_arg] + list(args), pc, st, env)


Ev.call_value = call_value
Ev.ret = ret
Ev.call_closure = call_closure
Ev._closure = _closure
