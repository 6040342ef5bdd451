"""Program model over the JSON facts dumped by the rustc driver."""
import json
import re

WID = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64,
       "usize": 64, "isize": 64, "u128": 128, "i128": 128, "bool": 1, "char": 32, "f32": 32, "f64": 64}
SIGNED = {"i8", "i16", "i32", "i64", "isize", "i128"}
FLOAT = {"f32", "f64"}


PROJ = re.compile(r"^<(.+) as std::ops::\w+>::Output$")


def width(ty):
    return WID.get(ty[1]) if ty and ty[0] == "prim" else None


class Bodies(dict):
    """bodies of the crate; those of library functions only on request, as "ext:" + path"""
    ext = {}

    def __missing__(self, k):
        if k.startswith("ext:") and k[4:] in self.ext:
            return self.ext[k[4:]]
        if "{closure" in k and k in self.ext:
            return self.ext[k]
        raise KeyError(k)


class Prog:
    def __init__(self, path):
        F = json.load(open(path))
        self.F = F
        self.T = F["types"]
        self.adts = F["adts"]
        self.bodies = Bodies()
        self.bodies.ext = self.ext = {b["id"]: b for b in F.get("ext", ())}
        self.extimpls = F.get("extimpls", ())
        self.dups = []
        for b in F["bodies"]:
            if b["id"] in self.bodies:
                self.dups.append(b["id"])
            self.bodies[b["id"]] = b
        self.consts = {c["id"]: c for c in F["consts"]}
        self.impls = F["impls"]
        self._rt = {}
        self._cfg = {}

    # ------------------------------------------------------------ types
    def rty(self, tid, env=None):
        """resolved type tree of a type id under a generic environment"""
        if not env:
            r = self._rt.get(tid)
            if r is not None:
                return r
        t = self.T[tid]
        k = t["k"]
        if k == "prim":
            r = ("prim", t["s"])
        elif k == "adt":
            r = ("adt", t["p"], tuple(self.rarg(a, env) for a in t["a"]))
        elif k in ("ref", "ptr"):
            r = (k, t["mut"], self.rty(t["t"], env))
        elif k == "arr":
            r = ("arr", self.rty(t["t"], env), self.rarg(t["n"], env))
        elif k == "slice":
            r = ("slice", self.rty(t["t"], env))
        elif k == "tuple":
            r = ("tuple", tuple(self.rty(a, env) for a in t["a"]))
        elif k == "param":
            r = (env or {}).get(t["n"], ("param", t["n"]))
        elif k == "closure":
            r = ("closure", t["p"], tuple(self.rty(a, env) for a in t["up"]))
        elif k == "fndef":
            r = ("fndef", t["p"], tuple(self.rarg(a, env) for a in t["a"]))
        elif k == "dyn":
            r = ("dyn", tuple(t["p"]))
        else:
            r = ("other", t["s"])
            m = t["s"]
            while True:
                k2 = PROJ.match(m)
                if not k2:
                    break
                m = k2.group(1)
            if m != t["s"] and env and m in env and env[m][0] == "prim":
                r = env[m]
            if t["s"] == "str":
                r = ("str",)
            if t["s"] == "!":
                r = ("never",)
        if not env:
            self._rt[tid] = r
        return r

    def rarg(self, a, env):
        if isinstance(a, int):
            return self.rty(a, env)
        if "v" in a:
            return ("const", int(a["v"]))
        if "cp" in a:
            return (env or {}).get(a["cp"], ("param", a["cp"]))
        return ("const", None)

    def tstr(self, t):
        if t is None:
            return "?"
        k = t[0]
        if k == "prim":
            return t[1]
        if k == "adt":
            return t[1] + ("<%s>" % ",".join(self.tstr(a) for a in t[2]) if t[2] else "")
        if k in ("ref", "ptr"):
            return "&" + ("mut " if t[1] else "") + self.tstr(t[2])
        if k == "arr":
            return "[%s;%s]" % (self.tstr(t[1]), t[2][1])
        if k == "slice":
            return "[%s]" % self.tstr(t[1])
        if k == "tuple":
            return "(%s)" % ",".join(self.tstr(a) for a in t[1])
        return str(t[1]) if len(t) > 1 else k

    def unify(self, pat, t, env):
        if pat[0] == "param":
            if pat[1] in env:
                return env[pat[1]] == t
            env[pat[1]] = t
            return True
        if t[0] == "param":
            return True
        if pat[0] != t[0] or len(pat) != len(t):
            return False
        for x, y in zip(pat[1:], t[1:]):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if x and isinstance(x[0], str) and x[0] in KINDS:
                    if not self.unify(x, y, env):
                        return False
                else:
                    if len(x) != len(y):
                        return False
                    for p, q in zip(x, y):
                        if isinstance(p, tuple):
                            if not self.unify(p, q, env):
                                return False
                        elif p != q:
                            return False
            elif x != y:
                return False
        return True

    def find_impl(self, trait, method, self_ty, targs=None):
        """-> (body id, impl env) or None"""
        ims = [im for im in self.impls if im["trait"] == trait]
        ims.sort(key=lambda im: self.rty(im["self"])[0] == "param")    # blanket impls last
        for im in ims:
            env = {}
            if self.unify(self.rty(im["self"]), self_ty, env):
                if targs is not None and not all(
                        self.unify(self.rarg(q, None), x, env) for q, x in zip(im["targs"], targs)):
                    continue
                for n, p in im["items"]:
                    if n == method:
                        return p, env, im
                return None
        return None

    def find_iter(self, ty):
        """next() of an iterator type: the crate's own impl or one of the library's adaptors"""
        hit = self.find_impl("std::iter::Iterator", "next", ty)
        if hit is None and ty is not None and ty[0] == "adt":
            for im in self.extimpls:
                env = {}
                if self.unify(self.rty(im["self"]), ty, env):
                    for n, p in im["items"]:
                        if n == "next" and p in self.ext:
                            return "ext:" + p, env, im
        return hit

    def fields_of(self, ty, variant=None):
        """[(name, type)] of a struct type / enum variant"""
        if ty[0] == "tuple":
            return [(str(i), t) for i, t in enumerate(ty[1])]
        if ty[0] == "closure":
            return [(str(i), t) for i, t in enumerate(ty[2])]
        if ty[0] != "adt":
            return None
        a = self.adts.get(ty[1])
        if a is None:
            return None
        env = {}
        for n, x in zip(a["generics"], self._full_args(ty, a)):
            env[n] = x
        for v in a["variants"]:
            if variant is None or v["n"] == variant:
                return [(f["n"], None if f["t"] is None else self.rty(f["t"], env)) for f in v["f"]]
        return None

    def _full_args(self, ty, a):
        g = [x for x in a["generics"] if not x.startswith("'")]
        a["generics"] = g
        return ty[2]

    def field_ty(self, ty, key):
        if ty is None:
            return None
        if key == "#d":
            return ("prim", "u64")
        if ty[0] in ("arr", "slice"):
            return ty[1]
        if ty[0] == "adt":
            p = ty[1]
            if p == "std::vec::Vec":
                return ("prim", "usize") if key == "#len" else ("slice", ty[2][0])
            if p == "std::option::Option" and key == "Some.0":
                return ty[2][0]
            if p == "std::result::Result":
                return ty[2][0] if key == "Ok.0" else ty[2][1]
            if p == "std::ops::Range" and key in ("start", "end"):
                return ty[2][0]
            if p == "std::io::Cursor":
                return ty[2][0] if key == "inner" else ("prim", "u64")
        if "." in key:
            v, f = key.split(".", 1)
            fs = self.fields_of(ty, v)
            if fs:
                for n, t in fs:
                    if n == f:
                        return t
            return None
        fs = self.fields_of(ty)
        if fs:
            for n, t in fs:
                if n == key:
                    return t
        return None

    # ------------------------------------------------------------- CFG
    def cfg(self, b):
        c = self._cfg.get(b["id"])
        if c is None:
            c = Cfg(b)
            self._cfg[b["id"]] = c
        return c


KINDS = {"prim", "adt", "ref", "ptr", "arr", "slice", "tuple", "param", "closure", "fndef", "dyn", "other",
         "const", "str", "never"}


def succs(t):
    k = t["k"]
    if k == "goto" or k == "drop" or k == "assert":
        return [t["t"]]
    if k == "switch":
        return [x for _, x in t["v"]] + [t["else"]]
    if k == "call":
        return [t["t"]] if t["t"] is not None else []
    return []


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = set()
        self.parent = None
        self.children = []
        self.order = []


class Cfg:
    """Live blocks (those that can still return), loop forest, topological orders."""

    def __init__(self, b):
        B = b["blocks"]
        n = len(B)
        sc = [succs(x["t"]) for x in B]
        pred = [[] for _ in range(n)]
        for i in range(n):
            for j in sc[i]:
                pred[j].append(i)
        reach = set()
        st = [0]
        while st:
            i = st.pop()
            if i in reach:
                continue
            reach.add(i)
            st.extend(sc[i])
        # live: can reach a return
        live = set()
        st = [i for i in reach if B[i]["t"]["k"] == "return"]
        while st:
            i = st.pop()
            if i in live:
                continue
            live.add(i)
            st.extend(p for p in pred[i] if p in reach)
        self.reach = reach
        self.live = live if 0 in live else reach
        live = self.live
        self.succ = {i: [j for j in dict.fromkeys(sc[i]) if j in live] for i in live}
        self.pred = {i: [] for i in live}
        for i in live:
            for j in self.succ[i]:
                self.pred[j].append(i)
        # DFS
        state = {}
        post = []
        back = set()
        stack = [(0, iter(self.succ[0]))]
        state[0] = 1
        while stack:
            i, it = stack[-1]
            for j in it:
                if j not in state:
                    state[j] = 1
                    stack.append((j, iter(self.succ[j])))
                    break
                if state[j] == 1:
                    back.add((i, j))
            else:
                state[i] = 2
                post.append(i)
                stack.pop()
        self.rpo = post[::-1]
        self.rpon = {x: i for i, x in enumerate(self.rpo)}
        self.back = back
        # natural loops
        loops = {}
        for i, h in back:
            L = loops.setdefault(h, Loop(h))
            L.blocks.add(h)
            st = [i]
            while st:
                x = st.pop()
                if x in L.blocks:
                    continue
                L.blocks.add(x)
                st.extend(self.pred[x])
        ls = sorted(loops.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.header in m.blocks and l is not m:
                    l.parent = m
                    m.children.append(l)
                    break
        self.top = Loop(0)
        self.top.blocks = set(self.rpo)
        self.top.is_top = True
        self.top.children = [l for l in ls if l.parent is None]
        self.loops = ls
        self.inner = {}
        for l in [self.top] + ls:
            inn = {}
            for c in l.children:
                for x in c.blocks:
                    inn[x] = c
            l.inner = inn
            if not hasattr(l, "is_top"):
                l.is_top = False
            # topological order of the collapsed loop body
            nodes = [x for x in l.blocks if x not in inn] + [c.header for c in l.children]
            nodes = set(nodes)
            # edges of collapsed graph
            adj = {x: set() for x in nodes}
            for x in l.blocks:
                a = inn[x].header if x in inn else x
                for y in self.succ[x]:
                    if y not in l.blocks or (y == l.header and not l.is_top):
                        continue
                    bnode = inn[y].header if y in inn else y
                    if a != bnode:
                        adj[a].add(bnode)
            # Kahn by rpo number
            indeg = {x: 0 for x in nodes}
            for x in nodes:
                for y in adj[x]:
                    indeg[y] += 1
            import heapq
            hp = [(self.rpon[x], x) for x in nodes if indeg[x] == 0]
            heapq.heapify(hp)
            out = []
            while hp:
                _, x = heapq.heappop(hp)
                out.append(x)
                for y in adj[x]:
                    indeg[y] -= 1
                    if indeg[y] == 0:
                        heapq.heappush(hp, (self.rpon[y], y))
            if len(out) != len(nodes):
                # irreducible or odd shape: fall back on rpo
                out = sorted(nodes, key=lambda x: self.rpon[x])
            l.order = out
