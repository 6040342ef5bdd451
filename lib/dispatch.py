"""What the record (de)compressors are set up with: set_fields_from evaluated on concrete item lists."""
import vg
from vg import mk, const, isc, cval, Unsupported
from codec import Side, comp_hooks, decomp_hooks, ptr, refuted

LI = "laszip::vlr::LazItem"
LIT = "laszip::vlr::LazItemType"
REC = {
    ("C", "seq"): ("record::SequentialPointRecordCompressor", "record::RecordCompressor", "W"),
    ("D", "seq"): ("record::SequentialPointRecordDecompressor", "record::RecordDecompressor", "R"),
    ("C", "lay"): ("record::LayeredPointRecordCompressor", "record::RecordCompressor", "W"),
    ("D", "lay"): ("record::LayeredPointRecordDecompressor", "record::RecordDecompressor", "R"),
}


def item_types(P):
    """[(name, discriminant, has a count)] in declaration order"""
    return [(v["n"], v["d"], bool(v["f"])) for v in P.adts[LIT]["variants"]]


def item_type(P, name, count=0):
    for n, d, f in item_types(P):
        if n == name:
            return mk("st", (("adt", LIT, ()), None, tuple([("#d", const(d, 64))] + ([(n + ".0", const(count, 16))] if f else []))))
    raise Unsupported("no item type " + name)


def item(P, name, version, size=0, count=0):
    return mk("st", (("adt", LI, ()), None, (("item_type", item_type(P, name, count)), ("size", const(size, 16)), ("version", const(version, 16)))))


def is_ok(v):
    d = None
    if v.op == "st":
        for k, x in v.args[2]:
            if k == "#d":
                d = x
    return d is not None and isc(d) and cval(d) == 0


class Record:
    """a record coder after set_fields_from on the given items"""

    def __init__(self, P, side, kind, items, real=()):
        ty, trait, par = REC[(side, kind)]
        self.P = P
        E = Side(P, side, hooks=comp_hooks() if side == "C" else decomp_hooks())
        E.prune = refuted
        for k in real:
            E.hooks.pop(k, None)
        self.ev = E
        self.ty = ty = ("adt", ty, (("param", par),))
        env = {par: ("param", par)}
        st = {}
        new = None
        for b in P.bodies.values():
            if b.get("impl_self") is not None and b.get("impl_trait") is None and b["name"] == "new" and P.unify(P.rty(b["impl_self"]), ty, {}):
                new = b["id"]
        if new is None:
            raise Unsupported("no constructor of " + ty[1])
        v, _ = E.run(new, [mk("sym", ("stream",), None)], vg.TRUE, st, dict(env))
        hit = P.find_impl(trait, "set_fields_from", ty)
        st[("REC",)] = v
        LIt = ("adt", LI, ())
        st[("ITEMS",)] = E.vec(E.array(list(items), LIt), const(len(items), 64), LIt)
        r, _ = E.run(hit[0], [ptr(("REC",)), ptr(("ITEMS",))], vg.TRUE, st, dict(env, **hit[1]))
        self.ok = is_ok(r)
        self.st = st
        self.where = hit[0]
        self.rec = st[("REC",)]
        self.fields = []
        self.result = r
        # the vector of boxed field coders, whatever its name
        for n, t in P.fields_of(ty):
            x = E.project(self.rec, n)
            if t[0] == "adt" and t[1] == "std::vec::Vec" and "dyn" in repr(t):
                ln = E.len_of(x)
                if not isc(ln):
                    raise Unsupported("unknown number of field coders")
                arr = E.project(x, "#arr")
                for i in range(cval(ln)):
                    p = E.index(arr, const(i, 64))
                    fv = E.load(st, p)
                    if fv.op != "st" or fv.args[0] is None:
                        raise Unsupported("field coder of unknown type")
                    self.fields.append((fv.args[0], fv))

    def record_size(self):
        hit = self.P.find_impl(REC[(self.ev.kind, "seq")][1], "record_size", self.ty)
        v, _ = self.ev.run(hit[0], [ptr(("REC",))], vg.TRUE, dict(self.st), dict(hit[1]))
        return v

    def field_size(self, i, trait):
        ty, fv = self.fields[i]
        hit = self.P.find_impl(trait, "size_of_field", ty)
        st = dict(self.st)
        st[("F",)] = fv
        v, _ = self.ev.run(hit[0], [ptr(("F",))], vg.TRUE, st, dict(hit[1]))
        return v


def make_record(P, side, items, real=()):
    """the record coder the library builds for an item list -> (ok, type, value, state, evaluator, result)"""
    E = Side(P, side, hooks=comp_hooks() if side == "C" else decomp_hooks())
    E.prune = refuted
    for k in real:
        E.hooks.pop(k, None)
    fn = "laszip::details::record_compressor_from_laz_items" if side == "C" else "laszip::details::record_decompressor_from_laz_items"
    if fn not in P.bodies:
        c = [b for b in P.bodies if b.endswith(fn.split("::")[-1])]
        if len(c) != 1:
            raise Unsupported("no function " + fn)
        fn = c[0]
    par = "W" if side == "C" else "R"
    st = {}
    LIt = ("adt", LI, ())
    st[("ITEMS",)] = E.vec(E.array(list(items), LIt), const(len(items), 64), LIt)
    gens = P.bodies[fn]["generics"]
    env = {g: ("param", par) for g in gens}
    r, pc = E.run(fn, [ptr(("ITEMS",)), mk("sym", ("stream",), None)], vg.TRUE, st, env)
    if pc is vg.FALSE:
        return False, None, None, st, E, r
    ok = is_ok(r)
    ty = v = p = None
    if ok:
        p = E.project(r, "Ok.0")
        v = E.load(st, p)
        ty = v.args[0]
    return ok, ty, (p, v), st, E, r


def field_coders(P, E, st, rec):
    """[(heap pointer, type, value)] of the boxed field coders of a record coder"""
    out = []
    ty = rec.args[0]
    for n, t in P.fields_of(ty):
        if t[0] == "adt" and t[1] == "std::vec::Vec" and "dyn" in repr(t):
            x = E.project(rec, n)
            ln = E.len_of(x)
            if not isc(ln):
                raise Unsupported("unknown number of field coders")
            for i in range(cval(ln)):
                p = E.index(E.project(x, "#arr"), const(i, 64))
                fv = E.load(st, p)
                out.append((p, fv.args[0], fv))
    return out
