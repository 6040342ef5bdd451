"""Value models of the std / byteorder / num-traits functions the crate calls."""
import re
import vg
from vg import Unsupported, mk, const, ite, band, bor, bnot, isc, cval
from prog import width, SIGNED, FLOAT, WID

TABLE = {}
TRAIT_TABLE = {}
PATTERNS = []
U64 = ("prim", "usize")


def m(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def tm(tr, *names):
    def d(f):
        for n in names:
            TRAIT_TABLE[(tr, n)] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


# ------------------------------------------------------------- integers

@pat(r"core::num::<impl ([ui]\d+|[ui]size)>::(wrapping_add|wrapping_sub|wrapping_mul|wrapping_neg|unchecked_add|unchecked_sub)$")
def _wrap(ev, c, mm):
    op = mm.group(2)
    w = WID[mm.group(1)]
    a = c.args
    if op.endswith("add"):
        return vg.add(a[0], a[1])
    if op.endswith("sub"):
        return vg.sub(a[0], a[1])
    if op.endswith("mul"):
        return vg.mul(a[0], a[1])
    return vg.sub(const(0, w), a[0])


@pat(r"core::num::<impl ([ui]\d+|[ui]size)>::(saturating_sub|saturating_add|abs|unsigned_abs|saturating_mul|checked_mul|checked_div|checked_rem|checked_neg|rem_euclid|div_euclid|wrapping_div|wrapping_rem|overflowing_add|overflowing_sub|wrapping_shl|wrapping_shr|to_be|swap_bytes|cast_signed|cast_unsigned|is_negative|is_positive|div_ceil|next_multiple_of|is_multiple_of|count_ones|leading_zeros|trailing_zeros|pow|checked_sub|checked_add|min|max|wrapping_abs|abs_diff|rotate_left|rotate_right|is_power_of_two|next_power_of_two|signum)$")
def _intop(ev, c, mm):
    w = WID[mm.group(1)]
    s = mm.group(1)[0] == "i"
    op = mm.group(2)
    a = c.args
    if op in ("abs", "wrapping_abs", "unsigned_abs") and s:
        return ite(vg.slt(a[0], const(0, w)), vg.sub(const(0, w), a[0]), a[0])
    if op == "saturating_sub" and not s:
        return ite(vg.ult(a[0], a[1]), const(0, w), vg.sub(a[0], a[1]))
    if op in ("min", "max"):
        lt = vg.slt if s else vg.ult
        x = lt(a[1], a[0])
        return ite(x, a[1], a[0]) if op == "min" else ite(x, a[0], a[1])
    if op in ("cast_signed", "cast_unsigned"):
        return a[0]
    if op in ("wrapping_shl", "wrapping_shr"):
        k = vg.bitop("and", a[1], const(w - 1, 32))
        return vg.shift("shl" if op.endswith("l") else ("sar" if s else "shr"), a[0], k)
    if op in ("is_negative", "is_positive"):
        return vg.slt(a[0], const(0, w)) if op == "is_negative" else vg.slt(const(0, w), a[0])
    if op in ("rem_euclid", "div_euclid", "wrapping_div", "wrapping_rem", "checked_div", "checked_rem"):
        base = "Rem" if "rem" in op else "Div"
        if s and op.endswith("euclid"):
            k = cval(a[1]) if isc(a[1]) else 0
            if k < 1 or k & (k - 1) or k >> (w - 1):
                return vg.opaque(op, a, w)
            return vg.bitop("and", a[0], const(k - 1, w)) if base == "Rem" else vg.shift("sar", a[0], const(k.bit_length() - 1, 32))
        r = divrem(base, a[0], a[1], w, s)
        if op.startswith("checked"):
            return ev.merge(vg.eq(a[1], const(0, w)), ev.none(), ev.some(r))
        return r
    if op == "is_multiple_of" and not s:
        return vg.eq(divrem("Rem", a[0], a[1], w, s), const(0, w))
    if op in ("div_ceil", "next_multiple_of") and not s:
        q = vg.add(divrem("Div", a[0], a[1], w, s), ite(vg.eq(divrem("Rem", a[0], a[1], w, s), const(0, w)), const(0, w), const(1, w)))
        return q if op == "div_ceil" else vg.mul(q, a[1])
    if op in ("saturating_add", "checked_add", "overflowing_add", "checked_sub", "overflowing_sub", "saturating_sub", "checked_mul", "checked_neg", "saturating_mul"):
        if op.endswith("neg"):
            r, over = vg.sub(const(0, w), a[0]), (vg.eq(a[0], const(1 << (w - 1), w)) if s else bnot(vg.eq(a[0], const(0, w))))
        elif op.endswith("mul"):
            r = vg.mul(a[0], a[1])
            if w > 64:
                return NotImplemented
            over = bnot(vg.eq(vg.cast(r, 2 * w, s), vg.mul(vg.cast(a[0], 2 * w, s), vg.cast(a[1], 2 * w, s))))
        elif op.endswith("add"):
            r = vg.add(a[0], a[1])
            over = bnot(vg.eq(vg.cast(r, w + 8, True), vg.add(vg.cast(a[0], w + 8, True), vg.cast(a[1], w + 8, True)))) if s else vg.ult(r, a[0])
        else:
            r = vg.sub(a[0], a[1])
            over = bnot(vg.eq(vg.cast(r, w + 8, True), vg.sub(vg.cast(a[0], w + 8, True), vg.cast(a[1], w + 8, True)))) if s else vg.ult(a[0], a[1])
        if op.startswith("checked"):
            return ev.merge(over, ev.none(), ev.some(r))
        if op.startswith("overflowing"):
            return mk("st", (("tuple", (("prim", mm.group(1)), ("prim", "bool"))), None, (("0", r), ("1", over))))
        if s:
            lim = ite(vg.slt(a[0], const(0, w)), const(1 << (w - 1), w), const((1 << (w - 1)) - 1, w))
            return NotImplemented if op.endswith("mul") else ite(over, lim, r)
        return ite(over, const((1 << w) - 1, w) if not op.endswith("sub") else const(0, w), r)
    if op == "abs_diff":
        lt = (vg.slt if s else vg.ult)(a[0], a[1])
        return ite(lt, vg.sub(a[1], a[0]), vg.sub(a[0], a[1]))
    if op in ("rotate_left", "rotate_right") and isc(a[1]):
        k = cval(a[1]) % w
        if op == "rotate_right":
            k = (w - k) % w
        return a[0] if k == 0 else vg.bitop("or", vg.shift("shl", a[0], const(k, 32)), vg.shift("shr", a[0], const(w - k, 32)))
    if op == "swap_bytes" or op == "to_be":
        return cat_bytes([vg.bslice(a[0], 8 * i, 8) for i in reversed(range(w // 8))])
    return vg.opaque(op, a, width(c.dty) or w)


@pat(r"core::num::<impl ([ui]\d+|[ui]size)>::from_([lbn])e_bytes$")
def _from_bytes(ev, c, mm):
    w = WID[mm.group(1)]
    n = w // 8
    idx = list(range(n))
    if mm.group(2) == "b":
        idx.reverse()
    return cat_bytes([ev.index(c.args[0], const(i, 64)) for i in idx])


def divrem(base, a, b, w, signed):
    import ev
    return ev.divrem(base, a, b, w, signed)


def cat_bytes(bs):
    def f(*xs):
        ps = []
        for x in xs:
            ps.extend(vg.pieces(x))
        return vg.mkcat(ps)
    return vg.apply_n(("catb", len(bs)), f, bs)


@pat(r"core::num::<impl ([ui]\d+|[ui]size)>::to_([lbn])e_bytes$")
def _to_bytes(ev, c, mm):
    w = WID[mm.group(1)]
    n = w // 8
    bs = [vg.bslice(c.args[0], 8 * i, 8) for i in range(n)]
    if mm.group(2) == "b":
        bs.reverse()
    return ev.array(bs, ("prim", "u8"))


@pat(r"core::num::<impl ([ui]\d+|[ui]size)>::(from_le|to_le)$")
def _le(ev, c, mm):
    return c.args[0]


@pat(r"core::(f32|f64)::<impl f(?:32|64)>::(from_le_bytes|to_le_bytes|to_bits|from_bits)$")
def _fbits(ev, c, mm):
    w = WID[mm.group(1)]
    op = mm.group(2)
    if op == "from_le_bytes":
        return cat_bytes([ev.index(c.args[0], const(i, 64)) for i in range(w // 8)])
    if op == "to_le_bytes":
        return ev.array([vg.bslice(c.args[0], 8 * i, 8) for i in range(w // 8)], ("prim", "u8"))
    return c.args[0]


@pat(r"(?:core|std)::(?:num|f32|f64)::<impl (f32|f64)>::(round|floor|ceil|abs|powi|sqrt|trunc|is_nan|max|min)$")
def _fop(ev, c, mm):
    return vg.opaque("f" + mm.group(2), c.args, width(c.dty))


@pat(r"std::convert::num::.*<impl std::convert::From<(\w+)> for (\w+)>::from$")
def _from(ev, c, mm):
    s, d = mm.group(1), mm.group(2)
    if s == "bool":
        return ite(c.args[0], const(1, WID[d]), const(0, WID[d]))
    if d in FLOAT:
        return vg.opaque("cast_%s_%s" % (s, d), c.args, WID[d])
    return vg.cast(c.args[0], WID[d], s in SIGNED)


@m("<T as std::convert::From<T>>::from", "<I as std::iter::IntoIterator>::into_iter", "std::convert::identity")
def _id(ev, c):
    return c.args[0]


@m("<T as std::convert::Into<U>>::into")
def _into(ev, c):
    U = c.targs[1]
    T = c.targs[0]
    if T == U:
        return c.args[0]
    if U[0] == "prim" and T[0] == "prim":
        if T[1] == "bool":
            return ite(c.args[0], const(1, width(U)), const(0, width(U)))
        return vg.cast(c.args[0], width(U), T[1] in SIGNED)
    if U[0] == "adt" and U[1] == "std::io::Error":
        return mk("op", ("io_error", c.where), None)
    if U[0] == "adt" and U[1] == "std::string::String":
        return mk("op", ("fmt", c.where), None)
    hit = None
    for im in ev.P.impls:
        if im["trait"] == "std::convert::From":
            env = {}
            ta = [ev.P.rarg(x, None) for x in im["targs"]]
            if ev.P.unify(ev.P.rty(im["self"]), U, env) and ev.P.unify(ta[1], T, env):
                hit = (im["items"][0][1], env)
    if hit:
        return ev.run(hit[0], c.args, c.pc, c.st, hit[1])
    return NotImplemented


@m("<T as std::convert::TryInto<U>>::try_into", "std::convert::TryFrom::try_from")
def _try_into(ev, c):
    v = c.args[0]
    T, U = c.targs[0], c.targs[1]
    if c.name == "try_from":
        T, U = U, T
    if U[0] == "arr" and T[0] == "ref":
        n = U[2][1]
        return ev.ok(read_slice(ev, c.st, v, n, U[1]))
    if U[0] == "prim" and T[0] == "prim" and T[1] not in ("char", "bool") and U[1] not in ("char", "bool"):
        return convert(ev, c, v, T, U)
    return NotImplemented


def convert(ev, c, v, T, U):
    """checked integer conversion"""
    wt, wu, st, su = width(T), width(U), T[1] in SIGNED, U[1] in SIGNED
    x = vg.cast(v, wu, st)
    if wu >= wt:
        fits = vg.TRUE if su == st or (not st and wu > wt) else bnot(vg.slt(v, const(0, wt)))
    else:
        fits = vg.eq(vg.cast(x, wt, su), v)
        if su and not st:
            fits = vg.ult(v, const(1 << (wu - 1), wt))
    if fits is vg.TRUE:
        return ev.ok(x)
    return ite(fits, ev.ok(x), ev.err(ev.fresh("op", ("intconv",), None)))


def read_slice(ev, st, p, n, et=None):
    return ev.array([ev.load(st, ev.elem_ptr(p, const(i, 64))) for i in range(n)], et)


@m("core::convert::num::ptr_try_from_impls::<impl std::convert::TryFrom<usize> for u32>::try_from")
def _tf(ev, c):
    return convert(ev, c, c.args[0], ("prim", "usize"), ("prim", "u32"))


@m("std::array::<impl std::convert::TryFrom<&'a [T]> for [T; N]>::try_from")
def _tfa(ev, c):
    return NotImplemented


@m("num_traits::clamp")
def _clamp(ev, c):
    t = c.targs[0]
    lt = vg.slt if t[1] in SIGNED else vg.ult
    v, lo, hi = c.args
    if t[1] in FLOAT:
        return vg.opaque("clamp", c.args, width(t))
    return ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))


@tm("std::cmp::Ord", "min", "max", "clamp")
def _ord(ev, c):
    t = c.targs[0]
    if t[0] != "prim":
        return NotImplemented
    lt = vg.slt if t[1] in SIGNED else vg.ult
    a = c.args
    if c.name == "min":
        return ite(lt(a[1], a[0]), a[1], a[0])
    if c.name == "max":
        return ite(lt(a[1], a[0]), a[0], a[1])
    return ite(lt(a[0], a[1]), a[1], ite(lt(a[2], a[0]), a[2], a[0]))


@m("std::cmp::min", "std::cmp::max")
def _minmax(ev, c):
    return _ord(ev, c)


@tm("std::cmp::PartialOrd", "lt", "le", "gt", "ge")
def _pord(ev, c):
    a, b = c.args
    t = c.targs[0]
    while t[0] == "ref":
        a, b, t = ev.load(c.st, a), ev.load(c.st, b), t[2]
    a, b = ev.load(c.st, a), ev.load(c.st, b)
    if t[0] != "prim" or t[1] in FLOAT:
        return NotImplemented
    lt = vg.slt if t[1] in SIGNED else vg.ult
    n = c.name
    return {"lt": lambda: lt(a, b), "gt": lambda: lt(b, a), "le": lambda: bnot(lt(b, a)), "ge": lambda: bnot(lt(a, b))}[n]()


def deep_eq(ev, st, a, b, t):
    while t is not None and t[0] in ("ref",):
        if t[2][0] == "slice":
            return slice_eq(ev, st, a, b, t[2][1])
        a, b, t = ev.load(st, a), ev.load(st, b), t[2]
    if t is not None and t[0] == "prim":
        if t[1] in FLOAT:
            x, y = (a, b) if a.id <= b.id else (b, a)
            return vg.opaque("feq%d" % width(t), [x, y], 1)
        return vg.eq(a, b)
    if t is not None and t[0] == "arr" and t[2][1] is not None and t[2][1] <= 64:
        r = vg.TRUE
        for i in range(t[2][1]):
            r = band(r, deep_eq(ev, st, ev.index(a, const(i, 64)), ev.index(b, const(i, 64)), t[1]))
        return r
    if t is not None and t[0] == "tuple":
        r = vg.TRUE
        for i, x in enumerate(t[1]):
            r = band(r, deep_eq(ev, st, ev.project(a, str(i)), ev.project(b, str(i)), x))
        return r
    if t is not None and t[0] == "adt":
        ad = ev.P.adts.get(t[1])
        if ad and ad["kind"] == "enum" and all(not v["f"] for v in ad["variants"]):
            return vg.eq(ev.project(a, "#d"), ev.project(b, "#d"))
        if t[1] == "std::vec::Vec":
            la, lb = ev.len_of(a), ev.len_of(b)
            if isc(la) and la is lb:
                r = vg.TRUE
                for i in range(cval(la)):
                    r = band(r, deep_eq(ev, st, ev.index(a, const(i, 64)), ev.index(b, const(i, 64)), t[2][0]))
                return r
    return None


def slice_eq(ev, st, a, b, et):
    la, lb = ev.slice_len(st, a), ev.slice_len(st, b)
    if isc(la) and isc(lb):
        if cval(la) != cval(lb):
            return vg.FALSE
        r = vg.TRUE
        for i in range(cval(la)):
            x = deep_eq(ev, st, ev.load(st, ev.elem_ptr(a, const(i, 64))), ev.load(st, ev.elem_ptr(b, const(i, 64))), et)
            if x is None:
                return None
            r = band(r, x)
        return r
    return None


@tm("std::cmp::PartialEq", "eq", "ne")
def _peq(ev, c):
    t = c.targs[0]
    tb = c.targs[1] if len(c.targs) > 1 else t
    p, q = c.args[0], c.args[1]
    while t[0] == "ref" and t[2][0] in ("ref", "slice", "arr") and tb[0] == "ref":
        p, q, t, tb = ev.load(c.st, p), ev.load(c.st, q), t[2], tb[2]
    if "slice" in (t[0], tb[0]) and t[0] in ("slice", "arr") and tb[0] in ("slice", "arr"):
        if t[0] == "arr":
            p = as_slice(ev, c.st, p)
        if tb[0] == "arr":
            q = as_slice(ev, c.st, q)
        r = slice_eq(ev, c.st, p, q, t[1])
        if r is None:
            return NotImplemented
        return bnot(r) if c.name == "ne" else r
    a, b = ev.load(c.st, c.args[0]), ev.load(c.st, c.args[1])
    # strip references, dispatch to local impls
    while t[0] == "ref" and t[2][0] not in ("slice", "str"):
        a, b, t = ev.load(c.st, a), ev.load(c.st, b), t[2]
    hit = ev.P.find_impl("std::cmp::PartialEq", "eq", t) if t[0] == "adt" else None
    if hit:
        pa, pb = ev.alloc(c.st, a), ev.alloc(c.st, b)
        r, pc = ev.run(hit[0], [pa, pb], c.pc, c.st, hit[1])
        return (bnot(r) if c.name == "ne" else r), pc
    r = deep_eq(ev, c.st, a, b, t)
    if r is None:
        return NotImplemented
    return bnot(r) if c.name == "ne" else r


@tm("std::clone::Clone", "clone")
def _clone(ev, c):
    return ev.load(c.st, c.args[0])


# -------------------------------------------------------------- default

def default_of(ev, c, t):
    w = width(t)
    if w is not None:
        return const(0, w), c.pc
    if t[0] == "arr":
        n = t[2][1]
        vals = []
        pc = c.pc
        for _ in range(n):
            v, pc = default_of(ev, c, t[1])
            vals.append(v)
        return ev.array(vals, t[1]), pc
    if t[0] == "tuple":
        items = []
        for i, x in enumerate(t[1]):
            items.append((str(i), default_of(ev, c, x)[0]))
        return mk("st", (t, None, tuple(items))), c.pc
    if t[0] == "adt":
        if t[1] == "std::vec::Vec":
            return ev.vec(ev.array([]), const(0, 64), t[2][0]), c.pc
        if t[1] == "std::option::Option":
            return ev.none(), c.pc
        hit = ev.P.find_impl("std::default::Default", "default", t)
        if hit:
            env = dict(hit[1])
            return ev.run(hit[0], [], c.pc, c.st, env)
    raise Unsupported("default of %s" % ev.P.tstr(t))


@tm("std::default::Default", "default")
def _default(ev, c):
    return default_of(ev, c, c.targs[0])


# --------------------------------------------------------------- memory

@m("std::mem::size_of")
def _size_of(ev, c):
    t = c.targs[0]
    try:
        return const(c.frame.size(t), 64)
    except Unsupported:
        return vg.opaque("size_of:" + ev.P.tstr(t), [], 64)


@m("std::mem::replace")
def _replace(ev, c):
    old = ev.load(c.st, c.args[0])
    ev.store(c.st, c.args[0], c.args[1])
    return old


@m("std::mem::take")
def _take(ev, c):
    old = ev.load(c.st, c.args[0])
    v, pc = default_of(ev, c, c.targs[0])
    ev.store(c.st, c.args[0], v)
    return old, pc


@m("std::mem::swap")
def _swap(ev, c):
    a, b = ev.load(c.st, c.args[0]), ev.load(c.st, c.args[1])
    ev.store(c.st, c.args[0], b)
    ev.store(c.st, c.args[1], a)
    return vg.UNIT


@m("std::mem::drop", "std::mem::forget")
def _drop(ev, c):
    return vg.UNIT


@m("<std::boxed::Box<T, A> as std::ops::Drop>::drop", "<std::vec::Vec<T, A> as std::ops::Drop>::drop")
def _dropbox(ev, c):
    return vg.UNIT


@m("std::boxed::Box::<T>::new")
def _box(ev, c):
    return ev.alloc(c.st, c.args[0], "H")


@m("std::boxed::Box::<T>::new_uninit")
def _box_uninit(ev, c):
    return ev.alloc(c.st, mk("st", (("uninit",), None, ())), "H")


@m("std::boxed::box_assume_init_into_vec_unsafe")
def _box_vec(ev, c):
    v = ev.load(c.st, c.args[0])
    v = ev.project(ev.project(v, "value"), "value")
    n = ev.len_of(v)
    return ev.vec(v, n, c.targs[0])


# ---------------------------------------------------------------- slices

def as_slice(ev, st, p):
    """thin pointer to array/vec -> slice pointer"""
    def f(q):
        if q.op != "ptr" or q.args[2] is not None:
            return q
        v = ev.load(st, q)
        n = ev.len_of(v)
        if is_vec(v):
            return mk("ptr", (q.args[0], q.args[1] + ("#arr",), const(0, 64), n))
        return mk("ptr", (q.args[0], q.args[1], const(0, 64), n))
    return ev.lift1("as_slice", f, p)


def is_vec(v):
    if v.op == "st":
        return (v.args[0] is not None and v.args[0][:2] == ("adt", "std::vec::Vec")) or any(k == "#len" for k, _ in v.args[2])
    if v.op == "nd":
        return is_vec(vg.leafset(v)[0])
    return v.ty is not None and v.ty[0] == "adt" and v.ty[1] == "std::vec::Vec"


@m("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
   "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "core::array::<impl [T; N]>::as_slice",
   "core::array::<impl [T; N]>::as_mut_slice")
def _vderef(ev, c):
    return as_slice(ev, c.st, c.args[0])


@tm("std::convert::AsRef", "as_ref")
@tm("std::convert::AsMut", "as_mut")
@tm("std::borrow::Borrow", "borrow")
def _asref(ev, c):
    t = c.targs[0]
    if t[0] == "adt" and t[1] == "std::vec::Vec" or t[0] in ("arr",):
        return as_slice(ev, c.st, c.args[0])
    if t[0] == "slice":
        return c.args[0]
    if t[0] == "ref":
        p = ev.load(c.st, c.args[0])
        if t[2][0] == "slice":
            return p
        return as_slice(ev, c.st, p)
    return NotImplemented


@m("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len")
def _len(ev, c):
    return ev.slice_len(c.st, as_slice(ev, c.st, c.args[0]))


@m("core::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty")
def _isempty(ev, c):
    n = ev.slice_len(c.st, as_slice(ev, c.st, c.args[0]))
    return vg.eq(n, const(0, 64))


def rng(ev, st, idx, ity, n):
    """range-like index -> (start, len) or None for an element index"""
    if ity is not None and ity[0] == "prim":
        return None
    if ity is None and idx.w == 64:
        return None
    name = ity[1] if ity and ity[0] == "adt" else (idx.args[0][1] if idx.op == "st" else "")
    if name == "std::ops::Range":
        s = ev.project(idx, "start")
        return s, vg.sub(ev.project(idx, "end"), s)
    if name == "std::ops::RangeFrom":
        s = ev.project(idx, "start")
        return s, vg.sub(n, s)
    if name == "std::ops::RangeTo":
        return const(0, 64), ev.project(idx, "end")
    if name == "std::ops::RangeFull":
        return const(0, 64), n
    if name in ("std::ops::RangeToInclusive",):
        return const(0, 64), vg.add(ev.project(idx, "end"), const(1, 64))
    if name == "std::ops::RangeInclusive":
        s = ev.project(idx, "start")
        return s, vg.add(vg.sub(ev.project(idx, "end"), s), const(1, 64))
    raise Unsupported("index by %s" % (ity,))


def note(ev, c, bad, kind):
    """a condition under which the modelled function panics (or, unchecked, reaches outside)"""
    if ev.overflows and ev.panics is not None:
        bad = band(c.pc, bad)
        ev.nchecked += 1
        if bad is not vg.FALSE:
            ev.panics.append((bad, kind, c.where, ev.stack[-1] if ev.stack else ""))


def do_index(ev, c, p, idx, ity, kind="bounds"):
    p = as_slice(ev, c.st, p)
    n = ev.slice_len(c.st, p)
    r = rng(ev, c.st, idx, ity, n)
    if r is None:
        if ev.overflows:
            note(ev, c, bnot(vg.ult(idx, n)), kind)
        return ev.elem_ptr(p, idx)
    if ev.overflows:
        end = vg.add(r[0], r[1])
        note(ev, c, bor(vg.ult(end, r[0]), vg.ult(n, end)), kind)
    return ev.subslice(p, r[0], r[1])


@tm("std::ops::Index", "index")
@tm("std::ops::IndexMut", "index_mut")
def _index(ev, c):
    t = c.targs[0]
    if t[0] in ("arr", "slice") or (t[0] == "adt" and t[1] == "std::vec::Vec"):
        return do_index(ev, c, c.args[0], c.args[1], c.targs[1] if len(c.targs) > 1 else None)
    return NotImplemented


@m("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def _getu(ev, c):
    return do_index(ev, c, c.args[0], c.args[1], c.targs[1], "unchecked access")


@m("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def _get(ev, c):
    p = as_slice(ev, c.st, c.args[0])
    n = ev.slice_len(c.st, p)
    r = rng(ev, c.st, c.args[1], c.targs[1], n)
    if r is None:
        ok = vg.ult(c.args[1], n)
        v = ev.elem_ptr(p, c.args[1])
    else:
        ok = bnot(vg.ult(n, vg.add(r[0], r[1])))
        v = ev.subslice(p, r[0], r[1])
    return ev.merge(ok, ev.some(v), ev.none())


@m("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first_mut",
   "core::slice::<impl [T]>::last_mut")
def _first(ev, c):
    p = as_slice(ev, c.st, c.args[0])
    n = ev.slice_len(c.st, p)
    ok = bnot(vg.eq(n, const(0, 64)))
    i = const(0, 64) if c.name.startswith("first") else vg.sub(n, const(1, 64))
    return ev.merge(ok, ev.some(ev.elem_ptr(p, i)), ev.none())


@m("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def _split(ev, c):
    p = as_slice(ev, c.st, c.args[0])
    n = ev.slice_len(c.st, p)
    k = c.args[1]
    return mk("st", (("tuple", (None, None)), None, (("0", ev.subslice(p, const(0, 64), k)), ("1", ev.subslice(p, k, vg.sub(n, k))))))


def copy_elems(ev, c, dst, src, n):
    if isc(n):
        vals = [ev.load(c.st, ev.elem_ptr(src, const(i, 64))) for i in range(cval(n))]
        for i, v in enumerate(vals):
            ev.store(c.st, ev.elem_ptr(dst, const(i, 64)), v)
        return True
    return False


@m("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _copy(ev, c):
    d, s = as_slice(ev, c.st, c.args[0]), as_slice(ev, c.st, c.args[1])
    n = ev.slice_len(c.st, d)
    if not isc(n):
        n2 = ev.slice_len(c.st, s)
        if isc(n2):
            n = n2
    if ev.overflows:
        note(ev, c, bnot(vg.eq(ev.slice_len(c.st, d), ev.slice_len(c.st, s))), "length")
    if copy_elems(ev, c, d, s, n):
        return vg.UNIT
    return NotImplemented


@m("core::slice::<impl [T]>::copy_within")
def _copy_within(ev, c):
    d = as_slice(ev, c.st, c.args[0])
    r = rng(ev, c.st, c.args[1], c.targs[1], ev.slice_len(c.st, d))
    if r is None or not isc(r[1]) or cval(r[1]) > 300:
        return NotImplemented
    src, dst = ev.subslice(d, r[0], r[1]), ev.subslice(d, c.args[2], r[1])
    return vg.UNIT if copy_elems(ev, c, dst, src, r[1]) else NotImplemented


@m("core::slice::<impl [T]>::rotate_left", "core::slice::<impl [T]>::rotate_right", "core::slice::<impl [T]>::reverse")
def _rotate(ev, c):
    d = as_slice(ev, c.st, c.args[0])
    n = ev.slice_len(c.st, d)
    if not isc(n) or cval(n) > 300:
        return NotImplemented
    n = cval(n)
    vals = [ev.load(c.st, ev.elem_ptr(d, const(i, 64))) for i in range(n)]
    if c.name == "reverse":
        vals.reverse()
    else:
        if not isc(c.args[1]) or cval(c.args[1]) > n:
            return NotImplemented
        k = cval(c.args[1]) if c.name == "rotate_left" else n - cval(c.args[1])
        vals = vals[k:] + vals[:k]
    for i, v in enumerate(vals):
        ev.store(c.st, ev.elem_ptr(d, const(i, 64)), v)
    return vg.UNIT


@m("std::array::from_fn")
def _from_fn(ev, c):
    t = c.dty
    if t is None or t[0] != "arr" or not isinstance(t[2], tuple) or not isinstance(t[2][1], int) or t[2][1] > 300:
        return NotImplemented
    f, pc, out = fnref(ev, c.st, c.args[0]), c.pc, []
    for i in range(t[2][1]):
        x, pc = ev.call_closure(f, [const(i, 64)], pc, c.st, c.where)
        out.append(x)
    return ev.array(out, t[1]), pc


@m("std::array::<impl [T; N]>::map", "core::array::<impl [T; N]>::map")
def _arr_map(ev, c):
    t = c.dty
    if t is None or t[0] != "arr" or not isinstance(t[2], tuple) or not isinstance(t[2][1], int) or t[2][1] > 300:
        return NotImplemented
    f, pc, out = fnref(ev, c.st, c.args[1]), c.pc, []
    for i in range(t[2][1]):
        x, pc = ev.call_closure(f, [ev.index(c.args[0], const(i, 64))], pc, c.st, c.where)
        out.append(x)
    return ev.array(out, t[1]), pc


@m("core::slice::<impl [T]>::fill")
def _fill(ev, c):
    d = as_slice(ev, c.st, c.args[0])
    n = ev.slice_len(c.st, d)
    if not isc(n) or cval(n) > 2100:
        # a whole allocation: one repeated value
        if d.op == "ptr" and isc(d.args[2]) and cval(d.args[2]) == 0:
            q = mk("ptr", (d.args[0], d.args[1], None, None))
            whole = True
            if d.args[1] and d.args[1][-1] == "#arr":
                whole = ev.len_of(ev.load(c.st, mk("ptr", (d.args[0], d.args[1][:-1], None, None)))) is n
            else:
                whole = ev.len_of(ev.load(c.st, q)) is n
            if whole:
                z = mk("op", ("repeat", c.args[1]), None)
                z.ty = ("slice", c.targs[0] if c.targs else None)
                ev.store(c.st, q, z)
                return vg.UNIT
        return NotImplemented
    for i in range(cval(n)):
        ev.store(c.st, ev.elem_ptr(d, const(i, 64)), c.args[1])
    return vg.UNIT


@m("core::slice::<impl [T]>::swap")
def _sswap(ev, c):
    d = as_slice(ev, c.st, c.args[0])
    p, q = ev.elem_ptr(d, c.args[1]), ev.elem_ptr(d, c.args[2])
    a, b = ev.load(c.st, p), ev.load(c.st, q)
    ev.store(c.st, p, b)
    ev.store(c.st, q, a)
    return vg.UNIT


# ------------------------------------------------------------------ Vec

@m("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def _vnew(ev, c):
    return ev.vec(ev.array([], c.targs[0]), const(0, 64), c.targs[0])


@m("std::vec::from_elem")
def _from_elem(ev, c):
    n = c.args[1]
    if not isc(n) or cval(n) > 300:
        z = mk("op", ("repeat", c.args[0]), None)
        z.ty = ("slice", c.targs[0])
        return ev.vec(z, n, c.targs[0])
    return ev.vec(ev.array([c.args[0]] * cval(n), c.targs[0]), n, c.targs[0])


@m("std::vec::Vec::<T, A>::push")
def _push(ev, c):
    v = ev.load(c.st, c.args[0])
    n = ev.len_of(v)
    arr = ev.project(v, "#arr")
    arr = ev.setindex(arr, n, c.args[1])
    v = ev.setkey(ev.setkey(v, "#arr", arr), "#len", vg.add(n, const(1, 64)))
    ev.store(c.st, c.args[0], v)
    return vg.UNIT


@m("std::vec::Vec::<T, A>::pop")
def _pop(ev, c):
    v = ev.load(c.st, c.args[0])
    n = ev.len_of(v)
    if isc(n):
        if cval(n) == 0:
            return ev.none()
        k = vg.sub(n, const(1, 64))
        x = ev.index(v, k)
        ev.store(c.st, c.args[0], ev.setkey(v, "#len", k))
        return ev.some(x)
    return NotImplemented


@m("std::vec::Vec::<T, A>::clear")
def _clear(ev, c):
    v = ev.load(c.st, c.args[0])
    t = v.ty[2][0] if v.ty and v.ty[0] == "adt" and v.ty[2] else None
    ev.store(c.st, c.args[0], ev.vec(ev.array([], t), const(0, 64), t))
    return vg.UNIT


@m("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "std::vec::Vec::<T, A>::reserve_exact")
def _reserve(ev, c):
    return vg.UNIT


@m("std::vec::Vec::<T, A>::resize")
def _resize(ev, c):
    n = c.args[1]
    v = ev.load(c.st, c.args[0])
    old = ev.len_of(v)
    if not isc(n) or not isc(old) or cval(n) > 4096:
        et = v.ty[2][0] if v.ty and v.ty[0] == "adt" and v.ty[2] else None
        a = mk("op", ("repeat", c.args[2]) if isc(old) and cval(old) == 0 else ("resized", ev.project(v, "#arr"), old, c.args[2]), None)
        ev.store(c.st, c.args[0], ev.vec(a, n, et))
        return vg.UNIT
    vals = [ev.index(v, const(i, 64)) if i < cval(old) else c.args[2] for i in range(cval(n))]
    ev.store(c.st, c.args[0], ev.vec(ev.array(vals), n, None))
    return vg.UNIT


@m("std::vec::Vec::<T, A>::extend_from_slice")
def _extend(ev, c):
    v = ev.load(c.st, c.args[0])
    s = as_slice(ev, c.st, c.args[1])
    n, k = ev.len_of(v), ev.slice_len(c.st, s)
    if not (isc(n) and isc(k)):
        return NotImplemented
    vals = [ev.index(v, const(i, 64)) for i in range(cval(n))]
    vals += [ev.load(c.st, ev.elem_ptr(s, const(i, 64))) for i in range(cval(k))]
    ev.store(c.st, c.args[0], ev.vec(ev.array(vals), const(len(vals), 64), None))
    return vg.UNIT


def deref(ev, st, x, et=None):
    """item of an iterator over references, as a value"""
    for _ in range(3):
        if x.op == "ptr" and x.args[2] is None and not (et is not None and et[0] in ("ref", "ptr")):
            x = ev.load(st, x)
    return x


@tm("std::iter::Extend", "extend")
def _extend_it(ev, c):
    v = ev.load(c.st, c.args[0])
    n = ev.len_of(v)
    if not isc(n):
        return NotImplemented
    xs, pc = drain(ev, c, to_iter(ev, c.st, c.args[1]))
    et = v.ty[2][0] if v.ty and v.ty[0] == "adt" and v.ty[2] else None
    st = c.targs[0] if c.targs else None
    if et is None and st is not None and st[0] == "adt" and st[2]:
        et = st[2][0]
    vals = [ev.index(v, const(i, 64)) for i in range(cval(n))]
    vals += [deref(ev, c.st, x, et) if et is None or et[0] != "ref" else x for x in xs]
    ev.store(c.st, c.args[0], ev.vec(ev.array(vals), const(len(vals), 64), et))
    return vg.UNIT, pc


@m("std::vec::Vec::<T, A>::append")
def _append(ev, c):
    v, w = ev.load(c.st, c.args[0]), ev.load(c.st, c.args[1])
    n, k = ev.len_of(v), ev.len_of(w)
    if not (isc(n) and isc(k)):
        return NotImplemented
    vals = [ev.index(v, const(i, 64)) for i in range(cval(n))] + [ev.index(w, const(i, 64)) for i in range(cval(k))]
    ev.store(c.st, c.args[0], ev.vec(ev.array(vals), const(len(vals), 64), None))
    ev.store(c.st, c.args[1], ev.setkey(w, "#len", const(0, 64)))
    return vg.UNIT


@m("std::vec::Vec::<T, A>::truncate")
def _truncate(ev, c):
    v = ev.load(c.st, c.args[0])
    n, k = ev.len_of(v), c.args[1]
    ev.store(c.st, c.args[0], ev.setkey(v, "#len", vg.ite(vg.ult(k, n), k, n)))
    return vg.UNIT


@m("std::vec::Vec::<T, A>::split_off")
def _split_off(ev, c):
    v = ev.load(c.st, c.args[0])
    n, k = ev.len_of(v), c.args[1]
    if not (isc(n) and isc(k)):
        return NotImplemented
    out = [ev.index(v, const(i, 64)) for i in range(cval(k), cval(n))]
    ev.store(c.st, c.args[0], ev.setkey(v, "#len", k))
    return ev.vec(ev.array(out), const(len(out), 64), None)


@m("std::vec::Vec::<T, A>::drain")
def _drain(ev, c):
    v = ev.load(c.st, c.args[0])
    n = ev.len_of(v)
    if not isc(n):
        return NotImplemented
    lo, ln = rng(ev, c.st, c.args[1], c.targs[-1] if c.targs else None, n)
    if not (isc(lo) and isc(ln)):
        return NotImplemented
    vals = [ev.index(v, const(i, 64)) for i in range(cval(n))]
    a, b = cval(lo), cval(lo) + cval(ln)
    out = vals[a:b]
    rest = vals[:a] + vals[b:]
    ev.store(c.st, c.args[0], ev.vec(ev.array(rest), const(len(rest), 64), None))
    return it("vals", v=ev.vec(ev.array(out), const(len(out), 64), None), i=const(0, 64))


@m("std::vec::Vec::<T, A>::into_boxed_slice")
def _boxed(ev, c):
    p = ev.alloc(c.st, c.args[0], "H")
    return as_slice(ev, c.st, p)


# --------------------------------------------------------------- Option

def opt_is_some(ev, v):
    d = ev.project(v, "#d")
    return bnot(vg.eq(d, const(0, d.w or 64)))


@pat(r"std::(option::Option::<T>|result::Result::<T, E>)::(unwrap|expect|unwrap_unchecked)$")
def _unwrap(ev, c, mm):
    if ev.overflows:
        if "option" in mm.group(1):
            note(ev, c, bnot(opt_is_some(ev, c.args[0])), mm.group(2))
        else:
            d = ev.project(c.args[0], "#d")
            note(ev, c, bnot(vg.eq(d, const(0, 64))), mm.group(2))
    return ev.project(c.args[0], "Some.0" if "option" in mm.group(1) else "Ok.0")


@m("std::option::Option::<T>::is_some", "std::option::Option::<T>::is_none")
def _iss(ev, c):
    r = opt_is_some(ev, ev.load(c.st, c.args[0]))
    return r if c.name == "is_some" else bnot(r)


@m("std::result::Result::<T, E>::is_ok", "std::result::Result::<T, E>::is_err")
def _isok(ev, c):
    d = ev.project(ev.load(c.st, c.args[0]), "#d")
    r = vg.eq(d, const(0, 64))
    return r if c.name == "is_ok" else bnot(r)


@m("std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_mut")
def _oref(ev, c):
    v = ev.load(c.st, c.args[0])
    return ev.merge(opt_is_some(ev, v), ev.some(ev.field_ptr(c.args[0], "Some.0")), ev.none())


@m("std::option::Option::<&T>::copied", "std::option::Option::<&T>::cloned", "std::option::Option::<&mut T>::copied")
def _ocopied(ev, c):
    s = opt_is_some(ev, c.args[0])
    if s is vg.FALSE:
        return ev.none()
    return ev.merge(s, ev.some(ev.load(c.st, ev.project(c.args[0], "Some.0"))), ev.none())


@m("std::option::Option::<T>::take")
def _otake(ev, c):
    v = ev.load(c.st, c.args[0])
    ev.store(c.st, c.args[0], ev.none())
    return v


@m("std::option::Option::<T>::replace", "std::option::Option::<T>::insert")
def _orepl(ev, c):
    v = ev.load(c.st, c.args[0])
    ev.store(c.st, c.args[0], ev.some(c.args[1]))
    if c.name == "insert":
        return ev.field_ptr(c.args[0], "Some.0")
    return v


@m("std::option::Option::<T>::unwrap_or", "std::option::Option::<T>::unwrap_or_default")
def _uor(ev, c):
    alt = c.args[1] if len(c.args) > 1 else default_of(ev, c, c.targs[0])[0]
    return ev.merge(opt_is_some(ev, c.args[0]), ev.project(c.args[0], "Some.0"), alt)


def guarded(ev, c, cond, f):
    """run f under cond on a forked state and merge; returns (value or None)"""
    if cond is vg.FALSE:
        return None
    if cond is vg.TRUE:
        return f(c.pc, c.st)
    st1 = dict(c.st)
    st0 = dict(c.st)
    v = f(band(c.pc, cond), st1)
    pc, st = ev.join([(cond, st1), (bnot(cond), st0)])
    c.st.clear()
    c.st.update(st)
    return v


@m("std::option::Option::<T>::unwrap_or_else")
def _uoe(ev, c):
    s = opt_is_some(ev, c.args[0])
    alt = guarded(ev, c, bnot(s), lambda pc, st: ev.call_closure(c.args[1], [], pc, st, c.where)[0])
    if alt is None:
        return ev.project(c.args[0], "Some.0")
    return ev.merge(s, ev.project(c.args[0], "Some.0"), alt)


@m("std::option::Option::<T>::get_or_insert", "std::option::Option::<T>::get_or_insert_with")
def _goi(ev, c):
    v = ev.load(c.st, c.args[0])
    s = opt_is_some(ev, v)
    if c.name == "get_or_insert":
        new = c.args[1]
    else:
        new = guarded(ev, c, bnot(s), lambda pc, st: ev.call_closure(c.args[1], [], pc, st, c.where)[0])
    if new is not None:
        v = ev.load(c.st, c.args[0])
        x = ev.merge(s, ev.project(v, "Some.0"), new)
        ev.store(c.st, c.args[0], ev.some(x))
    return ev.field_ptr(c.args[0], "Some.0")


@m("std::option::Option::<T>::map", "std::option::Option::<T>::and_then")
def _omap(ev, c):
    s = opt_is_some(ev, c.args[0])
    x = guarded(ev, c, s, lambda pc, st: ev.call_closure(c.args[1], [ev.project(c.args[0], "Some.0")], pc, st, c.where)[0])
    if x is None:
        return ev.none()
    if c.name == "and_then":
        return ev.merge(s, x, ev.none())
    return ev.merge(s, ev.some(x), ev.none())


@m("std::option::Option::<T>::ok_or")
def _okor(ev, c):
    return ev.merge(opt_is_some(ev, c.args[0]), ev.ok(ev.project(c.args[0], "Some.0")), ev.err(c.args[1]))


@m("std::option::Option::<T>::ok_or_else")
def _okore(ev, c):
    s = opt_is_some(ev, c.args[0])
    e = guarded(ev, c, bnot(s), lambda pc, st: ev.call_closure(c.args[1], [], pc, st, c.where)[0])
    if e is None:
        return ev.ok(ev.project(c.args[0], "Some.0"))
    return ev.merge(s, ev.ok(ev.project(c.args[0], "Some.0")), ev.err(e))


@m("std::result::Result::<T, E>::map_err")
def _maperr(ev, c):
    d = ev.project(c.args[0], "#d")
    isok = vg.eq(d, const(0, 64))
    e = guarded(ev, c, bnot(isok), lambda pc, st: ev.call_closure(c.args[1], [ev.project(c.args[0], "Err.0")], pc, st, c.where)[0])
    if e is None:
        return c.args[0]
    return ev.merge(isok, ev.ok(ev.project(c.args[0], "Ok.0")), ev.err(e))


@m("std::result::Result::<T, E>::and_then", "std::result::Result::<T, E>::map")
def _andthen(ev, c):
    d = ev.project(c.args[0], "#d")
    isok = vg.eq(d, const(0, 64))
    x = guarded(ev, c, isok, lambda pc, st: ev.call_closure(c.args[1], [ev.project(c.args[0], "Ok.0")], pc, st, c.where)[0])
    if x is None:
        return c.args[0]
    if c.name == "map":
        x = ev.ok(x)
    if isok is vg.TRUE:
        return x
    return ev.merge(isok, x, ev.err(ev.project(c.args[0], "Err.0")))


@m("std::result::Result::<T, E>::ok")
def _rok(ev, c):
    d = ev.project(c.args[0], "#d")
    return ev.merge(vg.eq(d, const(0, 64)), ev.some(ev.project(c.args[0], "Ok.0")), ev.none())


@tm("std::ops::Try", "branch")
def _branch(ev, c):
    v = c.args[0]
    t = c.targs[0]
    d = ev.project(v, "#d")
    cf = ("adt", "std::ops::ControlFlow", (None, None))
    if t[1] == "std::ops::ControlFlow":
        return mk("st", (cf, None, (("#d", d), ("Break.0", v), ("Continue.0", ev.project(v, "Continue.0")))))
    if t[1] == "std::option::Option":
        s = bnot(vg.eq(d, const(0, 64)))
        nd_ = ite(s, const(0, 64), const(1, 64))
        return mk("st", (cf, None, (("#d", nd_), ("Break.0", ev.none()), ("Continue.0", ev.project(v, "Some.0")))))
    return mk("st", (cf, None, (("#d", d), ("Break.0", ev.err(ev.project(v, "Err.0"))), ("Continue.0", ev.project(v, "Ok.0")))))


@tm("std::ops::FromResidual", "from_residual")
def _fres(ev, c):
    v = c.args[0]
    if c.targs[0][1] == "std::option::Option":
        return ev.none()
    if c.targs[0][1] == "std::ops::ControlFlow":
        return v
    e = ev.project(v, "Err.0")
    # error conversion through From
    t = c.targs
    try:
        F = t[0][2][1]
        E = t[1][2][1]
    except Exception:
        F = E = None
    if F is not None and E is not None and F != E and F[0] == "adt":
        for im in ev.P.impls:
            if im["trait"] == "std::convert::From":
                ta = [ev.P.rarg(x, None) for x in im["targs"]]
                if ev.P.unify(ev.P.rty(im["self"]), F, {}) and ev.P.unify(ta[1], E, {}):
                    r, pc = ev.run(im["items"][0][1], [e], c.pc, c.st, {})
                    return ev.err(r), pc
    return ev.err(e)


@tm("std::ops::Try", "from_output")
def _fout(ev, c):
    t = c.targs[0]
    if t[0] != "adt":
        return NotImplemented
    n = t[1]
    if n == "std::option::Option":
        return ev.some(c.args[0])
    if n == "std::result::Result":
        return ev.ok(c.args[0])
    if n == "std::ops::ControlFlow":
        return ev.enum(("adt", n, (None, None)), 0, Continue__0=c.args[0])
    return NotImplemented


# ------------------------------------------------------------- iterators

def it(kind, **kw):
    return mk("st", (("iter", kind), None, tuple(sorted(kw.items()))))


def slice_iter(ev, st, p, byval=False):
    p = as_slice(ev, st, p)
    return it("copied" if byval else "slice", p=p, i=const(0, 64))


def to_iter(ev, st, v, t=None):
    if v.op == "st" and v.args[0] is not None:
        ty = v.args[0]
        if ty[0] == "iter":
            return v
        if ty[0] == "adt" and ty[1] in ("std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom"):
            return v
        if is_vec(v):
            return it("vals", v=v, i=const(0, 64))
        if ty[0] == "adt" and ev.P.find_iter(ty):
            return it("user", p=ev.alloc(st, v, "I"))
    if v.op == "ptr":
        if v.args[2] is None:
            x = ev.load(st, v)
            if x.op == "st" and x.args[0] is not None and (x.args[0][0] == "iter" or (x.args[0][0] == "adt" and not is_vec(x) and (
                    x.args[0][1] in ("std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom") or ev.P.find_iter(x.args[0])))):
                return it("ref", p=v)
        return slice_iter(ev, st, v)
    if v.op in ("sym", "prj", "op") and is_vec(v):
        return it("vals", v=v, i=const(0, 64))
    if v.op in ("ar",):
        return it("vals", v=v, i=const(0, 64))
    raise Unsupported("iterate %s" % vg.show(v))


@tm("std::iter::IntoIterator", "into_iter")
def _intoiter(ev, c):
    return to_iter(ev, c.st, c.args[0], c.targs[0])


@m("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def _iter(ev, c):
    return slice_iter(ev, c.st, c.args[0])


@m("core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::chunks_exact_mut", "core::slice::<impl [T]>::chunks",
   "core::slice::<impl [T]>::chunks_mut")
def _chunks(ev, c):
    return it("chunks" if "exact" in c.name else "chunksr", p=as_slice(ev, c.st, c.args[0]), n=c.args[1], i=const(0, 64))


@tm("std::iter::Iterator", "zip", "enumerate", "map", "copied", "cloned", "take", "skip", "rev", "filter", "by_ref", "step_by", "chain", "fuse", "peekable", "inspect", "filter_map")
def _adapt(ev, c):
    n = c.name
    a = to_iter(ev, c.st, c.args[0]) if n != "by_ref" else c.args[0]
    if n == "zip":
        return it("zip", a=a, b=to_iter(ev, c.st, c.args[1]))
    if n == "chain":
        return it("chain", a=a, b=to_iter(ev, c.st, c.args[1]))
    if n == "fuse":
        return a
    if n == "by_ref":
        return a
    if n == "filter":
        return it("filter", a=a, f=c.args[1])
    if n == "filter_map":
        return it("filtermap", a=a, f=c.args[1])
    if n == "enumerate":
        return it("enum", a=a, i=const(0, 64))
    if n == "map":
        return it("map", a=a, f=c.args[1])
    if n in ("copied", "cloned"):
        return it("deref", a=a)
    if n == "take":
        return it("take", a=a, n=c.args[1])
    if n == "skip":
        if isc(c.args[1]):
            for _ in range(cval(c.args[1])):
                a, ok, x, pc = nxt(ev, c.st, a, c.pc, c.where)
            return a
        return NotImplemented
    if n == "rev":
        return it("rev", a=a)
    return NotImplemented


def iter_len(ev, st, v):
    ty = v.args[0]
    if ty[0] == "adt":
        s, e = ev.project(v, "start"), ev.project(v, "end")
        w = s.w or 64
        d = vg.sub(e, s)
        if ty[1] == "std::ops::RangeInclusive":
            d = vg.add(d, const(1, w))
        return d
    k = ty[1]
    if k == "slice" or k == "copied":
        return vg.sub(ev.slice_len(st, ev.project(v, "p")), ev.project(v, "i"))
    if k == "vals":
        return vg.sub(ev.len_of(ev.project(v, "v")), ev.project(v, "i"))
    if k in ("enum", "map", "deref"):
        return iter_len(ev, st, ev.project(v, "a"))
    if k == "ref":
        return iter_len(ev, st, ev.load(st, ev.project(v, "p")))
    if k == "chain":
        return vg.add(iter_len(ev, st, ev.project(v, "a")), iter_len(ev, st, ev.project(v, "b")))
    if k == "chunks":
        p, i, n = ev.project(v, "p"), ev.project(v, "i"), ev.project(v, "n")
        d = vg.sub(ev.slice_len(st, p), i)
        if isc(d) and isc(n):
            return const(cval(d) // cval(n), 64)
    if k == "zip":
        a, b = iter_len(ev, st, ev.project(v, "a")), iter_len(ev, st, ev.project(v, "b"))
        if isc(a) and isc(b):
            return const(min(cval(a), cval(b)), 64)
    raise Unsupported("iterator length " + k)


def fnref(ev, st, f):
    """a closure called repeatedly keeps its state between the calls"""
    if f.op == "st" and f.args[0] and f.args[0][0] == "closure":
        return ev.alloc(st, f, "C")
    return f


def nxt(ev, st, v, pc, where):
    """-> (iterator', has_next condition, item, pc)"""
    ty = v.args[0]
    if ty[0] == "adt":
        s = ev.project(v, "start")
        e = None if ty[1] == "std::ops::RangeFrom" else ev.project(v, "end")
        w = (s.w or 64)
        t = ty[2][0] if ty[2] and ty[2][0] else U64
        sg = t[0] == "prim" and t[1] in SIGNED
        lt = vg.slt if sg else vg.ult
        if ty[1] == "std::ops::RangeInclusive":
            ex = None
            for k, x in v.args[2]:
                if k == "exhausted":
                    ex = x
            ok = bnot(lt(e, s))
            if ex is not None:
                ok = band(ok, bnot(ex))
            v2 = ev.setkey(v, "start", vg.add(s, const(1, w)))
            return v2, ok, s, pc
        if ty[1] == "std::ops::RangeFrom":
            return ev.setkey(v, "start", vg.add(s, const(1, w))), vg.TRUE, s, pc
        if ty[1] != "std::ops::Range":
            raise Unsupported("Unmodelled: next of %s" % ty[1])
        ok = lt(s, e)
        return ev.setkey(v, "start", vg.add(s, const(1, w))), ok, s, pc
    k = ty[1]
    if k in ("slice", "copied"):
        p, i = ev.project(v, "p"), ev.project(v, "i")
        ok = vg.ult(i, ev.slice_len(st, p))
        x = ev.elem_ptr(p, i)
        if k == "copied":
            x = ev.load(st, x)
        return ev.setkey(v, "i", vg.add(i, const(1, 64))), ok, x, pc
    if k == "vals":
        a, i = ev.project(v, "v"), ev.project(v, "i")
        ok = vg.ult(i, ev.len_of(a))
        x = ev.index(a, i) if ok is not vg.FALSE else vg.BOT
        return ev.setkey(v, "i", vg.add(i, const(1, 64))), ok, x, pc
    if k == "chunks":
        p, i, n = ev.project(v, "p"), ev.project(v, "i"), ev.project(v, "n")
        e = vg.add(i, n)
        ok = bnot(vg.ult(ev.slice_len(st, p), e))
        return ev.setkey(v, "i", e), ok, ev.subslice(p, i, n), pc
    if k == "chunksr":
        p, i, n = ev.project(v, "p"), ev.project(v, "i"), ev.project(v, "n")
        ln = ev.slice_len(st, p)
        if not (isc(ln) and isc(n) and isc(i)):
            raise Unsupported("chunks of unknown number")
        if cval(i) >= cval(ln):
            return v, vg.FALSE, vg.BOT, pc
        m_ = min(cval(n), cval(ln) - cval(i))
        return ev.setkey(v, "i", const(cval(i) + m_, 64)), vg.TRUE, ev.subslice(p, i, const(m_, 64)), pc
    if k == "zip":
        a, oa, xa, pc = nxt(ev, st, ev.project(v, "a"), pc, where)
        b, ob, xb, pc = nxt(ev, st, ev.project(v, "b"), pc, where)
        return it("zip", a=a, b=b), band(oa, ob), mk("st", (("tuple", (None, None)), None, (("0", xa), ("1", xb)))), pc
    if k == "enum":
        a, ok, x, pc = nxt(ev, st, ev.project(v, "a"), pc, where)
        i = ev.project(v, "i")
        return it("enum", a=a, i=vg.add(i, const(1, 64))), ok, mk("st", (("tuple", (None, None)), None, (("0", i), ("1", x)))), pc
    if k == "deref":
        a, ok, x, pc = nxt(ev, st, ev.project(v, "a"), pc, where)
        return it("deref", a=a), ok, (ev.load(st, x) if ok is not vg.FALSE else vg.BOT), pc
    if k == "map":
        a, ok, x, pc = nxt(ev, st, ev.project(v, "a"), pc, where)
        f = fnref(ev, st, ev.project(v, "f"))
        if ok is vg.FALSE:
            return it("map", a=a, f=f), ok, vg.BOT, pc
        if ok is not vg.TRUE:
            raise Unsupported("map over symbolic length")
        y, pc = ev.call_closure(f, [x], pc, st, where)
        return it("map", a=a, f=f), ok, y, pc
    if k == "user":
        p = ev.project(v, "p")
        x = ev.load(st, p)
        hit = ev.P.find_iter(x.args[0])
        o, pc = ev.run(hit[0], [p], pc, st, dict(hit[1]))
        ok = bnot(vg.eq(ev.project(o, "#d"), const(0, 64)))
        return v, ok, (ev.project(o, "Some.0") if ok is not vg.FALSE else vg.BOT), pc
    if k == "ref":
        p = ev.project(v, "p")
        x = to_iter(ev, st, ev.load(st, p)) if ev.load(st, p).args[0][0] != "adt" or ev.load(st, p).args[0][1].startswith("std::ops::Range") else None
        if x is None:
            _, ok, y, pc = nxt(ev, st, it("user", p=p), pc, where)
            return v, ok, y, pc
        x2, ok, y, pc = nxt(ev, st, x, pc, where)
        if ok is not vg.FALSE:
            ev.store(st, p, x2)
        return v, ok, y, pc
    if k == "chain":
        a, oa, xa, pc = nxt(ev, st, ev.project(v, "a"), pc, where)
        if oa is vg.TRUE:
            return ev.setkey(v, "a", a), oa, xa, pc
        if oa is not vg.FALSE:
            raise Unsupported("chain of symbolic length")
        b, ob, xb, pc = nxt(ev, st, ev.project(v, "b"), pc, where)
        return ev.setkey(v, "b", b), ob, xb, pc
    if k == "filter":
        a, f = ev.project(v, "a"), fnref(ev, st, ev.project(v, "f"))
        v = ev.setkey(v, "f", f)
        for _ in range(400):
            a, ok, x, pc = nxt(ev, st, a, pc, where)
            if ok is vg.FALSE:
                return ev.setkey(v, "a", a), ok, x, pc
            if ok is not vg.TRUE:
                break
            keep, pc = ev.call_closure(f, [ev.alloc(st, x, "T")], pc, st, where)
            if keep is vg.TRUE:
                return ev.setkey(v, "a", a), ok, x, pc
            if keep is not vg.FALSE:
                break
        raise Unsupported("filter with an unknown result")
    if k == "filtermap":
        a, f = ev.project(v, "a"), fnref(ev, st, ev.project(v, "f"))
        v = ev.setkey(v, "f", f)
        for _ in range(400):
            a, ok, x, pc = nxt(ev, st, a, pc, where)
            if ok is vg.FALSE:
                return ev.setkey(v, "a", a), ok, x, pc
            if ok is not vg.TRUE:
                break
            o, pc = ev.call_closure(f, [x], pc, st, where)
            d = ev.project(o, "#d")
            if not isc(d):
                break
            if cval(d) == 1:
                return ev.setkey(v, "a", a), ok, ev.project(o, "Some.0"), pc
        raise Unsupported("filter_map with an unknown result")
    if k == "take":
        n = ev.project(v, "n")
        a, ok, x, pc = nxt(ev, st, ev.project(v, "a"), pc, where)
        z = vg.eq(n, const(0, 64))
        return it("take", a=a, n=vg.sub(n, const(1, 64))), band(ok, bnot(z)), x, pc
    if k == "rev":
        a = ev.project(v, "a")
        n = iter_len(ev, st, a)
        ok = bnot(vg.eq(n, const(0, n.w or 64)))
        aty = a.args[0]
        if aty[0] == "adt":
            e = ev.project(a, "end")
            w = e.w or 64
            last = vg.sub(e, const(1, w))
            if aty[1] == "std::ops::RangeInclusive":
                raise Unsupported("rev inclusive")
            s = ev.project(a, "start")
            sg = aty[2] and aty[2][0] and aty[2][0][1] in SIGNED
            ok = (vg.slt if sg else vg.ult)(s, e)
            return it("rev", a=ev.setkey(a, "end", last)), ok, last, pc
        if aty[1] in ("slice", "copied"):
            p = ev.project(a, "p")
            ln = ev.slice_len(st, p)
            last = vg.sub(ln, const(1, 64))
            x = ev.elem_ptr(p, last)
            np = ev.subslice(p, const(0, 64), last)
            return it("rev", a=ev.setkey(a, "p", np)), ok, x, pc
        raise Unsupported("rev of " + str(aty))
    raise Unsupported("next of " + k)


@tm("std::iter::Iterator", "next")
def _next(ev, c):
    v = ev.load(c.st, c.args[0])
    if v.op != "st":
        raise Unsupported("next on %s" % vg.show(v))
    if v.args[0] is not None and v.args[0][0] == "adt":
        hit = ev.P.find_iter(v.args[0])
        if hit:
            return ev.run(hit[0], [c.args[0]], c.pc, c.st, dict(hit[1]))
    v2, ok, x, pc = nxt(ev, c.st, v, c.pc, c.where)
    if ok is vg.FALSE:
        return ev.none(), pc
    ev.store(c.st, c.args[0], v2)
    return ev.merge(ok, ev.some(x), ev.none()) if ok is not vg.TRUE else ev.some(x), pc


def drain(ev, c, v):
    out = []
    pc = c.pc
    for _ in range(400):
        v, ok, x, pc = nxt(ev, c.st, v, pc, c.where)
        if ok is vg.FALSE:
            return out, pc
        if ok is not vg.TRUE:
            raise Unsupported("iterator of symbolic length at %s" % c.where)
        out.append(x)
    raise Unsupported("iterator too long")


def walk(ev, c, v, step, last):
    """the elements of an iterator one by one until step says stop; the values of all exits merged.
    step(x, pc) -> (stop condition, value when stopped, pc); last() the value when the elements end"""
    home = None
    if v.op == "ptr":
        home, v = v, ev.load(c.st, v)
    v = to_iter(ev, c.st, v)
    exits = []
    pc = c.pc
    for _ in range(400):
        v, ok, x, pc = nxt(ev, c.st, v, pc, c.where)
        if ok is vg.FALSE:
            exits.append((pc, dict(c.st), last(), v))
            break
        if ok is not vg.TRUE:
            raise Unsupported("iterator of symbolic length at %s" % c.where)
        brk, val, pc = step(x, pc)
        if brk is not vg.FALSE:
            exits.append((band(pc, brk), dict(c.st), val, v))
            pc = band(pc, bnot(brk))
            if pc is vg.FALSE:
                break
    else:
        raise Unsupported("iterator too long")
    exits = [e for e in exits if e[0] is not vg.FALSE] or exits[-1:]
    pc, st = ev.join([(p, s) for p, s, _, _ in exits])
    c.st.clear()
    c.st.update(st)
    r, it = exits[-1][2], exits[-1][3]
    for p, _, val, i in reversed(exits[:-1]):
        r = ev.merge(p, val, r)
        if home is not None:
            it = ev.merge(p, i, it)
    if home is not None:
        ev.store(c.st, home, it)
    return r, pc


def is_err(ev, x):
    d = ev.project(x, "#d")
    return bnot(vg.eq(d, const(0, d.w)))


@tm("std::iter::Iterator", "find", "find_map", "try_for_each", "try_fold")
def _search(ev, c):
    n = c.name
    f = fnref(ev, c.st, c.args[-1])
    acc = [c.args[1]] if n == "try_fold" else None

    def step(x, pc):
        if n == "find":
            root = ev.alloc(c.st, x)
            b, pc = ev.call_closure(f, [root], pc, c.st, c.where)
            return b, ev.some(x), pc
        if n == "find_map":
            r, pc = ev.call_closure(f, [x], pc, c.st, c.where)
            d = ev.project(r, "#d")
            return vg.eq(d, const(1, d.w)), r, pc
        r, pc = ev.call_closure(f, [x] if acc is None else [acc[0], x], pc, c.st, c.where)
        if not (r.ty and r.ty[0] == "adt" and r.ty[1] == "std::result::Result") and not result_like(r):
            raise Unsupported("%s over something else than Result" % n)
        if acc is not None:
            acc[0] = ev.project(r, "Ok.0")
        return is_err(ev, r), r, pc

    def last():
        if n in ("find", "find_map"):
            return ev.none()
        return ev.ok(vg.UNIT if acc is None else acc[0])
    return walk(ev, c, c.args[0], step, last)


def result_like(r):
    if r.op == "nd":
        return all(result_like(l) for l in vg.leafset(r) if l.op != "bot")
    return r.op == "st" and r.args[0] and r.args[0][0] == "adt" and r.args[0][1] == "std::result::Result"


@tm("std::iter::Iterator", "collect")
def _collect(ev, c):
    t = c.targs[1] if len(c.targs) > 1 else None
    if t is not None and t[0] == "adt" and t[1] == "std::result::Result":
        xs = []

        def step(x, pc):
            e = is_err(ev, x)
            xs.append(ev.project(x, "Ok.0"))
            return e, x, pc
        return walk(ev, c, c.args[0], step, lambda: ev.ok(collect_into(ev, xs, t[2][0])))
    xs, pc = drain(ev, c, to_iter(ev, c.st, c.args[0]))
    return collect_into(ev, xs, t), pc


def collect_into(ev, xs, t):
    if t is not None and t[0] == "adt" and t[1] == "std::result::Result":
        ys = []
        for x in xs:
            d = ev.project(x, "#d")
            if not isc(d):
                raise Unsupported("collect of unknown results")
            if cval(d) == 1:
                return x
            ys.append(ev.project(x, "Ok.0"))
        return ev.ok(collect_into(ev, ys, t[2][0]))
    if t is not None and t == ("tuple", ()):
        return vg.UNIT
    if t is not None and not (t[0] == "adt" and t[1] == "std::vec::Vec"):
        raise Unsupported("collect into %s" % ev.P.tstr(t))
    return ev.vec(ev.array(xs), const(len(xs), 64), t[2][0] if t else None)


@tm("std::iter::Iterator", "sum", "for_each", "max", "min", "fold", "any", "all", "position", "count", "last")
def _consume(ev, c):
    n = c.name
    v = c.args[0]
    if v.op == "ptr":
        v = ev.load(c.st, v)
    v = to_iter(ev, c.st, v)
    fns = [fnref(ev, c.st, a) for a in c.args]
    if n == "for_each":
        pc = c.pc
        for _ in range(400):
            v, ok, x, pc = nxt(ev, c.st, v, pc, c.where)
            if ok is vg.FALSE:
                return vg.UNIT, pc
            if ok is not vg.TRUE:
                raise Unsupported("for_each of symbolic length")
            _, pc = ev.call_closure(fns[1], [x], pc, c.st, c.where)
    xs, pc = drain(ev, c, v)
    if n == "sum":
        w = width(c.targs[1]) if len(c.targs) > 1 else width(c.dty)
        r = const(0, w)
        for x in xs:
            if x.op == "ptr":
                x = ev.load(c.st, x)
            r = vg.add(r, x)
        return r, pc
    if n == "count":
        return const(len(xs), 64), pc
    if n in ("max", "min"):
        if not xs:
            return ev.none(), pc
        ys = [deref(ev, c.st, x) for x in xs]
        r, best = xs[0], ys[0]
        t = best.ty
        sg = bool(t and t[0] == "prim" and t[1].startswith("i"))
        for x, y in zip(xs[1:], ys[1:]):
            lt = vg.slt(best, y) if sg else vg.ult(best, y)
            if n == "min":
                lt = vg.bnot(lt)
            if isc(lt):
                r, best = (x, y) if lt is vg.TRUE else (r, best)
            elif x.op == "ptr":
                return NotImplemented
            else:
                r = best = vg.ite(lt, y, best)
        return ev.some(r), pc
    if n == "last":
        return (ev.some(xs[-1]) if xs else ev.none()), pc
    if n == "position":
        for i, x in enumerate(xs):
            b, pc = ev.call_closure(fns[1], [x], pc, c.st, c.where)
            if b is vg.TRUE:
                return ev.some(const(i, 64)), pc
            if b is not vg.FALSE:
                return NotImplemented
        return ev.none(), pc
    if n == "fold":
        acc = c.args[1]
        for x in xs:
            acc, pc = ev.call_closure(fns[2], [acc, x], pc, c.st, c.where)
        return acc, pc
    if n in ("any", "all"):
        r = vg.FALSE if n == "any" else vg.TRUE
        for x in xs:
            b, pc = ev.call_closure(fns[1], [x], pc, c.st, c.where)
            r = bor(r, b) if n == "any" else band(r, b)
        return r, pc
    return NotImplemented


@m("std::ops::Range::<Idx>::contains", "std::ops::RangeInclusive::<Idx>::contains", "std::ops::RangeFrom::<Idx>::contains", "std::ops::RangeTo::<Idx>::contains",
   "std::ops::RangeToInclusive::<Idx>::contains", "std::ops::RangeBounds::contains")
def _contains(ev, c):
    r, x = deref(ev, c.st, c.args[0]), deref(ev, c.st, c.args[1])
    if r.op != "st" or x.w is None:
        return NotImplemented
    t = r.args[0]
    et = t[2][0] if t[2] else None
    keys = {k for k, _ in r.args[2]}
    lt = vg.slt if et and et[0] == "prim" and et[1] in SIGNED else vg.ult
    ok = vg.TRUE
    if "start" in keys:
        ok = band(ok, bnot(lt(x, ev.project(r, "start"))))
    if "end" in keys:
        e = ev.project(r, "end")
        ok = band(ok, bnot(lt(e, x)) if "Inclusive" in t[1] else lt(x, e))
    return ok


@m("std::ops::RangeInclusive::<Idx>::new")
def _ri(ev, c):
    return mk("st", (("adt", "std::ops::RangeInclusive", (c.targs[0],)), None, (("end", c.args[1]), ("start", c.args[0]))))


@tm("std::ops::FnOnce", "call_once")
@tm("std::ops::FnMut", "call_mut")
@tm("std::ops::Fn", "call")
def _callfn(ev, c):
    args = c.args[1]
    vals = []
    for i in range(20):
        x = None
        if args.op == "st":
            for k, y in args.args[2]:
                if k == str(i):
                    x = y
        if x is None:
            break
        vals.append(x)
    return ev.call_closure(c.args[0], vals, c.pc, c.st, c.where)


# ------------------------------------------------------------------ misc

@m("std::io::Cursor::<T>::new")
def _cursor(ev, c):
    return mk("st", (("adt", "std::io::Cursor", (c.targs[0],)), None, (("inner", c.args[0]), ("pos", const(0, 64)))))


@m("std::io::Cursor::<T>::get_ref", "std::io::Cursor::<T>::get_mut")
def _cget(ev, c):
    return ev.field_ptr(c.args[0], "inner")


@m("std::io::Cursor::<T>::into_inner")
def _cinto(ev, c):
    return ev.project(c.args[0], "inner")


@m("std::io::Cursor::<T>::set_position")
def _cset(ev, c):
    ev.store(c.st, ev.field_ptr(c.args[0], "pos"), c.args[1])
    return vg.UNIT


@m("std::io::Cursor::<T>::position")
def _cpos(ev, c):
    return ev.load(c.st, ev.field_ptr(c.args[0], "pos"))


@pat(r"(alloc|std)::io::(error::<impl std::io::Error>::new|Error::new|Error::other|Error::last_os_error)$")
@pat(r"<(alloc|std)::io::Error as std::convert::From<(.*)>>::from$")
@pat(r"std::io::error::<impl std::convert::From<(.*)> for (std::io::Error)>::from$")
def _ioerr(ev, c, mm):
    return mk("op", ("io_error", c.where), None)


@pat(r"std::fmt::|core::fmt::|alloc::fmt::|std::string::|alloc::string::")
def _fmt(ev, c, mm):
    return mk("op", ("fmt", c.where), None)


@m("num_traits::Zero::zero")
def _zero(ev, c):
    return const(0, width(c.targs[0]))


@pat(r"std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(cast_mut|cast_const|cast)$")
def _pcast(ev, c, mm):
    return c.args[0]


@pat(r"std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(read|write|replace)$")
@pat(r"std::ptr::(xxx)?(xxx)?(read|write|replace)$")
def _pread(ev, c, mm):
    old = ev.load(c.st, c.args[0]) if mm.group(3) != "write" else None
    if mm.group(3) != "read":
        ev.store(c.st, c.args[0], c.args[1])
    return vg.UNIT if old is None else old


@m("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr", "std::vec::Vec::<T, A>::as_ptr", "std::vec::Vec::<T, A>::as_mut_ptr")
def _asptr(ev, c):
    return ev.elem_ptr(as_slice(ev, c.st, c.args[0]), const(0, 64))


@m("core::slice::<impl [T]>::as_ptr_range", "core::slice::<impl [T]>::as_mut_ptr_range")
def _ptrrange(ev, c):
    s = as_slice(ev, c.st, c.args[0])
    a = ev.elem_ptr(s, const(0, 64))
    b = ev.elem_ptr(s, ev.slice_len(c.st, s))
    return mk("st", (("adt", "std::ops::Range", (None,)), None, (("end", b), ("start", a))))


@pat(r"std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(wrapping_)?(add|sub)$")
def _padd(ev, c, mm):
    from ev import ptr_add
    n = c.args[1]
    return ptr_add(ev, c.args[0], n if mm.group(4) == "add" else vg.neg(n))


@m("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "core::slice::from_raw_parts", "core::slice::from_raw_parts_mut")
def _rawparts(ev, c):
    from ev import ptr_parts

    def f(q):
        x = ptr_parts(q)
        if x is None:
            raise Unsupported("slice of pointer %s" % vg.show(q))
        return mk("ptr", (q.args[0], q.args[1][:-1], x[1], c.args[1]))
    return ev.lift1("rawparts", f, c.args[0])


@tm("std::ops::BitAnd", "bitand")
@tm("std::ops::BitOr", "bitor")
@tm("std::ops::BitXor", "bitxor")
def _bits(ev, c):
    a, b = c.args
    if a.op == "ptr":
        a = ev.load(c.st, a)
    if b.op == "ptr":
        b = ev.load(c.st, b)
    return vg.bitop({"bitand": "and", "bitor": "or", "bitxor": "xor"}[c.name], a, b)


@tm("std::ops::Add", "add")
@tm("std::ops::Sub", "sub")
def _addref(ev, c):
    a, b = c.args
    if a.op == "ptr":
        a = ev.load(c.st, a)
    if b.op == "ptr":
        b = ev.load(c.st, b)
    return vg.add(a, b) if c.name == "add" else vg.sub(a, b)
