"""C09: raw points are unpacked from and packed into the documented LAS byte layout, and the accessors read and change exactly their field."""
import re
import vg
from vg import mk, const, isc, cval, Unsupported
from codec import ptr, provable_eq
from rawio import writer, split, le

LEVEL = "other"
PK = "packers::Packable"
SIZES = {"las::gps::GpsTime": 8, "las::rgb::RGB": 6, "las::point0::Point0": 20, "las::point6::Point6": 30, "las::wavepacket::LasWavepacket": 29, "las::nir::Nir": 2}
PRIM = {"u64": 8, "i64": 8, "f64": 8, "u32": 4, "i32": 4, "f32": 4, "u16": 2, "i16": 2, "u8": 1, "i8": 1}
# accessor -> (bit offset, bits) in the documented layout
P0 = {"x": (0, 32), "y": (32, 32), "z": (64, 32), "intensity": (96, 16), "bit_fields": (112, 8), "return_number": (112, 3), "number_of_returns_of_given_pulse": (115, 3),
      "scan_direction_flag": (118, 1), "edge_of_flight_line": (119, 1), "classification": (120, 8), "scan_angle_rank": (128, 8), "user_data": (136, 8), "point_source_id": (144, 16)}
P6 = {"x": (0, 32), "y": (32, 32), "z": (64, 32), "intensity": (96, 16), "bit_fields": (112, 8), "return_number": (112, 4), "number_of_returns_of_given_pulse": (116, 4),
      "flags": (120, 8), "classification_flags": (120, 4), "scanner_channel": (124, 2), "scan_direction_flag": (126, 1), "edge_of_flight_line": (127, 1),
      "classification": (128, 8), "user_data": (136, 8), "scan_angle_rank": (144, 16), "point_source_id": (160, 16), "gps_time": (176, 64)}
TR = {"las::point0::LasPoint0": ("las::point0::Point0", P0), "las::point6::LasPoint6": ("las::point6::Point6", P6),
      "las::rgb::LasRGB": ("las::rgb::RGB", {"red": (0, 16), "green": (16, 16), "blue": (32, 16)}),
      "las::gps::LasGpsTime": ("las::gps::GpsTime", {"gps_time": (0, 64)}), "las::nir::LasNIR": ("las::nir::Nir", {"nir": (0, 16)})}
SETS = {"set_number_of_returns": "number_of_returns_of_given_pulse"}


def call(P, C, trait, name, ty, args, st, pc=vg.TRUE):
    h = P.find_impl(trait, name, ty)
    if h is None:
        raise Unsupported("no %s of %s" % (name, P.tstr(ty)))
    return C.run(h[0], args, pc, st, dict(h[1]))


def as_bits(v, w):
    """value as a term of w bits"""
    if v.w == w:
        return v
    return vg.bslice(v, 0, w) if v.w > w else vg._zext(v, w)


def bit(v, k):
    """bit k of a value, as a bool"""
    b = vg.bslice(v, k - k % 8, 8)
    return vg.bnot(vg.eq(vg.bitop("and", b, const(1 << k % 8, 8)), const(0, 8)))


def methods(P, trait):
    """method names of a trait, from its impls"""
    out = []
    for im in P.impls:
        if im.get("trait") == trait:
            out += [n for n, _ in im["items"] if n not in out]
    return sorted(out)


def implements(P, trait, ty):
    """the impl of a trait for a type, blanket impls only when their bounds hold"""
    for im in P.impls:
        if im.get("trait") == trait and P.unify(P.rty(im["self"]), ty, {}):
            if P.rty(im["self"])[0] != "param" or all(any(q.get("trait") == t and P.rty(q["self"]) == ty for q in P.impls) for t in bounds(P, im)):
                return True
    return False


def bounds(P, im):
    return [t for p in im["preds"] for t in re.findall(r"TraitClause\(<T as ([\w:]+)>", p) if not t.startswith("std::")]


def branches(C):
    """panics that can happen (assertions and bounds; not arithmetic overflow of the models)"""
    return [x for x in C.panics if x[0] is not vg.FALSE and not x[1].startswith("overflow")]


def inp(n, extra=0):
    return [mk("sym", ("b%d" % i,), 8) for i in range(n + extra)]


def run(ctx):
    P = ctx.prog()
    tys = []
    for im in P.impls:
        if im.get("trait") == PK:
            ty = P.rty(im["self"])
            n = SIZES.get(ty[1]) if ty[0] == "adt" else PRIM.get(ty[1])
            if n is not None:
                tys.append((ty, n))
    ctx.floor("packable types", len(tys), 12)
    for ty, n in tys:
        lab = P.tstr(ty)
        for un, pa in (("unpack_from", "pack_into"), ("unpack_from_unchecked", "pack_into_unchecked")):
            C = writer(P)
            C.panics = []
            bs = inp(n, 3)
            U8 = ("prim", "u8")
            st = {("I",): C.array(bs, U8)}
            v, pc = call(P, C, PK, un, ty, [ptr(("I",), n + 3)], st)
            ctx.check(pc is vg.TRUE and not branches(C), "unpack", "accepts:%s:%s" % (lab, un), "%s of a long enough slice may panic" % un)
            out = [mk("sym", ("o%d" % i,), 8) for i in range(n + 3)]
            st[("V",)] = v
            st[("O",)] = C.array(out, U8)
            _, pc = call(P, C, PK, pa, ty, [ptr(("V",)), ptr(("O",), n + 3)], st)
            ctx.check(pc is vg.TRUE and not branches(C), "pack", "accepts:%s:%s" % (lab, pa), "%s into a long enough slice may panic" % pa)
            arr = st[("O",)]
            for i in range(n + 3):
                got = C.index(arr, const(i, 64))
                want = bs[i] if i < n else out[i]
                ctx.check(provable_eq(got, want, vg.TRUE), "lossless", "byte:%s:%s:%d" % (lab, pa, i), "byte %d of a %s packed again is %s" % (i, lab, vg.show(got, 5)[:200]))
            if ty[0] != "adt" and ty[1] != "f32":
                ctx.check(provable_eq(as_bits(v, 8 * n), le(bs[:n]), vg.TRUE), "value", "le:%s:%s" % (lab, un), "%s of %s bytes gives %s" % (un, lab, vg.show(v, 4)))
        # too short a slice is refused
        for un in ("unpack_from", "pack_into"):
            C = writer(P)
            C.panics = []
            st = {("I",): C.array(inp(n - 1), ("prim", "u8")), ("V",): v}
            args = [ptr(("I",), n - 1)] if un == "unpack_from" else [ptr(("V",)), ptr(("I",), n - 1)]
            _, pc = call(P, C, PK, un, ty, args, st)
            ctx.check(any(x[0] is vg.TRUE for x in C.panics), "short slices", "short:%s:%s" % (lab, un), "%s of a %s accepts a slice of %d bytes" % (un, lab, n - 1))
    nacc = 0
    for tr, (base, lay) in TR.items():
        n = SIZES[base]
        bty = ("adt", base, ())
        packable = any(t == bty for t, _ in tys)
        names = methods(P, tr)
        for nm in names:
            if nm.startswith("set_"):
                f = SETS.get(nm, nm[4:])
            else:
                f = nm
            if f not in lay:
                ctx.viol("unknown accessor:%s::%s" % (tr, nm), "no documented field for accessor %s" % nm)
                continue
            if not packable:
                continue
            off, w = lay[f]
            C = writer(P)
            bs = inp(n)
            full = vg.mkcat([p for b in bs for p in vg.pieces(b)])
            U8 = ("prim", "u8")
            st = {("I",): C.array(bs, U8)}
            v, _ = call(P, C, PK, "unpack_from", bty, [ptr(("I",), n)], st)
            st[("V",)] = v
            nacc += 1
            if not nm.startswith("set_"):
                r, pc = call(P, C, tr, nm, bty, [ptr(("V",))], st)
                got = r
                want = bit(full, off) if r.w == 1 else as_bits(vg.bslice(full, off, w), r.w)
                ctx.check(pc is vg.TRUE and provable_eq(got, want, vg.TRUE), "getter", "get:%s::%s" % (base, nm), "%s reads %s" % (nm, vg.show(got, 5)[:200]))
            else:
                h = P.find_impl(tr, nm, bty)
                from prog import width
                pty = P.rty(P.bodies[h[0]]["locals"][2], h[1])
                pw = width(pty)
                x = mk("sym", ("new",), pw)
                r, pc = C.run(h[0], [ptr(("V",)), x], vg.TRUE, st, dict(h[1]))
                out = [mk("sym", ("o%d" % i,), 8) for i in range(n)]
                st[("O",)] = C.array(out, U8)
                call(P, C, PK, "pack_into", bty, [ptr(("V",)), ptr(("O",), n)], st)
                want = vg.mkcat([p for q in ([vg.bslice(full, 0, off)] if off else []) + [vg.bslice(x, 0, w)] + ([vg.bslice(full, off + w, 8 * n - off - w)] if off + w < 8 * n else []) for p in vg.pieces(q)])
                ok = True
                for i in range(n):
                    if not provable_eq(C.index(st[("O",)], const(i, 64)), vg.bslice(want, 8 * i, 8), vg.TRUE):
                        ok = False
                        bad = i
                ctx.check(ok and pc is vg.TRUE, "setter", "set:%s::%s" % (base, nm), "%s does not change exactly its field (byte %s)" % (nm, "" if ok else bad))
    ctx.floor("accessors of packable types", nacc, 45)
    wrappers(ctx, P)
    ctx.explanation = ("Every unpack/pack pair is evaluated on arbitrary bytes: the packed bytes must equal the unpacked ones, nothing beyond the record is touched and too short slices are refused; each getter must return the documented "
                       "bits of those bytes and each setter change exactly those bits. For the combined point types each setter must be read back by its getter and leave every other getter unchanged.")


def wrappers(ctx, P):
    """point types made of parts: getters see what setters set, and nothing else changes"""
    from prog import width
    n = 0
    for k in range(11):
        ty = None
        for path in P.adts:
            if path.rsplit("::", 1)[-1] == "Point%d" % k:
                ty = ("adt", path, ())
        if ty is None:
            ctx.viol("no point type:%d" % k, "no type for point format %d" % k)
            continue
        acc = []
        for tr, (base, lay) in TR.items():
            if not implements(P, tr, ty):
                continue
            for nm in methods(P, tr):
                h = P.find_impl(tr, nm, ty)
                if h:
                    acc.append((tr, nm, h, lay))
        if not acc:
            continue
        gets = [a for a in acc if not a[1].startswith("set_")]
        for tr, nm, h, lay in acc:
            if not nm.startswith("set_"):
                continue
            f = SETS.get(nm, nm[4:])
            off, w = lay[f]
            n += 1
            C = writer(P)
            v0 = C.symbolise(vg.BOT, ty)
            C2 = C
            st = {("V",): v0}
            before = {}
            for g in gets:
                before[g[:2]] = C.run(g[2][0], [ptr(("V",))], vg.TRUE, dict(st), dict(g[2][1]))[0]
            pw = width(P.rty(P.bodies[h[0]]["locals"][2], h[1]))
            x = mk("sym", ("new",), pw)
            C.run(h[0], [ptr(("V",)), x], vg.TRUE, st, dict(h[1]))
            for g in gets:
                a = C.run(g[2][0], [ptr(("V",))], vg.TRUE, dict(st), dict(g[2][1]))[0]
                goff, gw = g[3][g[1]]
                if g[0] == tr and goff >= off and goff + gw <= off + w:
                    want = bit(x, goff - off) if a.w == 1 else as_bits(vg.bslice(x, goff - off, gw), a.w)
                    ctx.check(provable_eq(a, want, vg.TRUE), "combined", "readback:%s:%s:%s" % (P.tstr(ty), nm, g[1]), "%s of %s after %s gives %s" % (g[1], P.tstr(ty), nm, vg.show(a, 4)[:200]))
                elif g[0] == tr and not (goff + gw <= off or off + w <= goff):
                    continue
                elif g[1] == "gps_time" and nm == "set_gps_time":
                    continue
                else:
                    ctx.check(provable_eq(a, before[g[:2]], vg.TRUE), "combined", "kept:%s:%s:%s" % (P.tstr(ty), nm, g[1]), "%s of %s changes with %s" % (g[1], P.tstr(ty), nm))
    ctx.floor("setters of combined types", n, 100)
