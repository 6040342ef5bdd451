"""Evaluation of plain serialisers and parsers: bytes written, and a parser run on given bytes."""
import vg
from vg import mk, const, isc, cval, Unsupported
from codec import Side, comp_hooks, decomp_hooks, ptr, refuted, provable_eq


def inherent(P, name, ty):
    """inherent method `name` of type `ty`"""
    for b in P.bodies.values():
        if b.get("impl_self") is not None and b.get("impl_trait") is None and b["name"] == name and P.unify(P.rty(b["impl_self"]), ty, {}):
            return b["id"]
    raise Unsupported("no %s of %s" % (name, P.tstr(ty)))


def genv(P, bid, **kw):
    env = {}
    for g in P.bodies[bid]["generics"]:
        env[g] = kw.get(g, ("param", g))
    return env


class Feed:
    """bytes a parser reads"""

    def __init__(self, bs):
        self.raw = [("in", vg.TRUE, b, "", None, None) for b in bs]


def writer(P, **kw):
    C = Side(P, "C", hooks=comp_hooks(), **kw)
    C.prune = refuted
    return C


def reader(P, bs, **kw):
    D = Side(P, "D", hooks=decomp_hooks(), **kw)
    D.prune = refuted
    D.peer = Feed(bs)
    return D


def symbytes(n, name="b"):
    return [mk("sym", ("%s%d" % (name, i),), 8) for i in range(n)]


def le(bs):
    """little-endian value of bytes"""
    return vg.mkcat([p for b in bs for p in vg.pieces(b)])


def written(C):
    """[(pc, byte, where)] written so far"""
    return [(pc, v, w) for s, pc, v, w, _, _ in C.raw]


def split(t, n=None):
    """little-endian bytes of a value"""
    return [vg.bslice(t, 8 * i, 8) for i in range((n or t.w) // 8)]
