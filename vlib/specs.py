"""Hypothesis strategies for composite element specifications."""
from hypothesis import strategies as st

from vlib.catalogue import L
from vlib import model as M


def I_leaf(maxdeg=3):
    d = st.integers(1, maxdeg)
    d0 = st.integers(0, maxdeg)
    return st.one_of(
        d.map(lambda k: L("Lagrange", "I", k)),
        d0.map(lambda k: L("DiscontinuousLagrange", "I", k)),
        d.map(lambda k: L("GaussLobattoLegendre", "I", k)),
        d0.map(lambda k: L("GaussLegendre", "I", k)),
        d0.map(lambda k: L("Legendre", "I", k)),
        d.map(lambda k: L("IntegratedLegendre", "I", k)),
        d.map(lambda k: L("Bernstein", "I", k)),
        st.integers(2, max(2, maxdeg)).map(lambda k: L("Bubble", "I", k)),
        d.map(lambda k: L("FDMLagrange", "I", k)),
        d.map(lambda k: L("FDMBrokenH1", "I", k)),
        st.integers(1, 2).map(lambda k: L("Lagrange", "I", k, variant="iso(2)")),
    )


def I_cont(maxdeg=3):
    d = st.integers(1, maxdeg)
    return st.one_of(d.map(lambda k: L("Lagrange", "I", k)),
                     d.map(lambda k: L("GaussLobattoLegendre", "I", k)),
                     d.map(lambda k: L("IntegratedLegendre", "I", k)),
                     d.map(lambda k: L("FDMLagrange", "I", k)))


def I_disc(maxdeg=3):
    d0 = st.integers(0, maxdeg)
    return st.one_of(d0.map(lambda k: L("DiscontinuousLagrange", "I", k)),
                     d0.map(lambda k: L("GaussLegendre", "I", k)),
                     d0.map(lambda k: L("Legendre", "I", k)))


def T_scalar(maxdeg=2):
    d = st.integers(1, maxdeg)
    d0 = st.integers(0, maxdeg)
    return st.one_of(
        d.map(lambda k: L("Lagrange", "T", k)),
        d0.map(lambda k: L("DiscontinuousLagrange", "T", k)),
        st.just(L("CrouzeixRaviart", "T", 1)),
        st.just(L("Bubble", "T", 3)),
        d.map(lambda k: L("Bernstein", "T", k)),
        st.just(L("KongMulderVeldhuizen", "T", 2)),
        d0.map(lambda k: L("Legendre", "T", k)),
    )


def T_vector(maxdeg=2):
    d = st.integers(1, maxdeg)
    return st.one_of(*[d.map(lambda k, n=n: L(n, "T", k)) for n in
                       ("RaviartThomas", "Nedelec", "BrezziDouglasMarini", "NedelecSecondKind")])


def T_tensor():
    return st.one_of(st.integers(0, 1).map(lambda k: L("Regge", "T", k)),
                     st.integers(0, 1).map(lambda k: L("HellanHerrmannJohnson", "T", k)))


def K_scalar():
    return st.one_of(st.integers(1, 2).map(lambda k: L("Lagrange", "K", k)),
                     st.integers(0, 1).map(lambda k: L("DiscontinuousLagrange", "K", k)))


def K_vector():
    return st.one_of(*[st.just(L(n, "K", 1)) for n in ("RaviartThomas", "Nedelec", "BrezziDouglasMarini")])


def tpe(*fs):
    return st.tuples(*fs).map(lambda t: {"el": "TPE", "factors": list(t)})


def flat_q(maxdeg=2):
    """Flattened tensor products on Q; both factors share a degree."""
    def mk(k):
        a = st.sampled_from([L("Lagrange", "I", k), L("GaussLobattoLegendre", "I", k), L("DiscontinuousLagrange", "I", k),
                             L("GaussLegendre", "I", k), L("IntegratedLegendre", "I", k)])
        return tpe(a, a)
    return st.integers(1, maxdeg).flatmap(mk).map(lambda t: {"el": "Flat", "of": t})


def flat_h():
    def mk(k):
        a = st.sampled_from([L("Lagrange", "I", k), L("DiscontinuousLagrange", "I", k), L("GaussLobattoLegendre", "I", k)])
        return tpe(a, a, a)
    return st.integers(1, 2).flatmap(mk).map(lambda t: {"el": "Flat", "of": t})


def flat_h2():
    """Hexahedron as (flattened quad) x interval is nested in degree, so the
    flattening is of the three-factor product; this one keeps QxI."""
    return tpe(flat_q(), I_leaf(2))


def cont(maxdeg=3):
    """Continuous functions on the interval, also as sums."""
    b = I_cont(maxdeg)
    nodal = {"el": "Enriched", "of": [L("Lagrange", "I", 1), L("Bubble", "I", 2)]}
    return st.one_of(b, b, st.sampled_from([nodal, {"el": "Enriched", "of": [L("Bubble", "I", 2), L("GaussLobattoLegendre", "I", 1)]}]))


def dsc(maxdeg=3):
    """Discontinuous functions on the interval, also broken ones and sums."""
    b = I_disc(maxdeg)
    return st.one_of(b, b, I_cont(maxdeg).map(lambda s: {"el": "Disc", "of": s}),
                     b.map(lambda s: {"el": "Enriched", "of": [s, {"el": "Disc", "of": L("Lagrange", "I", 1)}]}))


def hdiv_tpe(cn):
    """TPE with an (n-1)-form, wrapped in HDiv."""
    if cn == "IxI":
        b = st.one_of(tpe(cont(), dsc()), tpe(dsc(), cont()))
    elif cn == "TxI":
        b = st.one_of(tpe(st.integers(0, 1).map(lambda k: L("DiscontinuousLagrange", "T", k)), cont(2)),
                      tpe(T_vector(2), dsc(2)))
    elif cn == "QxI":
        dgq = st.integers(0, 1).map(lambda k: {"el": "Flat", "of": {"el": "TPE", "factors": [L("DiscontinuousLagrange", "I", k)] * 2}})
        b = st.one_of(tpe(dgq, cont(2)), tpe(quad_vec(), dsc(2)),
                      tpe(st.sampled_from([L("BrezziDouglasMariniCubeFace", "Q", 1), L("BrezziDouglasMariniCubeEdge", "Q", 1)]), dsc(1)))
    return b.map(lambda t: {"el": "HDiv", "of": t})


def hcurl_tpe(cn):
    if cn == "IxI":
        b = st.one_of(tpe(cont(), dsc()), tpe(dsc(), cont()))
    elif cn == "TxI":
        b = st.one_of(tpe(st.integers(1, 2).map(lambda k: L("Lagrange", "T", k)), dsc(2)),
                      tpe(T_vector(2), cont(2)))
    elif cn == "QxI":
        cgq = st.integers(1, 2).map(lambda k: {"el": "Flat", "of": {"el": "TPE", "factors": [L("Lagrange", "I", k)] * 2}})
        b = st.one_of(tpe(cgq, dsc(2)), tpe(quad_vec(), cont(2)))
    return b.map(lambda t: {"el": "HCurl", "of": t})


def quad_vec():
    """RTCF / RTCE on the flattened quadrilateral."""
    def mk(t):
        k, w = t
        a = {"el": "TPE", "factors": [L("Lagrange", "I", k), L("DiscontinuousLagrange", "I", k - 1)]}
        b = {"el": "TPE", "factors": [L("DiscontinuousLagrange", "I", k - 1), L("Lagrange", "I", k)]}
        return {"el": "Flat", "of": {"el": "Enriched", "of": [{"el": w, "of": a}, {"el": w, "of": b}]}}
    return st.tuples(st.integers(1, 2), st.sampled_from(["HDiv", "HCurl"])).map(mk)


def enriched_quad_vec_plain(w):
    """Unflattened Enriched(HDiv, HDiv) on IxI."""
    def mk(k):
        a = {"el": "TPE", "factors": [L("Lagrange", "I", k), L("DiscontinuousLagrange", "I", k - 1)]}
        b = {"el": "TPE", "factors": [L("DiscontinuousLagrange", "I", k - 1), L("Lagrange", "I", k)]}
        return {"el": "Enriched", "of": [{"el": w, "of": a}, {"el": w, "of": b}]}
    return st.integers(1, 3).map(mk)


def scalar(cn):
    if cn == "I":
        return I_leaf()
    if cn == "T":
        return T_scalar()
    if cn == "K":
        return K_scalar()
    if cn == "Q":
        return st.one_of(flat_q(), st.integers(1, 3).map(lambda k: L("Serendipity", "Q", k)),
                         st.integers(0, 2).map(lambda k: L("DPC", "Q", k)))
    if cn == "H":
        return st.one_of(flat_h(), st.integers(0, 1).map(lambda k: L("DPC", "H", k)), st.just(L("Serendipity", "H", 1)))
    if cn == "IxI":
        return tpe(I_leaf(), I_leaf())
    if cn == "IxIxI":
        return tpe(I_leaf(2), I_leaf(2), I_leaf(2))
    if cn == "TxI":
        return tpe(T_scalar(), I_leaf(2))
    if cn == "QxI":
        return tpe(flat_q(), I_leaf(2))
    if cn == "IxT":
        return tpe(I_leaf(2), T_scalar())
    if cn == "KxI":
        return tpe(K_scalar(), I_leaf(2))
    if cn == "IxK":
        return tpe(I_leaf(2), K_scalar())
    if cn == "TxT":
        return tpe(T_scalar(2), T_scalar(1))
    if cn == "TxIxI":
        return tpe(T_scalar(1), I_leaf(2), I_leaf(1))
    if cn == "IxIxIxI":
        return tpe(I_leaf(2), I_leaf(1), I_leaf(1), I_leaf(1))
    if cn == "QxQ":
        return tpe(flat_q(1), flat_q(2))
    if cn == "HxI":
        return tpe(flat_h(), I_leaf(2))
    raise KeyError(cn)


def vector(cn):
    if cn == "I":
        return st.integers(1, 2).map(lambda k: L("RaviartThomas", "I", k))
    if cn == "T":
        return T_vector()
    if cn == "K":
        return K_vector()
    if cn == "Q":
        return st.one_of(quad_vec(), st.sampled_from([L("BrezziDouglasMariniCubeFace", "Q", 1), L("TrimmedSerendipityEdge", "Q", 1)]))
    if cn == "IxI":
        return st.one_of(hdiv_tpe(cn), hcurl_tpe(cn), enriched_quad_vec_plain("HDiv"), enriched_quad_vec_plain("HCurl"))
    if cn == "TxI":
        return st.one_of(hdiv_tpe(cn), hcurl_tpe(cn), tpe(T_vector(1), I_leaf(2)))
    if cn == "QxI":
        return st.one_of(hdiv_tpe(cn), hcurl_tpe(cn), tpe(quad_vec(), I_leaf(1)))
    if cn == "IxT":
        return tpe(I_leaf(2), st.one_of(T_vector(1), T_tensor()))
    if cn == "KxI":
        return tpe(K_vector(), I_leaf(1))
    if cn == "IxK":
        return tpe(I_leaf(2), K_vector())
    if cn == "TxT":
        return tpe(T_scalar(1), T_vector(1))
    return None


def base(cn):
    opts = [scalar(cn)]
    v = vector(cn)
    if v is not None:
        opts.append(v)
    if cn == "T":
        opts.append(T_tensor())
    return st.one_of(*opts)


CELLS = ["I", "T", "K", "Q", "H", "IxI", "IxIxI", "TxI", "QxI"]
# products of more than three dimensions
FOUR = ["KxI", "IxK", "TxT", "TxIxI", "IxIxIxI", "QxQ", "HxI"]
# cells (and a copy number) with composites of physically mapped elements
MAPPED = [("I", 0), ("T", 0), ("T", 1), ("T", 2), ("K", 0), ("Q", 0)]
SMALL = ["I", "T", "Q", "IxI", "TxI"]


def vec_of(b):
    shape = st.one_of(st.tuples(st.integers(1, 3)), st.tuples(st.integers(1, 3), st.integers(1, 3)))
    return st.tuples(b, shape, st.booleans()).map(
        lambda t: {"el": "Vec", "of": t[0], "shape": list(t[1]), "transpose": t[2]})


def same_values(specs):
    """Group for enriched: keep only those with the value shape and degree
    structure of the first."""
    v = M.value_shape(specs[0])
    deg = M.degree(specs[0])
    keep = [s for s in specs if M.value_shape(s) == v and isinstance(M.degree(s), tuple) == isinstance(deg, tuple)]
    return {"el": "Enriched", "of": keep} if len(keep) > 1 else keep[0]


def enriched_of(cn, b=None):
    b = b if b is not None else base(cn)
    return st.lists(b, min_size=2, max_size=3).map(same_values)


def mixed_of(b):
    return st.lists(b, min_size=2, max_size=3).map(lambda l: {"el": "Mixed", "of": l})


def factor(cn, maxdeg=2):
    """A factor of a product that is itself a composite."""
    s = {"I": lambda: I_leaf(maxdeg), "T": lambda: T_scalar(1), "K": K_scalar}[cn]()
    e = enriched_of(cn, s)
    return st.one_of(e, e, e.map(disc), s.map(disc), st.tuples(s, st.integers(1, 2), st.booleans()).map(
        lambda t: {"el": "Vec", "of": t[0], "shape": [t[1]], "transpose": t[2]}))


def disc(s):
    return {"el": "Disc", "of": s}


def one_vector(fs):
    """At most one factor may have a shape."""
    seen = False
    out = []
    for f in fs:
        if M.value_shape(f):
            if seen:
                f = f["of"]
            seen = True
        out.append(f)
    return {"el": "TPE", "factors": out}


def deep(cn, mixed=True):
    """Composites of composites: sums, copies and discontinuous versions as factors
    of products, and all of these within each other."""
    if cn in ("Q", "H"):
        n = 2 if cn == "Q" else 3
        b = factor("I", 2 if cn == "Q" else 1).map(lambda f: {"el": "Flat", "of": one_vector([f] * n)})
    elif cn in ("I", "T", "K"):
        b = factor(cn)
    else:
        def one(c):
            plain = {"I": lambda: I_leaf(2), "T": lambda: T_scalar(1), "K": K_scalar, "Q": lambda: flat_q(1)}[c]()
            return plain if c == "Q" else st.one_of(factor(c, 1 if cn.count("x") > 1 else 2), plain)
        b = st.tuples(*map(one, cn.split("x"))).map(one_vector)
    plain = scalar(cn)

    def wrap(s):
        vs = tuple(M.value_shape(s))
        opts = [st.just(s), st.just(disc(s)), st.just({"el": "Vec", "of": s, "shape": [2], "transpose": True})]
        if vs == ():
            opts.append(plain.map(lambda t: same_values([s, t])))
            opts.append(plain.map(lambda t: same_values([disc(t), s])))
        if mixed:
            opts.append(plain.map(lambda t: {"el": "Mixed", "of": [disc(t), s]}))
        return st.one_of(*opts)
    return b.flatmap(wrap).flatmap(wrap)


def any_spec(cn, mixed=True):
    """A (possibly nested) composite on cell cn."""
    b = base(cn)
    opts = [b, vec_of(b), enriched_of(cn, b)]
    if cn not in ("H", "IxIxI"):
        opts.append(vec_of(enriched_of(cn, scalar(cn))))
        opts.append(enriched_of(cn, vec_of(scalar(cn))))
    opts.append(b.map(disc))
    opts.append(deep(cn, mixed))
    if mixed:
        opts.append(mixed_of(st.one_of(b, vec_of(b), enriched_of(cn, b))))
        opts.append(mixed_of(b).flatmap(lambda m: b.map(lambda s: {"el": "Mixed", "of": [m, s]})))
    return st.one_of(*opts)
