"""Shared machinery: compare a composite's tabulation with the model."""
import numpy as np
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib.catalogue import L
from vlib.core import Check, Discard, require, rejects, close, canon
from vlib.tab import tab_values, values


def norm_ed(ed):
    return {d: {i: [int(v) for v in x] for i, x in ents.items()} for d, ents in ed.items()}


def double_forms(spec):
    if "of" in spec:
        of = spec["of"]
        return any(map(double_forms, of if isinstance(of, list) else [of]))
    if "factors" in spec:
        return any(map(double_forms, spec["factors"]))
    return isinstance(M.formdegree(spec), tuple)


def check_meta(spec, e, ed=True):
    require(tuple(e.index_shape) == M.index_shape(spec), "index_shape %s, expected %s", e.index_shape, M.index_shape(spec))
    require(tuple(e.value_shape) == M.value_shape(spec), "value_shape %s, expected %s", e.value_shape, M.value_shape(spec))
    require(int(e.space_dimension()) == M.space_dim(spec), "space_dimension %s, expected %s", e.space_dimension(), M.space_dim(spec))
    # double forms (Regge, HHJ, ...) have pairs as form degrees, for which sums
    # and maxima are not defined
    if not double_forms(spec):
        require(e.formdegree == M.formdegree(spec), "formdegree %s, expected %s", e.formdegree, M.formdegree(spec))
    require(e.mapping == M.mapping(spec), "mapping %r, expected %r", e.mapping, M.mapping(spec))
    require(e.cell == M.cell_of(spec), "cell %r, expected %r", e.cell, M.cell_of(spec))
    cx = M.cell_complex(spec)
    if cx is None:
        rejects(lambda: e.complex, exc=ValueError, what="the complex of parts of which none refines the others")
    else:
        require(M.same_complex(e.complex, cx), "complex %r, expected %r", e.complex, cx)
    if ed:
        require(norm_ed(e.entity_dofs()) == norm_ed(M.entity_dofs(spec)), "entity_dofs %s, expected %s", e.entity_dofs(), M.entity_dofs(spec))


def st_eval(cn, max_order=2, allow=("set", "single", "tensor")):
    """(entity, point set, order) on cell cn."""
    c = C.cell(cn)
    ents = [G.ent_json(e) for e in G.entities(c)]

    def mk(ent):
        ecn = cn if ent is None else G.entity_cellname(cn, (tuple(ent[0]) if isinstance(ent[0], list) else ent[0]))
        return st.fixed_dictionaries({"ent": st.just(ent), "order": st.integers(0, max_order),
                                      "ps": G.st_pointset(ecn, allow=allow, maxn=3)})
    return st.one_of(st.sampled_from([None, ents[-1]]), st.sampled_from(ents)).flatmap(mk)


def eval_points(cn, ev):
    """(FInAT entity, point set, cell points)."""
    ent = G.ent_parse(ev["ent"])
    ecn = cn if ent is None else G.entity_cellname(cn, ent[0])
    ps, pts = G.pointset(ecn, ev["ps"])
    return ent, ps, M.embed(cn, ent, pts)


def check_tabulation(spec, e, ev, pts_filter=None):
    cn = M.cname(spec)
    ent, ps, pts = eval_points(cn, ev)
    got = tab_values(e, e.basis_evaluation(ev["order"], ps, ent), ps)
    want = M.tabulate(spec, ev["order"], pts)
    require(set(got) == set(want), "derivative keys %s, expected %s", sorted(got), sorted(want))
    nz = False
    for a in sorted(want):
        require(not isinstance(got[a], Exception), "table %s is a Failure: %r", a, got[a])
        close(got[a], want[a], rtol=1e-8, atol=1e-9, what="D%s" % (a,))
        nz = nz or bool(np.any(want[a]))
    return nz


# --- composites of elements that depend on the physical cell ----------------

ZANY = {
    "I": [L("Hermite", "I", 3)],
    "T": [L("Hermite", "T", 3), L("Morley", "T", 2), L("Bell", "T", 5), L("HsiehCloughTocher", "T", 3, avg=True), L("ReducedHsiehCloughTocher", "T", 3),
          L("QuadraticPowellSabin6", "T", 2), L("QuadraticPowellSabin12", "T", 2, avg=False), L("Argyris", "T", 5, variant="integral", avg=False),
          L("Argyris", "T", 5, variant="point"),
          L("BernardiRaugel", "T", 1), L("MardalTaiWinther", "T", 3), L("GuzmanNeilanFirstKindH1", "T", 1), L("AlfeldSorokina", "T", 2),
          L("ArnoldWintherNC", "T", 2), L("ArnoldWinther", "T", 3), L("JohnsonMercier", "T", 1), L("HuZhang", "T", 3, variant="integral")],
    "K": [L("Hermite", "K", 3), L("BernardiRaugel", "K", 0), L("JohnsonMercier", "K", 1)],
    "Q": [{"el": "DirectSerendipity", "cell": "Q", "deg": k} for k in (1, 2)],
}
PLAIN = {"I": [L("Lagrange", "I", 2)], "Q": [L("DPC", "Q", 1), L("Serendipity", "Q", 2)],
         "T": [L("Lagrange", "T", 2), L("Bubble", "T", 3), L("RaviartThomas", "T", 1), L("Nedelec", "T", 1), L("Regge", "T", 0), L("HellanHerrmannJohnson", "T", 1)],
         "K": [L("Lagrange", "K", 1), L("RaviartThomas", "K", 1), L("Regge", "K", 0)]}


def st_zany(cn):
    """A physically mapped leaf, or (less often) a plain one next to it."""
    z = st.sampled_from(ZANY[cn])
    return z, st.one_of(z, z, st.sampled_from(PLAIN[cn]))


def same_shape(specs):
    """Those with the value shape of the first; the first twice if there is no other."""
    keep = [s for s in specs if M.value_shape(s) == M.value_shape(specs[0])]
    return {"el": "Enriched", "of": keep if len(keep) > 1 else keep * 2}


def st_geo(cn):
    if cn == "Q":
        return st.fixed_dictionaries({"v": st.lists(st.integers(-8, 8), min_size=8, max_size=8), "A": G.st_affine(2, scale=(5, 20)), "sym": st.booleans()})
    d = G.point_dim(cn)
    return st.fixed_dictionaries({"A": G.st_affine(d, scale=(4, 20)), "sym": st.booleans(), "h": st.lists(st.integers(2, 12), min_size=d + 1, max_size=d + 1)})


def geometry(cn, g):
    if cn == "Q":
        from checks.c13 import QuadGeometry, quad
        return QuadGeometry(quad(g), g["sym"])
    d = G.point_dim(cn)
    A, b = G.affine(d, g["A"])
    if np.linalg.cond(A) > 4:
        raise Discard
    return G.AffineGeometry(d, A, b, h=np.array(g["h"]) / 8.0, symbolic=g["sym"])


def check_mapped_composite(spec, e, ev, geo):
    """The tables of a composite on a physical cell against those of its parts."""
    cn = M.cname(spec)
    ent, ps, pts = eval_points(cn, ev)
    got = values(e, ev["order"], ps, ent, cm=geo)
    tabs = {}

    def leaf(s, order):
        k = canon([s, order])
        if k not in tabs:
            tabs[k] = values(C.build(s), order, ps, ent, cm=geo)
        return tabs[k]
    M.LEAF = leaf
    try:
        want = M.tabulate(spec, ev["order"], pts)
    finally:
        M.LEAF = None
    require(set(got) == set(want), "derivative keys %s, expected %s", sorted(got), sorted(want))
    nz = False
    for a in sorted(want):
        require(not isinstance(got[a], Exception), "table %s is a Failure: %r", a, got[a])
        m = max(1.0, float(np.max(np.abs(want[a]), initial=0)))
        close(got[a] / m, want[a] / m, rtol=1e-8, atol=1e-8, what="D%s on a physical cell" % (a,))
        nz = nz or bool(np.any(want[a]))
    return (labels(spec, ev) | {"mapped", "symbolic" if geo.symbolic else "literal"}) if nz else False


def labels(spec, ev=None):
    out = {"el:" + spec["el"], "cell:" + M.cname(spec)}
    if ev is not None:
        out |= {"order%d" % ev["order"], "ps:" + ev["ps"]["k"], "entity:" + ("none" if ev["ent"] is None else str(ev["ent"][0]))}
    return out
