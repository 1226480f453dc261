"""Element specifications (JSON-able) and builders.

A leaf spec is {"el": name, "cell": "I|T|K|Q|H", "deg": n, "kw": {...}}.
`build(spec)` makes the FInAT element through its public constructors,
`build_fiat(spec)` makes the FIAT element that the leaf is documented to wrap,
calling FIAT directly (the oracle side)."""
import functools

import FIAT
import finat
import numpy as np
from FIAT.reference_element import (UFCQuadrilateral, UFCHexahedron, TensorProductCell, ufc_simplex)

from vlib.core import HarnessError

_caches = []


def cached(fn):
    c = functools.lru_cache(maxsize=None)(fn)
    _caches.append(c)
    return c


def clear_caches():
    for c in _caches:
        c.cache_clear()


def _key(spec):
    from vlib.core import canon
    return canon(spec)


@functools.lru_cache(maxsize=None)
def cell(name):
    if name == "P":
        return ufc_simplex(0)
    if name == "I":
        return ufc_simplex(1)
    if name == "T":
        return ufc_simplex(2)
    if name == "K":
        return ufc_simplex(3)
    if name == "Q":
        return UFCQuadrilateral()
    if name == "H":
        return UFCHexahedron()
    if "x" in name:
        return TensorProductCell(*[cell(n) for n in name.split("x")])
    raise HarnessError("cell %s" % name)


DIM = {"P": 0, "I": 1, "T": 2, "K": 3, "Q": 2, "H": 3}


def L(el, cell, deg, **kw):
    s = {"el": el, "cell": cell, "deg": deg}
    if kw:
        s["kw"] = kw
    return s


# --- constructors: FIAT side -------------------------------------------------

def _std(name, drop=()):
    def f(c, d, **kw):
        kw = {k: v for k, v in kw.items() if k not in drop}
        return getattr(FIAT, name)(c, d, **kw)
    return f


FIAT_BUILD = {n: _std(n) for n in """
Regge HellanHerrmannJohnson GopalakrishnanLedererSchoberlFirstKind
GopalakrishnanLedererSchoberlSecondKind Bernstein Bubble FacetBubble
CrouzeixRaviart Lagrange KongMulderVeldhuizen DiscontinuousLagrange Serendipity
DPC DiscontinuousTaylor RaviartThomas TrimmedSerendipityFace
TrimmedSerendipityDiv TrimmedSerendipityEdge TrimmedSerendipityCurl
BrezziDouglasMarini BrezziDouglasMariniCubeEdge BrezziDouglasMariniCubeFace
BrezziDouglasFortinMarini Nedelec NedelecSecondKind HDivTrace
GaussLobattoLegendre GaussLegendre Legendre IntegratedLegendre FDMLagrange
FDMDiscontinuousLagrange FDMQuadrature FDMBrokenH1 FDMBrokenL2 FDMHermite
ArnoldWinther ArnoldWintherNC MardalTaiWinther AlfeldSorokina
ChristiansenHu JohnsonMercier HuZhang ArnoldQin
""".split()}
FIAT_BUILD.update({
    "Real": _std("DiscontinuousLagrange"),
    "Argyris": lambda c, d, variant="integral", avg=False: FIAT.Argyris(c, d, variant=variant),
    "Bell": lambda c, d: FIAT.Bell(c),
    "Morley": lambda c, d: FIAT.Morley(c),
    "Hermite": lambda c, d: FIAT.CubicHermite(c),
    "HsiehCloughTocher": lambda c, d, avg=False: FIAT.HsiehCloughTocher(c, d),
    "ReducedHsiehCloughTocher": lambda c, d: FIAT.HsiehCloughTocher(c, reduced=True),
    "QuadraticPowellSabin6": lambda c, d: FIAT.QuadraticPowellSabin6(c),
    "QuadraticPowellSabin12": lambda c, d, avg=False: FIAT.QuadraticPowellSabin12(c),
    "ReducedArnoldQin": lambda c, d: FIAT.ArnoldQin(c, d, reduced=True),
    "BernardiRaugel": lambda c, d: FIAT.BernardiRaugel(c, order=d),
    "BernardiRaugelBubble": lambda c, d: FIAT.BernardiRaugel(c, order=0),
    "GuzmanNeilanFirstKindH1": lambda c, d: FIAT.GuzmanNeilanFirstKindH1(c, order=d),
    "GuzmanNeilanSecondKindH1": lambda c, d: FIAT.GuzmanNeilanSecondKindH1(c, order=d),
    "GuzmanNeilanBubble": lambda c, d: FIAT.GuzmanNeilanFirstKindH1(c, order=0),
    "GuzmanNeilanH1div": lambda c, d: FIAT.GuzmanNeilanH1div(c, degree=None),
})



def _rule(c, d):
    if c.get_spatial_dimension() == 1:
        q = FIAT.quadrature.GaussLegendreQuadratureLineRule(c, (d + 2) // 2)
    else:
        q = FIAT.create_quadrature(c, d)
    return FIAT.QuadratureElement(c, q.get_points(), q.get_weights())


FIAT_BUILD["Quad"] = _rule

# elements whose finat constructor takes no meaningful degree
_NODEG = {"BernardiRaugelBubble", "GuzmanNeilanBubble", "GuzmanNeilanH1div"}


@cached
def _build_fiat(key):
    import json
    s = json.loads(key)
    return FIAT_BUILD[s["el"]](cell(s["cell"]), s["deg"], **s.get("kw", {}))


def build_fiat(spec):
    return _build_fiat(_key(spec))


def make_finat(spec, c):
    """Leaf FInAT element on an arbitrary FIAT cell object."""
    cls = getattr(finat, spec["el"])
    kw = spec.get("kw", {})
    if spec["el"] in _NODEG:
        return cls(c, **kw)
    return cls(c, spec["deg"], **kw)


@cached
def _build(key):
    import json
    s = json.loads(key)
    e = s["el"]
    if e == "TPE":
        return finat.TensorProductElement([build(f) for f in s["factors"]])
    if e == "Flat":
        return finat.FlattenedDimensions(build(s["of"]))
    if e == "Vec":
        return finat.TensorFiniteElement(build(s["of"]), tuple(s["shape"]), transpose=s.get("transpose", False))
    if e == "Enriched":
        return finat.EnrichedElement([build(f) for f in s["of"]])
    if e == "Mixed":
        return finat.MixedElement([build(f) for f in s["of"]])
    if e == "HDiv":
        return finat.HDivElement(build(s["of"]))
    if e == "HCurl":
        return finat.HCurlElement(build(s["of"]))
    if e == "Disc":
        return finat.DiscontinuousElement(build(s["of"]))
    if e == "NodalEnriched":
        return finat.NodalEnrichedElement([build(f) for f in s["of"]])
    if e == "Restricted":
        return finat.RestrictedElement(build(s["of"]), s["domain"])
    if e == "Quad":
        return finat.quadrature_element.make_quadrature_element(cell(s["cell"]), s["deg"] if not isinstance(s["deg"], list) else tuple(s["deg"]), s.get("scheme", "default"))
    if e == "DirectSerendipity":
        return _build_ds(s["deg"])
    return make_finat(s, cell(s["cell"]))


@functools.lru_cache(maxsize=None)
def _build_ds(deg):
    # its symbolic basis is expensive and depends on nothing but the degree
    return finat.DirectSerendipity(cell("Q"), deg)


def build(spec):
    return _build(_key(spec))


def cellname(spec):
    """Cell name (e.g. 'T', 'IxI', 'Q') of a spec."""
    e = spec["el"]
    if e == "TPE":
        return "x".join(cellname(f) for f in spec["factors"])
    if e == "Flat":
        d = sum(DIM.get(c, 0) for c in cellname(spec["of"]).split("x"))
        return {2: "Q", 3: "H"}[d]
    if e in ("Vec", "HDiv", "HCurl", "Disc", "Restricted"):
        return cellname(spec["of"])
    if e in ("Enriched", "Mixed", "NodalEnriched"):
        return cellname(spec["of"][0])
    return spec["cell"]


def simple_leaves(tier):
    """Reference-mapped FIAT-backed leaves (no geometry needed)."""
    out = []
    hi = 1 if tier == "thorough" else 0

    def add(el, c, degs, **kw):
        for d in degs:
            out.append(L(el, c, d, **kw))
    add("Regge", "I", [0, 1])
    for e in ("Regge", "HellanHerrmannJohnson"):
        add(e, "T", [0, 1, 2])
        add(e, "K", [0, 1])
        add(e, "T", [1], variant="point")
    for c in "TK":
        add("GopalakrishnanLedererSchoberlFirstKind", c, [1, 2] if c == "T" else [1])
        add("GopalakrishnanLedererSchoberlSecondKind", c, [0, 1] if c == "T" else [0, 1])
    for c, m in (("I", 5), ("T", 4), ("K", 3)):
        m += hi
        add("Bernstein", c, range(1, m + 1))
        add("Lagrange", c, range(1, m + 1))
        add("DiscontinuousLagrange", c, range(0, m + 1))
        add("GaussLobattoLegendre", c, range(1, m + 1))
        add("GaussLegendre", c, range(0, m + 1))
        add("Legendre", c, range(0, m + 1))
        add("IntegratedLegendre", c, range(1, m + 1))
        add("DiscontinuousTaylor", c, range(0, m))
        add("Lagrange", c, [2, 3], variant="equispaced")
        add("Lagrange", c, [2], variant="spectral")
        add("Lagrange", c, [1, 2], variant="iso(2)")
        add("DiscontinuousLagrange", c, [1, 2], variant="equispaced")
        add("DiscontinuousLagrange", c, [0, 2], variant="spectral")
        if c != "I":
            add("Lagrange", c, [1, 2], variant="alfeld")
            add("DiscontinuousLagrange", c, [0, 1], variant="alfeld")
        add("Lagrange", c, [2], variant="equispaced,iso(2)")
        add("Legendre", c, [1], variant="iso(2)")
        add("IntegratedLegendre", c, [2], variant="iso(2)")
    add("Real", "T", [0])
    add("Real", "K", [0])
    add("Bubble", "I", [2, 3, 4])
    add("Bubble", "T", [3, 4])
    add("Bubble", "K", [4])
    add("FacetBubble", "T", [2, 3, 4])
    add("FacetBubble", "K", [3, 4])
    add("CrouzeixRaviart", "T", [1, 3])
    add("CrouzeixRaviart", "I", [1])
    add("CrouzeixRaviart", "K", [1])
    add("KongMulderVeldhuizen", "T", [1, 2, 3, 4])
    add("KongMulderVeldhuizen", "K", [1, 2])
    add("DPC", "Q", [0, 1, 2, 3])
    add("DPC", "H", [0, 1, 2])
    add("DPC", "I", [1])
    add("Serendipity", "I", [1, 3])
    add("Serendipity", "Q", [1, 2, 3, 4])
    add("Serendipity", "H", [1, 2, 4])
    add("TrimmedSerendipityFace", "Q", [1, 2, 3])
    add("TrimmedSerendipityDiv", "Q", [1, 2])
    add("TrimmedSerendipityDiv", "H", [1, 2])
    add("TrimmedSerendipityEdge", "Q", [1, 2, 3])
    add("TrimmedSerendipityEdge", "H", [1, 2])
    add("TrimmedSerendipityCurl", "Q", [1, 2])
    add("TrimmedSerendipityCurl", "H", [1])
    add("BrezziDouglasMariniCubeEdge", "Q", [1, 2, 3])
    add("BrezziDouglasMariniCubeFace", "Q", [1, 2, 3])
    add("BrezziDouglasFortinMarini", "T", [2])
    for e in ("RaviartThomas", "Nedelec", "BrezziDouglasMarini", "NedelecSecondKind"):
        add(e, "T", [1, 2, 3])
        add(e, "K", [1, 2])
        add(e, "T", [2], variant="point")
        add(e, "K", [1], variant="point")
        add(e, "T", [1], variant="integral(2)")
    add("RaviartThomas", "I", [1, 2])
    for e in ("FDMLagrange", "FDMDiscontinuousLagrange", "FDMQuadrature", "FDMBrokenH1", "FDMBrokenL2"):
        add(e, "I", [1, 2, 4])
    add("FDMHermite", "I", [3, 4])
    add("ArnoldQin", "T", [2])
    add("HDivTrace", "T", [0, 1, 2])
    add("HDivTrace", "K", [0, 1])
    if tier == "thorough":
        add("Lagrange", "T", [6, 7])
        add("Lagrange", "K", [5])
        add("GaussLobattoLegendre", "I", [7, 9])
        add("GaussLegendre", "I", [7, 9])
        add("RaviartThomas", "T", [4])
        add("RaviartThomas", "K", [3])
        add("Nedelec", "T", [4])
        add("Nedelec", "K", [3])
        add("BrezziDouglasMarini", "K", [3])
        add("NedelecSecondKind", "K", [3])
        add("Regge", "T", [3])
        add("HellanHerrmannJohnson", "T", [3])
        add("Serendipity", "Q", [5, 6])
        add("KongMulderVeldhuizen", "T", [5])
        add("KongMulderVeldhuizen", "K", [3])
        add("TrimmedSerendipityEdge", "Q", [4])
        add("TrimmedSerendipityFace", "Q", [4])
        add("BrezziDouglasMariniCubeEdge", "Q", [4])
        add("CrouzeixRaviart", "T", [5])
        add("Bubble", "K", [5])
    return out


def high_leaves(tier):
    """Leaves of high degree: several dofs per entity of every dimension, small
    functions, and round-off that matters."""
    out = []
    hi = tier == "thorough"

    def add(el, c, degs, **kw):
        for d in degs:
            out.append(L(el, c, d, **kw))
    for e in ("Lagrange", "DiscontinuousLagrange", "GaussLobattoLegendre", "GaussLegendre", "Legendre", "IntegratedLegendre"):
        add(e, "I", [7, 10] + ([14] if hi else []))
        add(e, "T", [6] + ([8] if hi else []))
        if e in ("Lagrange", "Legendre") or hi:
            add(e, "K", [5])
    add("Lagrange", "I", [7], variant="equispaced")
    add("Lagrange", "T", [6], variant="equispaced")
    add("Lagrange", "K", [4], variant="spectral")
    add("Lagrange", "T", [3, 4], variant="alfeld")
    add("Lagrange", "K", [4], variant="alfeld")
    add("Lagrange", "T", [4], variant="iso(2)")
    add("Lagrange", "I", [3], variant="iso(4)")
    add("DiscontinuousLagrange", "T", [3], variant="alfeld")
    for c, ds in (("I", [6, 8]), ("T", [5, 7]), ("K", [5])):
        add("DiscontinuousTaylor", c, ds)
    for c, ds in (("I", [7, 9]), ("T", [6])):
        add("Bernstein", c, ds)
    add("Bubble", "I", [7])
    add("Bubble", "T", [6])
    add("Bubble", "K", [5])
    add("FacetBubble", "T", [5])
    add("FacetBubble", "K", [5])
    for e in ("FDMLagrange", "FDMDiscontinuousLagrange", "FDMQuadrature", "FDMBrokenH1", "FDMBrokenL2"):
        add(e, "I", [7])
    for e in ("RaviartThomas", "Nedelec", "BrezziDouglasMarini", "NedelecSecondKind"):
        add(e, "T", [5])
        add(e, "K", [3])
    for e in ("Regge", "HellanHerrmannJohnson"):
        add(e, "T", [4])
        add(e, "K", [2])
    add("GopalakrishnanLedererSchoberlFirstKind", "T", [4])
    add("GopalakrishnanLedererSchoberlSecondKind", "T", [3])
    add("HDivTrace", "T", [5])
    add("HDivTrace", "K", [3])
    add("CrouzeixRaviart", "T", [5])
    add("DPC", "Q", [5])
    add("DPC", "H", [4])
    add("Serendipity", "Q", [6, 8] if hi else [6])
    if hi:
        add("Serendipity", "H", [5])
        add("KongMulderVeldhuizen", "T", [5, 6])
        add("KongMulderVeldhuizen", "K", [3])
    return out


@functools.lru_cache(maxsize=None)
def _own_names():
    return frozenset(s["el"] for s in zany_leaves("quick")) | {"DirectSerendipity"}


def is_zany(spec):
    """Does the tabulation of this leaf depend on the physical cell?"""
    return spec["el"] in _own_names()


def zany_leaves(tier):
    """Physically mapped leaves."""
    out = []

    def add(el, c, degs, **kw):
        for d in degs:
            out.append(L(el, c, d, **kw))
    for avg in (True, False):
        add("Argyris", "T", [5, 6, 7, 8] + ([9] if tier == "thorough" else []), variant="integral", avg=avg)
        add("HsiehCloughTocher", "T", [3, 4, 5, 6] + ([7] if tier == "thorough" else []), avg=avg)
        add("QuadraticPowellSabin12", "T", [2], avg=avg)
    add("Argyris", "T", [5], variant="point")
    add("Bell", "T", [5])
    add("Morley", "T", [2])
    for c in "ITK":
        add("Hermite", c, [3])
    add("ReducedHsiehCloughTocher", "T", [3])
    add("QuadraticPowellSabin6", "T", [2])
    add("ArnoldWinther", "T", [3])
    add("ArnoldWintherNC", "T", [2])
    add("HuZhang", "T", [3, 4, 5] + ([6] if tier == "thorough" else []), variant="integral")
    add("HuZhang", "T", [3, 4, 5] + ([6] if tier == "thorough" else []), variant="point")
    add("MardalTaiWinther", "T", [3])
    add("ReducedArnoldQin", "T", [2])
    for c in "TK":
        add("AlfeldSorokina", c, [2])
        add("ChristiansenHu", c, [1])
        add("JohnsonMercier", c, [1])
        add("BernardiRaugel", c, [0, 1] if c == "T" else [0, 1, 2])
        add("BernardiRaugelBubble", c, [0])
        add("GuzmanNeilanFirstKindH1", c, [0, 1] if c == "T" else [0, 1, 2])
        add("GuzmanNeilanSecondKindH1", c, [0, 1])
        add("GuzmanNeilanBubble", c, [0])
        add("GuzmanNeilanH1div", c, [0])
    return out


def fiat_degree_bound(fe):
    return fe.degree()


def tol_scale(arr):
    a = np.asarray(arr)
    return max(1.0, float(np.max(np.abs(a))) if a.size else 1.0)
