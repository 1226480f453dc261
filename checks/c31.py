"""C31 the families of exterior calculus form exact complexes."""
import functools
import json

import finat  # noqa: F401
import numpy as np
from finat.point_set import PointSet
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import model as M
from vlib import uflx as U
from vlib.catalogue import L
from vlib.core import Check, Discard, require
from vlib.tab import values

CELL = {"I": "interval", "T": "triangle", "K": "tetrahedron", "Q": "quadrilateral", "H": "hexahedron"}
VARIANTS = ["equispaced", "spectral", "integral", "own"]


def with_variant(spec, v):
    """The same space with other degrees of freedom."""
    el = spec["el"]
    if el in ("RaviartThomas", "Nedelec", "NedelecSecondKind", "BrezziDouglasMarini"):
        return L(el, spec["cell"], spec["deg"], variant="point" if v in ("equispaced", "spectral") else "integral")
    if v == "integral" and spec["deg"] > 0:
        return L({"Lagrange": "IntegratedLegendre", "DiscontinuousLagrange": "Legendre"}[el], spec["cell"], spec["deg"])
    if v == "own" and spec["cell"] == "I" and spec["deg"] > 0:
        return L({"Lagrange": "GaussLobattoLegendre", "DiscontinuousLagrange": "GaussLegendre"}[el], "I", spec["deg"])
    return L(el, spec["cell"], spec["deg"], variant=v) if v in ("equispaced", "spectral") else spec


@functools.lru_cache(maxsize=64)
def built(spec):
    return C.build(json.loads(spec))


@functools.lru_cache(maxsize=64)
def tabulated(spec, k, n, seed):
    """Values and first derivatives as arrays of shape (points, functions, components)."""
    x = sample(k, n, np.random.default_rng(seed))
    e = built(spec)
    m = int(np.prod(e.index_shape))
    return {a: v.reshape(n, m, -1) for a, v in values(e, 1, PointSet(x)).items()}


def named(name, cn, deg, k):
    """The element denoted by a family of exterior calculus."""
    return U.spec_of(U.FE(name, CELL[cn], deg, k=k))


def line(p):
    """Complex on the interval: continuous, derivative, discontinuous."""
    return [with_variant(L("Lagrange", "I", p["r"]), p["v"][0]), with_variant(L("DiscontinuousLagrange", "I", p["r"] - 1), p["v"][1])]


def simplex(cn, p):
    """P_r or P-_r forms, each arrow choosing the first or second kind."""
    n = {"T": 2, "K": 3}[cn]
    r, out = p["r"], []
    for k in range(n + 1):
        if k and not p["trim"][k - 1]:
            r -= 1
            name = "P"
        else:
            name = "P-" if k else "P"
        if k == n:
            # both are the discontinuous polynomials
            spec = L("DiscontinuousLagrange", cn, r - 1 if name == "P-" else r)
        else:
            if r < 1:
                raise Discard
            spec = named(name, cn, r, k)
        if spec.get("deg", 0) < 0:
            raise Discard
        out.append(with_variant(spec, p["v"][k % len(p["v"])]))
    return out


def planar(cn, p):
    """(zero-forms, one-forms, two-forms) in two dimensions."""
    r, w = p["r"], p["kind"]
    if cn == "T":
        s = simplex("T", p)
        if p["rot"]:
            kind = {"Nedelec": "RaviartThomas", "NedelecSecondKind": "BrezziDouglasMarini", "RaviartThomas": "Nedelec", "BrezziDouglasMarini": "NedelecSecondKind"}[s[1]["el"]]
            s[1] = dict(s[1], el=kind)
        return s
    fe = lambda fam, deg: U.spec_of(U.FE(fam, "quadrilateral", deg))
    if w == "Q":
        return [fe("Q", r), fe("RTCE" if p["rot"] else "RTCF", r), fe("DQ", r - 1)]
    if w == "S":
        if r < 2:
            raise Discard
        return [fe("S", r), fe("BDMCE" if p["rot"] else "BDMCF", r - 1), fe("DPC", r - 2)]
    if w == "S-E":
        return [fe("S", r), fe("SminusE" if p["rot"] else "SminusF", r), fe("DPC", r - 1)]
    return [fe("S", r), fe("SminusCurl" if p["rot"] else "SminusDiv", r), fe("DPC", r - 1)]


def product(a, b, rot):
    """Complex on a product of a complex on a polygon or interval with one on an interval."""
    t = lambda x, y: {"el": "TPE", "factors": [x, y]}
    if len(a) == 2:
        w = "HCurl" if rot else "HDiv"
        one = {"el": "Enriched", "of": [{"el": w, "of": t(a[1], b[0])}, {"el": w, "of": t(a[0], b[1])}]}
        return [t(a[0], b[0]), one, t(a[1], b[1])]
    a1, b1 = a[1] if isinstance(a[1], list) else [a[1]] * 2
    return [t(a[0], b[0]),
            {"el": "Enriched", "of": [{"el": "HCurl", "of": t(a1, b[0])}, {"el": "HCurl", "of": t(a[0], b[1])}]},
            {"el": "Enriched", "of": [{"el": "HDiv", "of": t(b1, b[1])}, {"el": "HDiv", "of": t(a[2], b[0])}]},
            t(a[2], b[1])]


def hexa(p):
    fe = lambda fam, deg: U.spec_of(U.FE(fam, "hexahedron", deg))
    r = p["r"]
    if p["kind"] == "Q":
        return [fe("Q", r), fe("NCE", r), fe("NCF", r), fe("DQ", r - 1)]
    return [fe("S", r), fe("SminusE" if p["kind"] == "S-E" else "SminusCurl", r), fe("SminusDiv", r), fe("DPC", r - 1)]


def sample(cn, n, rng):
    """n points of a cell."""
    out = []
    for f in cn.split("x"):
        V = np.array(C.cell(f).get_vertices(), dtype=float)
        if f in ("Q", "H"):
            out.append(rng.random((n, V.shape[1])))
        else:
            out.append(rng.dirichlet(np.ones(len(V)), size=n) @ V)
    return np.hstack(out)


def mapping(spec):
    # FIAT labels the curl-conforming trimmed serendipity elements otherwise
    return "covariant piola" if spec["el"] == "TrimmedSerendipityCurl" else M.mapping(spec)


def derive(d, e, nxt):
    """Exterior derivative of tabulated forms, in the components of the next space.
    Arrays of shape (points, functions, components)."""
    n = len(next(iter(d)))
    unit = lambda i: tuple(int(j == i) for j in range(n))
    D = [d[unit(i)] for i in range(n)]
    m = mapping(e)
    if e_scalar(D[0]):
        g = np.concatenate(D, axis=2)
        if n == 1:
            return g
        if n == 2 and mapping(nxt) == "contravariant piola":
            # rotated gradient
            return np.stack([g[..., 1], -g[..., 0]], axis=2)
        return g
    if m == "contravariant piola":
        return sum(D[i][..., i:i + 1] for i in range(n))
    if n == 2:
        return D[0][..., 1:] - D[1][..., :1]
    return np.stack([D[1][..., 2] - D[2][..., 1], D[2][..., 0] - D[0][..., 2], D[0][..., 1] - D[1][..., 0]], axis=2)


def columns(a):
    """Matrix with a column per function."""
    return np.moveaxis(a, 1, 2).reshape(a.shape[0] * a.shape[2], a.shape[1])


def e_scalar(a):
    return a.shape[2] == 1


class C31(Check):
    id = "C31"
    quick = 100
    thorough = 900
    rule = ("A case is a sequence of elements for forms of degree 0, ..., n: P and P- families in all combinations of first and second kinds and variants on "
            "simplices, tensor-product, serendipity and trimmed serendipity families on quadrilaterals and hexahedra, products of those with intervals through "
            "H(curl) and H(div), with degrees that differ between the factors. The derivative of each basis function must be in the span of the next element, "
            "and the ranks must be those of an exact sequence: for all functions, for those whose nodes are off the closure of one or several facets, and for those "
            "of the interior. Non-trivial: the sequence exists for the degrees.")
    assumptions = ["spans and ranks are decided by least squares and singular values with a gap of 1e-8"]

    def configs(self, tier):
        out = [{"k": "I", "w": 1}, {"k": "T", "w": 2, "cost": 2}, {"k": "K", "w": 1, "cost": 6}, {"k": "Q", "w": 2, "cost": 2}, {"k": "H", "w": 0.4, "cost": 8},
               {"k": "IxI", "w": 2, "cost": 2}, {"k": "TxI", "w": 1, "cost": 8}, {"k": "QxI", "w": 1, "cost": 8}]
        return [dict(c, i=i, tier=tier) for c in out for i in range(2)]

    def params(self, config):
        k, deep = config["k"], config["tier"] == "thorough"
        lv = st.lists(st.sampled_from(VARIANTS), min_size=2, max_size=2)
        ln = lambda m: st.fixed_dictionaries({"r": st.integers(1, m), "v": lv})
        sx = lambda m: st.fixed_dictionaries({"r": st.integers(1, m), "trim": st.lists(st.booleans(), min_size=3, max_size=3),
                                              "v": st.lists(st.sampled_from(VARIANTS), min_size=1, max_size=3),
                                              "rot": st.booleans(), "kind": st.just("P")})
        cu = lambda m, kinds: st.fixed_dictionaries({"r": st.integers(1, m), "rot": st.booleans(), "kind": st.sampled_from(kinds)})
        S = {"I": ln(10 if deep else 8), "T": sx(6 if deep else 4), "K": sx(4 if deep else 3), "Q": cu(5 if deep else 4, ["Q", "S", "S-", "S-E"]), "H": cu(2, ["Q", "S-", "S-E"]),
             "IxI": st.tuples(ln(4), ln(4), st.booleans()).map(list), "TxI": st.tuples(sx(3 if deep else 2), ln(3 if deep else 2), st.booleans()).map(list),
             "QxI": st.tuples(cu(3 if deep else 2, ["Q", "S", "S-", "S-E"]), ln(2), st.booleans()).map(list)}[k]
        return st.fixed_dictionaries({"s": S, "seed": st.integers(0, 10 ** 6), "off": st.lists(st.integers(0, 11), max_size=3)})

    def sequence(self, k, s):
        if k == "I":
            return line(s)
        if k == "K":
            return simplex("K", s)
        if k in ("T", "Q"):
            return planar(k, s)
        if k == "H":
            return hexa(s)
        a, b, rot = s
        if k == "IxI":
            return product(line(a), line(b), rot)
        if a["kind"] == "S-":
            # see `mapping`
            a, rot = dict(a, rot=False), False
        p = planar(k[0], a)
        if rot:
            q = planar(k[0], dict(a, rot=not a["rot"]))
            p = [p[0], [p[1], q[1]], p[2]]
        return product(p, line(b), rot)

    def run(self, config, p):
        k = config["k"]
        seq = self.sequence(k, p["s"])
        n = len(seq) - 1
        names = [json.dumps(s, sort_keys=True) for s in seq]
        els = [built(s) for s in names]
        dims = [int(np.prod(e.index_shape)) for e in els]
        der = [tabulated(s, k, max(dims) + 12, p["seed"] % 3) for s in names]
        tab = [d[(0,) * n] for d in der]
        shapes = [t.shape[2] for t in tab]
        require(shapes == [1] + [n] * (n - 1) + [1], "values of sizes %s along %s", shapes, [str(e) for e in els])
        d = [derive(der[i], seq[i], seq[i + 1]) for i in range(n)]
        for i, e in enumerate(els):
            require(e.formdegree == i, "%s has form degree %s in a sequence where it stands for forms of degree %d", e, e.formdegree, i)
        # the closure of each entity carries a complex of its own
        closures = [e.entity_closure_dofs() for e in els]
        for dim, entities in closures[0].items():
            for ent in entities:
                sizes = [len(c[dim][ent]) for c in closures]
                require(sum((-1) ** i * m for i, m in enumerate(sizes)) == 1, "numbers %s of functions on the closure of entity %s %s", sizes, dim, ent)
        # all functions
        self.exact(k, seq, tab, d, [list(range(m)) for m in dims], [1] + [0] * n, "all functions")
        facets = self.facets(k)
        off = sorted({f % len(facets) for f in p["off"]})
        some = [facets[i] for i in off]
        out = {"cell:" + k, "degree:%s" % (p["s"]["r"] if isinstance(p["s"], dict) else "mixed")}
        for fs, betti in [([facets[p["seed"] % len(facets)]], [0] * (n + 1)), (facets, [0] * n + [1])] + ([(some, None)] if len(some) > 1 else []):
            keep = [self.off(k, e, fs) for e in els]
            self.exact(k, seq, tab, d, keep, betti, "functions off facets %s" % fs)
            out.add("off:%s" % ("all" if len(fs) == len(facets) else len(fs)))
        return out

    def facets(self, k):
        top = C.cell(k).get_topology()
        out = []
        for dim in top:
            n = sum(dim) if isinstance(dim, tuple) else dim
            if n == C.cell(k).get_spatial_dimension() - 1:
                out += [(dim, i) for i in sorted(top[dim])]
        return out

    def off(self, k, e, fs):
        """Functions whose nodes are not on the closure of the facets."""
        ec = e.entity_closure_dofs()
        on = {i for d, f in fs for i in ec[d][f]}
        return [i for i in range(int(e.space_dimension())) if i not in on]

    def exact(self, k, seq, tab, d, keep, betti, what):
        n = len(seq) - 1
        before = 0
        for i in range(n + 1):
            A = tab[i][:, keep[i]]
            A = columns(A)
            require(self.rank(A) == len(keep[i]), "%s of %s are dependent: rank %d", what, seq[i], self.rank(A))
            if i < n:
                B = columns(d[i][:, keep[i]])
                N = columns(tab[i + 1][:, keep[i + 1]])
                scale = max(1.0, np.max(np.abs(B), initial=0))
                res = B - N @ np.linalg.lstsq(N, B, rcond=None)[0] if N.size and B.size else B
                worst = np.max(np.abs(res), initial=0)
                require(worst < 1e-7 * scale, "derivatives of %s of %s are not among those of %s (off by %.1e)", what, seq[i], seq[i + 1], worst / scale)
                r = self.rank(B)
            else:
                r = 0
            if betti is not None:
                require(before + r + betti[i] == len(keep[i]), "%s: the kernel at %s has dimension %d, the image of the previous derivative %d",
                        what, seq[i], len(keep[i]) - r, before)
            before = r

    def rank(self, A):
        if not A.size:
            return 0
        s = np.linalg.svd(A, compute_uv=False)
        if s[0] < 1e-12:
            return 0
        return int(np.sum(s > 1e-8 * s[0]))


CHECK = C31()
