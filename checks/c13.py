"""C13 direct serendipity elements on convex quadrilaterals."""
from math import comb

import finat
import numpy as np
from FIAT.polynomial_set import mis
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib.core import Check, Discard, require, close
from vlib.gemeval import geval
from vlib.tab import values
from checks.comp import norm_ed


class QuadGeometry(G.AffineGeometry):
    """Bilinear quadrilateral; symbolic or literal quantities."""

    def __init__(self, verts, symbolic):
        self.verts = np.asarray(verts, dtype=float)
        self.symbolic = symbolic
        self.bindings = {}
        self.override = None

    def x(self, X):
        a, b = X[:, :1], X[:, 1:]
        v = self.verts
        return (1 - a) * (1 - b) * v[0] + (1 - a) * b * v[1] + a * (1 - b) * v[2] + a * b * v[3]

    def physical_vertices(self):
        return self._g("pverts", self.verts)

    def physical_points(self, point_set, entity=None):
        pts = M.embed("Q", entity, point_set.points)
        x = self.x(pts) if self.override is None else self.override
        x = x.reshape(tuple(i.extent for i in point_set.indices) + (2,))
        return self._g("ppts%d" % len(self.bindings), x)


_elems = {}


def element(r):
    # the symbolic basis is expensive and depends on nothing but the degree
    if r not in _elems:
        _elems[r] = finat.DirectSerendipity(C.cell("Q"), r)
    return _elems[r]


EDGES = {i: tuple(v) for i, v in C.cell("Q").get_topology()[1].items()}


def quad(p):
    base = np.array([[0., 0.], [0., 1.], [1., 0.], [1., 1.]])
    off = np.array(p["v"]).reshape(4, 2) / 40.0
    A, b = G.affine(2, p["A"])
    if np.linalg.cond(A) > 3:
        raise Discard
    V = (base + off) @ A.T + b
    loop = V[[0, 1, 3, 2]]
    cr = []
    for k in range(4):
        u, w = loop[(k + 1) % 4] - loop[k], loop[(k + 2) % 4] - loop[(k + 1) % 4]
        cr.append((u[0] * w[1] - u[1] * w[0]) / np.linalg.norm(u) / np.linalg.norm(w))
    if not (min(cr) > 0.3 or max(cr) < -0.3):
        raise Discard
    return V


def lagrange_1d(r, k, t):
    """Equispaced Lagrange polynomial k of degree r at t."""
    out = np.ones_like(t)
    for j in range(r + 1):
        if j != k:
            out = out * (t - j / r) / (k / r - j / r)
    return out


class C13(Check):
    id = "C13"
    quick = 45
    thorough = 600
    rule = ("A case is a degree, a random strictly convex quadrilateral (any rotation, stretching, reflection, distortion up to 20%) and random "
            "points. Oracles: rank of the sampled basis, least-squares reproduction of every monomial up to the degree and of its "
            "derivatives, traces on the four sides equal the equispaced Lagrange polynomials of that side (zero for functions of other "
            "entities), derivatives equal fourth-order finite differences. Non-trivial: the quadrilateral is not a parallelogram.")
    assumptions = ["the geometry returns physical vertices and points as documented"]

    def configs(self, tier):
        w = {1: 2, 2: 2, 3: 1.5, 4: 1, 5: 0.4, 6: 0.1, 7: 0.02}
        out = [{"deg": r, "what": k, "w": w[r], "cost": r} for r in (1, 2, 3, 4, 5) for k in ("span", "trace", "deriv")]
        # building the symbolic basis takes half a minute for degree 6 and five for degree 7
        out += [{"deg": r, "what": "both", "w": w[r], "cost": 300 if r == 7 else 60} for r in ((6, 7) if tier == "thorough" else (6,))]
        return out + [{"deg": 0, "what": "meta", "w": 0.01}]

    def clear(self):
        pass

    def params(self, config):
        n = 30
        return st.fixed_dictionaries({"v": st.lists(st.integers(-8, 8), min_size=8, max_size=8), "A": G.st_affine(2, scale=(5, 20)),
                                      "sym": st.booleans(), "pts": st.lists(G.st_cell_point("Q"), min_size=1, max_size=3),
                                      "epts": st.lists(G.st_cell_point("I"), min_size=1, max_size=4), "seed": st.integers(0, 10**6)})

    def run(self, config, p):
        r = config["deg"]
        if config["what"] == "meta":
            return self.meta()
        V = quad(p)
        e = element(r)
        n = int(e.space_dimension())
        geo = QuadGeometry(V, p["sym"])
        getattr(self, config["what"])(e, r, n, geo, p)
        par = np.max(np.abs(V[0] + V[3] - V[1] - V[2])) > 1e-6
        return {"deg%d" % r, config["what"], "reflected" if np.linalg.det(np.array([V[2] - V[0], V[1] - V[0]])) < 0 else "proper",
                "sym:%s" % p["sym"]} if par else False

    def meta(self):
        for r in range(1, 9):
            e = finat.DirectSerendipity(C.cell("Q"), r)
            n = 4 if r == 1 else comb(r + 2, 2) + 2
            require(int(e.space_dimension()) == n, "degree %d: space dimension %s, expected %d", r, e.space_dimension(), n)
            require(tuple(e.index_shape) == (n,) and tuple(e.value_shape) == (), "degree %d: shapes %s %s", r, e.index_shape, e.value_shape)
            require(e.degree == r and e.formdegree == 0 and e.cell == C.cell("Q"), "degree %d: metadata", r)
            require(e.mapping == "physical", "mapping %r, expected 'physical'", e.mapping)
            ed = norm_ed(e.entity_dofs())
            want = {0: {i: [i] for i in range(4)},
                    1: {i: list(range(4 + i * (r - 1), 4 + (i + 1) * (r - 1))) for i in range(4)},
                    2: {0: list(range(4 * r, n))}}
            require(ed == want, "degree %d: entity_dofs %s, expected %s", r, ed, want)
        return True

    def tab(self, e, order, X, geo, ent=None):
        return values(e, order, G.PointSet(X), ent, cm=geo)

    def span(self, e, r, n, geo, p):
        rng = np.random.default_rng(p["seed"])
        X = rng.uniform(0.02, 0.98, (2 * n + 8, 2))
        order = 1 if r <= 4 else 0
        t = self.tab(e, order, X, geo)
        x = geo.x(X)
        c = x.mean(axis=0)
        s = np.max(np.abs(x - c))
        y = (x - c) / s
        B = t[(0, 0)]
        require(B.shape == (len(X), n), "table shape %s", B.shape)
        sv = np.linalg.svd(B / np.maximum(1e-300, np.max(np.abs(B), axis=0)), compute_uv=False)
        require(sv[-1] > 1e-9 * sv[0], "functions are linearly dependent: singular values %.2e ... %.2e", sv[0], sv[-1])
        for k in range(r + 1):
            for a in mis(2, k):
                q = y[:, 0] ** a[0] * y[:, 1] ** a[1]
                co = np.linalg.lstsq(B, q, rcond=None)[0]
                close(B @ co, q, rtol=1e-6, atol=1e-6, what="reproduction of the monomial %s" % (a,))
                if order:
                    for i in range(2):
                        al = tuple(int(i == j) for j in range(2))
                        if a[i]:
                            b = list(a)
                            b[i] -= 1
                            dq = a[i] * y[:, 0] ** b[0] * y[:, 1] ** b[1] / s
                        else:
                            dq = np.zeros(len(X))
                        close(t[al] @ co * s, dq * s, rtol=1e-4, atol=1e-4, what="D%s of the monomial %s" % (al, a))

    def trace(self, e, r, n, geo, p):
        pts = np.array([G.cell_point("I", w) for w in p["epts"]]).reshape(-1, 1)
        ed = e.entity_dofs()
        for i, (v0, v1) in EDGES.items():
            t = self.tab(e, 0, pts, geo, (1, i))[(0, 0)]
            want = np.zeros((len(pts), n))
            s = pts[:, 0]
            nodes = list(ed[0][v0]) + list(ed[1][i]) + list(ed[0][v1])
            require(len(nodes) == r + 1, "edge %d carries %d dofs", i, len(nodes))
            for k, f in enumerate(nodes):
                want[:, f] = lagrange_1d(r, k, s)
            close(t, want, rtol=1e-6, atol=1e-6, what="trace on side %d" % i)
            # a second, whole-cell request at the same points
        X = M.embed("Q", (1, 0), pts)
        close(self.tab(e, 0, X, geo)[(0, 0)], self.tab(e, 0, pts, geo, (1, 0))[(0, 0)], rtol=1e-9, atol=1e-9,
              what="cell and side evaluation")

    def both(self, e, r, n, geo, p):
        self.span(e, r, n, geo, p)
        self.trace(e, r, n, geo, p)

    def deriv(self, e, r, n, geo, p):
        X = np.array([G.cell_point("Q", w) for w in p["pts"]])
        top = 2 if r <= 3 else 1
        t = self.tab(e, top, X, geo)
        require(set(t) == {tuple(a) for k in range(top + 1) for a in mis(2, k)}, "derivative keys %s", sorted(t))
        x = geo.x(X)
        h = 2e-3 * np.min(np.linalg.norm(geo.verts[1:] - geo.verts[:1], axis=1))
        shifts = np.array([-2, -1, 1, 2]) * h
        w = np.array([1, -8, 8, -1]) / (12 * h)
        for a in t:
            if sum(a) == 0:
                continue
            i = 0 if a[0] else 1
            b = tuple(k - int(i == j) for j, k in enumerate(a))
            fd = 0
            for s, c in zip(shifts, w):
                y = x.copy()
                y[:, i] += s
                geo.override = y
                fd = fd + c * self.tab(e, sum(b), X, geo)[b]
            geo.override = None
            m = max(1.0, float(np.max(np.abs(fd))))
            close(t[a] / m, fd / m, rtol=1e-5, atol=2e-5, what="D%s and finite differences" % (a,))


CHECK = C13()
