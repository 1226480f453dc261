"""C11 continuity across a shared facet of a two-cell patch."""
import numpy as np
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib.catalogue import L
from vlib.core import Check, Discard, require
from vlib.tab import values

H1 = """Lagrange GaussLobattoLegendre IntegratedLegendre Bernstein KongMulderVeldhuizen Hermite BernardiRaugel
BernardiRaugelBubble GuzmanNeilanFirstKindH1 GuzmanNeilanSecondKindH1 GuzmanNeilanBubble ArnoldQin ReducedArnoldQin
ChristiansenHu FacetBubble Bubble""".split()
KIND = {e: ("value",) for e in H1}
KIND.update({e: ("value", "grad") for e in "Argyris Bell HsiehCloughTocher ReducedHsiehCloughTocher QuadraticPowellSabin12".split()})
# C1 only on patches whose split points line up: gradients agree at vertices
KIND["QuadraticPowellSabin6"] = ("value", "vertex:grad")
KIND.update({e: ("value", "div") for e in ("AlfeldSorokina", "GuzmanNeilanH1div")})
KIND.update({e: ("n",) for e in "RaviartThomas BrezziDouglasMarini BrezziDouglasFortinMarini JohnsonMercier ArnoldWinther HuZhang".split()})
KIND.update({e: ("t",) for e in "Nedelec NedelecSecondKind".split()})
KIND.update({"HellanHerrmannJohnson": ("nn",), "Regge": ("tt",), "GopalakrishnanLedererSchoberlFirstKind": ("tn",),
             "GopalakrishnanLedererSchoberlSecondKind": ("tn",)})
# nonconforming: moments of the trace on the facet, of this degree
KIND.update({"CrouzeixRaviart": ("moment:value",), "Morley": ("vertex:value", "moment:ndot"), "ArnoldWintherNC": ("moment:n",),
             "MardalTaiWinther": ("n", "moment:t")})


def moment_degree(spec, what):
    return {"CrouzeixRaviart": spec["deg"] - 1, "Morley": 0, "ArnoldWintherNC": 1, "MardalTaiWinther": 0}[spec["el"]]


class Patch:
    """Two simplices sharing a facet; local vertices sorted by global number."""

    def __init__(self, d, p):
        A, b = G.affine(d, p["A"])
        F = [np.zeros(d)] + [np.eye(d)[k] for k in range(d - 1)]
        mid = np.mean(F, axis=0)
        opp = []
        for s, q in zip((1, -1), p["opp"]):
            v = mid + np.array([x / 20.0 for x in q[:-1]] + [s * (0.6 + q[-1] / 20.0)])
            opp.append(v)
        X = np.array([A @ v + b for v in F + opp])
        self.d = d
        num = list(p["num"])                      # geometric vertex -> global number
        self.cells = []
        fac = set(range(d))
        for o in (d, d + 1):
            vs = sorted(list(range(d)) + [o], key=lambda v: num[v])
            V = X[vs]
            At = (V[1:] - V[0]).T
            h = np.array([0.3 + p["h"][v] / 10.0 for v in vs])
            geo = G.AffineGeometry(d, At, V[0], h=h, symbolic=p["sym"])
            top = C.cell("PITK"[d]).get_topology()
            fid, = [i for i, t in top[d - 1].items() if {vs[k] for k in t} == fac]
            # entity pairing: by geometric vertex sets
            self.cells.append((geo, vs, fid))
        (g0, v0, f0), (g1, v1, f1) = self.cells
        if max(np.linalg.cond(g0.A), np.linalg.cond(g1.A)) > 12:
            raise Discard
        self.shared = []
        top = C.cell("PITK"[d]).get_topology()
        for k in range(d):
            e1 = {frozenset(v1[a] for a in t): i for i, t in top[k].items()}
            for i, t in top[k].items():
                key = frozenset(v0[a] for a in t)
                if key in e1:
                    self.shared.append((k, i, e1[key]))
        t = top[d - 1][f0]
        Y = g0.verts[list(t)]
        self.T = Y[1:] - Y[0]
        if d == 2:
            n = np.array([self.T[0][1], -self.T[0][0]])
        elif d == 3:
            n = np.cross(self.T[0], self.T[1])
        else:
            n = np.ones(1)
        self.n = n / np.linalg.norm(n)
        self.T = np.array([v / np.linalg.norm(v) for v in self.T]).reshape(d - 1, d)
        a = top[d - 1][f1]
        require(np.allclose(Y, g1.verts[list(a)]), "harness: facet vertices do not match")


def st_patch(d):
    q = st.lists(st.integers(-8, 8), min_size=d, max_size=d).map(lambda l: l[:-1] + [abs(l[-1]) * 2])
    return {"A": G.st_affine(d, scale=(5, 20)), "opp": st.lists(q, min_size=2, max_size=2),
            "num": st.permutations(list(range(d + 2))), "h": st.lists(st.integers(0, 30), min_size=d + 2, max_size=d + 2),
            "sym": st.booleans()}


def traces(kind, val, grad, patch):
    """val: (npts, n, *vs); grad: (npts, n, *vs, d) -> (npts, n, -1)"""
    n, T = patch.n, patch.T
    if kind == "value":
        out = val
    elif kind == "grad":
        out = grad
    elif kind == "ndot":
        out = grad @ n
    elif kind == "div":
        out = np.einsum("pbii->pb", grad)
    elif kind == "n":
        out = val @ n
    elif kind == "t":
        out = val @ T.T
    elif kind == "nn":
        out = np.einsum("pbij,i,j->pb", val, n, n)
    elif kind == "tt":
        out = np.einsum("pbij,ki,lj->pbkl", val, T, T)
    elif kind == "tn":
        out = np.einsum("pbij,ki,j->pbk", val, T, n)
    return out.reshape(val.shape[0], val.shape[1], -1)


def physical(e, geo, fid, ps, order):
    d = geo.dim
    t = values(e, order, ps, (d - 1, fid), cm=geo)
    for v in t.values():
        require(not isinstance(v, Exception), "tabulation failed %r", v)
    push = lambda v: np.moveaxis(G.push_forward(np.moveaxis(v, 0, -1), e.mapping, geo.A), -1, 0)
    val = push(t[(0,) * d])
    grad = None
    if order:
        g = [push(t[tuple(int(i == j) for j in range(d))]) for i in range(d)]
        grad = np.stack(g, axis=-1) @ np.linalg.inv(geo.A)
    return val, grad


class C11(Check):
    id = "C11"
    quick = 8
    thorough = 250
    rule = ("A case is a conforming (or weakly conforming) element, a two-cell simplicial patch with random shape, vertex numbering "
            "(both orientations of each cell), length scales, and random coefficients; the two restrictions of the assembled function "
            "must agree across the facet in the promised sense at random points (or in the promised moments). Non-trivial: the trace "
            "is not identically zero.")
    assumptions = ["cells list their vertices in increasing global number (the numbering FIAT elements are built for)"]

    def configs(self, tier):
        out = []
        for s in C.zany_leaves(tier) + C.simple_leaves(tier):
            if s["el"] not in KIND or s["cell"] == "I" or s["cell"] not in "TK":
                continue
            if s["el"] in ("Bubble", "FacetBubble") and s["deg"] < 3:
                continue
            z = s["el"] in ("Argyris", "HsiehCloughTocher") or s["el"].startswith(("Quad", "Reduced", "Bell", "Hu", "Arnold"))
            big = s["cell"] == "K"
            out.append({"spec": s, "w": 0.5 if big else (1 if z else 0.6), "cost": 8 if big else 2})
        for e in ("RaviartThomas", "BrezziDouglasMarini", "Nedelec", "NedelecSecondKind", "Lagrange"):
            out.append({"spec": L(e, "K", 2), "w": 1, "cost": 5})
        seen, uniq = set(), []
        from vlib.core import canon
        for c in out:
            k = canon(c["spec"])
            if k not in seen:
                seen.add(k)
                uniq.append(c)
        return uniq

    def params(self, config):
        d = C.DIM[config["spec"]["cell"]]
        return st.fixed_dictionaries(dict(st_patch(d), pts=st.lists(G.st_cell_point("PIT"[d - 1]), min_size=1, max_size=3),
                                          seed=st.integers(0, 10**6)))

    def run(self, config, p):
        spec = config["spec"]
        d = C.DIM[spec["cell"]]
        patch = Patch(d, p)
        e = C.build(spec)
        kinds = KIND[spec["el"]]
        need = 1 if any(k in ("grad", "div", "moment:ndot", "vertex:grad") for k in kinds) else 0
        n = int(e.space_dimension())
        ed = e.entity_dofs()
        rng = np.random.default_rng(p["seed"])
        c0, c1 = rng.uniform(-1, 1, n), rng.uniform(-1, 1, n)
        for k, i, j in patch.shared:
            require(len(ed[k][i]) == len(ed[k][j]), "entities of dimension %d have different numbers of dofs", k)
            for a, b in zip(ed[k][i], ed[k][j]):
                c1[b] = c0[a]
        coefs = (c0, c1)
        fcn = "PIT"[d - 1]
        nontrivial = False
        for kind in kinds:
            if kind.startswith("moment:"):
                base, q = kind[7:], moment_degree(spec, kind)
                import FIAT
                rule = FIAT.create_quadrature(C.cell(fcn), 2 * 8)
                pts, wts = np.array(rule.get_points()), np.array(rule.get_weights())
            elif kind.startswith("vertex:"):
                base = kind[7:]
                pts = np.array(C.cell(fcn).get_vertices(), dtype=float)
            else:
                base = kind
                pts = np.array([G.cell_point(fcn, w) for w in p["pts"]]).reshape(len(p["pts"]), d - 1)
            vals = []
            scale = 1.0
            for (geo, vs, fid), c in zip(patch.cells, coefs):
                val, grad = physical(e, geo, fid, G.PointSet(pts), need)
                t = traces(base, val, grad, patch)
                scale = max(scale, float(np.max(np.abs(t))))
                vals.append(np.einsum("b,pbk->pk", c, t))
            if kind.startswith("moment:"):
                mons = [np.ones(len(pts))]
                if q >= 1:
                    L_ = pts
                    from itertools import product
                    mons = [np.prod(L_ ** np.array(a), axis=1) for a in product(range(q + 1), repeat=d - 1) if sum(a) <= q]
                vals = [np.array([(wts * m) @ v for m in mons]) for v in vals]
            err = np.max(np.abs(vals[0] - vals[1]))
            require(err <= 1e-7 * scale * max(1, n), "%s jumps by %.3e across the shared facet (traces up to %.3e)", kind, err, scale)
            nontrivial = nontrivial or bool(np.max(np.abs(vals[0])) > 1e-7)
        dets = sorted(np.linalg.det(g.A) > 0 for g, _, _ in patch.cells)
        return {"el:" + spec["el"], "cell:" + spec["cell"], "orient:%d%d" % tuple(dets), "sym:%s" % p["sym"]} if nontrivial else False


CHECK = C11()
