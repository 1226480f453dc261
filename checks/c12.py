"""C12 length scales of physically mapped elements."""
import numpy as np
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib.core import Check, Discard, require, close
from vlib.gemeval import geval
from vlib.tab import values
from checks.comp import st_eval


def factors(spec, e, h):
    """Expected positive factor of each basis function, from the order of
    derivative of its degree of freedom."""
    el = spec["el"]
    n = int(e.space_dimension())
    f = np.ones(n)
    ed = e.entity_dofs()
    d = C.DIM[spec["cell"]]
    if el in ("Argyris", "Bell"):
        powers = [0, 1, 1, 2, 2, 2]
    elif el in ("Hermite", "HsiehCloughTocher", "ReducedHsiehCloughTocher", "QuadraticPowellSabin6", "QuadraticPowellSabin12"):
        powers = [0] + [1] * d
    elif el in ("ArnoldWinther", "HuZhang"):
        powers = [2] * 3
    else:
        powers = None
    if powers is not None:
        for v, dofs in ed[0].items():
            require(len(dofs) == len(powers), "vertex %d has dofs %s", v, dofs)
            for k, q in zip(dofs, powers):
                f[k] = h[v] ** -float(q)
    if el == "Morley" or (el == "Argyris" and spec.get("kw", {}).get("variant") == "point"):
        top = C.cell(spec["cell"]).get_topology()
        for i, dofs in ed[1].items():
            a, b = top[1][i]
            for k in dofs:
                f[k] = 2.0 / (h[a] + h[b])
    return f


class C12(Check):
    id = "C12"
    quick = 24
    thorough = 300
    rule = ("A case is a physically mapped element, a random affine cell and a random positive length scale per vertex. The table with these "
            "length scales must be the table with unit ones, each function times the factor given by its degree of freedom (inverse power "
            "of the vertex length per derivative order, inverse mean length on edges, one otherwise), for values and derivatives at random "
            "points and entities. Non-trivial: the length scales are not all equal and the table is nonzero.")

    def configs(self, tier):
        out = []
        for s in C.zany_leaves(tier):
            uses = not s["el"].startswith(("Guzman", "Johnson", "Alfeld", "Christiansen", "Bernardi", "Mardal"))
            big = s["cell"] == "K" and not uses
            out.append({"spec": s, "w": 1 if uses else 0.2, "cost": 6 if big else 2})
        return out

    def params(self, config):
        s = config["spec"]
        d = M.dim_of(s)
        return st.fixed_dictionaries({"A": G.st_affine(d, scale=(4, 20)), "sym": st.booleans(),
                                      "ev": st.one_of(st.none(), st.none(), st.none(), st_eval(s["cell"], 1, allow=("set",))),
                                      "h": st.lists(st.integers(1, 40), min_size=d + 1, max_size=d + 1)})

    def run(self, config, p):
        spec = config["spec"]
        d = M.dim_of(spec)
        A, b = G.affine(d, p["A"])
        if np.linalg.cond(A) > 4:
            raise Discard
        e = C.build(spec)
        h = np.array(p["h"]) / 8.0
        ev = p["ev"]
        if ev is None:
            return self.run_matrix(spec, d, A, b, e, h, p)
        if spec["el"] == "HuZhang" and spec["deg"] > 3:
            ev = dict(ev, order=0)
        ent = G.ent_parse(ev["ent"])
        ecn = spec["cell"] if ent is None else G.entity_cellname(spec["cell"], ent[0])
        ps, pts = G.pointset(ecn, ev["ps"])
        geo = G.AffineGeometry(d, A, b, h=h, symbolic=p["sym"])
        got = values(e, ev["order"], ps, ent, cm=geo)
        one = values(e, ev["order"], ps, ent, cm=G.AffineGeometry(d, A, b, symbolic=p["sym"]))
        f = factors(spec, e, h)
        nz = False
        for a in one:
            w = one[a] * f.reshape((1, -1) + (1,) * (one[a].ndim - 2))
            # compare function by function: the factors span many magnitudes
            s = np.max(np.abs(w), axis=tuple(k for k in range(w.ndim) if k != 1), keepdims=True)
            s = np.where(s > 1e-12, s, 1.0)
            close(got[a] / s, w / s, rtol=1e-9, atol=1e-9, what="D%s with length scales %s (normalised)" % (a, list(h)))
            nz = nz or bool(np.any(np.abs(one[a]) > 1e-9))
        if not nz or len(set(p["h"])) == 1:
            return False
        return {"el:" + spec["el"], "cell:" + spec["cell"], "scaled" if np.any(f != 1) else "unscaled"}

    @staticmethod
    def run_matrix(spec, d, A, b, e, h, p):
        """The same on the transformation matrix alone, which is much cheaper
        than unrolling it into tables."""
        mats = []
        for hh in (h, None):
            geo = G.AffineGeometry(d, A, b, h=hh, symbolic=p["sym"])
            m = e.basis_transformation(geo)
            mats.append(np.asarray(geval(m, (), bindings=geo.bindings), dtype=float))
        got, one = mats
        f = factors(spec, e, h)
        require(got.shape[0] == len(f), "transformation has shape %s for %d functions", got.shape, len(f))
        w = one * f[:, None]
        s = np.max(np.abs(w), axis=1, keepdims=True)
        s = np.where(s > 1e-12, s, 1.0)
        close(got / s, w / s, rtol=1e-9, atol=1e-10, what="transformation with length scales %s (rows normalised)" % (list(h),))
        if len(set(p["h"])) == 1:
            return False
        return {"el:" + spec["el"], "cell:" + spec["cell"], "matrix", "scaled" if np.any(f != 1) else "unscaled"}


CHECK = C12()
