"""C10 physically mapped elements against FIAT on the physical cell."""
from itertools import product

import numpy as np
from FIAT.polynomial_set import mis
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib.catalogue import L
from vlib.core import Check, Discard, require, close
from vlib.tab import values
from checks.comp import st_eval

AVG = ("Argyris", "HsiehCloughTocher", "QuadraticPowellSabin12")


def fiat_on(spec, phys):
    return C.FIAT_BUILD[spec["el"]](phys, spec["deg"], **spec.get("kw", {}))


def pullback_derivs(t, A, order, d):
    """Physical derivative tables {alpha: array} -> reference derivatives."""
    out = {}
    dirs = range(d)
    for k in range(order + 1):
        for a in mis(d, k):
            seq = [i for i in dirs for _ in range(a[i])]    # X directions
            acc = 0
            for js in product(dirs, repeat=k):
                coef = 1.0
                for i, j in zip(seq, js):
                    coef = coef * A[j, i]
                b = tuple(js.count(j) for j in dirs)
                acc = acc + coef * t[b]
            out[tuple(a)] = acc
    return out


def physical_table(e, spec, order, ev, geo):
    """(FInAT table pushed forward, reference points of the cell)."""
    cn = spec["cell"]
    ent = G.ent_parse(ev["ent"])
    ecn = cn if ent is None else G.entity_cellname(cn, ent[0])
    ps, pts = G.pointset(ecn, ev["ps"])
    got = values(e, order, ps, ent, cm=geo)
    out = {}
    for a, t in got.items():
        require(not isinstance(t, Exception), "tabulation failed: %r", t)
        v = np.moveaxis(t, 0, -1)
        out[a] = G.push_forward(v, e.mapping, geo.A)
    return out, M.embed(cn, ent, pts)


def cellwise(spec, seed_geo):
    pass


class C10(Check):
    id = "C10"
    quick = 14
    thorough = 250
    rule = ("A case is a physically mapped element, a random well-conditioned affine cell (rotated, stretched, shifted, possibly reflected; "
            "literal or symbolic geometry), an entity, a point set and a derivative order 0-2. Transformed and pushed-forward tables must "
            "equal FIAT's nodal basis built directly on the physical cell (cell size 1); with the non-averaged option edge functions are "
            "divided by the edge length. Non-trivial: the cell is not the reference cell and the table is nonzero.")
    assumptions = ["FIAT's element on the physical cell is the definition of the degrees of freedom",
                   "the geometry object follows the documented contract (physical normals are tangents rotated clockwise)"]

    def configs(self, tier):
        out = []
        for s in C.zany_leaves(tier):
            big = s["cell"] == "K" and s["el"].startswith(("Guzman", "Johnson", "Alfeld", "Christiansen"))
            hz = s["el"] == "HuZhang"
            out.append({"spec": s, "w": 0.35 if big else {3: 0.7, 4: 0.5}.get(s["deg"], 0.35) if hz else 1, "cost": 9 if big or hz else 5 if s["cell"] == "K" else 2})
        for e in ("Regge", "HellanHerrmannJohnson", "GopalakrishnanLedererSchoberlFirstKind", "GopalakrishnanLedererSchoberlSecondKind"):
            for c in "TK":
                out.append({"spec": L(e, c, 1), "w": 0.5})
        return out

    def params(self, config):
        s = config["spec"]
        d = M.dim_of(s)
        return st.fixed_dictionaries({"A": G.st_affine(d, scale=(4, 20)), "sym": st.booleans(), "ev": st_eval(s["cell"], 2)})

    def run(self, config, p):
        spec = config["spec"]
        d = M.dim_of(spec)
        A, b = G.affine(d, p["A"])
        if np.linalg.cond(A) > 4:
            raise Discard
        e = C.build(spec)
        geo = G.AffineGeometry(d, A, b, symbolic=p["sym"])
        order = p["ev"]["order"]
        if config.get("cost") == 9 and (spec["cell"] == "K" or spec["deg"] > 4):
            order = min(order, 1)
        got, X = physical_table(e, spec, order, p["ev"], geo)
        fe = fiat_on(spec, geo.phys)
        x = X @ A.T + b
        t = fe.tabulate(order, x)
        want = pullback_derivs({a: np.asarray(v) for a, v in t.items()}, A, order, d)
        n = int(e.space_dimension())
        scale = np.ones(n)
        if spec["el"] in AVG and spec.get("kw", {}).get("avg") is False:
            lengths = [np.linalg.norm(geo.verts[j] - geo.verts[i]) for _, (i, j) in sorted(C.cell("T").get_topology()[1].items())]
            for i, dofs in e.entity_dofs()[1].items():
                for k in self.integral_dofs(spec, dofs):
                    scale[k] = 1.0 / lengths[i]
        require(set(got) == set(want), "derivative keys %s", sorted(got))
        for a in want:
            w = want[a][:n] * scale.reshape((n,) + (1,) * (want[a].ndim - 1))
            m = max(1.0, float(np.max(np.abs(w))))
            close(got[a] / m, w / m, rtol=1e-7, atol=1e-7, what="D%s pushed forward" % (a,))
        if not any(np.any(np.abs(want[a][:n]) > 1e-9) for a in want):
            return False
        return {"el:" + spec["el"], "cell:" + spec["cell"], "order%d" % order, "reflected" if np.linalg.det(A) < 0 else "proper",
                "symbolic" if p["sym"] else "literal", "entity:%s" % (p["ev"]["ent"] and p["ev"]["ent"][0])}

    @staticmethod
    def integral_dofs(spec, dofs):
        """Edge dofs that are normal derivative averages (the remaining ones
        are moments of the tangential derivative or of the trace, which carry
        no length scale)."""
        eorder = {"Argyris": spec["deg"] - 5, "HsiehCloughTocher": spec["deg"] - 3}.get(spec["el"], 0)
        return list(dofs)[:eorder + 1]


CHECK = C10()
