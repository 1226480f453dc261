"""C07 entity layout: partition, closure, support, discontinuous."""
from itertools import product

import numpy as np
from hypothesis import strategies as st
import finat

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib import specs as S
from vlib.catalogue import L
from vlib.core import Check, require, close
from vlib.tab import tab_values
from checks.comp import check_meta, check_tabulation, labels, norm_ed, st_eval, check_mapped_composite, geometry, same_shape, st_geo, st_zany


def closure_ids(c, dofs):
    """Oracle: an entity's closure is every entity whose vertices it contains."""
    top = {d: {i: frozenset(v) for i, v in ents.items()} for d, ents in c.get_topology().items()}
    out = {}
    for d, ents in top.items():
        for i, vs in ents.items():
            out[d, i] = sorted(x for dd, ee in top.items() for j, ws in ee.items() if ws <= vs for x in dofs[dd][j])
    return out


def check_layout(e):
    """Partition and closure; returns the number of entities carrying dofs."""
    c = e.cell
    ed = norm_ed(e.entity_dofs())
    top = c.get_topology()
    require(set(ed) == set(top), "entity_dofs has dimensions %s, the cell has %s", sorted(ed), sorted(top))
    n = int(e.space_dimension())
    require(n == int(np.prod(e.index_shape, dtype=int)), "space_dimension %s but index_shape %s", n, e.index_shape)
    seen = []
    for d in top:
        require(set(ed[d]) == set(top[d]), "entity_dofs[%s] lists entities %s, the cell has %s", d, sorted(ed[d]), sorted(top[d]))
        for i in top[d]:
            seen += ed[d][i]
    require(sorted(seen) == list(range(n)), "entity_dofs is not a partition of 0..%d: %s", n - 1, sorted(seen))
    cl = norm_ed(e.entity_closure_dofs())
    want = closure_ids(c, ed)
    for (d, i), w in want.items():
        require(cl[d][i] == w, "entity_closure_dofs[%s][%s] = %s, expected %s", d, i, cl[d][i], w)
    require({(d, i) for d in cl for i in cl[d]} == set(want), "entity_closure_dofs has other entities than the cell")
    return sum(1 for d in ed for x in ed[d].values() if x)


def lattice(ecn, n=5):
    """Interior lattice points, fine enough to meet every sub-cell of the
    split complexes in use."""
    if "x" in ecn:
        return [np.concatenate(t) for t in product(*[lattice(c, n) for c in ecn.split("x")])]
    if ecn in "QH":
        return [np.concatenate(t) for t in product(*[lattice("I", n)] * G.point_dim(ecn))]
    if ecn == "P":
        return [np.zeros(0)]
    d = G.point_dim(ecn)
    n = 3 * n if d < 3 else 2 * n
    return [np.array(t[1:]) for t in ((n - sum(s),) + s for s in product(range(n + 1), repeat=d) if sum(s) <= n)
            for t in [tuple((k + 0.2 / (i + 1)) / (n + sum(0.2 / (j + 1) for j in range(d + 1))) for i, k in enumerate(t))]]


def support_oracle(spec, ent, wts):
    """Largest magnitude of every basis function on the entity."""
    cn = M.cname(spec)
    ecn = G.entity_cellname(cn, ent[0])
    pts = np.array([G.cell_point(ecn, w) for w in wts] + lattice(ecn))
    X = M.embed(cn, ent, pts)
    v = M.tabulate(spec, 0, X)[(0,) * X.shape[1]]
    v = np.abs(v.reshape((len(X), M.space_dim(spec), -1)))
    return v.max(axis=(0, 2))


class C07(Check):
    id = "C07"
    quick = 150
    thorough = 1500
    rule = ("A case is a generated element (every catalogue leaf incl. physically mapped ones, or a nested composite) with random "
            "sample points on every entity. Checked: entity_dofs partitions 0..n-1 over exactly the cell's entities; closures against "
            "vertex-set inclusion; support sets against the numpy model (max |phi| on the entity over max |phi| on the cell: > 1e-2 must be in, < 1e-9 must be out); "
            "DiscontinuousElement against model, and of physically mapped elements against these on a generated cell. Non-trivial: several entities carry dofs or support was decided for a proper subset.")
    assumptions = ["a function whose largest sampled value on an entity is between 1e-9 and 1e-2 of its largest value on the cell is not judged there"]

    def configs(self, tier):
        out = [{"kind": "leaf", "spec": s} for s in C.simple_leaves(tier) + C.high_leaves(tier)
               if not (tier == "quick" and s["cell"] == "H" and s["el"].startswith("Trimmed"))]    # minutes of sympy
        out += [{"kind": "macro", "spec": L(e, c, d, variant="iso(%d)" % k)} for e in ("Lagrange",) for c in "IT" for d in (1, 2)
                for k in (3, 4)]
        out += [{"kind": "zany", "spec": s} for s in C.zany_leaves(tier)]
        for cn in S.CELLS + ["IxT"]:
            w = {"H": 0.4, "IxIxI": 0.4, "QxI": 0.6, "K": 0.4}.get(cn, 1)
            out.append({"kind": "any", "cell": cn, "w": w, "cost": 5})
        for cn in S.FOUR:
            out.append({"kind": "any", "cell": cn, "w": 0.1, "cost": 6})
        for cn, i in S.MAPPED:
            out.append({"kind": "zdisc", "cell": cn, "i": i, "w": {"T": 0.12, "K": 0.03}.get(cn, 0.05), "cost": 6})
        for cn in S.SMALL:
            out.append({"kind": "disc", "cell": cn, "w": 0.4, "cost": 3})
        return out

    def examples(self, config, tier):
        if config["kind"] in ("leaf", "zany", "macro"):
            return 1 if tier == "quick" else 3
        return super().examples(config, tier)

    def params(self, config):
        k = config["kind"]
        if k == "zdisc":
            cn = config["cell"]
            z, o = st_zany(cn)
            b = st.one_of(z, z, z.map(lambda s: {"el": "Vec", "of": s, "shape": [2], "transpose": False}), st.tuples(z, o).map(lambda t: same_shape(list(t))))
            return st.fixed_dictionaries({"spec": b.map(lambda s: {"el": "Disc", "of": s}), "ev": st_eval(cn, 1), "geo": st_geo(cn)})
        if k == "disc":
            cn = config["cell"]
            b = st.one_of(S.base(cn), S.vec_of(S.base(cn)), S.enriched_of(cn))
            return st.fixed_dictionaries({"spec": b.map(lambda s: {"el": "Disc", "of": s}), "ev": st_eval(cn, 1)})
        if k == "any":
            cn = config["cell"]
            spec = st.one_of(S.base(cn), S.vec_of(S.base(cn)), S.enriched_of(cn), S.any_spec(cn)) if cn != "IxT" and cn not in S.FOUR else \
                st.one_of(S.base(cn), S.enriched_of(cn, S.base(cn))) if cn in S.FOUR else \
                st.one_of(S.scalar(cn), S.vector(cn))
            return st.fixed_dictionaries({"spec": spec, "w": self.points(cn)})
        return st.fixed_dictionaries({"w": self.points(config["spec"]["cell"])})

    @staticmethod
    def points(cn):
        c = C.cell(cn)
        names = sorted({G.entity_cellname(cn, d) for d in c.get_topology()})
        return st.fixed_dictionaries({f: st.lists(G.st_cell_point(f), min_size=4, max_size=4) for f in names})

    def run(self, config, p):
        k = config["kind"]
        spec = p.get("spec") or config["spec"]
        e = C.build(spec)
        used = check_layout(e)
        if k == "zany":
            return {"layout", "el:" + spec["el"]}
        if spec["el"] == "HDivTrace":      # defined on the facets only
            sup, ed = norm_ed(e.entity_support_dofs()), norm_ed(e.entity_dofs())
            fd = e.cell.get_dimension() - 1
            for i in ed[fd]:
                require(sup[fd][i] == ed[fd][i], "entity_support_dofs[%s][%s] = %s, but the functions of this facet are %s", fd, i, sup[fd][i], ed[fd][i])
            return {"layout", "support", "el:" + spec["el"]}
        if k in ("disc", "zdisc"):
            check_meta(spec, e)
            inner = C.build(spec["of"])
            n = e.space_dimension()
            ed = norm_ed(e.entity_dofs())
            top = max(e.cell.get_topology(), key=lambda d: sum(d) if isinstance(d, tuple) else d)
            require(ed[top][0] == list(range(n)), "Discontinuous: interior dofs %s", ed[top])
            require(e.formdegree == M.dim_of(spec), "Discontinuous: formdegree %s", e.formdegree)
            if k == "zdisc":
                return check_mapped_composite(spec, e, p["ev"], geometry(config["cell"], p["geo"]))
            require(norm_ed(e.entity_support_dofs()) == norm_ed(inner.entity_support_dofs()), "Discontinuous: support sets differ from those of the wrapped element")
            return labels(spec, p["ev"]) if check_tabulation(spec, e, p["ev"]) else False
        n = e.space_dimension()
        sup = norm_ed(e.entity_support_dofs())
        proper = False
        big = {}
        for d, ents in e.cell.get_topology().items():
            ecn = G.entity_cellname(M.cname(spec), d)
            for i in ents:
                big[d, i] = support_oracle(spec, (d, i), p["w"][ecn])
        scale = np.max(list(big.values()), axis=0)
        for d, ents in e.cell.get_topology().items():
            for i in ents:
                m = big[d, i] / scale
                got = sup[d][i]
                require(got == sorted(set(got)) and (not got or (got[0] >= 0 and got[-1] < n)), "entity_support_dofs[%s][%s] = %s is not an increasing list of dofs", d, i, got)
                for j in range(n):
                    if m[j] > 1e-2:
                        require(j in got, "function %d reaches %.3g on entity %s but is not in its support set %s", j, m[j], (d, i), got)
                    elif m[j] < 1e-9:
                        require(j not in got, "function %d vanishes on entity %s but is in its support set %s", j, (d, i), got)
                        proper = True
                require(finat.finiteelementbase.entity_support_dofs(e, d)[i] == e.entity_support_dofs()[d][i], "entity_support_dofs helper differs")
        require({(d, i) for d in sup for i in sup[d]} == {(d, i) for d, ents in e.cell.get_topology().items() for i in ents},
                "entity_support_dofs has other entities than the cell")
        return {"support", "el:" + spec["el"], "cell:" + M.cname(spec)} if used > 1 or proper else False


CHECK = C07()
