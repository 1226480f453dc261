"""C27 nodal enrichment."""
import FIAT
import finat
import numpy as np
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib.catalogue import L
from vlib.core import Check, Discard, require, rejects, close
from vlib.tab import tab_values
from checks.comp import norm_ed, eval_points, st_eval


def R(s, dom):
    return {"el": "Restricted", "of": s, "domain": dom}


DOM = {"I": ["interior", "vertex", "facet"], "T": ["interior", "facet", "vertex", "edge"], "K": ["interior", "facet", "vertex", "edge", "face"]}


def sums(cn):
    """Lists of nodal parts with (usually) independent functions."""
    lo = {"I": 1, "T": 2, "K": 3}[cn]
    top = {"I": 5, "T": 4, "K": 3}[cn]
    d = G.point_dim(cn)

    def lag(k):
        return st.sampled_from([L("Lagrange", cn, k), L("Lagrange", cn, k, variant="equispaced"), L("GaussLobattoLegendre", cn, k)])
    bub = st.integers(d + 1, d + 3 if d < 3 else 4).map(lambda k: L("Bubble", cn, k))
    pb = st.tuples(st.integers(1, lo).flatmap(lag), bub).map(list)
    opts = [pb, pb.map(lambda l: l[::-1])]
    # a space taken apart and put together
    full = st.integers(d + 1, top + 1 if d < 3 else 4).flatmap(lag)
    fams = {"I": [], "T": ["RaviartThomas", "Nedelec", "BrezziDouglasMarini", "NedelecSecondKind", "Regge"], "K": ["RaviartThomas", "Nedelec"]}[cn]
    if fams:
        vec = st.tuples(st.sampled_from(fams), st.integers(2, 3 if d < 3 else 2)).map(
            lambda t: L(t[0], cn, t[1]) if t[0] != "Regge" else L("Regge", cn, 1))
        full = st.one_of(full, vec)
    opts.append(st.tuples(full, st.booleans()).map(lambda t: [R(t[0], "interior"), R(t[0], "facet")][::1 if t[1] else -1]))
    # vertex functions and bubbles of different degrees
    opts.append(st.tuples(st.integers(1, lo + 1).flatmap(lag).map(lambda s: R(s, "vertex")), bub).map(list))
    if d > 1:
        opts.append(st.tuples(lag(1), st.just(L("FacetBubble", cn, d))).map(list))
        opts.append(st.tuples(lag(1), st.just(L("FacetBubble", cn, d)), st.just(L("Bubble", cn, d + 1))).map(list))
    # anything
    any_ = st.one_of(st.integers(0, lo).map(lambda k: L("DiscontinuousLagrange", cn, k)), st.integers(1, lo + 1).flatmap(lag), bub,
                     st.tuples(full, st.sampled_from(DOM[cn])).map(lambda t: R(t[0], t[1])))
    opts.append(st.lists(any_, min_size=2, max_size=3))
    return st.one_of(*opts)


def fiat(s):
    if s["el"] == "Restricted":
        return FIAT.RestrictedElement(fiat(s["of"]), restriction_domain=s["domain"])
    return C.build_fiat(s)


def functionals(parts, vs):
    pts, where, rows = [], {}, []
    for f in parts:
        for n in f.dual_basis():
            if len(n.deriv_dict):
                raise Discard
            rows.append(n)
            for p in n.pt_dict:
                if p not in where:
                    where[p] = len(pts)
                    pts.append(p)
    W = np.zeros((len(rows), len(pts)) + vs)
    for i, n in enumerate(rows):
        for p, terms in n.pt_dict.items():
            for w, cmp in terms:
                W[(i, where[p]) + tuple(cmp)] += w
    return np.array(pts, dtype=float).reshape(len(pts), -1), W


class C27(Check):
    id = "C27"
    quick = 110
    thorough = 1500
    rule = ("A case is a list of nodal parts on one cell (Lagrange variants, bubbles, facet bubbles, restrictions of scalar, vector and "
            "matrix-valued elements) and an evaluation. From the parts' FIAT functionals and tables the nodal basis of the sum is computed "
            "with numpy; the element must reproduce it and its derivatives, carry the parts' functionals in order, and concatenate the "
            "layouts. Dependent, incompatible or non-nodal parts must be refused. Non-trivial: a compared table is not zero, or a refusal.")
    assumptions = ["FIAT's functionals on the parts define the degrees of freedom", "well-separated parts (condition number below 1e8)"]

    def configs(self, tier):
        return [{"cell": "I", "w": 1}, {"cell": "T", "w": 2, "cost": 3}, {"cell": "K", "w": 0.8, "cost": 5}, {"cell": "bad", "w": 0.4}]

    def params(self, config):
        cn = config["cell"]
        if cn == "bad":
            return st.fixed_dictionaries({"what": st.sampled_from(["twice", "cells", "shapes", "bernstein", "tensor", "mapping", "product"]),
                                          "cell": st.sampled_from("IT"), "k": st.integers(1, 2)})
        return st.fixed_dictionaries({"of": sums(cn), "ev": st_eval(cn, 2)})

    def run(self, config, p):
        if config["cell"] == "bad":
            return self.bad(p)
        cn, of = config["cell"], p["of"]
        try:
            fs = [fiat(s) for s in of]
            es = [C.build(s) for s in of]
        except (ValueError, RuntimeError):
            raise Discard               # nothing left by a restriction
        if len({tuple(f.value_shape()) for f in fs}) > 1 or len({m for f in fs for m in f.mapping()}) > 1:
            rejects(finat.NodalEnrichedElement, es, what="parts of different kinds")
            return {"refused"}
        vs = tuple(fs[0].value_shape())
        X, W = functionals(fs, vs)
        d = X.shape[1]
        n = sum(f.space_dimension() for f in fs)
        T = np.concatenate([np.moveaxis(np.asarray(f.tabulate(0, X)[(0,) * d]), -1, 1) for f in fs])
        V = np.einsum("im...,jm...->ijm...", W, T).reshape(n, n, -1).sum(-1)
        cond = np.linalg.cond(V)
        if cond > 1e13:
            rejects(finat.NodalEnrichedElement, es, what="dependent parts")
            return {"refused:dependent"}
        if cond > 1e8:
            raise Discard
        A = np.linalg.inv(V).T           # e_i = sum_j A[i, j] part_j
        if len({f.get_nodal_basis().get_embedded_degree() for f in fs}) == 0:
            raise Discard
        e = finat.NodalEnrichedElement(es)
        require(int(e.space_dimension()) == n and tuple(e.index_shape) == (n,), "dimension %s, expected %d", e.space_dimension(), n)
        require(tuple(e.value_shape) == vs, "value shape %s, expected %s", e.value_shape, vs)
        require(e.mapping == es[0].mapping and e.cell == es[0].cell, "mapping %s on %s", e.mapping, e.cell)
        require(e.degree == max(x.degree for x in es), "degree %s, parts %s", e.degree, [x.degree for x in es])
        want = {k: {i: [] for i in v} for k, v in norm_ed(es[0].entity_dofs()).items()}
        o = 0
        for x in es:
            for k, v in norm_ed(x.entity_dofs()).items():
                for i, dofs in v.items():
                    want[k][i] += [o + q for q in dofs]
            o += int(x.space_dimension())
        require({k: {i: sorted(q) for i, q in v.items()} for k, v in norm_ed(e.entity_dofs()).items()} ==
                {k: {i: sorted(q) for i, q in v.items()} for k, v in want.items()}, "entity dofs %s, expected %s", e.entity_dofs(), want)
        ent, ps, pts = eval_points(cn, p["ev"])
        order = p["ev"]["order"]
        got = tab_values(e, e.basis_evaluation(order, ps, ent), ps)
        tabs = [f.tabulate(order, pts) for f in fs]
        require(set(got) == set(tabs[0]), "derivative keys %s", sorted(got))
        nz = False
        for a in got:
            t = np.concatenate([np.moveaxis(np.asarray(x[a]), -1, 0) for x in tabs], axis=1)
            w = np.einsum("ij,pj...->pi...", A, t)
            m = max(1.0, float(np.max(np.abs(w))))
            close(got[a] / m, w / m, rtol=1e-7, atol=1e-7, what="D%s of the nodal sum" % (a,))
            nz = nz or bool(np.any(np.abs(w) > 1e-10))
        # its own functionals are those of the parts, in order
        Q, x = e.dual_basis
        from vlib.gemeval import geval
        Y = np.asarray(x.points, dtype=float)
        q = geval(Q, x.indices).reshape((len(Y), n, -1))
        t = np.concatenate([np.moveaxis(np.asarray(f.tabulate(0, Y)[(0,) * d]), -1, 0) for f in fs], axis=1).reshape(len(Y), n, -1)
        close(np.einsum("piv,pjv->ij", q, t), V, rtol=1e-8, atol=1e-8, what="functionals of the sum on the parts")
        return ({"cell:" + cn, "order%d" % order} | {"part:" + (s["el"] if s["el"] != "Restricted" else "R(%s)" % s["of"]["el"]) for s in of}) if nz else False

    def bad(self, p):
        w, c, k = p["what"], p["cell"], p["k"]
        a = C.build(L("Lagrange", c, k))
        o = {"I": "T", "T": "K"}[c]
        if w == "twice":
            l = [a, C.build(L("Lagrange", c, k + 1))]
        elif w == "cells":
            l = [a, C.build(L("Lagrange", o, k))]
        elif w == "shapes":
            l = [C.build(L("Lagrange", "T", k)), C.build(L("RaviartThomas", "T", k))]
        elif w == "bernstein":
            l = [a, C.build(L("Bernstein", c, k + 3))]
        elif w == "tensor":
            l = [a, finat.TensorFiniteElement(C.build(L("Bubble", c, 4)), (2,))]
        elif w == "mapping":
            l = [C.build(L("RaviartThomas", "T", k)), C.build(L("Nedelec", "T", k))]
        else:
            i = C.build(L("Lagrange", "I", k))
            l = [finat.TensorProductElement([i, i, i]), finat.TensorProductElement([i, i, i])]
        rejects(finat.NodalEnrichedElement, l, what="nodal enrichment: " + w)
        return {"bad:" + w}


CHECK = C27()
