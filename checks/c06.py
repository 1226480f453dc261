"""C06 H(div) / H(curl) wrappers."""
import numpy as np
from hypothesis import strategies as st
import finat

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib import specs as S
from vlib.core import Check, require, close, rejects
from vlib.catalogue import L
from vlib.tab import tab_values
from checks.comp import check_meta, check_tabulation, labels, st_eval, norm_ed


def facet_axes(cn, ent):
    """(normal vector, tangent vectors) of a facet of a product cell."""
    V = M.entity_vertices(cn, ent)
    d = V.shape[1]
    u, s, vt = np.linalg.svd(V[1:] - V[0], full_matrices=True)
    r = int(np.sum(s > 1e-10))
    return vt[r:], vt[:r]


def check_conformity(spec, e, kind, wts):
    """Basis functions not in the closure of a facet have no trace on it."""
    cn = M.cname(spec)
    c = C.cell(cn)
    n = M.space_dim(spec)
    vs = M.value_shape(spec)
    closure = e.entity_closure_dofs()
    top = c.get_topology()
    sd = c.get_spatial_dimension()
    seen = False
    for d, ents in top.items():
        k = sum(d) if isinstance(d, tuple) else d
        if k != sd - 1:
            continue
        for i in ents:
            ecn = G.entity_cellname(cn, d)
            ps, pts = G.pointset(ecn, {"k": "set", "p": wts[ecn]})
            v = tab_values(e, e.basis_evaluation(0, ps, (d, i)), ps)[(0,) * sd]
            v = v.reshape((len(pts), n) + vs)
            nrm, tan = facet_axes(cn, (d, i))
            if kind == "HDiv":
                t = np.einsum("pni,ki->pnk", v, nrm)
            elif kind == "HCurl":
                t = np.einsum("pni,ki->pnk", v, tan)
            else:
                t = v.reshape(len(pts), n, -1)
            inside = set(closure[d][i])
            for j in range(n):
                if j not in inside:
                    require(np.max(np.abs(t[:, j])) < 1e-9, "basis function %d is not in the closure of facet %s but has trace %s on it",
                            j, (d, i), t[:, j].tolist())
                else:
                    seen = True
    return seen


class C06(Check):
    id = "C06"
    quick = 90
    thorough = 1500
    rule = ("A case is (generated H(div)/H(curl) wrapper over an admissible tensor product, or an enriched RTC/N-type sum of two, "
            "optionally flattened; entity; point set; derivative order 0-2). Metadata, layout and tables are compared with the model "
            "and with FIAT's own Hdiv/Hcurl; for conforming factors, basis functions outside the closure of a facet must have zero "
            "normal (resp. tangential) trace there. Invalid wrappees must be refused. Non-trivial: some table is nonzero.")
    assumptions = ["FIAT's tabulate() on the leaves is the reference semantics"]

    def configs(self, tier):
        out = []
        for cn in ("IxI", "TxI", "QxI"):
            for k in ("HDiv", "HCurl"):
                out.append({"kind": "single", "cell": cn, "space": k, "w": 0.5 if cn == "QxI" else 1, "cost": 5 if cn == "QxI" else 1})
                out.append({"kind": "conf", "cell": cn, "space": k, "w": 0.3 if cn == "QxI" else 0.5, "cost": 5 if cn == "QxI" else 1})
            out.append({"kind": "refuse", "cell": cn, "w": 0.3})
        for k in ("HDiv", "HCurl"):
            out.append({"kind": "sum", "cell": "IxI", "space": k})
        out.append({"kind": "flat", "cell": "Q", "space": "any"})
        return out

    def params(self, config):
        cn, k = config["cell"], config["kind"]
        if k == "conf":
            # conforming wrappers: every factor is conforming
            sp = config["space"]
            deg = st.integers(1, 2)
            cg = lambda q: st.sampled_from([L("Lagrange", "I", q), L("GaussLobattoLegendre", "I", q), L("IntegratedLegendre", "I", q)])
            dg = lambda q: st.sampled_from([L("DiscontinuousLagrange", "I", q - 1), L("GaussLegendre", "I", q - 1), L("Legendre", "I", q - 1)])
            if cn == "IxI":
                b = deg.flatmap(lambda q: st.one_of(S.tpe(cg(q), dg(q)), S.tpe(dg(q), cg(q))))
            elif cn == "TxI":
                if sp == "HDiv":
                    b = deg.flatmap(lambda q: st.one_of(S.tpe(st.just(L("DiscontinuousLagrange", "T", q - 1)), cg(q)),
                                                        S.tpe(st.sampled_from([L(e, "T", q) for e in ("RaviartThomas", "Nedelec", "BrezziDouglasMarini", "NedelecSecondKind")]), dg(q))))
                else:
                    b = deg.flatmap(lambda q: st.one_of(S.tpe(st.just(L("Lagrange", "T", q)), dg(q)),
                                                        S.tpe(st.sampled_from([L(e, "T", q) for e in ("RaviartThomas", "Nedelec", "BrezziDouglasMarini", "NedelecSecondKind")]), cg(q))))
            else:
                cgq = lambda q: {"el": "Flat", "of": {"el": "TPE", "factors": [L("Lagrange", "I", q)] * 2}}
                dgq = lambda q: {"el": "Flat", "of": {"el": "TPE", "factors": [L("DiscontinuousLagrange", "I", q - 1)] * 2}}
                if sp == "HDiv":
                    b = deg.flatmap(lambda q: st.one_of(S.tpe(st.just(dgq(q)), cg(q)), S.tpe(S.quad_vec(), dg(q))))
                else:
                    b = deg.flatmap(lambda q: st.one_of(S.tpe(st.just(cgq(q)), dg(q)), S.tpe(S.quad_vec(), cg(q))))
            spec = b.map(lambda t: {"el": sp, "of": t})
            ws = {f: st.lists(G.st_cell_point(f), min_size=2, max_size=3) for f in {"IxI": ["PxI", "IxP"], "TxI": ["IxI", "TxP"], "QxI": ["IxI", "QxP"]}[cn]}
            return st.fixed_dictionaries({"spec": spec, "w": st.fixed_dictionaries(ws)})
        if k == "refuse":
            return st.fixed_dictionaries({"spec": S.scalar(cn)})
        if k == "single":
            spec = (S.hdiv_tpe if config["space"] == "HDiv" else S.hcurl_tpe)(cn)
        elif k == "sum":
            spec = S.enriched_quad_vec_plain(config["space"])
        else:
            spec = S.quad_vec()
        return st.fixed_dictionaries({"spec": spec, "ev": st_eval(cn, 2)})

    def run(self, config, p):
        spec = p["spec"]
        e = C.build(spec)
        if config["kind"] == "refuse":
            k = M.formdegree(spec)
            n = M.dim_of(spec)
            if k != n - 1:
                rejects(finat.HDivElement, e, what="form degree %r wrapped as H(div)" % k)
            if k != 1:
                rejects(finat.HCurlElement, e, what="form degree %r wrapped as H(curl)" % k)
            return {"refuse"} if k not in (1, n - 1) else False
        if config["kind"] == "conf":
            check_meta(spec, e)
            ok = check_conformity(spec, e, config["space"], p["w"])
            return {"conformity", "el:" + config["space"]} if ok else False
        check_meta(spec, e)
        ok = check_tabulation(spec, e, p["ev"])
        # second oracle: FIAT's own wrappers
        fe = M.fiat_of(spec)
        if fe is None:
            return labels(spec, p["ev"]) if ok else False
        ent = G.ent_parse(p["ev"]["ent"])
        cn = M.cname(spec)
        ecn = cn if ent is None else G.entity_cellname(cn, ent[0])
        ps, pts = G.pointset(ecn, p["ev"]["ps"])
        o = min(p["ev"]["order"], 1)
        want = fe.tabulate(o, pts, ent)
        got = tab_values(e, e.basis_evaluation(o, ps, ent), ps)
        n = M.space_dim(spec)
        vs = M.value_shape(spec)
        for a, w in want.items():
            w = np.moveaxis(np.asarray(w), -1, 0).reshape((len(pts), n) + vs)
            close(got[a].reshape(w.shape), w, rtol=1e-8, atol=1e-9, what="D%s against FIAT" % (a,))
        require(norm_ed(e.entity_dofs()) == norm_ed(fe.entity_dofs()), "entity_dofs differ from FIAT")
        return (labels(spec, p["ev"]) | {"fiat-oracle"}) if ok else False


CHECK = C06()
