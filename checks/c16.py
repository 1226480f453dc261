"""C16 restricted elements."""
import finat
import gem
import numpy as np
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib import specs as S
from vlib.core import Check, Discard, require, rejects, close
from vlib.tab import tab_values
from checks.comp import norm_ed, eval_points, st_eval

DOMAINS = ["interior", "facet", "face", "edge", "vertex"]
# FIAT offers no nodal basis to restrict for these
NOT_CIARLET = {"Bernstein", "Serendipity", "DPC", "HDivTrace", "TrimmedSerendipityFace", "TrimmedSerendipityDiv", "TrimmedSerendipityEdge",
               "TrimmedSerendipityCurl", "BrezziDouglasMariniCubeEdge", "BrezziDouglasMariniCubeFace"}


def names(spec):
    out = {spec["el"]}
    of = spec.get("of", spec.get("factors", []))
    for f in of if isinstance(of, list) else [of]:
        out |= names(f)
    return out


def dims_kept(domain, n):
    if domain == "interior":
        return {n}
    top = {"facet": n - 1, "face": 2, "edge": 1, "vertex": 0}[domain]
    return set(range(top + 1))


def total(d):
    return sum(d) if isinstance(d, tuple) else d


class C16(Check):
    id = "C16"
    quick = 40
    thorough = 200
    rule = ("A case is an element (every non-physically-mapped leaf, and generated products, flattened, enriched, mixed, vector/tensor-valued, "
            "H(div)/H(curl) and discontinuous composites), a restriction domain, and an evaluation (points, entity, derivative order). The "
            "restricted element must have, entity by entity, exactly the original's functions on the kept entities and none elsewhere, "
            "numbered 0..n-1, and be refused exactly if nothing is kept. Non-trivial: the restriction is proper and non-empty.")

    def configs(self, tier):
        out = [{"k": "leaf", "spec": s, "w": 0.7} for s in C.simple_leaves(tier) + C.high_leaves(tier)]
        for cn in S.CELLS:
            w = {"K": 4, "H": 1.5, "IxIxI": 2}.get(cn, 8)
            out.append({"k": "any", "cell": cn, "w": w, "cost": 5})
            if S.vector(cn) is not None:
                out.append({"k": "vector", "cell": cn, "w": w / 2, "cost": 4})
        for cn in S.FOUR:
            out.append({"k": "any", "cell": cn, "w": 6, "cost": 6})
        for cn in S.FOUR + ["IxI", "IxIxI", "TxI", "QxI", "IxT", "Q", "H"]:
            out.append({"k": "cont", "cell": cn, "w": 6, "cost": 6})
        for cn in ("IxI", "TxI", "QxI"):
            out.append({"k": "wrapped", "cell": cn, "w": 5, "cost": 4})
        out.append({"k": "bad", "w": 12})
        return out

    def params(self, config):
        if config["k"] == "bad":
            return st.fixed_dictionaries({"what": st.sampled_from(["zany", "quad", "ds", "indices", "domain", "none", "runtime", "mixture"]),
                                          "i": st.integers(0, 1000), "dom": st.sampled_from(DOMAINS)})
        if config["k"] == "leaf":
            cn = config["spec"]["cell"]
            spec = st.just(config["spec"])
        else:
            cn = config["cell"]
            if config["k"] == "cont":
                one = {"I": st.one_of(S.I_cont(3), st.integers(2, 3).map(lambda k: C.L("Bubble", "I", k)), S.I_cont(3)),
                       "T": st.one_of(st.integers(1, 3).map(lambda k: C.L("Lagrange", "T", k)), st.just(C.L("CrouzeixRaviart", "T", 1))),
                       "K": st.integers(1, 3).map(lambda k: C.L("Lagrange", "K", k)), "Q": S.flat_q(2), "H": S.flat_h()}
                spec = S.tpe(*[one[c] for c in cn.split("x")]) if "x" in cn else one[cn]
                spec = st.one_of(spec, S.vec_of(spec))
            elif config["k"] == "any":
                spec = S.any_spec(cn) if cn not in S.FOUR else st.one_of(S.base(cn), S.base(cn), S.vec_of(S.scalar(cn)), S.enriched_of(cn, S.scalar(cn)))
            elif config["k"] == "vector":
                spec = S.vector(cn)
            else:
                spec = st.one_of(S.hdiv_tpe(cn), S.hcurl_tpe(cn), S.vec_of(S.hdiv_tpe(cn)))
        n = G.point_dim(cn)
        doms = [d for d in DOMAINS if max(dims_kept(d, n), default=0) <= n]
        return st.fixed_dictionaries({"spec": spec, "dom": st.sampled_from(doms), "ev": st_eval(cn, 1 if cn in ("H", "IxIxI", "QxI") or cn in S.FOUR else 2)})

    def run(self, config, p):
        if config["k"] == "bad":
            return self.bad(p)
        spec, dom = p["spec"], p["dom"]
        cn = M.cname(spec)
        e = C.build(spec)
        n = G.point_dim(cn)
        kept = dims_kept(dom, n)
        ed = norm_ed(e.entity_dofs())
        count = sum(len(x) for d, ents in ed.items() if total(d) in kept for x in ents.values())
        nm = names(spec)
        try:
            r = finat.RestrictedElement(e, dom)
        except ValueError:
            require(count == 0, "restriction to %r refused as empty, but %d functions are attached there", dom, count)
            return False
        except (NotImplementedError, AttributeError):
            require(bool(nm & NOT_CIARLET), "restriction to %r of a supported element refused", dom)
            return False
        require(count > 0, "restriction to %r should be empty, got %r", dom, r)
        rd = norm_ed(r.entity_dofs())
        require({d: set(x) for d, x in rd.items()} == {d: set(x) for d, x in ed.items()}, "entities %s", list(rd))
        pairs = []
        for d, ents in ed.items():
            for i, dofs in ents.items():
                if total(d) in kept:
                    require(len(rd[d][i]) == len(dofs), "entity (%s, %d) keeps %d of %d functions", d, i, len(rd[d][i]), len(dofs))
                    pairs += list(zip(rd[d][i], dofs))
                else:
                    require(not rd[d][i], "entity (%s, %d) outside the domain has functions %s", d, i, rd[d][i])
        m = int(r.space_dimension())
        require(m == count == int(np.prod(r.index_shape, dtype=int)), "space dimension %d, expected %d", m, count)
        require(sorted(a for a, _ in pairs) == list(range(m)), "numbers are not contiguous: %s", sorted(a for a, _ in pairs))
        require(tuple(r.value_shape) == tuple(e.value_shape), "value shape %s, expected %s", r.value_shape, e.value_shape)
        require(r.cell == e.cell, "cell %s, expected %s", r.cell, e.cell)
        if e.mapping is not None or not nm & {"Mixed", "Enr", "Enriched"}:  # dropping a part may leave a uniform mapping
            require(r.mapping == e.mapping, "mapping %s, expected %s", r.mapping, e.mapping)
        if config["k"] == "leaf":
            require([b for _, b in sorted(pairs)] == sorted(b for _, b in pairs), "order of the functions changed: %s", sorted(pairs))
        ev = p["ev"]
        ent, ps, _ = eval_points(cn, ev)
        A = tab_values(e, e.basis_evaluation(ev["order"], ps, ent), ps)
        B = tab_values(r, r.basis_evaluation(ev["order"], ps, ent), ps)
        require(set(A) == set(B), "derivative keys %s, expected %s", sorted(B), sorted(A))
        new = np.array([a for a, _ in pairs])
        old = np.array([b for _, b in pairs])
        for a in A:
            x = A[a].reshape((A[a].shape[0], -1) + tuple(e.value_shape))
            y = B[a].reshape((x.shape[0], -1) + tuple(e.value_shape))
            close(y[:, new], x[:, old], rtol=1e-8, atol=1e-8, what="restricted D%s" % (a,))
        return {"dom:" + dom, "cell:" + cn, "el:" + spec["el"]} if count < int(e.space_dimension()) else False

    def bad(self, p):
        w, dom = p["what"], p["dom"]
        if w == "zany":
            z = [s for s in C.zany_leaves("quick") if s["cell"] == "T"]
            s = z[p["i"] % len(z)]
            e = C.build(s)
        elif w == "quad":
            e = finat.quadrature_element.make_quadrature_element(C.cell("T"), 2)
        elif w == "ds":
            e = finat.DirectSerendipity(C.cell("Q"), 2)
        elif w == "mixture":
            v = finat.TensorFiniteElement(C.build(C.L("Lagrange", "T", 2)), (1,))
            m = finat.mixed.MixedSubElement(C.build(C.L("Lagrange", "T", 1 + p["i"] % 3)), 1, 0)
            e = finat.EnrichedElement([v, m] if p["i"] % 2 else [m, v])
        elif w == "runtime":
            from finat.runtime_tabulated import RuntimeTabulated
            e = RuntimeTabulated(C.cell("I"), 2, variant="fdm")
        else:
            e = C.build(C.L("Lagrange", "T", 3))
        if w == "indices":
            rejects(finat.RestrictedElement, e, dom, indices=[0, 1], what="restriction by indices")
        elif w == "domain":
            for x in ("Facet", "cell", "", "codim1"):
                rejects(finat.RestrictedElement, e, x, what="domain %r" % x)
        elif w == "none":
            rejects(finat.RestrictedElement, e, None, what="no domain")
        else:
            rejects(finat.RestrictedElement, e, dom, what="restriction of %s" % type(e).__name__)
        return {"bad:" + w}


CHECK = C16()
