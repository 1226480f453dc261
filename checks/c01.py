"""C01 Tabulation fidelity of FIAT-backed elements."""
import numpy as np
from hypothesis import strategies as st
import gem

from vlib import catalogue as C
from vlib import geom as G
from vlib.core import Check, require, close, Violation
from vlib.tab import tab_values, fiat_values
from FIAT.polynomial_set import mis


class C01(Check):
    id = "C01"
    quick = 14
    thorough = 120
    rule = ("A case is (FIAT-backed reference element from the catalogue, entity or None, a generated point set "
            "(PointSet / PointSingleton / TensorPointSet) on that entity, derivative order 0..3); the FInAT tabulation, "
            "evaluated by an independent GEM evaluator, is compared entry by entry with FIAT.tabulate of an element built "
            "directly through FIAT. Non-trivial: some compared table has a nonzero entry.")
    assumptions = ["FIAT's tabulate() is the reference semantics", "vlib/gemeval.py gives GEM its meaning"]

    def configs(self, tier):
        return C.simple_leaves(tier) + C.high_leaves(tier)

    def params(self, config):
        cn = config["cell"]
        c = C.cell(cn)
        ents = [None] + [G.ent_json(e) for e in G.entities(c)]
        trace = config["el"] == "HDivTrace"

        # beyond the degree, where that is affordable
        top = min(C.build_fiat(config).degree() + 2, {1: 20, 2: 10, 3: 6}[c.get_dimension()]) if c.is_simplex() else 3

        def mk(ent):
            ecn = cn if ent is None else G.entity_cellname(cn, ent[0])
            order = st.integers(0, 1) if trace else st.one_of(st.integers(0, 3), st.integers(0, 3), st.just(top))
            return st.fixed_dictionaries({"ent": st.just(ent), "order": order, "ps": G.st_pointset(ecn)})
        # weight the interior more
        d = c.get_dimension()
        inner = [None, [d, 0]]
        if trace:
            inner = [e for e in ents if e is not None and e[0] == d - 1]
            ents = [e for e in ents if e is not None and e[0] >= d - 1]
        return st.one_of(st.sampled_from(inner), st.sampled_from(ents)).flatmap(mk)

    def run(self, config, p):
        e = C.build(config)
        fe = C.build_fiat(config)
        cn = config["cell"]
        ent = G.ent_parse(p["ent"])
        ecn = cn if ent is None else G.entity_cellname(cn, ent[0])
        ps, pts = G.pointset(ecn, p["ps"])
        order = p["order"]
        # metadata
        n = fe.space_dimension()
        require(e.space_dimension() == n, "space_dimension %s != %s", e.space_dimension(), n)
        require(tuple(e.index_shape) == (n,), "index_shape %s", e.index_shape)
        require(tuple(e.value_shape) == tuple(fe.value_shape()), "value_shape %s != %s", e.value_shape, fe.value_shape())
        require(e.degree == fe.degree(), "degree %s != %s", e.degree, fe.degree())
        require(e.entity_dofs() == fe.entity_dofs(), "entity_dofs differ from FIAT")
        require(e.formdegree == fe.get_formdegree(), "formdegree %s != %s", e.formdegree, fe.get_formdegree())
        require(e.cell == fe.get_reference_element(), "cell differs")
        require(e.complex == fe.get_reference_complex(), "complex differs")
        m = set(fe.mapping())
        require(e.mapping == (m.pop() if len(m) == 1 else None), "mapping %r", e.mapping)
        # tabulation
        want = fe.tabulate(order, pts, ent)
        res = e.basis_evaluation(order, ps, ent)
        got = tab_values(e, res, ps)
        sd = e.cell.get_spatial_dimension()
        keys = {a for k in range(order + 1) for a in mis(sd, k)}
        require(set(got) == set(want), "derivative keys %s != FIAT's %s", sorted(got), sorted(want))
        require(set(got) == keys, "derivative keys %s are not all multi-indices up to order %d", sorted(got), order)
        nz = False
        # derivatives that vanish in theory carry round-off in FIAT
        poly = e.cell.is_simplex()
        scale = max([1.0] + [float(np.max(np.abs(w))) for w in want.values() if not isinstance(w, Exception) and np.all(np.isfinite(w))])
        labels = {"order%d" % order, "ps:" + p["ps"]["k"], "codim%d" % (0 if ent is None else sd - ent[0] if not isinstance(ent[0], tuple) else 0)}
        for alpha in sorted(want):
            w = want[alpha]
            if isinstance(w, Exception):
                require(isinstance(got[alpha], Exception), "table %s should be a Failure", alpha)
                labels.add("failure-node")
                continue
            require(not isinstance(got[alpha], Exception), "table %s is a Failure: %r", alpha, got[alpha])
            w = fiat_values(w, len(pts)).reshape(got[alpha].shape)
            if poly and sum(alpha) > e.degree and np.all(np.isfinite(w)):
                require(float(np.max(np.abs(got[alpha]), initial=0)) <= 1e-6 * scale, "D%s of degree %d functions is %.3g", alpha, e.degree, float(np.max(np.abs(got[alpha]))))
                labels.add("above-degree")
                continue
            if poly and sum(alpha) >= e.degree and sum(alpha) > 3:
                # the top derivative: constant up to round-off
                close(got[alpha], w, rtol=1e-9, atol=1e-6, what="tabulation D%s" % (alpha,))
                continue
            close(got[alpha], w, rtol=1e-9, atol=1e-10, what="tabulation D%s" % (alpha,))
            nz = nz or bool(np.any(w))
        return labels if nz else False


CHECK = C01()
