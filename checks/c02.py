"""C02 Runtime point evaluation agrees with the basis at those points."""
import json

import gem
import numpy as np
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib import specs as S
from vlib.core import Check, require, close, canon
from vlib.gemeval import Evaluator, geval
from vlib.tab import tab_values
from checks.comp import labels

_cache = {}


def _has(spec, word):
    return word in canon(spec)


class C02(Check):
    id = "C02"
    quick = 6
    thorough = 40
    rule = ("A case is (element specification: catalogue leaf or generated composite, entity, derivative order, form of the "
            "runtime coordinates [variable / indexed variable with 1-2 free indices / literal], generated numeric coordinates). "
            "The symbolic expression is evaluated at those coordinates and compared with the reference model (FIAT "
            "tabulation combined by textbook definitions) and with basis_evaluation at the same points. "
            "Non-trivial: some table is nonzero.")
    assumptions = ["trimmed serendipity elements are outside the domain (FIAT refuses symbolic points)",
                   "points are generic with respect to macro-element interfaces"]

    def configs(self, tier):
        out = []
        for s in C.simple_leaves(tier):
            if s["el"].startswith("Trimmed") or s["el"] == "HDivTrace":
                continue
            if tier == "quick" and (s["cell"] == "I" and s["deg"] > 4 or s["cell"] == "K" and s["deg"] > 3):
                continue
            heavy = (s["cell"] == "K" and s["deg"] >= 2) or (s["cell"] == "T" and s["deg"] >= 4) or s["cell"] == "H" or (s["cell"] == "I" and s["deg"] >= 4)
            out.append({"leaf": s, "maxo": 1 if heavy and tier == "quick" else 2, "w": 0.6 if heavy else 1, "cost": s["deg"] + (5 if heavy else 0)})
        for cn in ("TxT", "KxI"):
            out.append({"comp": cn, "i": 0, "maxo": 0 if tier == "quick" else 1, "w": 1, "cost": 20})
        for cn in S.CELLS:
            for i in range(2 if tier == "quick" else 4):
                out.append({"comp": cn, "i": i, "maxo": 1, "w": 3, "cost": 20})
        return out

    def clear(self):
        super().clear()
        _cache.clear()

    def params(self, config):
        if "leaf" in config:
            spec = st.just(config["leaf"])
            cn = config["leaf"]["cell"]
        else:
            cn = config["comp"]
            spec = S.any_spec(cn).filter(lambda s: not _has(s, "Trimmed"))
        c = C.cell(cn)
        ents = [G.ent_json(e) for e in G.entities(c)]

        def mk(ent):
            ecn = cn if ent is None else G.entity_cellname(cn, G.ent_parse(ent)[0])
            return st.fixed_dictionaries({
                "spec": spec, "ent": st.just(ent), "order": st.integers(0, config["maxo"]),
                "form": st.sampled_from(["var", "idx1", "idx2", "lit"]),
                "pts": st.lists(G.st_cell_point(ecn), min_size=4, max_size=4)})
        return st.one_of(st.sampled_from([None, ents[-1]]), st.sampled_from(ents)).flatmap(mk)

    def run(self, config, p):
        spec = p["spec"]
        e = C.build(spec)
        cn = M.cname(spec)
        ent = G.ent_parse(p["ent"])
        ecn = cn if ent is None else G.entity_cellname(cn, ent[0])
        d = G.point_dim(ecn)
        pts = np.array([G.cell_point(ecn, w) for w in p["pts"]]).reshape(4, d)
        form = p["form"]
        key = canon([spec, p["ent"], p["order"], form])
        hit = _cache.get(key) if form != "lit" else None
        if hit is None:
            if form == "var":
                fids = ()
                X = gem.Variable("X", (d,))
            elif form == "idx1":
                fids = (gem.Index(extent=4),)
                X = gem.partial_indexed(gem.Variable("X", (4, d)), fids)
            elif form == "idx2":
                fids = (gem.Index(extent=2), gem.Index(extent=2))
                X = gem.partial_indexed(gem.Variable("X", (2, 2, d)), fids)
            else:
                fids = ()
                X = gem.Literal(pts[0]) if d else gem.Zero((0,))
            r = e.point_evaluation(p["order"], X, ent)
            hit = _cache[key] = (X, fids, r)
        X, fids, r = hit
        val = {"var": pts[0], "lit": pts[0], "idx1": pts, "idx2": pts.reshape(2, 2, d)}[form]
        n = 1 if form in ("var", "lit") else 4
        use = pts[:n]
        want = M.tabulate(spec, p["order"], M.embed(cn, ent, use))
        require(set(r) == set(want), "derivative keys %s, expected %s", sorted(r), sorted(want))
        shape = M.index_shape(spec) + M.value_shape(spec)
        ev = Evaluator({"X": val})
        nz = False
        for a in sorted(want):
            require(tuple(r[a].shape) == shape, "point_evaluation[%s] shape %s, expected %s", a, r[a].shape, shape)
            require(set(r[a].free_indices) <= set(fids), "free indices %s", r[a].free_indices)
            got = geval(r[a], fids, ev=ev).reshape((n,) + shape)
            close(got, want[a], rtol=1e-7, atol=1e-8, what="point_evaluation D%s" % (a,))
            nz = nz or bool(np.any(want[a]))
        # and the element's own tabulation at the same points
        ps, _ = G.pointset(ecn, {"k": "set", "p": p["pts"][:n]})
        own = tab_values(e, e.basis_evaluation(p["order"], ps, ent), ps)
        for a in want:
            close(own[a], want[a], rtol=1e-7, atol=1e-8, what="basis_evaluation D%s" % (a,))
        return (labels(spec) | {"form:" + form, "order%d" % p["order"]}) if nz else False


CHECK = C02()
