"""C04 Enriched and mixed elements."""
import FIAT
from hypothesis import strategies as st
import finat

from vlib import catalogue as C
from vlib import model as M
from vlib import specs as S
from vlib.core import Check, require, rejects
from checks.comp import check_meta, check_tabulation, labels, st_eval, check_mapped_composite, geometry, same_shape, st_geo, st_zany


class C04(Check):
    id = "C04"
    quick = 220
    thorough = 5000
    rule = ("A case is (generated enriched or mixed element, possibly nested, over any cell, with scalar, vector, tensor, "
            "tensor-product and wrapped components; entity; point set; derivative order 0-2). Metadata, DoF layout and all tables "
            "are compared with the numpy model: component bases concatenated in order; for mixed, values placed in the "
            "component's own block with zeros elsewhere. Sums and mixtures with physically mapped parts are evaluated on a generated physical cell "
            "against their parts on the same cell. Non-trivial: some table is nonzero.")
    assumptions = ["FIAT's tabulate() on the leaves is the reference semantics"]

    def configs(self, tier):
        out = []
        for cn in S.CELLS + ["IxT", "TxT", "KxI", "TxIxI"]:
            for kind in ("enriched", "mixed", "nested"):
                heavy = cn in ("H", "IxIxI", "QxI", "K", "TxT", "KxI", "TxIxI")
                out.append({"kind": kind, "cell": cn, "w": 0.15 if cn in S.FOUR else 0.4 if heavy else 1, "cost": 5 if heavy else 1})
        for cn, i in S.MAPPED:
            for kind in ("zenriched", "zmixed", "znested"):
                if cn == "K" and kind == "znested":
                    continue
                w = {"K": 0.03, "T": 0.08 if kind == "znested" else 0.12}.get(cn, 0.05)
                out.append({"kind": kind, "cell": cn, "i": i, "w": w, "cost": 6})
        return out

    def params(self, config):
        cn, kind = config["cell"], config["kind"]
        if kind[0] == "z":
            z, o = st_zany(cn)
            v = st.one_of(o, o, st.tuples(z, st.integers(1, 3), st.booleans()).map(
                lambda t: {"el": "Vec", "of": t[0], "shape": [t[1]], "transpose": t[2]}))
            enr = st.tuples(z, st.lists(o, min_size=1, max_size=2)).map(lambda t: same_shape([t[0]] + t[1]))
            mix = st.tuples(v, st.lists(v, min_size=1, max_size=2)).map(lambda t: {"el": "Mixed", "of": [t[0]] + t[1]})
            spec = {"zenriched": enr, "zmixed": mix,
                    "znested": st.one_of(st.tuples(enr, v).map(lambda t: {"el": "Mixed", "of": list(t)}),
                                         st.tuples(v, mix).map(lambda t: {"el": "Mixed", "of": list(t)}),
                                         st.tuples(enr, enr).map(lambda t: same_shape(list(t))))}[kind]
            return st.fixed_dictionaries({"spec": spec, "ev": st_eval(cn, 1), "geo": st_geo(cn)})
        b = S.base(cn)
        sc = S.scalar(cn)
        if kind == "enriched":
            spec = st.one_of(S.enriched_of(cn, b), S.enriched_of(cn, S.vec_of(sc)),
                             st.lists(sc, min_size=2, max_size=3).map(lambda x: {"el": "Enriched", "of": x}))
        elif kind == "mixed":
            spec = S.mixed_of(st.one_of(b, S.vec_of(b)))
        else:
            e = st.lists(sc, min_size=2, max_size=2).map(lambda x: {"el": "Enriched", "of": x})
            spec = st.one_of(
                st.tuples(e, e).map(lambda t: {"el": "Enriched", "of": list(t)}),
                st.tuples(e, sc).map(lambda t: {"el": "Enriched", "of": list(t)}),
                S.mixed_of(st.one_of(e, b)),
                S.mixed_of(b).flatmap(lambda m: b.map(lambda s: {"el": "Mixed", "of": [m, s]})),
                e.map(lambda s: {"el": "Enriched", "of": [s]}),
                S.mixed_of(b).flatmap(lambda m: S.enriched_of(cn, sc).map(lambda s: {"el": "Mixed", "of": [s, m]})))
        return st.fixed_dictionaries({"spec": spec, "ev": st_eval(cn, 1 if cn in S.FOUR else 2)})

    def run(self, config, p):
        spec = p["spec"]
        e = C.build(spec)
        check_meta(spec, e)
        try:
            deg = M.degree(spec)
        except ValueError:
            deg = None
        if deg is not None:
            require(e.degree == deg, "degree %s, expected %s", e.degree, deg)
        if "geo" in p:
            return check_mapped_composite(spec, e, p["ev"], geometry(config["cell"], p["geo"]))
        ok = check_tabulation(spec, e, p["ev"])
        return labels(spec, p["ev"]) if ok else False


CHECK = C04()
