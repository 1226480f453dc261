"""C05 Vector- and tensor-valued copies of an element."""
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import model as M
from vlib import specs as S
from vlib.core import Check, require
from checks.comp import check_meta, check_tabulation, labels, st_eval, check_mapped_composite, geometry, same_shape, st_geo, st_zany


def shapes():
    n = st.integers(1, 4)
    return st.one_of(st.tuples(n), st.tuples(n, n), st.tuples(st.integers(1, 2), st.integers(1, 3), st.integers(1, 2))).map(list)


def vec(b):
    return st.fixed_dictionaries({"el": st.just("Vec"), "of": b, "shape": shapes(), "transpose": st.booleans()})


class C05(Check):
    id = "C05"
    quick = 220
    thorough = 6000
    rule = ("A case is (tensor-valued element with generated shape of rank 1-3, either DoF ordering, over a generated base "
            "element: scalar, vector, tensor, enriched, wrapped, mixed, or itself tensor-valued; entity; point set; derivative "
            "order 0-2). Index/value shapes, DoF layout and every table are compared with the numpy model (identity outer product); "
            "physically mapped bases on a generated physical cell, against the base on the same cell. "
            "Non-trivial: some table is nonzero.")
    assumptions = ["FIAT's tabulate() on the leaves is the reference semantics"]

    def configs(self, tier):
        out = []
        for cn in S.CELLS + ["IxT", "TxT", "KxI", "TxIxI"]:
            for kind in ("base", "comp"):
                heavy = cn in ("H", "IxIxI", "QxI", "K", "TxT", "KxI", "TxIxI")
                out.append({"kind": kind, "cell": cn, "w": 0.15 if cn in S.FOUR else 0.4 if heavy else 1, "cost": 5 if heavy else 1})
        for cn, i in S.MAPPED:
            for kind in ("zany", "zcomp"):
                out.append({"kind": kind, "cell": cn, "i": i, "w": {"T": 0.12, "K": 0.03}.get(cn, 0.05), "cost": 6})
        return out

    def params(self, config):
        cn = config["cell"]
        if config["kind"][0] == "z":
            z, o = st_zany(cn)
            enr = st.tuples(z, o).map(lambda t: same_shape(list(t)))
            sv = lambda b: st.fixed_dictionaries({"el": st.just("Vec"), "of": b, "shape": st.lists(st.integers(1, 3), min_size=1, max_size=2), "transpose": st.booleans()})
            spec = sv(z) if config["kind"] == "zany" else st.one_of(sv(enr), sv(sv(z)), sv(z.map(lambda s: {"el": "Disc", "of": s})),
                                                                   sv(st.tuples(z, o).map(lambda t: {"el": "Mixed", "of": list(t)})))
            return st.fixed_dictionaries({"spec": spec, "ev": st_eval(cn, 1), "geo": st_geo(cn)})
        b = S.base(cn)
        if config["kind"] == "base":
            spec = vec(b)
        else:
            spec = st.one_of(vec(S.enriched_of(cn, b)), vec(vec(S.scalar(cn))), vec(b.map(lambda s: {"el": "Disc", "of": s})),
                             vec(S.mixed_of(b)),
                             vec(b).map(lambda s: {"el": "Disc", "of": s}))
        return st.fixed_dictionaries({"spec": spec, "ev": st_eval(cn, 1 if cn in S.FOUR else 2)})

    def run(self, config, p):
        spec = p["spec"]
        if M.space_dim(spec) * max(1, int(__import__("numpy").prod(M.value_shape(spec)))) > 20000:
            from vlib.core import Discard
            raise Discard()
        e = C.build(spec)
        check_meta(spec, e)
        if "geo" in p:
            return check_mapped_composite(spec, e, p["ev"], geometry(config["cell"], p["geo"]))
        ok = check_tabulation(spec, e, p["ev"])
        lab = labels(spec, p["ev"])
        if spec["el"] == "Vec":
            lab |= {"rank%d" % len(spec["shape"]), "transpose" if spec["transpose"] else "plain"}
        return lab if ok else False


CHECK = C05()
