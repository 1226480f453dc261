"""C03 Tensor-product and flattened elements."""
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import model as M
from vlib import specs as S
from vlib.core import Check, require
from checks.comp import check_meta, check_tabulation, labels, st_eval


class C03(Check):
    id = "C03"
    quick = 250
    thorough = 6000
    rule = ("A case is (generated tensor-product or flattened element: factors drawn from interval / triangle / quadrilateral "
            "scalar, vector and tensor elements, all admissible cells; entity; point set incl. tensor, nested and mismatched tensor "
            "sets; derivative order 0-3). Metadata, DoF layout and all derivative tables are compared with the numpy model. "
            "Non-trivial: some table is nonzero.")
    assumptions = ["FIAT's tabulate() on the factor cells is the reference semantics"]

    def configs(self, tier):
        out = []
        for kind, cn in [("tpe", "IxI"), ("tpe", "IxIxI"), ("tpe", "TxI"), ("tpe", "IxT"), ("tpe", "QxI"),
                         ("vec", "TxI"), ("vec", "IxT"), ("vec", "QxI"), ("flat", "Q"), ("flat", "H"),
                         ("flatvec", "Q")]:
            for i in range(2):
                out.append({"kind": kind, "cell": cn, "i": i, "w": 0.5 if cn in ("H", "IxIxI", "QxI") else 1,
                            "cost": 5 if cn in ("H", "IxIxI", "QxI") else 1})
        for cn in S.FOUR:
            out.append({"kind": "tpe", "cell": cn, "w": 0.3, "cost": 6})
            if S.vector(cn) is not None:
                out.append({"kind": "vec", "cell": cn, "w": 0.2, "cost": 6})
        return out

    def params(self, config):
        cn, kind = config["cell"], config["kind"]
        if kind == "tpe":
            spec = S.scalar(cn)
        elif kind == "vec":
            spec = {"TxI": S.tpe(st.one_of(S.T_vector(), S.T_tensor()), S.I_leaf(2)), "IxT": S.vector("IxT"),
                    "QxI": S.tpe(S.quad_vec(), S.I_leaf(2))}.get(cn) or S.vector(cn)
        elif kind == "flat":
            spec = S.flat_q(3) if cn == "Q" else S.flat_h()
        else:
            spec = S.quad_vec()
        mo = 1 if cn in S.FOUR else 2 if cn in ("H", "IxIxI", "QxI") else 3
        return st.fixed_dictionaries({"spec": spec, "ev": st_eval(cn, mo)})

    def run(self, config, p):
        spec = p["spec"]
        e = C.build(spec)
        check_meta(spec, e)
        require(e.degree == M.degree(spec), "degree %s, expected %s", e.degree, M.degree(spec))
        ok = check_tabulation(spec, e, p["ev"])
        return labels(spec, p["ev"]) if ok else False


CHECK = C03()
