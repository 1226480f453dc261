"""C25 fiat_equivalent of composites."""
import finat
import numpy as np
from hypothesis import strategies as st
from finat.quadrature_element import make_quadrature_element
from finat.point_set import UnknownPointSet
from finat.quadrature import make_quadrature

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib import specs as S
from vlib.core import Check, Discard, require, rejects, close
from vlib.gemeval import geval
from vlib.tab import tab_values, fiat_values
from checks.comp import norm_ed, eval_points, st_eval, labels

CELLS = ["I", "T", "K", "Q", "IxI", "TxI", "QxI", "IxT", "H", "IxIxI", "TxT", "KxI", "QxQ"]
QUAD_CELLS = ["I", "T", "K", "IxI", "TxI", "Q", "H"]


def parts(spec):
    of = spec.get("of", spec.get("factors", []))
    return of if isinstance(of, list) else [of]


def impossible(spec):
    """Why there is no equivalent (None if there has to be one)."""
    e = spec["el"]
    if e == "Vec":
        return "tensor-valued"
    if e == "TPE" and len(spec["factors"]) != 2:
        return "not two factors"
    for f in parts(spec):
        w = impossible(f)
        if w:
            return w
    if e == "Enriched":
        if len({M.mapping(f) for f in parts(spec)}) > 1 or None in {M.mapping(f) for f in parts(spec)}:
            return "summands with different mappings"
        if len({M.value_shape(f) for f in parts(spec)}) > 1:
            return "summands of different shapes"
        if len(M.value_shape(spec)) > 1:
            return "FIAT sums no matrix-valued elements"
    if e == "Disc" and M.mapping(spec["of"]) is None:
        return "no single mapping"
    return None


def three(spec):
    """FIAT's products take every vector to have two components."""
    return spec["el"] == "TPE" and any(M.value_shape(f) == (3,) for f in spec["factors"]) or any(map(three, parts(spec)))


def wrap(e, chain):
    for w in chain:
        e = {"el": w, "of": e}
    return e


class C25(Check):
    id = "C25"
    quick = 150
    thorough = 3000
    rule = ("A case is a generated composite (tensor product, flattened, enriched, mixed, H(div)/H(curl), discontinuous, nested), points, "
            "entity and derivative order; its fiat_equivalent is compared with the element itself: dimension, value shape, entity dofs, "
            "closures, tables. Quadrature elements are compared at their own points. Composites without an equivalent must refuse, sums and restrictions of mixed elements may. "
            "Non-trivial: a table with a non-zero entry was compared, or a refusal.")
    assumptions = ["FIAT cannot represent sums of summands with different mappings or of matrix values"]

    def configs(self, tier):
        out = []
        for cn in CELLS:
            w = {"K": 0.5, "H": 0.3, "IxIxI": 0.4, "QxI": 0.8, "IxT": 0.6, "TxT": 0.3, "KxI": 0.3, "QxQ": 0.3}.get(cn, 1)
            out.append({"k": "any", "cell": cn, "w": w, "cost": 3})
            if S.vector(cn) is not None and cn != "KxI":
                out.append({"k": "vector", "cell": cn, "w": w * 0.7, "cost": 3})
        for cn in QUAD_CELLS:
            out.append({"k": "quad", "cell": cn, "w": 0.4})
        out.append({"k": "wrapped", "w": 1.5, "cost": 2})
        for cn in ("I", "T", "Q", "IxI"):
            out.append({"k": "sums", "cell": cn, "w": 0.4})
        out.append({"k": "refuse", "w": 1})
        return out

    def params(self, config):
        k = config["k"]
        if k == "refuse":
            return st.fixed_dictionaries({"what": st.sampled_from(["vec", "unknown", "runtime", "ds", "sub", "three"]),
                                          "s": S.scalar("T"), "deg": st.integers(1, 3)})
        if k == "quad":
            return st.fixed_dictionaries({"deg": st.integers(0, 5), "order": st.integers(0, 1), "own": st.booleans(), "i": st.integers(0, 50)})
        if k == "wrapped":
            q = S.quad_vec()
            def deep(s):
                return st.sampled_from([["Disc"], ["Disc", "Disc"], []]).map(lambda c: wrap(s, c))
            cn = st.sampled_from(["Q", "IxI", "TxI"])
            def mk(c):
                b = st.one_of(S.scalar(c), S.vector(c)).flatmap(deep)
                m = S.mixed_of(st.one_of(b, S.enriched_of(c, b)))
                return st.fixed_dictionaries({"spec": st.one_of(m, S.enriched_of(c, b).flatmap(deep), m.flatmap(deep)), "ev": st_eval(c, 2)})
            return cn.flatmap(mk)
        cn = config["cell"]
        if k == "sums":
            # sums of mixed elements with equally many components, restrictions of mixed elements
            s = S.scalar(cn)
            m = st.integers(1, 3).flatmap(lambda n: st.lists(st.lists(s, min_size=n, max_size=n).map(lambda l: {"el": "Mixed", "of": l}), min_size=1, max_size=3))
            return st.fixed_dictionaries({"parts": m, "ev": st_eval(cn, 2), "domain": st.sampled_from([None, None, "interior", "facet", "vertex"])})
        if cn == "KxI" and k == "any":
            s = S.scalar(cn)
            spec = st.one_of(s, S.vec_of(s), S.enriched_of(cn, s), S.mixed_of(s), s.map(lambda x: {"el": "Disc", "of": x}))
            return st.fixed_dictionaries({"spec": spec, "ev": st_eval(cn, 1)})
        spec = S.any_spec(cn) if k == "any" else S.vector(cn)
        return st.fixed_dictionaries({"spec": spec, "ev": st_eval(cn, 1 if cn in ("H", "IxIxI", "QxI", "IxT", "QxQ", "KxI", "TxT") else 3)})

    def run(self, config, p):
        k = config["k"]
        if k == "refuse":
            return self.refuse(p)
        if k == "quad":
            return self.quad(config["cell"], p)
        if k == "sums":
            return self.sums(config["cell"], p)
        spec, ev = p["spec"], p["ev"]
        e = C.build(spec)
        why = impossible(spec)
        if not why and M.fiat_of(spec) is None:
            why = "FIAT cannot build it"
        if why:
            def get():
                return e.fiat_equivalent
            rejects(get, what="equivalent of an element without one (%s)" % why)
            return {"refused:" + why}
        if three(spec):
            raise Discard()
        f = e.fiat_equivalent
        self.layout(e, f)
        require(f is e.fiat_equivalent or norm_ed(f.entity_dofs()) == norm_ed(e.fiat_equivalent.entity_dofs()), "two equivalents differ")
        cn = M.cname(spec)
        m = M.mapping(spec)
        if m is not None:
            require(set(f.mapping()) == {m}, "mappings %s, expected %s", set(f.mapping()), m)
        ent, ps, _ = eval_points(cn, ev)
        try:
            table = f.tabulate(ev["order"], ps.points, ent)
        except NotImplementedError:
            raise Discard()
        nz = self.compare(e, ps, e.basis_evaluation(ev["order"], ps, ent), table)
        return labels(spec, ev) if nz else False

    def layout(self, e, f):
        require(int(f.space_dimension()) == int(e.space_dimension()), "equivalent has %s functions, element %s", f.space_dimension(), e.space_dimension())
        require(tuple(f.value_shape()) == tuple(e.value_shape), "equivalent has value shape %s, element %s", f.value_shape(), e.value_shape)
        require(f.get_reference_element() == e.cell, "equivalent is on %s, element on %s", f.get_reference_element(), e.cell)
        require(norm_ed(f.entity_dofs()) == norm_ed(e.entity_dofs()), "entity dofs %s, element %s", f.entity_dofs(), e.entity_dofs())

    def compare(self, e, ps, result, table):
        got = tab_values(e, result, ps)
        require(set(got) == set(table), "keys %s, element %s", sorted(table), sorted(got))
        nz = False
        n, nd, vs = len(ps.points), int(e.space_dimension()), tuple(e.value_shape)
        for a in sorted(got):
            require(not isinstance(table[a], Exception) == (not isinstance(got[a], Exception)), "only one table %s is a failure", a)
            if isinstance(got[a], Exception):
                continue
            w = fiat_values(table[a], n).reshape((n, nd) + vs)
            g = got[a].reshape((n, nd) + vs)
            close(w, g, rtol=1e-8, atol=1e-8, what="D%s of the equivalent" % (a,))
            nz = nz or bool(np.any(w))
        return nz

    def sums(self, cn, p):
        e = finat.EnrichedElement([C.build(m) for m in p["parts"]])
        if p["domain"]:
            try:
                e = finat.RestrictedElement(e, p["domain"])
            except Exception:  # C16 decides what can be restricted
                raise Discard
        try:
            f = e.fiat_equivalent
        except NotImplementedError:
            return {"sums:refused"}
        # there need not be one, but if there is, it is the same
        self.layout(e, f)
        ent, ps, _ = eval_points(cn, p["ev"])
        try:
            table = f.tabulate(p["ev"]["order"], ps.points, ent)
        except NotImplementedError:
            raise Discard()
        self.compare(e, ps, e.basis_evaluation(p["ev"]["order"], ps, ent), table)
        return {"sums:restricted" if p["domain"] else "sums"}

    def quad(self, cn, p):
        e = make_quadrature_element(C.cell(cn), p["deg"])
        f = e.fiat_equivalent
        self.layout(e, f)
        ps = e.dual_basis[1]
        n = len(ps.points)
        t = f.tabulate(0, ps.points)
        zero = (0,) * G.point_dim(cn)
        require(set(t) == {zero}, "keys %s", list(t))
        close(np.asarray(t[zero]).reshape(n, n), np.eye(n), what="equivalent at its own points")
        r = tab_values(e, e.basis_evaluation(0, ps), ps)[zero].reshape(n, n)
        close(r, np.eye(n), what="quadrature element at its own points")
        got = []
        wts = []
        for node in f.dual_basis():
            (pt, ((w, c),)), = node.get_point_dict().items()
            got.append(pt)
            wts.append(w)
        close(np.array(got).reshape(n, -1), np.asarray(ps.points).reshape(n, -1), what="points of the dual")
        rule = make_quadrature(C.cell(cn), p["deg"])
        weights = geval(rule.weight_expression, tuple(rule.point_set.indices)).ravel()
        # integral moments carry weights, point evaluations do not
        require(np.allclose(wts, 1) or np.allclose(wts, weights), "dual weights %s", wts)
        require(e.fiat_equivalent.space_dimension() == n, "second equivalent differs")
        return {"quad:" + cn}

    def refuse(self, p):
        w = p["what"]
        if w == "vec":
            e = finat.TensorFiniteElement(C.build(p["s"]), (2,))
        elif w == "unknown":
            import gem
            ps = UnknownPointSet(gem.Variable("X", (3, 2)))
            class Rule:
                pass
            from finat.quadrature import AbstractQuadratureRule
            class R(AbstractQuadratureRule):
                point_set = ps
                @property
                def weight_expression(self):
                    return gem.Literal(1.0)
            r = R()
            e = finat.quadrature_element.QuadratureElement(C.cell("T"), r)
        elif w == "runtime":
            e = finat.RuntimeTabulated(C.cell("I"), p["deg"], variant="a")
        elif w == "ds":
            e = finat.DirectSerendipity(C.cell("Q"), p["deg"])
        elif w == "sub":
            e = finat.MixedElement([C.build(p["s"]), C.build(p["s"])]).elements[0]
        else:
            e = finat.TensorProductElement([C.build(C.L("Lagrange", "I", p["deg"]))] * 3)
        def get():
            return e.fiat_equivalent
        rejects(get, what="equivalent of %s" % type(e).__name__)
        return {"refuse:" + w}


CHECK = C25()
