"""C09 dual evaluation."""
import numpy as np
import gem
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import model as M
from vlib import specs as S
from vlib.catalogue import L
from vlib.core import Check, require, close, rejects
from vlib.dual import dual, NoDual
from vlib.gemeval import geval, Evaluator
from vlib.tab import fiat_values, values


# --- generated functions, once as numpy and once as GEM ----------------------

def st_fun(dim, ncomp):
    """Per component a list of terms [coefficient, exponents, kind]."""
    term = st.tuples(st.sampled_from([1, 2, -1, -3, 4]), st.lists(st.integers(0, 3), min_size=dim, max_size=dim), st.sampled_from(["p", "p", "s", "e"]))
    return st.lists(st.lists(term, min_size=1, max_size=2), min_size=ncomp, max_size=ncomp)


def np_fun(f, X, vs):
    out = []
    for terms in f:
        acc = np.zeros(len(X))
        for c, ex, k in terms:
            m = np.prod([X[:, i] ** a for i, a in enumerate(ex)], axis=0) if len(ex) else np.ones(len(X))
            m = {"p": m, "s": np.sin(m), "e": np.exp(m * 0.5)}[k]
            acc = acc + c * m
        out.append(acc)
    return np.array(out).T.reshape((len(X),) + vs)


def gem_fun(f, x, vs):
    """GEM expression of the function at a vector of coordinates."""
    comps = []
    for terms in f:
        acc = gem.Zero()
        for c, ex, k in terms:
            m = gem.Literal(1.0)
            for i, a in enumerate(ex):
                for _ in range(a):
                    m = gem.Product(m, gem.Indexed(x, (i,)))
            if k == "s":
                m = gem.MathFunction("sin", m)
            elif k == "e":
                m = gem.MathFunction("exp", gem.Product(m, gem.Literal(0.5)))
            acc = gem.Sum(acc, gem.Product(gem.Literal(float(c)), m))
        comps.append(acc)
    if vs == ():
        return comps[0]
    return gem.ListTensor(np.array(comps, dtype=object).reshape(vs))


class C09(Check):
    id = "C09"
    quick = 600
    thorough = 1000
    rule = ("A case is an element with a generated function, given to dual_evaluation either symbolically in the point coordinates, as a "
            "table over the points, or as the basis of another element (free argument indices). The result must equal the functionals of "
            "the model (FIAT's on the leaves) applied to the function, and the dual basis applied to the element's own basis must be the "
            "identity. For physically mapped elements both are taken on the reference cell. Elements whose functionals need derivatives, or which constrain some of them, must refuse. Non-trivial: some functional value is nonzero.")
    assumptions = ["FIAT's functionals on the leaves define the degrees of freedom"]

    def configs(self, tier):
        out = [{"kind": "leaf", "spec": s, "cost": 2 if s["cell"] in "KH" else 1} for s in C.simple_leaves(tier) + C.high_leaves(tier)
               if not (tier == "quick" and s["cell"] == "H")]
        out += [{"kind": "mapped", "spec": s, "cost": 2} for s in C.zany_leaves(tier)]
        out += [{"kind": "deriv", "spec": s} for s in (L("Hermite", "I", 3), L("Hermite", "T", 3), L("FDMHermite", "I", 3), L("Argyris", "T", 5, variant="point"))]
        for cn in S.CELLS + ["IxT"]:
            w = {"H": 0.3, "IxIxI": 0.4, "QxI": 0.6, "K": 0.5}.get(cn, 1)
            out.append({"kind": "any", "cell": cn, "w": w, "cost": 5})
            if cn not in ("H", "IxIxI", "IxT"):
                out.append({"kind": "interp", "cell": cn, "w": w * 0.6, "cost": 5})
        for cn in ("I", "T", "K", "Q", "IxI", "TxI", "IxT", "IxIxI", "QxI", "TxT"):
            out.append({"kind": "rule", "cell": cn, "w": 0.2})
        for cn in ("KxI", "IxK", "TxT", "TxIxI"):
            out.append({"kind": "any", "cell": cn, "w": 0.05, "cost": 6})
        return out

    def examples(self, config, tier):
        if config["kind"] in ("leaf", "mapped"):
            return 2 if tier == "quick" else 8
        if config["kind"] == "deriv":
            return 1
        return super().examples(config, tier)

    def params(self, config):
        k = config["kind"]
        if k == "deriv":
            return st.just({})
        how = st.sampled_from(["sym", "table"])
        if k in ("leaf", "mapped"):
            s = config["spec"]
            n = int(np.prod(M.value_shape(s), dtype=int))
            return st.fixed_dictionaries({"f": st_fun(M.dim_of(s), n), "how": how})
        cn = config["cell"]
        if k == "rule":
            # quadrature elements (equal ones are one object) and products of them with each other and others
            def one(c):
                q = st.integers(0, 4).map(lambda d: {"el": "Quad", "cell": c, "deg": d})
                return st.one_of(q, q, st.sampled_from([L("Lagrange", c, 2), L("DiscontinuousLagrange", c, 0)] + ([L("GaussLobattoLegendre", c, 2)] if c == "I" else [])))

            def prod(names):
                parts = st.tuples(*map(tree, names)).map(list)
                if len(set(names)) == 1:
                    parts = st.one_of(parts, tree(names[0]).map(lambda s: [s] * len(names)))
                t = parts.map(lambda f: {"el": "TPE", "factors": f})
                if len(names) == 3:
                    t = st.one_of(t, parts.map(lambda f: {"el": "TPE", "factors": [{"el": "TPE", "factors": f[:2]}, f[2]]}))
                return t

            def tree(c):
                if c == "Q":
                    return prod(["I", "I"]).map(lambda s: {"el": "Flat", "of": s})
                return prod(c.split("x")) if "x" in c else one(c)
            b = tree(cn)
            return st.one_of(b, b, S.vec_of(b)).flatmap(lambda s: st.fixed_dictionaries({
                "spec": st.just(s), "how": how, "f": st_fun(M.dim_of(s), int(np.prod(M.value_shape(s), dtype=int)))}))
        b = st.one_of(S.scalar(cn), S.base(cn)) if cn != "IxT" else st.one_of(S.scalar(cn), S.vector(cn))
        spec = st.one_of(b, S.vec_of(b), S.vec_of(S.scalar(cn)), b.map(lambda s: {"el": "Disc", "of": s}))
        if k == "interp":
            other = st.one_of(S.scalar(cn), S.vec_of(S.scalar(cn)), S.base(cn))
            return st.tuples(spec, other).map(lambda t: {"spec": t[0], "other": self.fit(t[1], t[0])})
        return spec.flatmap(lambda s: st.fixed_dictionaries({
            "spec": st.just(s), "how": how, "f": st_fun(M.dim_of(s), int(np.prod(M.value_shape(s), dtype=int)))}))

    @staticmethod
    def fit(other, spec):
        """Make `other` have the value shape of `spec` where possible."""
        vs = M.value_shape(spec)
        if M.value_shape(other) == vs:
            return other
        base = other
        while M.value_shape(base) != ():
            if "of" not in base or isinstance(base["of"], list):
                return spec
            base = base["of"]
        return {"el": "Vec", "of": base, "shape": [int(v) for v in vs], "transpose": False} if vs else base

    def run(self, config, p):
        k = config["kind"]
        spec = p.get("spec") or config["spec"]
        e = C.build(spec)
        if k == "deriv":
            rejects(lambda: e.dual_basis, exc=NotImplementedError, what="dual basis with derivative nodes")
            return {"refused"}
        try:
            X, W = dual(spec)
        except NoDual:
            if k == "mapped":
                rejects(lambda: e.dual_basis, exc=NotImplementedError, what="dual basis with derivative nodes")
                return {"refused"}
            return False
        if k == "mapped" and len(W) != e.space_dimension():
            rejects(lambda: e.dual_basis, exc=NotImplementedError, what="dual basis of %d functions with %d nodes" % (e.space_dimension(), len(W)))
            return {"refused", "constrained"}
        vs, ish = M.value_shape(spec), M.index_shape(spec)
        n = W.shape[0]
        Q, x = e.dual_basis
        require(len(set(x.indices)) == len(x.indices), "indices of the points repeat: %s", x.indices)
        require(tuple(Q.shape) == ish + vs, "dual basis has shape %s, expected %s", Q.shape, ish + vs)
        require(set(Q.free_indices) <= set(x.indices), "dual basis has free indices beyond its points")
        pts = np.asarray(x.points, dtype=float)
        A = geval(Q, x.indices).reshape((len(pts), n, -1))

        def apply_q(vals):
            return np.einsum("pnv,p...v->n...", A, vals)
        # identity on the element's own basis
        if k == "mapped":
            B = fiat_values(C.build_fiat(spec).tabulate(0, pts)[(0,) * pts.shape[1]], len(pts)).reshape((len(pts), n, -1))
            close(apply_q(B), np.eye(n), rtol=1e-8, atol=2e-8, what="dual basis applied to the reference basis")
        elif k == "rule":
            B = values(e, 0, x)[(0,) * pts.shape[1]].reshape((len(pts), n, -1))
            close(apply_q(B), np.eye(n), rtol=1e-8, atol=2e-8, what="dual basis applied to the basis")
        elif spec["el"] != "HDivTrace":
            B = M.tabulate(spec, 0, pts)[(0,) * pts.shape[1]].reshape((len(pts), n, -1))
            close(apply_q(B), np.eye(n), rtol=1e-8, atol=2e-8, what="dual basis applied to the basis")
        # dual_evaluation of a generated function
        lab = {"el:" + spec["el"], "cell:" + M.cname(spec), k}
        if k == "interp":
            other = p["other"]
            oe = C.build(other)
            arg = []

            def fn(ps):
                t, = oe.basis_evaluation(0, ps).values()
                idx = oe.get_indices()
                arg[:] = idx
                return gem.partial_indexed(t, idx)
            ev, idx = e.dual_evaluation(fn)
            T = M.tabulate(other, 0, X)[(0,) * X.shape[1]].reshape((len(X), M.space_dim(other), -1))
            want = np.einsum("nmv,mjv->nj", W.reshape(n, len(X), -1), T)
            got = self.evaluate(ev, tuple(idx) + tuple(arg), ish)
            got = got.reshape(n, -1)
        else:
            f = p["f"]
            lab.add(p["how"])

            def fn(ps):
                if p["how"] == "sym":
                    return gem_fun(f, ps.expression, vs)
                tab = np_fun(f, np.asarray(ps.points, dtype=float), vs)
                tab = tab.reshape(tuple(i.extent for i in ps.indices) + vs)
                return gem.partial_indexed(gem.Literal(tab), ps.indices)
            ev, idx = e.dual_evaluation(fn)
            F = np_fun(f, X, vs).reshape(len(X), -1)
            want = np.einsum("nmv,mv->n", W.reshape(n, len(X), -1), F)
            got = self.evaluate(ev, tuple(idx), ish).reshape(n)
        require(tuple(i.extent for i in idx) == ish, "dual_evaluation indexes its result by %s, the index shape is %s", tuple(i.extent for i in idx), ish)
        close(got, want, rtol=1e-7, atol=1e-8, what="dual evaluation")
        return lab if np.max(np.abs(want)) > 1e-6 else False

    @staticmethod
    def evaluate(expr, fids, ish):
        require(tuple(expr.shape) == (), "dual_evaluation result has shape %s", expr.shape)
        require(set(expr.free_indices) <= set(fids), "dual_evaluation result has unexpected free indices")
        a = geval(expr, fids)
        return np.array(np.broadcast_to(a, tuple(i.extent for i in fids)))


CHECK = C09()
