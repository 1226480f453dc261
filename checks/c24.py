"""C24 run-time tabulated elements."""
import itertools

import numpy as np
from hypothesis import strategies as st

import finat
import gem
from gem import gem as GG

from vlib import catalogue as C
from vlib import geom as G
from vlib import tab as T
from vlib.core import Check, Discard, require, rejects, close

VARIANTS = ["a", "gll", "mgd", "feec", "fd_1", "fd_1_0", "x_1_0_0_c", "a_p", "a_1", "rt", "", "1", "a_", "_"]


def st_req():
    return st.fixed_dictionaries({
        "degree": st.integers(1, 12), "variant": st.one_of(st.sampled_from(VARIANTS), st.text(alphabet="ab_01cdpm", max_size=6)),
        "shift": st.integers(0, 11), "restriction": st.sampled_from([None, "+", "-"]), "continuous": st.booleans()})


def make(r):
    return finat.RuntimeTabulated(C.cell("I"), r["degree"], variant=r["variant"], shift_axes=r["shift"], restriction=r["restriction"],
                                  continuous=r["continuous"])


def variables(expr):
    out, todo, seen = [], [expr], set()
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if isinstance(n, gem.Variable):
            out.append(n)
        todo.extend(n.children)
    return out


def the_variable(e, expr):
    vs = variables(expr)
    require(len(set(vs)) == 1, "%d run-time tables for one derivative of one element", len(set(vs)))
    return vs[0]


def key(r, alpha, n):
    return (r["variant"], r["degree"], r["shift"], r["restriction"], r["continuous"], tuple(alpha))


class C24(Check):
    id = "C24"
    quick = 350
    thorough = 8000
    rule = ("'table': generated element, order 0-3 and interval point set; the table bound to random numbers is read back at every point "
            "and basis function. 'pair': two generated requests that differ in few attributes, interleaved and repeated; run-time variables "
            "are equal exactly when the requests are. 'product': tensor-product, tensor-valued and enriched elements over generated factors "
            "against the Kronecker product of the random tables. 'refuse': other cells, arguments, layout and symbolic points. "
            "Non-trivial: at least one table read or a refusal.")
    assumptions = ["the shift of axes is part of a request", "run-time tables are used in the cell interior (entities are not consulted)"]

    def configs(self, tier):
        return [{"kind": "table"}, {"kind": "pair", "w": 2}, {"kind": "product", "n": 2}, {"kind": "product", "n": 3, "w": 0.5},
                {"kind": "vector", "w": 0.5}, {"kind": "enriched", "w": 0.5}, {"kind": "refuse", "w": 0.4}]

    def params(self, config):
        k = config["kind"]
        ps = G.st_pointset("I")
        if k == "table":
            return st.fixed_dictionaries({"r": st_req(), "order": st.integers(0, 3), "ps": ps, "seed": st.integers(0, 10 ** 6)})
        if k == "pair":
            return st.fixed_dictionaries({"r": st_req(), "s": st_req(), "keep": st.lists(st.sampled_from(
                ["degree", "variant", "shift", "restriction", "continuous"]), unique=True), "split": st.booleans(),
                "order": st.integers(0, 3), "order2": st.integers(0, 3), "ps": ps})
        if k == "product":
            return st.fixed_dictionaries({"rs": st.lists(st_req(), min_size=config["n"], max_size=config["n"]),
                                          "ps": st.lists(st.integers(1, 3), min_size=config["n"], max_size=config["n"]),
                                          "order": st.integers(0, 2), "seed": st.integers(0, 10 ** 6)})
        if k == "vector":
            return st.fixed_dictionaries({"r": st_req(), "shape": st.lists(st.integers(1, 3), min_size=1, max_size=2), "order": st.integers(0, 2),
                                          "ps": ps, "seed": st.integers(0, 10 ** 6)})
        if k == "enriched":
            return st.fixed_dictionaries({"rs": st.lists(st_req(), min_size=1, max_size=3), "order": st.integers(0, 2), "ps": ps,
                                          "seed": st.integers(0, 10 ** 6)})
        return st.fixed_dictionaries({"r": st_req(), "cell": st.sampled_from(["T", "Q", "K", "H", "IxI", "TxI"]), "order": st.integers(0, 2),
                                      "what": st.sampled_from(["cell", "variant", "shift", "negshift", "restriction", "continuous", "dofs", "point",
                                                               "closure", "dual", "defaults"])})

    def run(self, config, p):
        return getattr(self, config["kind"] + "_")(config, p)

    def attrs(self, e, r):
        require(e.degree == r["degree"] and e.space_dimension() == r["degree"] + 1 and e.index_shape == (r["degree"] + 1,),
                "degree %s: dimension %s, index shape %s", r["degree"], e.space_dimension(), e.index_shape)
        require(e.value_shape == () and e.mapping == "affine", "value shape %s, mapping %s", e.value_shape, e.mapping)
        require(e.formdegree == (0 if r["continuous"] else 1), "form degree %s, continuous=%s", e.formdegree, r["continuous"])
        require(e.cell == C.cell("I"), "cell %r", e.cell)

    def table_(self, config, p):
        r = p["r"]
        e = make(r)
        self.attrs(e, r)
        ps, pts = G.pointset("I", p["ps"])
        rng = np.random.default_rng(p["seed"])
        res = e.basis_evaluation(p["order"], ps)
        require(set(res) == {(k,) for k in range(p["order"] + 1)}, "derivatives %s for order %d", sorted(res), p["order"])
        bind = {}
        want = tuple(i.extent for i in ps.indices) + (r["degree"] + 1,)
        for a, x in res.items():
            v = the_variable(e, x)
            require(tuple(v.shape) == want, "derivative %s: table of shape %s, expected points and basis %s", a, v.shape, want)
            require(v.name not in bind, "derivatives of different order share the table %s", v.name)
            bind[v.name] = rng.random(want)
            require(set(x.free_indices) == set(ps.indices), "free indices %s", x.free_indices)
        got = T.tab_values(e, res, ps, bind)
        for a, x in res.items():
            close(got[a], bind[the_variable(e, x).name].reshape((-1, r["degree"] + 1)), what="derivative %s" % (a,))
        return {"order%d" % p["order"], p["ps"]["k"]}

    def pair_(self, config, p):
        r = p["r"]
        s = dict(p["s"], **{k: r[k] for k in p["keep"]})
        if p["split"]:
            # move digits between variant and degree: a collision if names are just concatenated
            s = dict(r, variant=r["variant"] + "_%d" % r["degree"])
        e, f = make(r), make(s)
        ps, _ = G.pointset("I", p["ps"])
        a = e.basis_evaluation(p["order"], ps)
        b = f.basis_evaluation(p["order2"], ps)
        c = make(r).basis_evaluation(p["order2"], ps)
        d = e.basis_evaluation(p["order"], ps)
        seen = {}
        for q, res in ((r, a), (s, b), (r, c), (r, d)):
            for alpha, x in res.items():
                v = the_variable(e, x)
                k = key(q, alpha, 0)
                require(seen.setdefault(k, v) == v and seen[k].name == v.name, "equal requests %s use different tables %s and %s", k, seen[k].name, v.name)
        names = {}
        for k, v in seen.items():
            require(names.setdefault(v.name, k) == k, "different requests %s and %s share the table %s", names[v.name], k, v.name)
        return {"same" if r == s else "different"}

    def bindings(self, es, order, pss, rng):
        bind = {}
        tabs = []
        for e, ps in zip(es, pss):
            tb = {}
            for a, x in e.basis_evaluation(order, ps).items():
                v = the_variable(e, x)
                if v.name not in bind or bind[v.name].shape != tuple(v.shape):
                    if v.name in bind:
                        raise Discard       # the same table on different point sets
                    bind[v.name] = rng.random(v.shape)
                tb[a[0]] = bind[v.name].reshape((-1, e.space_dimension()))
            tabs.append(tb)
        return bind, tabs

    def product_(self, config, p):
        rs = [dict(r, degree=min(r["degree"], 3), shift=i) for i, r in enumerate(p["rs"])]
        es = [make(r) for r in rs]
        e = finat.TensorProductElement(es)
        rng = np.random.default_rng(p["seed"])
        pss = [finat.point_set.PointSet(rng.random((n, 1))) for n in p["ps"]]
        ps = finat.point_set.TensorPointSet(pss)
        bind, tabs = self.bindings(es, p["order"], pss, rng)
        got = T.values(e, p["order"], ps, bindings=bind)
        n = len(es)
        for alpha in got:
            w = np.ones((1,) + (1,) * n)
            for i in range(n):
                t = tabs[i][alpha[i]]
                sh = [1] * n
                sh[i] = t.shape[1]
                t = t.reshape([t.shape[0]] + sh)
                w = (w[:, None] * t[None]).reshape((-1,) + np.broadcast_shapes(w.shape[1:], t.shape[1:]))
            close(got[alpha], w, what="product, derivative %s" % (alpha,))
        return {"product%d" % n}

    def vector_(self, config, p):
        r = p["r"]
        e = make(r)
        v = finat.TensorFiniteElement(e, tuple(p["shape"]))
        ps, _ = G.pointset("I", p["ps"])
        rng = np.random.default_rng(p["seed"])
        bind, (tb,) = self.bindings([e], p["order"], [ps], rng)
        got = T.values(v, p["order"], ps, bindings=bind)
        m = int(np.prod(p["shape"]))
        for alpha, x in got.items():
            t = tb[alpha[0]]
            w = np.einsum("pj,ab->pjab", t, np.eye(m)).reshape((t.shape[0], t.shape[1]) + tuple(p["shape"]) * 2)
            close(x, w, what="vector, derivative %s" % (alpha,))
        return {"rank%d" % len(p["shape"])}

    def enriched_(self, config, p):
        es = [make(r) for r in p["rs"]]
        ps, _ = G.pointset("I", p["ps"])
        rng = np.random.default_rng(p["seed"])
        bind, tabs = self.bindings(es, p["order"], [ps] * len(es), rng)
        e = finat.EnrichedElement(es)
        got = T.values(e, p["order"], ps, bindings=bind)
        for alpha, x in got.items():
            close(x, np.concatenate([t[alpha[0]] for t in tabs], axis=1), what="sum, derivative %s" % (alpha,))
        return {"parts%d" % len(es)}

    def refuse_(self, config, p):
        r, w = p["r"], p["what"]
        e = make(r)
        I = C.cell("I")
        if w == "cell":
            rejects(finat.RuntimeTabulated, C.cell(p["cell"]), r["degree"], variant=r["variant"], what="cell %s" % p["cell"])
        elif w == "variant":
            rejects(finat.RuntimeTabulated, I, r["degree"], what="no variant")
            rejects(finat.RuntimeTabulated, I, r["degree"], variant=3, what="variant that is no string")
        elif w == "shift":
            rejects(finat.RuntimeTabulated, I, r["degree"], variant=r["variant"], shift_axes=0.5, what="fractional shift")
        elif w == "negshift":
            rejects(finat.RuntimeTabulated, I, r["degree"], variant=r["variant"], shift_axes=-1 - r["shift"], what="negative shift")
        elif w == "restriction":
            rejects(finat.RuntimeTabulated, I, r["degree"], variant=r["variant"], restriction="x", what="restriction 'x'")
        elif w == "continuous":
            rejects(finat.RuntimeTabulated, I, r["degree"], variant=r["variant"], continuous=None, what="continuous=None")
        elif w == "defaults":
            d = finat.RuntimeTabulated(I, r["degree"], variant=r["variant"])
            self.attrs(d, dict(r, continuous=True))
            q = dict(r, shift=0, restriction=None, continuous=True)
            ps = finat.point_set.PointSet(np.array([[0.25], [0.5]]))
            x, y = (v.basis_evaluation(p["order"], ps) for v in (d, make(q)))
            for a in y:
                require(the_variable(d, x[a]) == the_variable(e, y[a]), "default arguments: table %s, expected %s", the_variable(d, x[a]).name, the_variable(e, y[a]).name)
        elif w == "dofs":
            rejects(e.entity_dofs, what="entity layout")
        elif w == "closure":
            rejects(e.entity_closure_dofs, what="closure layout")
        elif w == "dual":
            rejects(lambda: e.dual_basis, what="dual basis")
        else:
            rejects(e.point_evaluation, p["order"], gem.Variable("X", (1,)), what="symbolic point evaluation")
        return {w}


CHECK = C24()
