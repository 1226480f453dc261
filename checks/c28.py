"""C28 the expressions of composites keep the product structure."""
import finat
import gem
import numpy as np
from gem.node import traversal
from hypothesis import strategies as st
from finat.point_set import GaussLegendrePointSet, GaussLobattoLegendrePointSet, TensorPointSet
from finat.quadrature import make_quadrature
from finat.quadrature_element import make_quadrature_element

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib import specs as S
from vlib.catalogue import L
from vlib.core import Check, Discard, require
from checks.comp import eval_points, st_eval, labels

LABEL = {"GaussLegendre": GaussLegendrePointSet, "GaussLobattoLegendre": GaussLobattoLegendrePointSet}
CELLS = ["Q", "H", "IxI", "TxI", "QxI", "IxT", "IxIxI", "KxI", "IxK", "TxT", "TxIxI", "IxIxIxI", "QxQ", "HxI"]
QUAD = ["Q", "IxI", "TxI", "QxI", "IxT", "IxIxI", "KxI", "QxQ", "TxT"]


NODUAL = ("BrezziDouglasMariniCubeFace", "BrezziDouglasMariniCubeEdge", "TrimmedSerendipityFace", "TrimmedSerendipityEdge")


def tree(ps):
    """The product structure of a point set: [parts], or a plain set."""
    return [tree(f) for f in ps.factors] if isinstance(ps, TensorPointSet) else ps


class Flat:
    """All points of a product, one after another."""
    def __init__(self, n, indices):
        self.n, self.indices = n, tuple(indices)


def npts(t):
    return int(np.prod([npts(f) for f in t], dtype=int)) if isinstance(t, list) else t.n if isinstance(t, Flat) else len(t.points)


def indices(t):
    return tuple(i for f in t for i in indices(f)) if isinstance(t, list) else tuple(t.indices)


def parts(spec):
    of = spec.get("of", spec.get("factors", []))
    return of if isinstance(of, list) else [of]


def split(spec, t):
    """(factor, its points, its slice of the coordinates) of a product."""
    fs = spec["factors"]
    if not (isinstance(t, list) and len(t) == len(fs)):
        t = [Flat(npts(t), indices(t))] * len(fs)
    o = 0
    for f, tf in zip(fs, t):
        d = M.dim_of(f)
        yield f, tf, slice(o, o + d)
        o += d


def comps(spec):
    return int(np.prod(M.value_shape(spec), dtype=int))


def nodal(spec, t):
    """Whether the points are, by their type and number, the leaf's own nodes."""
    return spec["el"] in LABEL and isinstance(t, LABEL[spec["el"]]) and npts(t) == M.space_dim(spec)


def bound(spec, t, alpha, inner):
    """Entries of the largest table any leaf needs for this derivative."""
    if spec["el"] == "TPE":
        return max(bound(f, tf, alpha[s], inner) for f, tf, s in split(spec, t))
    if "of" in spec:
        return max(bound(f, t, alpha, inner) for f in parts(spec))
    if inner and sum(alpha) == 0 and nodal(spec, t):
        return 1
    return M.space_dim(spec) * npts(t) * comps(spec)


def varying(spec, t, alpha):
    """Point indices this derivative may depend on."""
    if spec["el"] == "TPE":
        return set().union(*[varying(f, tf, alpha[s]) for f, tf, s in split(spec, t)])
    if "of" in spec:
        return set().union(*[varying(f, t, alpha) for f in parts(spec)])
    e = C.build(spec)
    if e.cell.is_simplex() and not e.complex.is_macrocell() and sum(alpha) >= e.degree:
        return set()
    return set(indices(t))


def tables(exprs):
    return [n.array.size for n in traversal(exprs) if isinstance(n, gem.Literal)]


def has(spec, names):
    return spec["el"] in names or any(has(f, names) for f in parts(spec))


class C28(Check):
    id = "C28"
    quick = 500
    thorough = 4000
    rule = ("A case is a generated composite with points that do or do not have product structure and a derivative order; no constant table in the "
            "expressions may have more entries than the largest table of a single factor at that factor's points, and derivatives may depend only on "
            "the points of factors whose degree they do not exhaust. The same for the weights of dual bases, for quadrature weights, and for nodal "
            "factors at their nodes, which need no table at all. Non-trivial: the full table of the composite would be larger than that bound, or some "
            "point index had to be absent.")
    assumptions = ["the size of a table is the number of entries of a constant array in the expression"]

    def configs(self, tier):
        out = []
        for cn in CELLS:
            w = {"H": 0.4, "KxI": 0.4, "IxK": 0.3, "TxT": 0.4, "TxIxI": 0.3, "IxIxIxI": 0.3, "QxQ": 0.3, "HxI": 0.2, "IxT": 0.6}.get(cn, 1)
            out.append({"k": "tab", "cell": cn, "w": w, "cost": 2})
            out.append({"k": "dual", "cell": cn, "w": w / 2})
            if S.vector(cn) is not None:
                out.append({"k": "vector", "cell": cn, "w": w / 2, "cost": 2})
        for cn in ("I", "T", "K"):
            out.append({"k": "tab", "cell": cn, "w": 0.5})
            out.append({"k": "dual", "cell": cn, "w": 0.3})
        for cn in QUAD:
            out.append({"k": "quad", "cell": cn, "w": 0.3})
        out.append({"k": "nodal", "w": 1.5})
        for c in "ITK":
            out.append({"k": "leaf", "cell": c, "tier": tier, "cost": 5})
        return out

    def params(self, config):
        k, cn = config["k"], config.get("cell")
        if k == "nodal":
            leaf = st.tuples(st.sampled_from(sorted(LABEL)), st.integers(1, 6)).map(lambda t: L(t[0], "I", t[1]))
            return st.fixed_dictionaries({"leaves": st.lists(leaf, min_size=2, max_size=3),
                                          "ps": st.lists(st.tuples(st.sampled_from(["own", "own", "own", "other", "more", "fewer"]), st.integers(0, 5)), min_size=3, max_size=3),
                                          "wrap": st.lists(st.sampled_from(["Vec", "Disc", "Mixed", "Enriched"]), max_size=2),
                                          "flat": st.booleans(), "order": st.integers(0, 2), "tdeg": st.integers(0, 2), "tail": st.booleans()})
        if k == "leaf":
            ls = [s for s in C.simple_leaves(config["tier"]) if s["cell"] == cn]
            return st.fixed_dictionaries({"spec": st.sampled_from(ls), "ev": st_eval(cn, 0), "over": st.integers(-1, 2), "vec": st.booleans()})
        if k == "quad":
            n = len(cn.split("x"))
            return st.fixed_dictionaries({"deg": st.one_of(st.integers(0, 8), st.lists(st.integers(0, 8), min_size=n, max_size=n)),
                                          "scheme": st.sampled_from(["default", "canonical"])})
        big = cn in ("H", "HxI", "QxQ", "IxIxIxI", "KxI", "IxK", "TxT", "TxIxI")
        if k == "vector":
            v = S.vector(cn)
            spec = st.one_of(v, v, S.vec_of(v), v.map(lambda s: {"el": "Disc", "of": s}), S.enriched_of(cn, v), S.mixed_of(v))
        elif cn in S.FOUR:
            s = S.scalar(cn)
            spec = st.one_of(s, S.vec_of(s), s.map(lambda s: {"el": "Disc", "of": s}), S.enriched_of(cn, s), S.mixed_of(s))
        elif k == "dual":
            s = S.scalar(cn) if S.vector(cn) is None else st.one_of(S.scalar(cn), S.scalar(cn), S.vector(cn))
            spec = st.one_of(s, S.vec_of(s), s.map(lambda s: {"el": "Disc", "of": s}), S.vec_of(s).flatmap(lambda v: S.vec_of(st.just(v))))
        else:
            spec = S.any_spec(cn)
        if k == "dual":
            return st.fixed_dictionaries({"spec": spec})
        return st.fixed_dictionaries({"spec": spec, "ev": st_eval(cn, 2 if big else 3)})

    def run(self, config, p):
        return getattr(self, config["k"] if config["k"] != "vector" else "tab")(config, p)

    def tab(self, config, p):
        spec, ev = p["spec"], p["ev"]
        e = C.build(spec)
        ent, ps, pts = eval_points(config["cell"], ev)
        out = set()
        r = e.basis_evaluation(ev["order"], ps, ent)
        t = tree(ps)
        for alpha, x in r.items():
            if not isinstance(x, gem.Failure):
                out |= self.judge(spec, t, alpha, x, False)
        return labels(spec, ev) | out if out else False

    def leaf(self, config, p):
        ev = dict(p["ev"], order=max(0, C.build(p["spec"]).degree + p["over"]))
        spec = {"el": "Vec", "of": p["spec"], "shape": [2], "transpose": False} if p["vec"] else p["spec"]
        return self.tab(config, {"spec": spec, "ev": ev})

    def judge(self, spec, t, alpha, x, inner):
        out = set()
        b = bound(spec, t, alpha, inner)
        got = max(tables([x]), default=0)
        require(got <= b, "a table of %d entries in D%s, where no factor needs more than %d", got, alpha, b)
        if M.space_dim(spec) * npts(t) * comps(spec) > b:
            out.add("factored")
        v = varying(spec, t, alpha)
        require(set(x.free_indices) <= v, "D%s depends on the points (indices %s, expected at most %s)", alpha,
                sorted(i.count for i in x.free_indices), sorted(i.count for i in v))
        if v < set(indices(t)):
            out.add("constant")
        return out

    def dual(self, config, p):
        spec = p["spec"]
        e = C.build(spec)
        if has(spec, NODUAL):
            # FIAT gives these no nodes
            raise Discard
        try:
            Q, ps = e.dual_basis
        except NotImplementedError:
            raise Discard
        leaves, count = [], []

        def walk(s):
            if s["el"] == "TPE":
                return [walk(f) for f in s["factors"]]
            if "of" in s:
                return walk(s["of"])
            q = C.build(s).dual_basis[1]
            leaves.append(M.space_dim(s) * len(q.points) * comps(s))
            return q.points
        want = walk(spec)

        def same(t, w, path):
            if isinstance(w, list):
                require(isinstance(t, list) and len(t) == len(w), "the dual points of a product with %d factors are not a product of as many sets", len(w))
                for i, (a, c) in enumerate(zip(t, w)):
                    same(a, c, path + [i])
                count.append(len(w))
            else:
                require(not isinstance(t, list) and np.allclose(t.points, w, rtol=0, atol=1e-12), "the dual points of factor %s are not its own", path)
        same(tree(ps), want, [])
        got = max(tables([Q]), default=0)
        require(got <= max(leaves), "weights of %d entries in the dual basis, where no factor needs more than %d", got, max(leaves))
        full = M.space_dim(spec) * npts(tree(ps)) * comps(spec)
        return labels(spec) | {"dual"} if full > max(leaves) else False

    def quad(self, config, p):
        cn, deg = config["cell"], p["deg"]
        c = C.cell(cn)
        if isinstance(deg, list):
            deg = tuple(deg) if len(deg) > 1 else deg[0]
        rule = make_quadrature(c, deg, scheme=p["scheme"])
        simple = [g for f in cn.split("x") for g in G.factor_names(f)]
        sets = []

        def walk(t):
            if isinstance(t, list):
                for f in t:
                    walk(f)
            else:
                sets.append(t)
        walk(tree(rule.point_set))
        require([s.dimension for s in sets] == [G.point_dim(f) for f in simple], "points on %s are a product of sets of dimension %s", cn, [s.dimension for s in sets])
        n = [len(s.points) for s in sets]
        require([i.extent for i in rule.point_set.indices] == n, "point indices of extent %s for factors of %s points", [i.extent for i in rule.point_set.indices], n)
        got = max(tables([rule.weight_expression]), default=0)
        require(got <= max(n), "weights of %d entries, where no factor has more than %d points", got, max(n))
        out = {"quad", "cell:" + cn, "scheme:" + p["scheme"]}
        e = make_quadrature_element(c, deg, scheme=p["scheme"])
        require(len(e.index_shape) == len(n) and list(e.index_shape) == n, "a quadrature element of shape %s for factors of %s points", e.index_shape, n)
        for x in e.basis_evaluation(0, e.dual_basis[1]).values():
            require(max(tables([x]), default=0) <= 1, "a quadrature element tabulates its own points")
        return out if int(np.prod(n)) > max(n) else False

    def nodal(self, config, p):
        leaves = p["leaves"]
        fac, pss = list(leaves), []
        for f, (how, i) in zip(leaves, p["ps"]):
            fam, n = f["el"], M.space_dim(f)
            if how == "other":
                fam = next(x for x in sorted(LABEL) if x != fam)
            n = max(2, n + {"more": 1 + i % 2, "fewer": -1}.get(how, 0))
            x = np.array([list(d.get_point_dict())[0] for d in C.build_fiat(L(fam, "I", n - 1)).dual_basis()])
            pss.append(LABEL[fam](x))
        if p["tail"] and len(fac) == 2:
            # a triangle next to the nodal factors
            fac.append(L("DiscontinuousLagrange", "T", p["tdeg"]))
            ps, _ = G.pointset("T", {"k": "set", "p": [[1, 2, 3 + i] for i in range(p["tdeg"] + 2)]})
            pss.append(ps)
        elif p["flat"] and len({M.degree(f) for f in fac}) > 1:
            fac, pss = [fac[0]] * len(fac), [pss[0]] + [type(pss[0])(pss[0].points) for _ in fac[1:]]
        spec = {"el": "TPE", "factors": fac}
        if p["flat"] and not (p["tail"] and len(leaves) == 2):
            spec = {"el": "Flat", "of": spec}
        for w in p["wrap"]:
            spec = {"el": w, "of": spec} if w == "Disc" else {"el": "Vec", "of": spec, "shape": [2], "transpose": False} if w == "Vec" else {"el": w, "of": [spec, spec]}
        ps = TensorPointSet(pss)
        t = tree(ps)
        out = set()
        for alpha, x in C.build(spec).basis_evaluation(p["order"], ps).items():
            out |= self.judge(spec, t, alpha, x, True)
            if bound(spec, t, alpha, True) < bound(spec, t, alpha, False):
                out.add("nodal factor")
        return labels(spec) | out if out else False


CHECK = C28()
