"""C26 histories of queries on shared elements."""
import copy

import finat
import gem
import numpy as np
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib import specs as S
from vlib.core import Check, Discard, require, canon
from vlib.gemeval import Evaluator, GemEvalError, geval
from checks.c13 import QuadGeometry, quad
from checks.comp import norm_ed

UNSUPPORTED = (NotImplementedError, AttributeError, ValueError, TypeError, AssertionError, RuntimeError, ArithmeticError, LookupError)


def has(spec, *words):
    s = canon(spec)
    return any(w in s for w in words)


def zany(spec):
    return has(spec, *['"%s"' % z["el"] for z in C.zany_leaves("quick")])


def ds(spec):
    return has(spec, "DirectSerendipity")


class Lazy:
    """An answer whose expressions are kept and can be evaluated any time."""

    def __init__(self, exprs, fids, bindings, static=None):
        self.exprs, self.fids, self.bindings, self.static = exprs, fids, bindings, static

    def value(self):
        ev = Evaluator(self.bindings)
        out = {}
        for k, x in self.exprs.items():
            if isinstance(x, gem.Failure):
                out[k] = "failure"
                continue
            require(set(x.free_indices) <= set(self.fids), "%s has free indices %s beyond those of its points", k, x.free_indices)
            try:
                a = geval(x, self.fids, ev=ev)
            except GemEvalError as err:
                if "Failure node" not in str(err):
                    raise
                out[k] = "failure"
                continue
            out[k] = np.array(np.broadcast_to(a, tuple(i.extent for i in self.fids) + tuple(x.shape)))
        return self.static, out


class Env:
    """Point sets, coordinate mappings and elements of one history."""

    def __init__(self, p, cn, spec):
        self.cn = cn
        self.p = p
        self.pool = []
        for d in p["pool"]:
            ent = G.ent_parse(d["ent"])
            ecn = cn if ent is None else G.entity_cellname(cn, ent[0])
            ps, pts = G.pointset(ecn, d["ps"])
            self.pool.append((ent, ps, np.asarray(pts)))
        self.geos = []
        for g in p["geo"]:
            if ds(spec):
                self.geos.append(QuadGeometry(quad(g), g["sym"]))
            elif zany(spec):
                n = M.dim_of(spec)
                A, b = G.affine(n, g["A"])
                if np.linalg.cond(A) > 4:
                    raise Discard
                self.geos.append(G.AffineGeometry(n, A, b, symbolic=g["sym"]))
            else:
                self.geos.append(None)
        self.els = {}


def make(who, spec, kind, shared):
    """The element a query addresses: 0 and 1 are equal, separately built
    elements; 2 is a composite holding number 0."""
    b = _mk(spec) if who == 1 or not shared else None
    if who in (0, 1):
        return b if b is not None else C.build(spec) if not ds(spec) else _mk(spec)
    e = shared[0] if shared else _mk(spec)
    return compose(kind, e)


def _mk(spec):
    if ds(spec):
        return finat.DirectSerendipity(C.cell("Q"), spec["deg"])
    C.clear_caches()
    e = C.build(spec)
    C.clear_caches()
    return e


def compose(kind, e):
    if kind == "vec":
        return finat.TensorFiniteElement(e, (2,))
    if kind == "vecT":
        return finat.TensorFiniteElement(e, (2, 2), transpose=True)
    if kind == "enr":
        return finat.EnrichedElement([e, e])
    if kind == "mix":
        return finat.MixedElement([e, e])
    if kind == "disc":
        return finat.DiscontinuousElement(e)
    raise KeyError(kind)


def bind(geo):
    return dict(geo.bindings) if geo is not None else {}


def ask(e, op, env):
    """Answer to one query, or ("refused", type)."""
    k = op[0]
    try:
        if k == "tab":
            ent, ps, _ = env.pool[op[2] % len(env.pool)]
            geo = env.geos[op[4] % len(env.geos)]
            kw = {} if geo is None else {"coordinate_mapping": geo}
            r = e.basis_evaluation(op[3], ps, ent, **kw)
            return Lazy(dict(r), tuple(ps.indices), bind(geo))
        if k == "pt":
            ent, ps, pts = env.pool[op[2] % len(env.pool)]
            d = pts.shape[1]
            i = gem.Index(extent=len(pts))
            X = gem.partial_indexed(gem.Variable("X", pts.shape), (i,)) if op[4] % 2 or not d else gem.Variable("X", (d,))
            fid = (i,) if op[4] % 2 or not d else ()
            r = e.point_evaluation(op[3], X, ent)
            return Lazy(dict(r), fid, {"X": pts if fid else pts[0]})
        if k == "dual":
            Q, x = e.dual_basis
            return Lazy({"Q": Q}, tuple(x.indices), {}, {"pts": np.asarray(x.points, dtype=float)})
        if k == "deval":
            d = G.point_dim(env.cn)
            vs = tuple(e.value_shape)

            def fn(ps):
                x = ps.expression
                acc = gem.Literal(1.0)
                for j in range(d):
                    acc = gem.Sum(acc, gem.Product(gem.Literal(float(j + 2)), gem.Product(gem.Indexed(x, (j,)), gem.Indexed(x, (j,)))))
                if not vs:
                    return acc
                return gem.ListTensor(np.array([gem.Product(gem.Literal(float(q + 1)), acc)
                                                for q in range(int(np.prod(vs)))], dtype=object).reshape(vs))
            x, idx = e.dual_evaluation(fn)
            return Lazy({"v": x}, tuple(idx), {})
        if k == "layout":
            return Lazy({}, (), {}, {"dofs": norm_ed(copy.deepcopy(e.entity_dofs())), "closure": norm_ed(copy.deepcopy(e.entity_closure_dofs())),
                                     "dim": int(e.space_dimension()), "ishape": tuple(e.index_shape), "vshape": tuple(e.value_shape)})
        if k == "support":
            return Lazy({}, (), {}, {"d": norm_ed(copy.deepcopy(e.entity_support_dofs()))})
        if k == "perm":
            t = e.entity_permutations
            return Lazy({}, (), {}, {"p": {d: {i: {o: [int(v) for v in x] for o, x in m.items()} for i, m in en.items()} for d, en in t.items()}})
        if k == "attrs":
            return Lazy({}, (), {}, {"deg": str(e.degree), "fd": str(e.formdegree), "map": str(e.mapping), "cell": str(e.cell), "cx": str(e.complex)})
        if k == "equiv":
            f = e.fiat_equivalent
            ent, ps, _ = env.pool[op[2] % len(env.pool)]
            t = f.tabulate(op[3], ps.points, ent)
            return Lazy({}, (), {}, {"ed": norm_ed(copy.deepcopy(f.entity_dofs())), **{a: np.array(v) for a, v in t.items() if not isinstance(v, Exception)}})
        if k == "M":
            geo = env.geos[op[4] % len(env.geos)]
            if geo is None or not hasattr(e, "basis_transformation"):
                return ("refused", "n/a")
            B = e.basis_transformation(geo)
            B = getattr(B, "array", B)
            return Lazy({"M": B if isinstance(B, gem.Node) else gem.ListTensor(B)}, (), bind(geo))
        if k == "gram":
            ent, ps, _ = env.pool[op[2] % len(env.pool)]
            geo = env.geos[op[4] % len(env.geos)]
            kw = {} if geo is None else {"coordinate_mapping": geo}
            a = e.basis_evaluation(op[3], ps, ent, **kw)
            b = e.basis_evaluation(0, ps, ent, **kw)
            i, j, v = e.get_indices(), e.get_indices(), e.get_value_indices()
            out = {}
            zero, = b.values()
            for alpha, t in a.items():
                if isinstance(t, gem.Failure):
                    continue
                x = gem.Product(gem.Indexed(t, i + v), gem.Indexed(zero, j + v))
                out[alpha] = gem.ComponentTensor(gem.index_sum(x, tuple(ps.indices) + v), i + j)
            return Lazy(out, (), bind(geo))
    except UNSUPPORTED as ex:
        return ("refused", type(ex).__name__)
    raise KeyError(k)


def st_ops(big):
    who = st.sampled_from([0, 0, 0, 1, 2, 2])
    n, o, g = st.integers(0, 2), st.integers(0, 1 if big else 2), st.integers(0, 1)
    mk = lambda *ks: st.tuples(st.sampled_from(ks), who, n, o, g).map(list)
    return st.lists(st.one_of(mk("tab"), mk("tab", "gram"), mk("pt"), mk("dual", "deval"), mk("layout", "support", "perm", "attrs", "equiv"), mk("M", "tab")),
                    min_size=3, max_size=9)


class C26(Check):
    id = "C26"
    quick = 10
    thorough = 120
    rule = ("A case is a history: an element (leaf, physically mapped leaf, direct serendipity or generated composite), a second equal element, a "
            "composite sharing it, a pool of shared point sets and two coordinate mappings, and 3-9 generated queries (tabulation, symbolic "
            "evaluation, dual basis, dual evaluation, layout, supports, permutations, metadata, plain equivalent, transformation matrix, "
            "products of tabulations), followed by the cheap ones (permutations, layout, metadata) of all three. Every answer, evaluated at once and again after the whole history, must equal the answer of an "
            "element built afresh for that query alone. Non-trivial: at least two distinct queries were answered.")
    assumptions = ["the caller does not modify returned dictionaries"]

    def configs(self, tier):
        deep = tier == "thorough"
        out = [{"kind": "leaf", "spec": s, "w": 0.4, "cost": 2 if s["cell"] in "KH" else 1} for s in C.simple_leaves(tier)
               if deep or not (s["cell"] == "K" and s["deg"] > 1 or s["cell"] == "H" and s["deg"] > 1 or s["cell"] in "IQ" and s["deg"] > 3
                               or s["cell"] == "T" and s["deg"] > 2)]
        for s in C.zany_leaves(tier):
            slow = s["el"] == "HuZhang"
            if not deep and (slow and s["deg"] > 3 or s["el"] == "Argyris" and s["deg"] > 5 or s["cell"] == "K" and s["deg"] > 1):
                continue
            out.append({"kind": "zany", "spec": s, "w": 0.25 if s["cell"] == "K" or slow else 0.6, "cost": 30 if slow else 5})
        out += [{"kind": "ds", "spec": {"el": "DirectSerendipity", "cell": "Q", "deg": d}, "w": 0.3, "cost": 6} for d in (1, 2)]
        for cn in S.CELLS + ["IxT"]:
            w = {"H": 0.5, "IxIxI": 0.6, "QxI": 0.6, "K": 0.6}.get(cn, 2)
            out.append({"kind": "any", "cell": cn, "w": w, "cost": 6})
            if S.vector(cn) is not None:
                out.append({"kind": "vector", "cell": cn, "w": w / 2, "cost": 5})
        return out

    def params(self, config):
        k = config["kind"]
        spec = st.just(config["spec"]) if "spec" in config else (S.any_spec(config["cell"]) if k == "any" else S.vector(config["cell"]))
        cn = config["spec"]["cell"] if "spec" in config else config["cell"]
        ents = [G.ent_json(e) for e in G.entities(C.cell(cn))]

        def pool(ent):
            ecn = cn if ent is None else G.entity_cellname(cn, G.ent_parse(ent)[0])
            return st.fixed_dictionaries({"ent": st.just(ent), "ps": G.st_pointset(ecn, maxn=3)})
        pl = st.lists(st.one_of(st.just(None), st.sampled_from(ents)).flatmap(pool), min_size=1, max_size=3)
        if k == "zany":
            geo = st.fixed_dictionaries({"A": G.st_affine(G.point_dim(cn), scale=(4, 20)), "sym": st.booleans()})
        elif k == "ds":
            geo = st.fixed_dictionaries({"v": st.lists(st.integers(-8, 8), min_size=8, max_size=8), "A": G.st_affine(2, scale=(5, 20)), "sym": st.booleans()})
        else:
            geo = st.just(None)
        big = cn in ("K", "H", "QxI", "IxIxI") or k in ("zany", "ds")
        return st.fixed_dictionaries({"spec": spec, "pool": pl, "geo": st.lists(geo, min_size=2, max_size=2), "ops": st_ops(big),
                                      "comp": st.sampled_from(["vec", "vecT", "enr", "mix", "disc"])})

    def run(self, config, p):
        spec = p["spec"]
        cn = M.cname(spec) if config["kind"] != "ds" else "Q"
        env = Env(p, cn, spec)
        kind = p["comp"] if config["kind"] not in ("zany", "ds") or p["comp"] not in ("disc",) else "vec"
        e0, e1 = _mk(spec), _mk(spec)
        els = {0: e0, 1: e1}
        try:
            els[2] = compose(kind, e0)
        except UNSUPPORTED:
            els[2] = e0
            kind = None
        fresh = {}
        done = []
        answered = set()
        # the cheap questions of all kinds last, the composite's before its part's
        last = [[q, who, 0, 0, 0] for q in ("perm", "layout", "attrs") for who in (2, 0, 1)]
        for op in p["ops"] + last:
            a = ask(els[op[1]], op, env)
            now = a if isinstance(a, tuple) else a.value()
            key = canon([op[0], 0 if op[1] == 1 else op[1]] + op[2:])
            if key not in fresh:
                env2 = Env(p, cn, spec)
                e = _mk(spec)
                if op[1] == 2 and kind:
                    e = compose(kind, e)
                f = ask(e, op, env2)
                fresh[key] = f if isinstance(f, tuple) else f.value()
            self.same(now, fresh[key], op, "")
            done.append((op, a, fresh[key]))
            if not isinstance(a, tuple) and op not in last:
                answered.add(key)
        for op, a, f in done:
            if not isinstance(a, tuple):
                self.same(a.value(), f, op, " after the whole history")
        lab = {"op:" + op[0] for op in p["ops"]} | {"kind:" + config["kind"], "cell:" + cn}
        if kind:
            lab.add("shared:" + kind)
        return lab if len(answered) > 1 else False

    def same(self, a, b, op, when):
        require(type(a) is type(b) and len(a) == len(b), "%s answered %s, alone %s", op, a, b)
        if isinstance(a[0], str):
            require(a == b, "%s%s: %s, alone %s", op, when, a, b)
            return
        self.equal(a, b, op, when)

    def equal(self, a, b, op, when):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            require(len(a) == len(b), "%s%s: %s, alone %s", op, when, a, b)
            for x, y in zip(a, b):
                self.equal(x, y, op, when)
        elif isinstance(a, dict) and isinstance(b, dict):
            require(set(a) == set(b), "%s%s: keys %s, alone %s", op, when, list(a), list(b))
            for k in a:
                self.equal(a[k], b[k], op, when)
        elif isinstance(a, np.ndarray):
            require(isinstance(b, np.ndarray) and a.shape == b.shape, "%s%s: shapes differ", op, when)
            m = max(1.0, float(np.max(np.abs(b), initial=0)))
            require(np.allclose(a / m, b / m, rtol=1e-9, atol=1e-10, equal_nan=True), "%s%s: differs by %g from the answer of a fresh element",
                    op, when, float(np.max(np.abs(a - b))) if a.size else 0)
        else:
            require(a == b, "%s%s: %s, alone %s", op, when, a, b)


CHECK = C26()
