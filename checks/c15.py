"""C15 point sets and quadrature elements."""
from itertools import chain, product

import gem
import numpy as np
from finat.point_set import (PointSet, PointSingleton, TensorPointSet, UnknownPointSet, GaussLegendrePointSet,
                             GaussLobattoLegendrePointSet)
from finat.quadrature import make_quadrature, QuadratureRule, TensorProductQuadratureRule
from finat.quadrature_element import QuadratureElement, make_quadrature_element
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib.core import Check, Discard, require, rejects, close
from vlib.gemeval import geval
from vlib.tab import tab_values
from checks.comp import norm_ed

# --- point set trees ---------------------------------------------------------


def st_coords(n, d):
    c = st.integers(-30, 30)
    return st.lists(st.lists(c, min_size=d, max_size=d), min_size=n, max_size=n)


def st_leaf():
    kinds = st.sampled_from(["set", "set", "single", "unknown", "gl", "gll"])

    def mk(k):
        d = st.just(1) if k in ("gl", "gll") else st.integers(1, 3)
        n = st.just(1) if k == "single" else st.integers(1, 4)
        return st.tuples(n, d).flatmap(lambda nd: st_coords(*nd)).map(lambda p: {"k": k, "p": p})
    return kinds.flatmap(mk)


def st_tree():
    # unknown point sets have no stored points, so they cannot sit in a product's .points
    known = st_leaf().filter(lambda t: t["k"] != "unknown")
    t1 = st.lists(known, min_size=1, max_size=3).map(lambda f: {"k": "tensor", "f": f})
    # some of them used more than once
    again = st.lists(st.integers(0, 2), min_size=1, max_size=2)
    t3 = st.tuples(st.lists(known, min_size=1, max_size=2), again).map(lambda x: {"k": "tensor", "f": x[0], "again": x[1]})
    t4 = st.tuples(st.one_of(t3, t1.filter(lambda t: len(t["f"]) < 3)), again).map(lambda x: {"k": "tensor", "f": [x[0]], "again": x[1][:1]})
    t2 = st.lists(st.one_of(known, t1), min_size=1, max_size=3).map(lambda f: {"k": "tensor", "f": f})
    return st.one_of(st_leaf(), t1, t2, t3, t4)


def build(t, bind, touch):
    if t["k"] == "tensor":
        fs = [build(f, bind, touch) for f in t["f"]]
        if touch:
            for f in reversed(fs):
                f.indices, f.expression
        fs += [fs[i % len(fs)] for i in t.get("again", [])]
        return TensorPointSet(iter(fs) if touch else fs)
    pts = np.array(t["p"], dtype=float) / 7
    if t["k"] == "single":
        return PointSingleton(pts[0])
    if t["k"] == "unknown":
        name = "rt_:pts%d" % len(bind)
        bind[name] = pts
        return UnknownPointSet(gem.Variable(name, pts.shape))
    return {"set": PointSet, "gl": GaussLegendrePointSet, "gll": GaussLobattoLegendrePointSet}[t["k"]](pts)


def model(t):
    """(points, extents)"""
    if t["k"] == "tensor":
        ms = [model(f) for f in t["f"]]
        ms += [ms[i % len(ms)] for i in t.get("again", [])]
        pts = np.array([list(chain(*c)) for c in product(*[m[0] for m in ms])])
        return pts, sum((m[1] for m in ms), ())
    pts = np.array(t["p"], dtype=float) / 7
    return pts, (() if t["k"] == "single" else (len(pts),))


def has(t, k):
    return t["k"] == k or any(has(f, k) for f in t.get("f", []))


QCELLS = ["I", "T", "K", "Q", "H", "IxI", "TxI", "QxI", "IxIxI", "IxT"]


class C15(Check):
    id = "C15"
    quick = 250
    thorough = 4000
    rule = ("Cases are trees of point sets (plain, singleton, unknown, spectral, nested products, also of one point set or rule with itself; indices created in different orders), pairs of "
            "nearly equal point sets, and quadrature elements on all cells (default and hand-made rules, non-uniform weights). Oracle: "
            "direct enumeration of the Cartesian product and the identity matrix. Non-trivial: more than one point.")

    def configs(self, tier):
        return ([{"k": "points", "w": 6}, {"k": "equal", "w": 6}, {"k": "wrong", "w": 0.6}] +
                [{"k": "quad", "cell": c, "w": 0.6} for c in QCELLS] +
                [{"k": "quadbad", "cell": c, "w": 0.4} for c in QCELLS] + [{"k": "custom", "w": 2}])

    def params(self, config):
        k = config["k"]
        if k == "points":
            return st.fixed_dictionaries({"t": st_tree(), "touch": st.booleans(), "rev": st.booleans()})
        if k == "equal":
            return st.fixed_dictionaries({"t": st_tree().filter(lambda t: not has(t, "unknown") and not has(t, "single")),
                                          "mut": st.sampled_from(["same", "tiny", "near", "far", "perm", "drop", "type", "tol", "factor"]),
                                          "where": st.integers(0, 20), "axis": st.integers(0, 2), "e": st.integers(3, 11)})
        if k in ("quad", "quadbad"):
            c = config["cell"]
            hi = {"I": 9, "T": 7, "K": 4, "Q": 5, "H": 3, "IxIxI": 3}.get(c, 4)
            nf = len(c.split("x"))
            deg = st.integers(0, hi)
            if nf > 1:
                deg = st.one_of(deg, st.lists(deg, min_size=nf, max_size=nf))
            return st.fixed_dictionaries({"deg": deg, "scheme": st.sampled_from(["default", "canonical"]),
                                          "ent": st.booleans(), "copy": st.booleans(), "seed": st.integers(0, 10**6),
                                          "e": st.integers(2, 9), "where": st.integers(0, 200), "what": st.sampled_from(
                                              ["order", "entity", "shift", "perm", "drop", "structure", "point"])})
        if k == "custom":
            return st.fixed_dictionaries({"n": st.lists(st.integers(1, 4), min_size=1, max_size=3), "seed": st.integers(0, 10**6),
                                          "touch": st.permutations([0, 1, 2]), "nest": st.booleans(),
                                          "again": st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 2), st.booleans()).map(list))})
        return st.fixed_dictionaries({"what": st.sampled_from(["dim", "notrule", "ps1d", "ps3d", "single2d", "gl2d", "gll2d", "unknownlit",
                                                               "unknown1d", "unknownfree", "runtime"]), "n": st.integers(1, 5)})

    def run(self, config, p):
        return getattr(self, "run_" + config["k"])(config, p)

    # --
    def run_points(self, config, p):
        bind = {}
        ps = build(p["t"], bind, p["touch"])
        pts, ext = model(p["t"])
        if p["rev"]:
            ex = ps.expression
            idx = ps.indices
        else:
            idx = ps.indices
            ex = ps.expression
        require(tuple(i.extent for i in idx) == ext, "index extents %s, expected %s", [i.extent for i in idx], ext)
        require(len(set(idx)) == len(idx), "indices repeat: %s", idx)
        require(ps.indices == idx and tuple(ps.indices) == tuple(idx), "indices change between calls")
        require(ps.dimension == pts.shape[1], "dimension %s, expected %s", ps.dimension, pts.shape[1])
        require(ex.shape == (pts.shape[1],), "expression shape %s, expected %s", ex.shape, (pts.shape[1],))
        require(set(ex.free_indices) == set(idx), "free indices of the expression %s, expected %s", ex.free_indices, idx)
        got = geval(ex, tuple(idx), bindings=bind).reshape(pts.shape)
        require(np.array_equal(got, pts), "expression enumerates %s, expected %s", got, pts)
        if p["t"]["k"] == "unknown":
            require(len(ps.points) == len(pts) and tuple(ps.points.shape) == pts.shape, "placeholder shape %s", ps.points.shape)
        else:
            require(np.array_equal(np.asarray(ps.points), pts), "points %s, expected %s", ps.points, pts)
        return {"points", "kind:" + p["t"]["k"]} if len(pts) > 1 else False

    def run_equal(self, config, p):
        t = p["t"]
        m = p["mut"]
        import copy
        t2 = copy.deepcopy(t)
        leaves = []

        def walk(x):
            if x["k"] == "tensor":
                for f in x["f"]:
                    walk(f)
            else:
                leaves.append(x)
        walk(t2)
        leaf = leaves[p["where"] % len(leaves)]
        r = p["where"] % len(leaf["p"])
        ax = p["axis"] % len(leaf["p"][0])
        tol, want = None, True
        if m in ("tiny", "near", "far", "tol"):
            eps = {"tiny": 1e-14, "near": 10.0 ** -p["e"], "far": 0.3, "tol": 10.0 ** -p["e"]}[m]
            leaf["p"][r][ax] = leaf["p"][r][ax] + 7 * eps
            want = m == "tiny"
            if m == "tol":
                tol = eps * 3
                want = True
            elif m == "near":
                tol = None
        elif m == "perm":
            if len(leaf["p"]) < 2:
                raise Discard
            leaf["p"] = leaf["p"][1:] + leaf["p"][:1]
            want = bool(np.array_equal(model(t)[0], model(t2)[0])) and all(True for _ in [0])
            # factors are compared one by one
            want = self.leaves_equal(t, t2)
        elif m == "drop":
            if len(leaf["p"]) < 2:
                raise Discard
            leaf["p"] = leaf["p"][:-1]
            want = False
        elif m == "type":
            if leaf["k"] == "set" and len(leaf["p"][0]) != 1:
                raise Discard
            leaf["k"] = {"set": "gl", "gl": "gll", "gll": "set"}[leaf["k"]]
            want = False
        elif m == "factor":
            if t2["k"] != "tensor":
                raise Discard
            t2["f"] = t2["f"] + [{"k": "set", "p": [[1]]}]
            want = False
        a, b = build(t, {}, False), build(t2, {}, False)
        kw = {} if tol is None else {"tolerance": tol}
        for x, y in ((a, b), (b, a)):
            got = x.almost_equal(y, **kw)
            require(bool(got) == want, "almost_equal is %s for %s (%s), expected %s", got, m, kw, want)
        if tol is not None:
            require(not a.almost_equal(b, tolerance=tol / 9), "almost_equal with a smaller tolerance than the distance")
        require(bool(a.almost_equal(a)), "not almost_equal to itself")
        return {"equal:" + m, "kind:" + t["k"]}

    def leaves_equal(self, t, u):
        if t["k"] != u["k"]:
            return False
        if t["k"] == "tensor":
            return len(t["f"]) == len(u["f"]) and t.get("again") == u.get("again") and all(self.leaves_equal(a, b) for a, b in zip(t["f"], u["f"]))
        return np.array_equal(np.array(t["p"]), np.array(u["p"]))

    # --
    def element(self, config, p):
        cell = C.cell(config["cell"])
        deg = tuple(p["deg"]) if isinstance(p["deg"], list) else p["deg"]
        rule = make_quadrature(cell, deg, p["scheme"])
        if p["copy"]:
            return cell, rule, make_quadrature_element(cell, deg, p["scheme"])
        return cell, rule, QuadratureElement(cell, rule)

    def clone(self, ps):
        if isinstance(ps, TensorPointSet):
            return TensorPointSet([self.clone(f) for f in ps.factors])
        return type(ps)(np.array(ps.points))

    def run_quad(self, config, p):
        cell, rule, e = self.element(config, p)
        ps = self.clone(rule.point_set)
        ent = None
        if p["ent"]:
            ent = (cell.get_dimension(), 0)
        pts = np.asarray(rule.point_set.points)
        w = geval(rule.weight_expression, rule.point_set.indices).reshape(-1)
        self.check_element(cell, e, ps, ent, pts, w, p)
        return {"quad", "cell:" + config["cell"]} if len(pts) > 1 else False

    def check_element(self, cell, e, ps, ent, pts, w, p):
        n = len(pts)
        ext = tuple(i.extent for i in ps.indices)
        require(tuple(e.index_shape) == ext and tuple(e.value_shape) == (), "shapes %s %s, expected %s", e.index_shape, e.value_shape, ext)
        require(int(e.space_dimension()) == n, "space dimension %s, expected %d", e.space_dimension(), n)
        require(e.mapping == "affine" and e.cell == cell and e.formdegree is None, "metadata %s %s", e.mapping, e.formdegree)
        ed = norm_ed(e.entity_dofs())
        want = {d: {i: [] for i in x} for d, x in cell.get_topology().items()}
        want[cell.get_dimension()][0] = list(range(n))
        require(ed == want, "entity_dofs %s", ed)
        r = e.basis_evaluation(0, ps, ent)
        got = tab_values(e, r, ps)
        sd = cell.get_spatial_dimension()
        require(list(got) == [(0,) * sd], "keys %s", list(got))
        require(np.array_equal(got[(0,) * sd].reshape(n, n), np.eye(n)), "table at its own points is not the identity")
        # dual: point evaluation at the nodes, for a smooth function
        Q, xps = e.dual_basis
        require(tuple(Q.shape) == ext, "dual weights of shape %s", Q.shape)
        rng = np.random.default_rng(p["seed"])
        c = rng.uniform(-1, 1, sd + 1)

        def fn(q):
            x = q.expression
            acc = gem.Literal(c[0])
            for k in range(sd):
                acc = gem.Sum(acc, gem.Product(gem.Literal(c[k + 1]), gem.Product(gem.Indexed(x, (k,)), gem.Indexed(x, (k,)))))
            return acc
        ev, idx = e.dual_evaluation(fn)
        val = geval(ev, tuple(idx)).reshape(-1)
        close(val, c[0] + pts ** 2 @ c[1:], what="dual evaluation at the nodes")
        f = e.fiat_equivalent
        require(f.space_dimension() == n, "equivalent has dimension %s", f.space_dimension())
        close(f.tabulate(0, pts)[(0,) * sd], np.eye(n), what="equivalent's table at the nodes")
        nodes = [list(l.get_point_dict().items())[0] for l in f.dual_basis()]
        close(np.array([x for x, _ in nodes]), pts, what="nodes of the equivalent")
        fw = np.asarray(f._weights if hasattr(f, "_weights") else w).reshape(-1)
        close(fw, w, what="weights of the equivalent")

    def run_quadbad(self, config, p):
        cell, rule, e = self.element(config, p)
        ps = self.clone(rule.point_set)
        what = p["what"]
        ent = None
        order = 0
        if what == "order":
            order = 1 + p["where"] % 2
        elif what == "entity":
            ents = [x for x in G.entities(cell) if x != (cell.get_dimension(), 0)]
            ent = ents[p["where"] % len(ents)]
        elif what == "point":
            rejects(e.point_evaluation, 0, gem.Variable("X", (cell.get_spatial_dimension(),)), what="symbolic point evaluation")
            rejects(lambda: e.degree, what="degree of a quadrature element")
            return {"bad:point"}
        else:
            leaves = []

            def walk(x):
                leaves.extend([x] if not isinstance(x, TensorPointSet) else [])
                for f in getattr(x, "factors", ()):
                    walk(f)
            walk(ps)
            leaf = leaves[p["where"] % len(leaves)]
            pts = np.array(leaf.points)
            if what == "shift":
                pts[p["where"] % len(pts), p["where"] % pts.shape[1]] += 10.0 ** -p["e"]
            elif what == "perm":
                if len(pts) < 2:
                    raise Discard
                pts = np.roll(pts, 1, axis=0)
            elif what == "drop":
                if len(pts) < 2:
                    raise Discard
                pts = pts[:-1]
            elif what == "structure":
                if not isinstance(ps, TensorPointSet):
                    raise Discard
                ps = PointSet(np.asarray(ps.points))
            if what != "structure":
                leaf.points = pts
        rejects(e.basis_evaluation, order, ps, ent, what="%s request to a quadrature element" % what)
        return {"bad:" + what, "cell:" + config["cell"]}

    def run_custom(self, config, p):
        """Hand-made tensor product rules, indices created in another order."""
        rng = np.random.default_rng(p["seed"])
        rules = []
        for n in p["n"]:
            rules.append(QuadratureRule(PointSet(rng.uniform(0, 1, (n, 1))), rng.uniform(0.1, 1, n)))
        for k in p["touch"]:
            if k < len(rules):
                rules[k].point_set.indices
        ws = [r.weights for r in rules]
        xs = [r.point_set.points[:, 0] for r in rules]
        if p["again"] and len(rules) < 3:
            # a rule twice, or another rule with the same points
            i, same = p["again"][0] % len(rules), p["again"][1]
            rules.append(rules[i] if same else QuadratureRule(rules[i].point_set, 1 + rng.uniform(0.1, 1, len(ws[i]))))
            ws.append(rules[-1].weights)
            xs.append(xs[i])
        n = len(rules)
        if len(rules) == 3 and p["nest"]:
            rules = [TensorProductQuadratureRule(rules[:2]), rules[2]]
        cell = C.cell("x".join("I" * n))
        if n == 1:
            rule = rules[0]
            cell = C.cell("I")
        else:
            rule = TensorProductQuadratureRule(rules, ref_el=cell)
        pts = np.array(list(product(*xs)))
        w = np.array([np.prod(c) for c in product(*ws)])
        close(rule.point_set.points, pts, what="points of the product rule")
        close(geval(rule.weight_expression, rule.point_set.indices).reshape(-1), w, what="weights of the product rule")
        e = QuadratureElement(cell, rule)
        self.check_element(cell, e, self.clone(rule.point_set), None, pts, w, p)
        lab = {"custom%d" % n} | ({"rule again"} if n > len(p["n"]) else set())
        return lab if len(pts) > 1 else False

    def run_wrong(self, config, p):
        w, n = p["what"], p["n"]
        I, T = C.cell("I"), C.cell("T")
        if w == "dim":
            rejects(QuadratureElement, T, make_quadrature(I, n), what="rule of another dimension")
        elif w == "notrule":
            rejects(QuadratureElement, I, make_quadrature(I, n).point_set, what="a point set in place of a rule")
        elif w == "ps1d":
            rejects(PointSet, np.zeros(n), what="one-dimensional array of points")
        elif w == "ps3d":
            rejects(PointSet, np.zeros((n, 1, 1)), what="three-dimensional array of points")
        elif w == "single2d":
            rejects(PointSingleton, np.zeros((1, n)), what="two-dimensional singleton")
        elif w == "gl2d":
            rejects(GaussLegendrePointSet, np.zeros((n, 2)), what="Gauss-Legendre points in the plane")
        elif w == "gll2d":
            rejects(GaussLobattoLegendrePointSet, np.zeros((n, 2)), what="Gauss-Lobatto points in the plane")
        elif w == "unknownlit":
            rejects(UnknownPointSet, gem.Literal(np.zeros((n, 1))), what="literal as unknown points")
        elif w == "unknown1d":
            rejects(UnknownPointSet, gem.Variable("x", (n,)), what="vector as unknown points")
        elif w == "unknownfree":
            rejects(UnknownPointSet, gem.partial_indexed(gem.Variable("x", (n, 1, 1)), (gem.Index(extent=n),)), what="indexed expression as unknown points")
        elif w == "runtime":
            ups = UnknownPointSet(gem.Variable("rt_:x", (n, 1)))
            e = QuadratureElement(I, QuadratureRule(ups, np.full(n, 0.0)))
            require(tuple(e.index_shape) == (n,) and int(e.space_dimension()) == n, "shapes of a runtime rule %s", e.index_shape)
            rejects(lambda: e.fiat_equivalent, what="equivalent of a runtime rule")
            Q, q = e.dual_basis
            require(isinstance(q, UnknownPointSet) and tuple(Q.shape) == (n,), "dual of a runtime rule")
            x = np.arange(n).reshape(n, 1) * 0.1
            ev, idx = e.dual_evaluation(lambda s: gem.Indexed(s.expression, (0,)))
            close(geval(ev, tuple(idx), bindings={"rt_:x": x}).reshape(-1), x[:, 0], what="dual evaluation at runtime points")
        return {"wrong:" + w}


CHECK = C15()
