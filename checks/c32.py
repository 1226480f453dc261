"""C32 integrals assembled from tables and rules are exact."""
import gem
import numpy as np
from finat.quadrature import make_quadrature
from finat.quadrature_element import make_quadrature_element
from gem.node import Memoizer
from gem.optimise import contraction, delta_elimination, make_sum, remove_componenttensors, sum_factorise
from gem.refactorise import ATOMIC, COMPOUND, OTHER, collect_monomials
from gem.unconcatenate import unconcatenate
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib import specs as S
from vlib.core import Check, Discard, require, close
from vlib.gemeval import Evaluator, geval
from vlib.tab import values
from checks.comp import ZANY, PLAIN, geometry, same_shape, st_geo, labels

CELLS = ["I", "T", "K", "Q", "IxI", "TxI", "QxI", "IxT", "H", "IxIxI"]
HEAVY = ("K", "H", "TxI", "IxT", "QxI", "IxIxI")
LIMIT = 3e6


def leaves(spec):
    of = spec.get("of", spec.get("factors"))
    if of is None:
        return [spec]
    return [l for s in (of if isinstance(of, list) else [of]) for l in leaves(s)]


def bound(spec):
    """Bound of the degree of the functions in any direction."""
    return max(l.get("deg") or 0 for l in leaves(spec)) + 2


def macro(spec):
    return any(C.build(l).complex is not None and C.build(l).complex.is_macrocell() for l in leaves(spec))


def gauss(cn, n):
    """Points and weights on a cell, collapsed from Gauss rules on cubes."""
    if cn in ("", "P"):
        return np.zeros((1, 0)), np.ones(1)
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = (x + 1) / 2, w / 2
    pts, wts = np.zeros((1, 0)), np.ones(1)
    for f in G.factor_names(cn):
        if f == "P":
            continue
        if f == "Q":
            a, b = gauss("IxI", n)
        elif f == "H":
            a, b = gauss("IxIxI", n)
        else:
            d = {"I": 1, "T": 2, "K": 3}[f]
            a, b = np.zeros((1, 0)), np.ones(1)
            for k in range(d):
                # what is left of the unit beyond the coordinates so far
                rest = 1 - a.sum(axis=1)
                b = (b * rest)[:, None] * w if k else b[:, None] * w
                a = np.concatenate([np.repeat(a, n, axis=0), (rest[:, None] * x).reshape(-1, 1)], axis=1)
                b = b.reshape(-1)
        pts = np.concatenate([np.repeat(pts, len(a), axis=0), np.tile(a, (len(pts), 1))], axis=1)
        wts = np.outer(wts, b).reshape(-1)
    return pts, wts


def optimised(target, expr, arguments, deep):
    """(where, expression) pairs with the same meaning as where target is set to the expression."""
    for where, e in unconcatenate([(target, expr)]):
        if not deep:
            yield where, contraction(e)
            continue
        free = set(where.free_indices)

        def inside(node, self):
            return isinstance(node, gem.Delta) or any(map(self, node.children))
        delta = Memoizer(inside)

        def classify(node):
            n = len(free.intersection(node.free_indices))
            if n == 0:
                return OTHER
            if n == 1 and (isinstance(node, gem.Delta) or isinstance(node, gem.Indexed) and not delta(node)):
                return ATOMIC
            return COMPOUND
        sums, = collect_monomials([e], classify)
        for m in sums:
            yield where, sum_factorise(*delta_elimination(m.sum_indices, tuple(m.atomics) + (m.rest,)))


def function(name, shape, basis, m, deep):
    """Linear combination of basis functions."""
    F, = remove_componenttensors([gem.Indexed(gem.reshape(gem.Variable(name, (int(np.prod(shape, dtype=int)),)), shape), m)])
    if not deep:
        return gem.IndexSum(gem.Product(F, basis), m)
    parts = [contraction(gem.IndexSum(gem.Product(e, f), tuple(f.index_ordering()))) for f, e in unconcatenate([(F, basis)])]
    return make_sum(parts)


class C32(Check):
    id = "C32"
    quick = 120
    thorough = 4000
    rule = ("A case is a pair of generated elements (often the same one twice) on a cell, an entity of it (or two of the same kind), a rule of sufficient degree (at times a cheap one, compared with its own sum), and terms "
            "with derivatives, components or inner products of values, and at times a function given by its coefficients. The integral is assembled as an expression, "
            "then summed as it stands, after contraction, and after splitting it along concatenations, expanding it, and eliminating deltas term by term. In some, one element is the quadrature element of the rule. "
            "Non-trivial: some entry is not zero.")
    assumptions = ["GEM's transformations, which FInAT does not define, preserve values"]

    def configs(self, tier):
        out = []
        for cn in CELLS:
            for k in ("twice", "pair", "rule"):
                out.append({"k": k, "cell": cn, "w": 0.4 if cn in HEAVY else 1, "cost": 3 if cn in HEAVY else 1})
        for cn in "ITK":
            out.append({"k": "leaves", "cell": cn, "tier": tier, "w": 0.6})
            out.append({"k": "mapped", "cell": cn, "w": 0.2, "cost": 4})
        return out

    def params(self, config):
        k, cn = config["k"], config["cell"]
        ents = [G.ent_json(e) for e in G.entities(C.cell(cn))]
        if k == "mapped":
            z = st.sampled_from(ZANY[cn][:2] if cn == "K" else ZANY[cn])
            mix = st.one_of(z, st.sampled_from(PLAIN[cn]))
            spec = st.one_of(z, z, st.lists(z, min_size=2, max_size=2).map(same_shape), S.mixed_of(mix),
                             st.builds(lambda s, t: {"el": "Vec", "of": s, "shape": [2], "transpose": t}, z, st.booleans()))
            pair = st.lists(spec, min_size=1, max_size=2)
        elif k == "leaves":
            pair = st.lists(st.sampled_from([s for s in C.simple_leaves(config["tier"]) if s["cell"] == cn and s["el"] != "HDivTrace"]), min_size=1, max_size=2)
        elif k == "rule":
            pair = st.lists(S.any_spec(cn), min_size=1, max_size=1)
        else:
            pair = st.lists(S.any_spec(cn), min_size=1 if k == "twice" else 2, max_size=1 if k == "twice" else 2)
        n = 1 if k == "mapped" else 2 if cn in "ITQ" else 1
        term = st.fixed_dictionaries({"a": st.integers(0, 99), "b": st.integers(0, 99), "order": st.integers(0, n), "inner": st.booleans(),
                                      "c": st.lists(st.integers(0, 8), min_size=3, max_size=3), "coef": st.sampled_from([None, None, 0, 1])})
        d = {"els": pair, "ent": st.one_of(st.none(), st.sampled_from(ents)), "other": st.integers(0, 20), "terms": st.lists(term, min_size=1, max_size=2),
             "deep": st.booleans(), "extra": st.integers(0, 2), "low": st.sampled_from([None, None, None, None, 0, 1, 2, 3]), "F": st.lists(st.integers(-9, 9), min_size=7, max_size=7)}
        if k == "mapped":
            d["geo"] = st_geo(cn)
        return st.fixed_dictionaries(d)

    def run(self, config, p):
        cn = config["cell"]
        geo = geometry(cn, p["geo"]) if "geo" in p else None
        specs = (p["els"] * 2)[:2]
        if config["k"] == "rule":
            return self.run_rule(config, p)
        if any(l["el"] == "HDivTrace" for s in specs for l in leaves(s)):
            # no values inside the cell, no derivatives
            raise Discard
        els = [C.build(s) for s in p["els"]]
        els = (els * 2)[:2]
        split = any(map(macro, specs))
        ent = None if split else G.ent_parse(p["ent"])
        cell = C.cell(cn)
        if ent is None:
            ecn, ecell, ents = cn, cell, [None, None]
        else:
            ecn, ecell = G.entity_cellname(cn, ent[0]), cell.construct_subelement(ent[0])
            same = sorted(cell.get_topology()[ent[0]])
            ents = [ent, (ent[0], same[(p["other"] if p["other"] < 8 else ent[1]) % len(same)])]
        degree = bound(specs[0]) + bound(specs[1]) + p["extra"]
        if any(t["coef"] is not None for t in p["terms"]):
            degree += max(map(bound, specs))
        if split:
            try:
                cs = [e.complex for e in els]
            except ValueError:
                # parts on splittings that do not refine one another
                raise Discard
            ecell = next((c for c in cs if all(M.refines(c, d) for d in cs)), None)
            if ecell is None:
                raise Discard
        if config["k"] == "mapped":
            degree = min(degree, 8)
        if p["low"] is not None:
            # a cheap rule, for its own sum only
            degree = p["low"]
        rule = make_quadrature(ecell, degree)
        ps = rule.point_set
        npts = int(np.prod([i.extent for i in ps.indices], dtype=int))
        sizes = [int(np.prod(e.index_shape)) for e in els]
        if npts * sizes[0] * sizes[1] > LIMIT:
            raise Discard
        order = max(t["order"] for t in p["terms"])
        cm = {} if geo is None else {"coordinate_mapping": geo}
        tabs = [e.basis_evaluation(order, ps, f, **cm) for e, f in zip(els, ents)]
        bindings = {} if geo is None else dict(geo.bindings)
        args = [e.get_indices() for e in els]

        # other points for the comparison, unless the functions are only known piecewise or on physical cells
        exact = geo is None and not split and p["low"] is None
        if exact:
            x, w = gauss(ecn, (degree - p["extra"]) // 2 + 3)
            if len(w) * sizes[0] * sizes[1] > 4 * LIMIT:
                exact = False
        if not exact:
            x = np.asarray(ps.points).reshape(npts, -1)
            w = geval(rule.weight_expression, tuple(ps.indices)).reshape(-1)
        if geo is None:
            num = [M.tabulate(s, order, M.embed(cn, f, x)) for s, f in zip(specs, ents)]
        else:
            num = [values(e, order, ps, f, cm=geo) for e, f in zip(els, ents)]

        total, want, scale = None, 0.0, 0.0
        out = {"cell:" + cn, "entity:%s" % (ent is not None), "split" if split else "low" if p["low"] is not None else "exact" if exact else "own points"}
        shapes = [tuple(e.value_shape) for e in els]
        for i, t in enumerate(p["terms"]):
            keys = [[a for a in num[0] if sum(a) <= t["order"]][::-1], [a for a in num[1] if sum(a) <= t["order"]][::-1]]
            a, b = keys[0][t["a"] % len(keys[0])], keys[1][t["b"] % len(keys[1])]
            if isinstance(tabs[0][a], gem.Failure) or isinstance(tabs[1][b], gem.Failure) or isinstance(num[0][a], Exception) or isinstance(num[1][b], Exception):
                raise Discard
            u = num[0][a].reshape((len(w), sizes[0]) + shapes[0])
            v = num[1][b].reshape((len(w), sizes[1]) + shapes[1])
            if t["inner"] and shapes[0] == shapes[1]:
                z = els[0].get_value_indices()
                factors = [gem.Indexed(tabs[0][a], args[0] + z), gem.Indexed(tabs[1][b], args[1] + z)]
                sums = tuple(z)
                n = np.einsum("q,qiz,qjz->qij", w, u.reshape(len(w), sizes[0], -1), v.reshape(len(w), sizes[1], -1))
                out.add("inner" if z else "scalar")
            else:
                comps = [tuple(c % s for c, s in zip(t["c"] * 2, sh)) for sh in shapes]
                factors = [gem.Indexed(tabs[0][a], args[0] + comps[0]), gem.Indexed(tabs[1][b], args[1] + comps[1])]
                sums = ()
                n = np.einsum("q,qi,qj->qij", w, u[(slice(None), slice(None)) + comps[0]], v[(slice(None), slice(None)) + comps[1]])
                out.add("components")
            if t["coef"] is not None:
                k = t["coef"]
                e = els[k]
                F = np.resize(np.array(p["F"], dtype=float) / 4, tuple(e.index_shape))
                bindings["F%d" % k] = F.reshape(-1)
                m = e.get_indices()
                comp = tuple(c % s for c, s in zip(t["c"] * 2, shapes[k]))
                zero = (0,) * M.dim_of(specs[k])
                factors.append(function("F%d" % k, F.shape, gem.Indexed(tabs[k][zero], m + comp), m, p["deep"]))
                f = num[k][zero].reshape((len(w), sizes[k]) + shapes[k])[(slice(None), slice(None)) + comp] @ F.reshape(-1)
                n = n * f[:, None, None]
                out.add("function")
            term = rule.weight_expression
            for f in factors:
                term = gem.Product(term, f)
            term = gem.IndexSum(term, tuple(ps.indices) + sums)
            total = term if total is None else gem.Sum(total, term)
            want = want + n.sum(axis=0)
            scale = scale + float(np.max(np.abs(n).sum(axis=0), initial=0))
        where = args[0] + args[1]
        require(set(total.free_indices) <= set(where), "an integral with free indices %s beyond those of its arguments", total.free_indices)
        return self.compare(total, where, want, bindings, p["deep"], out | labels(specs[0]) | labels(specs[1]), scale)

    def run_rule(self, config, p):
        """Functions of a quadrature element, integrated with its rule."""
        cn, spec = config["cell"], p["els"][0]
        if any(l["el"] == "HDivTrace" for l in leaves(spec)) or macro(spec):
            raise Discard
        cell = C.cell(cn)
        degree = p["other"] % 4 + p["extra"]
        # the element and the rule know the same points, but were made separately
        rule, q = make_quadrature(cell, degree), make_quadrature_element(cell, degree)
        e = C.build(spec)
        ps = rule.point_set
        t = p["terms"][0]
        zero = (0,) * M.dim_of(spec)
        x = np.asarray(ps.points)
        w = geval(rule.weight_expression, tuple(ps.indices)).reshape(-1)
        n = len(w)
        num = M.tabulate(spec, t["order"], x)
        a = sorted(num)[t["a"] % len(num)]
        tab = e.basis_evaluation(t["order"], ps)[a]
        if isinstance(tab, gem.Failure) or isinstance(num[a], Exception):
            raise Discard
        shape, size = tuple(e.value_shape), int(np.prod(e.index_shape))
        comp = tuple(c % s for c, s in zip(t["c"] * 2, shape))
        v = num[a].reshape((n, size) + shape)[(slice(None), slice(None)) + comp]
        i, j, m = q.get_indices(), e.get_indices(), q.get_indices()
        Q = q.basis_evaluation(0, ps)[zero]
        F = np.resize(np.array(p["F"], dtype=float) / 4, tuple(q.index_shape))
        bindings = {"F": F.reshape(-1)}
        how = t["coef"]
        if how is None:
            # matrix of both, and a function at the points
            factors, where, want = [gem.Indexed(Q, i), gem.Indexed(tab, j + comp)], i + j, w[:, None] * v
        elif how:
            factors, where, want = [function("F", F.shape, gem.Indexed(Q, m), m, p["deep"]), gem.Indexed(tab, j + comp)], j, (w * F.reshape(-1)) @ v
        else:
            factors, where, want = [function("F", F.shape, gem.Indexed(Q, m), m, p["deep"]), gem.Indexed(Q, i)], i, w * F.reshape(-1)
        total = rule.weight_expression
        for f in factors:
            total = gem.Product(total, f)
        total = gem.IndexSum(total, tuple(ps.indices))
        require(set(total.free_indices) <= set(where), "an integral with free indices %s beyond those of its arguments", total.free_indices)
        return self.compare(total, where, want, bindings, p["deep"], {"cell:" + cn, "rule"})

    def compare(self, total, where, want, bindings, deep, out, scale=None):
        """The expression and what becomes of it against the integrals."""
        if scale is None:
            scale = float(np.max(np.abs(want), initial=0))
        scale = max(scale, 1e-3)
        got = geval(total, where, bindings).reshape(want.shape)
        close(got / scale, want / scale, rtol=1e-8, atol=1e-8, what="integral")
        shape = tuple(i.extent for i in where)
        size = int(np.prod(shape, dtype=int))
        target, = remove_componenttensors([gem.Indexed(gem.reshape(gem.Variable("A", (size,)), shape), where)])
        ids = np.arange(size, dtype=float)
        got = np.zeros(ids.size)
        try:
            better = list(optimised(target, total, where, deep))
        except NotImplementedError as err:
            if "Too many indices" not in str(err):
                raise
            # GEM tries all orders of summation
            better = [(target, total)]
            out.add("as it stands")
        for spot, e in better:
            fids = tuple(spot.free_indices)
            i = np.rint(geval(spot, fids, {"A": ids})).astype(int).reshape(-1)
            val = geval(e, fids, bindings).reshape(-1)
            np.add.at(got, i, val)
        close(got.reshape(want.shape) / scale, want / scale, rtol=1e-8, atol=1e-8, what="integral after %s" % ("expansion" if deep else "contraction"))
        out |= {"deep" if deep else "contracted"}
        return out if np.any(np.abs(want) > 1e-12) else False


CHECK = C32()
