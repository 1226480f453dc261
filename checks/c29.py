"""C29 impossible constructions and requests are refused."""
import FIAT
import finat
import gem
import numpy as np
from hypothesis import strategies as st
from finat.mixed import MixedSubElement
from finat.piola_mapped import PiolaBubbleElement
from finat.point_set import (GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet, PointSingleton, TensorPointSet, UnknownPointSet)
from finat.quadrature import QuadratureRule, TensorProductQuadratureRule, make_quadrature
from finat.quadrature_element import make_quadrature_element

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib import specs as S
from vlib.catalogue import L
from vlib.core import Check, Discard, require, rejects
from checks.comp import eval_points, st_eval, st_geo, geometry, ZANY

CELLS = ["I", "T", "K", "Q", "H", "IxI", "TxI", "QxI", "IxT", "IxIxI", "TxT", "KxI", "TxIxI"]
# leaves whose tables FIAT computes from the coordinates it needs, ignoring others
LOOSE = ("Serendipity", "DPC", "BrezziDouglasMariniCubeFace", "BrezziDouglasMariniCubeEdge", "TrimmedSerendipityFace", "TrimmedSerendipityEdge")
WRAPS = ["Vec", "VecT", "Disc", "Mixed", "Enriched"]


def parts(spec):
    of = spec.get("of", spec.get("factors", []))
    return of if isinstance(of, list) else [of]


def loose(spec):
    """A leaf that does not look at the dimension of its points is reached without a product in between."""
    return spec["el"] in LOOSE or (spec["el"] != "TPE" and any(map(loose, parts(spec))))


def product(spec):
    """The tensor product that gets to see the points, if there is one."""
    if spec["el"] == "TPE":
        return spec
    return product(parts(spec)[0]) if "of" in spec else None


def wrap(e, chain):
    for w in chain:
        e = (finat.TensorFiniteElement(e, (2,)) if w == "Vec" else finat.TensorFiniteElement(e, (2, 2), transpose=True) if w == "VecT"
             else finat.DiscontinuousElement(e) if w == "Disc" else finat.MixedElement([e, e]) if w == "Mixed" else finat.EnrichedElement([e, e]))
    return e


def some_points(d, n=2):
    return PointSet(np.arange(1, n * d + 1).reshape(n, d) / (2.0 * n * d + 1))


def st_wrap(maxn=2):
    return st.lists(st.sampled_from(WRAPS), max_size=maxn)


def leaf_I():
    return st.one_of(st.integers(1, 3).map(lambda k: L("Lagrange", "I", k)), st.integers(0, 3).map(lambda k: L("DiscontinuousLagrange", "I", k)),
                     st.just(L("Bubble", "I", 2)), st.integers(0, 2).map(lambda k: L("GaussLegendre", "I", k)))


def leaf_T():
    return st.one_of(st.integers(1, 2).map(lambda k: L("Lagrange", "T", k)), st.integers(0, 2).map(lambda k: L("DiscontinuousLagrange", "T", k)),
                     st.sampled_from([L(n, "T", 1) for n in ("RaviartThomas", "Nedelec", "BrezziDouglasMarini", "NedelecSecondKind", "CrouzeixRaviart")]),
                     st.just(L("Regge", "T", 0)))


def leaf_Q():
    dg = {"el": "Flat", "of": {"el": "TPE", "factors": [L("DiscontinuousLagrange", "I", 1)] * 2}}
    return st.one_of(S.flat_q(), st.just(dg), S.quad_vec(), st.just(L("BrezziDouglasMariniCubeFace", "Q", 1)))


def may_wrap(fs, sp):
    """Whether a product of these factors is an (n-1)-form (H(div)) or a one-form (H(curl)) of a supported kind."""
    if len(fs) != 2 or M.cname(fs[1]) != "I":
        return False
    ks = tuple(M.formdegree(f) for f in fs)
    if any(not isinstance(k, (int, np.integer)) for k in ks):
        return False
    n = M.dim_of(fs[0]) + 1
    if sum(ks) != (n - 1 if sp == "HDiv" else 1):
        return False
    m = M.mapping({"el": "TPE", "factors": fs})
    if n == 2:
        return m == "affine"
    pk = 1 if sp == "HDiv" else None
    vector = M.value_shape(fs[0]) != ()
    if sp == "HDiv":
        return (ks == (2, 0) and m == "affine" and not vector) or (ks == (1, 1) and m in ("contravariant piola", "covariant piola"))
    return (ks == (0, 1) and m == "affine") or (ks == (1, 0) and m in ("contravariant piola", "covariant piola"))


class C29(Check):
    id = "C29"
    quick = 150
    thorough = 2500
    rule = ("A case is a generated element together with one change that makes the construction or request meaningless: points or symbolic points of the "
            "wrong dimension, product points whose factors do not fit, entities that do not exist, missing geometry, sums of parts on different cells or "
            "with different values, products of two vector-valued factors, H(div)/H(curl) of the wrong forms, functions of the wrong shape given to the "
            "dual evaluation, orientations of rules without cells. The changed request must raise; where there is a meaningful counterpart it must "
            "succeed. Non-trivial: something was refused.")
    assumptions = ["a refusal is any exception raised no later than the first result that would be meaningless"]

    def configs(self, tier):
        out = []
        for cn in CELLS:
            w = {"H": 0.3, "IxIxI": 0.4, "TxT": 0.3, "KxI": 0.3, "TxIxI": 0.3, "K": 0.6}.get(cn, 1)
            out.append({"k": "points", "cell": cn, "w": w, "cost": 2})
            out.append({"k": "symbol", "cell": cn, "w": w * 0.4, "cost": 2})
            out.append({"k": "entity", "cell": cn, "w": w * 0.7, "cost": 2})
            out.append({"k": "dualfn", "cell": cn, "w": w * 0.3})
        for cn in ZANY:
            out.append({"k": "nomap", "cell": cn, "w": {"T": 0.6, "K": 0.12}.get(cn, 0.3), "cost": 6})
        for cn in ("I", "T", "Q", "IxI", "TxI"):
            out.append({"k": "shapes", "cell": cn, "w": 0.5})
        out.append({"k": "cells", "w": 1})
        out.append({"k": "product", "w": 1})
        for cn in ("IxI", "TxI", "QxI", "IxT", "IxIxI"):
            out.append({"k": "hdivcurl", "cell": cn, "w": 1})
        out.append({"k": "flat", "w": 0.5})
        out.append({"k": "rule", "w": 0.5})
        out.append({"k": "degrees", "w": 0.5})
        out.append({"k": "sets", "w": 0.5})
        out.append({"k": "misc", "w": 0.5})
        return out

    def params(self, config):
        k, cn = config["k"], config.get("cell")
        if k in ("points", "symbol", "entity", "dualfn"):
            if cn in ("TxT", "KxI", "TxIxI", "IxT"):
                s = S.scalar(cn)
                spec = st.one_of(s, s, S.vec_of(s), s.map(lambda x: {"el": "Disc", "of": x}), S.mixed_of(s))
            elif k == "dualfn":
                s = S.scalar(cn)
                spec = st.one_of(s, S.vec_of(s), s.map(lambda x: {"el": "Disc", "of": x}))
            else:
                spec = S.any_spec(cn)
            return st.fixed_dictionaries({"spec": spec, "ev": st_eval(cn, 1), "how": st.integers(0, 99), "n": st.integers(1, 3)})
        if k == "nomap":
            return st.fixed_dictionaries({"spec": st.sampled_from(ZANY[cn]), "wrap": st_wrap(), "order": st.integers(0, 1), "geo": st_geo(cn),
                                          "tail": leaf_I(), "first": st.booleans()})
        if k == "shapes":
            s = S.scalar(cn)
            v = st.one_of(S.vec_of(s), S.vec_of(s) if S.vector(cn) is None else S.vector(cn))
            return st.fixed_dictionaries({"a": s, "b": v, "n": st.integers(1, 2), "m": st.integers(1, 2), "swap": st.booleans(), "wrap": st_wrap(1), "order": st.integers(0, 1)})
        if k == "cells":
            cs = st.lists(st.sampled_from(["I", "T", "K", "Q", "H", "IxI", "TxI", "IxT", "QxI"]), min_size=2, max_size=2, unique=True)
            return cs.flatmap(lambda c: st.fixed_dictionaries({"a": S.scalar(c[0]), "b": S.scalar(c[1]), "n": st.integers(1, 2), "m": st.integers(1, 2),
                                                               "how": st.sampled_from(["Enriched", "Mixed"]), "wrap": st_wrap(1)}))
        if k == "product":
            vec = st.one_of(S.T_vector(1), S.T_tensor(), S.quad_vec(), S.K_vector(), S.vec_of(leaf_I()), S.vec_of(leaf_T()))
            return st.fixed_dictionaries({"v": st.lists(vec, min_size=2, max_size=3), "s": st.lists(leaf_I(), max_size=2), "perm": st.integers(0, 999)})
        if k == "hdivcurl":
            fs = [{"I": leaf_I(), "T": leaf_T(), "Q": leaf_Q()}[c] for c in cn.split("x")]
            return st.fixed_dictionaries({"fs": st.tuples(*fs).map(list), "sp": st.sampled_from(["HDiv", "HCurl"]), "wrap": st.lists(st.sampled_from(WRAPS), max_size=1), "flat": st.booleans()})
        if k == "flat":
            return st.fixed_dictionaries({"fs": st.lists(leaf_I(), min_size=1, max_size=5)})
        if k == "rule":
            return st.fixed_dictionaries({"deg": st.integers(0, 6), "cell": st.sampled_from(["I", "Q", "IxI", "IxIxI"]), "tensor": st.booleans(), "which": st.booleans()})
        if k == "degrees":
            return st.fixed_dictionaries({"cell": st.sampled_from(["I", "T", "K", "Q", "H", "IxI", "TxI", "IxT", "QxI", "IxIxI", "TxT", "KxI"]),
                                          "degs": st.lists(st.integers(0, 5), min_size=4, max_size=4), "n": st.integers(1, 4), "neg": st.integers(0, 3),
                                          "element": st.booleans(), "scheme": st.sampled_from(["default", "canonical"])})
        if k == "sets":
            return st.fixed_dictionaries({"n": st.integers(1, 4), "d": st.integers(1, 3), "what": st.sampled_from(["flat", "deep", "single", "line", "weights", "unknown"]),
                                          "more": st.integers(1, 3), "gl": st.booleans(), "cell": st.sampled_from(["I", "T", "K", "Q", "IxI", "TxI"]), "deg": st.integers(0, 4)})
        return st.fixed_dictionaries({"w": st.sampled_from(["bubble", "argyris", "ds", "sub", "shape", "quadel", "runtime"]), "deg": st.integers(1, 4), "i": st.integers(0, 99), "s": S.scalar("T")})

    def run(self, config, p):
        r = getattr(self, "do_" + config["k"])(config, p)
        return {config["k"]} | (r if isinstance(r, set) else set()) if r else False

    # --- requests to generated elements --------------------------------------

    def do_points(self, config, p):
        spec, ev = p["spec"], p["ev"]
        if loose(spec):
            raise Discard
        e = C.build(spec)
        ent, ps, pts = eval_points(config["cell"], ev)
        e.basis_evaluation(ev["order"], ps, ent)
        d = ps.dimension
        dims = [k for k in range(5) if k != d]
        bad = dims[p["how"] % len(dims)]
        wrong = some_points(bad, p["n"]) if p["how"] % 2 else PointSingleton(some_points(bad, 1).points[0])
        rejects(e.basis_evaluation, ev["order"], wrong, ent, what="points of dimension %d for an entity of dimension %d" % (bad, d))
        out = {"dimension"}
        t = product(spec)
        if t is not None:
            # a product of as many sets as factors, of the right total dimension
            cs = [M.dim_of(f) for f in t["factors"]]
            if spec["el"] == "Flat" or ent is None or not isinstance(ent[0], tuple):
                want = cs if ent is None else None
            else:
                want = list(ent[0])
            if want is not None:
                other = [int(v) for v in np.roll(want, 1 + p["how"] % len(want))]
                for o in (other, other[::-1]):
                    if o != want and sum(o) == d:
                        rejects(e.basis_evaluation, ev["order"], TensorPointSet([some_points(k) for k in o]), ent,
                                what="product points of dimensions %s for factors of dimensions %s" % (o, want))
                        out.add("factors")
        return out

    def do_symbol(self, config, p):
        spec, ev = p["spec"], p["ev"]
        e = C.build(spec)
        ent, ps, pts = eval_points(config["cell"], ev)
        d = ps.dimension
        order = ev["order"] if p["how"] > 80 else 0
        try:
            e.point_evaluation(order, gem.Variable("X", (d,)), ent)
        except Exception:
            # FIAT cannot tabulate this one symbolically
            return False
        dims = [k for k in range(5) if k != d]
        bad = [gem.Variable("X", (dims[p["how"] % len(dims)],)), gem.Variable("X", (d, 1)), gem.Variable("X", (1, d)), gem.Variable("X", ()),
               np.zeros(d), tuple([0.0] * d), gem.Literal(np.zeros(d + 1))][p["how"] % 7]
        rejects(e.point_evaluation, order, bad, ent, what="symbolic point %r for an entity of dimension %d" % (bad, d))
        return True

    def do_entity(self, config, p):
        spec, ev = p["spec"], p["ev"]
        cn = config["cell"]
        e = C.build(spec)
        top = C.cell(cn).get_topology()
        ent, ps, pts = eval_points(cn, ev)
        e.basis_evaluation(ev["order"], ps, ent)
        full = max(top) if ent is None else ent[0]
        i = 0 if ent is None else ent[1]
        n = len(top[full])
        bad = [(full, n + p["how"] // 10)]
        if isinstance(full, tuple):
            bad += [(sum(full), i), (full + (0,), i), (full[:-1], i)]
            up = list(full)
            j = p["how"] % len(up)
            up[j] = max(d[j] for d in top) + 1
            bad.append((tuple(up), i))
        else:
            bad += [(max(top) + 1, 0), (-1, 0), ((full, 0), i)]
        b = bad[p["how"] % len(bad)]
        if b[0] in top and b[1] < len(top[b[0]]):
            return False
        rejects(e.basis_evaluation, ev["order"], ps, b, what="entity %s of cell %s" % (b, cn))
        return {"ghost" if b[0] in top else "dimension"}

    def do_dualfn(self, config, p):
        spec = p["spec"]
        e = C.build(spec)
        vs = M.value_shape(spec)
        try:
            Q, ps = e.dual_basis
            e.dual_evaluation(lambda x: gem.Literal(np.ones(vs)))
        except Exception:
            return False
        n = p["n"] + 1
        bad = [vs + (n,), (n,) + vs, (n + 5,) * max(1, len(vs)), vs[:-1]][p["how"] % 4]
        if bad == vs or tuple(Q.shape[len(Q.shape) - len(bad):]) == bad:
            # cannot be told from the index shape
            return False
        rejects(e.dual_evaluation, lambda x: gem.Literal(np.ones(bad)), what="function of shape %s for values of shape %s" % (bad, vs))
        return True

    def do_nomap(self, config, p):
        cn = config["cell"]
        leaf = C.build(p["spec"])
        e = wrap(leaf, p["wrap"])
        geo = geometry(cn, p["geo"])
        d = G.point_dim(cn)
        ps = some_points(d)
        e.basis_evaluation(p["order"], ps, coordinate_mapping=geo)
        rejects(e.basis_evaluation, p["order"], ps, what="basis of a physically mapped element without its geometry")
        rejects(e.basis_evaluation, p["order"], ps, None, None, what="basis of a physically mapped element without its geometry")
        rejects(e.point_evaluation, p["order"], gem.Variable("X", (d,)), what="symbolic evaluation of a physically mapped element")
        rejects(finat.RestrictedElement, leaf, "interior", what="restriction of a physically mapped element")
        t = C.build(p["tail"])
        rejects(lambda: finat.TensorProductElement([leaf, t] if p["first"] else [t, leaf]).basis_evaluation(p["order"], some_points(d + 1), coordinate_mapping=geo),
                what="product with a physically mapped factor")
        return True

    # --- constructions -------------------------------------------------------

    def do_shapes(self, config, p):
        if M.value_shape(p["a"]) == M.value_shape(p["b"]):
            return False
        l = [p["a"]] * p["n"] + [p["b"]] * p["m"]
        l = l[::-1] if p["swap"] else l
        k = p["order"] % len(l)
        es = [C.build(s) for s in l[k:] + l[:k]]
        # a mixed element takes them all
        ps = some_points(G.point_dim(config["cell"]))
        finat.MixedElement(es).basis_evaluation(p["order"], ps)

        def bad():
            e = wrap(finat.EnrichedElement(es), p["wrap"])
            return e.value_shape
        rejects(bad, what="values of a sum of parts with values of shapes %s and %s" % (M.value_shape(p["a"]), M.value_shape(p["b"])))
        rejects(lambda: wrap(finat.EnrichedElement(es), p["wrap"]).basis_evaluation(p["order"], ps), what="table of a sum of parts with different values")
        return True

    def do_cells(self, config, p):
        es = [C.build(p["a"])] * p["n"] + [C.build(p["b"])] * p["m"]

        def make():
            return wrap(finat.EnrichedElement(es) if p["how"] == "Enriched" else finat.MixedElement(es), p["wrap"])
        rejects(lambda: make().cell, what="cell of an element with parts on %s and %s" % (M.cname(p["a"]), M.cname(p["b"])))
        rejects(lambda: make().entity_dofs(), what="layout of an element with parts on different cells")
        es.insert(0, es.pop(p["n"] - 1))
        es.append(es.pop(p["n"] - 1))
        rejects(lambda: make().cell, what="cell of an element with parts on %s and %s" % (M.cname(p["a"]), M.cname(p["b"])))
        return {p["how"]}

    def do_product(self, config, p):
        fs = [C.build(s) for s in p["v"] + p["s"]]
        finat.TensorProductElement([fs[0]] + [C.build(s) for s in p["s"]])
        fs = [fs[i] for i in np.random.RandomState(p["perm"]).permutation(len(fs))]
        rejects(finat.TensorProductElement, fs, what="product of factors with values of shapes %s" % [f.value_shape for f in fs])
        return True

    def do_hdivcurl(self, config, p):
        W = {"HDiv": finat.HDivElement, "HCurl": finat.HCurlElement}[p["sp"]]
        fs = p["fs"]
        try:
            t = finat.TensorProductElement([C.build(f) for f in fs])
        except NotImplementedError:
            raise Discard
        out = set()
        if may_wrap(fs, p["sp"]):
            e = W(t)
            d = M.dim_of({"el": "TPE", "factors": fs})
            require(e.value_shape == (d,), "value_shape %s", e.value_shape)
            out.add("accepted")
        else:
            d = M.dim_of({"el": "TPE", "factors": fs})
            rejects(lambda: W(t).basis_evaluation(0, some_points(d)), what="%s of a product of forms of degrees %s with mappings %s" % (p["sp"], [M.formdegree(f) for f in fs], [M.mapping(f) for f in fs]))
            out.add("refused")
        # only products can be wrapped
        if p["wrap"]:
            rejects(W, wrap(t, p["wrap"]), what="%s of a %s" % (p["sp"], p["wrap"]))
            out.add("refused")
        if p["flat"]:
            rejects(W, finat.FlattenedDimensions(t), what="%s of a flattened element" % p["sp"])
            rejects(W, C.build(fs[0]), what="%s of a factor" % p["sp"])
            out.add("refused")
        return out if "refused" in out else False

    def do_flat(self, config, p):
        fs = [C.build(f) for f in p["fs"]]
        n = len(fs)
        t = finat.TensorProductElement(fs)
        out = set()
        if n in (2, 3):
            e = finat.FlattenedDimensions(t)
            require(e.cell == C.cell("Q" if n == 2 else "H"), "cell %r", e.cell)
            degs = {f.degree for f in fs}
            if len(degs) == 1:
                require(e.degree == fs[0].degree, "degree %s", e.degree)
            else:
                rejects(lambda: e.degree, what="degree of a flattened element with factors of degrees %s" % [f.degree for f in fs])
                out.add("degree")
        else:
            rejects(lambda: finat.FlattenedDimensions(t).cell, what="flattened cell of dimension %d" % n)
            out.add("cell")
        return out

    def do_rule(self, config, p):
        r = make_quadrature(C.cell(p["cell"]), p["deg"])
        r.extrinsic_orientation_permutation_map, r.intrinsic_orientation_permutation_map_tuple
        ps = make_quadrature(C.cell("I"), p["deg"]).point_set
        w = np.ones(len(ps.points))
        whole = make_quadrature(C.cell("I"), p["deg"])
        bare = QuadratureRule(ps, w)
        if p["tensor"]:
            bare = TensorProductQuadratureRule([bare, whole] if p["which"] else [whole, bare])
        rejects(lambda: bare.extrinsic_orientation_permutation_map, what="orientations of a rule without a cell")
        rejects(lambda: bare.intrinsic_orientation_permutation_map_tuple, what="orientations of a rule without permutations")
        return True

    def do_degrees(self, config, p):
        cn, n, scheme = p["cell"], p["n"], p["scheme"]
        c = C.cell(cn)
        make = make_quadrature_element if p["element"] else make_quadrature
        degs = p["degs"]
        # how many degrees a rule takes: one per factor of a product
        k = len(cn.split("x")) if "x" in cn else 2 if cn == "Q" else None
        good = tuple(degs[:k]) if k else degs[0]
        make(c, good, scheme=scheme)
        out = set()
        if k and n != k:
            rejects(make, c, tuple((degs * 2)[:n]), scheme=scheme, what="%d degrees for a rule on %s" % (n, cn))
            out.add("number")
        at = p["neg"] % (k or 1)
        bad = tuple(-1 - d if i == at else d for i, d in enumerate(degs[:k or 1]))
        rejects(make, c, bad if k else bad[0], scheme=scheme, what="a rule of degree %s on %s" % (bad, cn))
        rejects(make, c, -1 - degs[0], scheme=scheme, what="a rule of degree %d on %s" % (-1 - degs[0], cn))
        return out | {"negative"}

    def do_sets(self, config, p):
        n, d, w, more = p["n"], p["d"], p["what"], p["more"]
        x = some_points(d, n).points
        PointSet(x), PointSingleton(x[0])
        line = GaussLegendrePointSet if p["gl"] else GaussLobattoLegendrePointSet
        line(x[:, :1])
        if w == "flat":
            rejects(PointSet, x[0], what="a point set of rank one")
            rejects(line, x[:, 0], what="a labelled point set of rank one")
        elif w == "deep":
            rejects(PointSet, x[None], what="a point set of rank three")
        elif w == "single":
            rejects(PointSingleton, x, what="a single point of rank two")
        elif w == "line":
            y = np.zeros((n, 1 + more))
            rejects(line, y, what="%s points in %d dimensions" % (line.__name__, 1 + more))
        elif w == "weights":
            r = make_quadrature(C.cell(p["cell"]), p["deg"])
            k = len(r.point_set.points)
            QuadratureRule(r.point_set, np.ones(k))
            rejects(QuadratureRule, r.point_set, np.ones(k + more), what="%d weights for %d points" % (k + more, k))
            if more < k:
                rejects(QuadratureRule, r.point_set, np.ones(k - more), what="%d weights for %d points" % (k - more, k))
        else:
            UnknownPointSet(gem.Variable("rt_:x", (n, d)))
            rejects(UnknownPointSet, gem.Variable("rt_:x", (n,)), what="unknown points of rank one")
            rejects(UnknownPointSet, gem.Variable("rt_:x", (n, d, more)), what="unknown points of rank three")
            rejects(UnknownPointSet, gem.Literal(x), what="constants as unknown points")
        return {w}

    def do_misc(self, config, p):
        w, deg = p["w"], p["deg"]
        if w == "bubble":
            T = C.cell("T")
            finat.BernardiRaugel(T, 1)
            l = [FIAT.Lagrange(T, deg), FIAT.Nedelec(T, deg), FIAT.Regge(T, deg - 1), FIAT.DiscontinuousLagrange(T, deg)]
            rejects(PiolaBubbleElement, l[p["i"] % 4], what="a facet bubble element mapped by %s" % l[p["i"] % 4].mapping()[0])
        elif w == "argyris":
            rejects(finat.Argyris, C.cell("T"), 5 + deg, variant="point", what="point variant of Argyris of degree %d" % (5 + deg))
        elif w == "ds":
            rejects(finat.DirectSerendipity, C.cell(["T", "I", "K", "H", "IxI", "TxI"][p["i"] % 6]), deg, what="direct serendipity on another cell")
        elif w == "sub":
            e = C.build(p["s"])
            size = int(np.prod(e.value_shape, dtype=int)) + deg
            off = p["i"] % (deg + 1)
            MixedSubElement(e, size, off)
            rejects(MixedSubElement, e, size, deg + 1 + p["i"], what="a part beyond the mixed element")
            rejects(MixedSubElement, e, size, -1 - p["i"] % 3, what="a part before the mixed element")
        elif w == "quadel":
            c = C.cell(["I", "T", "K"][p["i"] % 3])
            r = make_quadrature(c, deg)
            finat.QuadratureElement(c, r)
            rejects(finat.QuadratureElement, c, [r.point_set, deg, r.weights, (r.point_set, r.weights), "default", FIAT.create_quadrature(c, deg)][p["i"] // 3 % 6],
                    what="a quadrature element with something else than a rule")
        elif w == "runtime":
            d = p["i"] % 3 + 1
            x = gem.Variable("rt_:x", (deg, d))
            e = finat.QuadratureElement(C.cell("ITK"[d - 1]), QuadratureRule(UnknownPointSet(x), np.ones(deg)))
            require(e.space_dimension() == deg, "%d functions at %d points", e.space_dimension(), deg)
            rejects(lambda: e.fiat_equivalent, what="the plain equivalent of an element with unknown points")
        else:
            rejects(lambda: finat.TensorFiniteElement(C.build(p["s"]), ()).basis_evaluation(0, some_points(2)), what="tensor element without components")
        return {w}


CHECK = C29()
