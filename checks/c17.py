"""C17 spectral elements at (and near) their own nodes."""
import finat
import numpy as np
from finat.point_set import GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet, PointSingleton, TensorPointSet
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib.catalogue import L
from vlib.core import Check, require, close
from vlib.tab import tab_values

FAM = {"GL": "GaussLegendre", "GLL": "GaussLobattoLegendre"}
LABEL = {"GL": GaussLegendrePointSet, "GLL": GaussLobattoLegendrePointSet}


def gauss(n):
    return (np.polynomial.legendre.leggauss(n)[0] + 1) / 2


def lobatto(n):
    """n >= 2 Gauss-Lobatto points on [0, 1]: end points and roots of P'_{n-1}."""
    c = np.zeros(n)
    c[-1] = 1
    r = np.polynomial.legendre.legroots(np.polynomial.legendre.legder(c)) if n > 2 else []
    return (np.concatenate([[-1.0], np.sort(np.real(r)), [1.0]]) + 1) / 2


def nodes(fam, n):
    return gauss(n) if fam == "GL" else lobatto(n)


def node_order(fam, deg):
    """Points listed in the order of FIAT's basis (end points first for GLL)."""
    fe = C.build_fiat(L(FAM[fam], "I", deg))
    return np.array([list(f.get_point_dict())[0][0] for f in fe.dual_basis()])


def lagrange(x, pts, order):
    """Derivatives 0..order of the Lagrange basis on nodes x: [(npts, n)]."""
    from numpy.polynomial import polynomial as P
    out = [np.zeros((len(pts), len(x))) for _ in range(order + 1)]
    for i, xi in enumerate(x):
        p = P.polyfromroots(np.delete(x, i)) / np.prod(xi - np.delete(x, i))
        for k in range(order + 1):
            out[k][:, i] = P.polyval(pts, P.polyder(p, k) if k else p)
    return out


# --- one-dimensional point sets ---------------------------------------------

def st_ps1(maxdeg=6):
    """{"label", "fam", "n", "mod", ...}: a labelled or plain set of points derived from a family's nodes."""
    lab = st.tuples(st.sampled_from(["GL", "GLL"]), st.integers(-2, 2)).map(lambda t: {"k": "label", "fam": t[0], "dn": t[1]})
    own = st.sampled_from(["GL", "GLL"]).map(lambda f: {"k": "label", "fam": f, "dn": 0})
    plain = st.fixed_dictionaries({"k": st.just("plain"), "fam": st.sampled_from(["GL", "GLL"]), "dn": st.integers(-1, 1),
                                   "mod": st.sampled_from(["exact", "shift", "permute", "reverse", "swap"]),
                                   "eps": st.sampled_from([0.05, 1e-2, 1e-3, 1e-4, 1e-6]), "seed": st.integers(0, 99)})
    free = st.lists(G.st_bary(1), min_size=1, max_size=4).map(lambda p: {"k": "free", "p": p})
    return st.one_of(own, own, lab, plain, plain, free)


def make_ps1(d, deg):
    """(point set, 1D array) for a factor of degree deg."""
    if d["k"] == "free":
        x = np.array([G.cell_point("I", w)[0] for w in d["p"]])
        return PointSet(x[:, None]), x
    n = deg + 1 + d["dn"]
    n = max(n, 2 if d["fam"] == "GLL" else 1)
    x = nodes(d["fam"], n)
    if d["k"] == "label":
        # as the library itself produces them: FIAT lists the end points first
        if d["fam"] == "GLL":
            x = node_order("GLL", n - 1)
        return LABEL[d["fam"]](x[:, None]), x
    rng = np.random.RandomState(d["seed"])
    m = d["mod"]
    if m == "shift":
        x = np.clip(x + d["eps"] * rng.choice([-1, 1], size=len(x)), 0, 1)
    elif m == "permute":
        x = rng.permutation(x)
    elif m == "reverse":
        x = x[::-1].copy()
    elif m == "swap" and len(x) > 1:
        x[[0, -1]] = x[[-1, 0]]
    return PointSet(x[:, None]), x


def matches(d, fam, deg):
    """Is this exactly the labelled set of this element's nodes?"""
    return d["k"] == "label" and d["fam"] == fam and max(deg + 1 + d["dn"], 2 if fam == "GLL" else 1) == deg + 1


def exact01(a, what):
    require(np.all((a == 0) | (a == 1)), "%s: entries other than 0 and 1, e.g. %r", what, float(a[(a != 0) & (a != 1)].ravel()[0]) if np.any((a != 0) & (a != 1)) else 0)


class C17(Check):
    id = "C17"
    quick = 150
    thorough = 4000
    rule = ("A case is a Gauss-Legendre or Gauss-Lobatto element (or a product, flattened, enriched, mixed, vector-valued or H(div)/H(curl) "
            "element with such factors) with a point set on the cell or one of its entities: the element's own labelled nodes, the other family's, more or "
            "fewer of them, or plain sets equal to, close to or permuting them. At its own nodes the table must be the identity with "
            "entries exactly 0 and 1; all tables and derivatives must equal independently computed Lagrange (or FIAT) values. "
            "Non-trivial: the point set has as many points as the element has functions in some direction, so a shortcut could be taken.")
    assumptions = ["A point set of a labelled class holds the points of that family, as documented."]

    def configs(self, tier):
        out = []
        top = 12 if tier == "thorough" else 8
        for f in FAM:
            for deg in range(0 if f == "GL" else 1, top + 1):
                out.append({"k": "line", "fam": f, "deg": deg, "w": 1.5})
        for f in FAM:
            for cn, m in (("T", 4), ("K", 3)):
                for deg in range(0 if f == "GL" else 1, m + 1):
                    out.append({"k": "edge", "fam": f, "cell": cn, "deg": deg, "w": 0.5})
        for cn in ("IxI", "Q", "IxIxI", "H", "TxI", "QxI"):
            out.append({"k": "prod", "cell": cn, "w": 5 if cn in ("IxI", "Q") else 2.5, "cost": 3})
        out.append({"k": "wrap", "w": 5})
        out.append({"k": "rule", "w": 2})
        return out

    def params(self, config):
        k = config["k"]
        if k == "line":
            return st.fixed_dictionaries({"ps": st_ps1(), "order": st.integers(0, 3), "ent": st.sampled_from([None, None, 1, 1, "v0", "v1"])})
        if k == "edge":
            return st.fixed_dictionaries({"n": st.one_of(st.integers(1, 10), st.just(-1)), "lab": st.sampled_from(["GL", "GLL"]), "order": st.integers(0, 2), "ent": st.integers(0, 5)})
        if k == "rule":
            return st.fixed_dictionaries({"deg": st.integers(0, 6), "q": st.integers(0, 14), "cell": st.sampled_from(["I", "IxI", "Q", "H"]), "order": st.integers(0, 1)})
        if k == "wrap":
            return st.fixed_dictionaries({"fams": st.lists(st.sampled_from(["GL", "GLL"]), min_size=1, max_size=3), "deg": st.lists(st.integers(1, 4), min_size=3, max_size=3),
                                          "w": st.sampled_from(["vec", "vecT", "enr", "mixed", "disc", "enrvec", "hdiv", "hcurl", "rtcf"]), "order": st.integers(0, 2),
                                          "ps": st.tuples(st_ps1(), st_ps1()).map(list)})
        cn = config["cell"]
        nfac = {"IxI": 2, "Q": 2, "IxIxI": 3, "H": 3, "TxI": 1, "QxI": 3}[cn]
        return st.fixed_dictionaries({"fams": st.lists(st.sampled_from(["GL", "GLL"]), min_size=nfac, max_size=nfac),
                                      "deg": st.lists(st.integers(1, 3), min_size=nfac, max_size=nfac),
                                      "ps": st.lists(st_ps1(), min_size=nfac, max_size=nfac), "order": st.integers(0, 2 if nfac < 3 else 1),
                                      "ent": st.one_of(st.just(None), st.integers(0, 100)), "tp": st.lists(G.st_bary(2), min_size=1, max_size=3),
                                      "plain": st.booleans() if nfac < 3 else st.just(False)})

    def run(self, config, p):
        return getattr(self, "do_" + config["k"])(config, p)

    def do_line(self, config, p):
        fam, deg, d = config["fam"], config["deg"], p["ps"]
        e = getattr(finat, FAM[fam])(C.cell("I"), deg)
        x = node_order(fam, deg)
        if p["ent"] in ("v0", "v1"):
            v = int(p["ent"][1])
            ps = PointSingleton(np.zeros((0,)))
            t = tab_values(e, e.basis_evaluation(p["order"], ps, (0, v)), ps)
            w = lagrange(x, np.array([float(v)]), p["order"])
            for k in range(p["order"] + 1):
                close(t[(k,)], w[k], rtol=1e-7, atol=1e-8, what="D%d at vertex" % k)
            return deg > 0
        ps, pts = make_ps1(d, deg)
        t = tab_values(e, e.basis_evaluation(p["order"], ps, None if p["ent"] is None else (1, 0)), ps)
        require(sorted(t) == [(k,) for k in range(p["order"] + 1)], "keys %s", sorted(t))
        w = lagrange(x, pts, p["order"])
        for k in range(p["order"] + 1):
            close(t[(k,)], w[k], rtol=1e-7, atol=1e-8, what="D%d" % k)
        if matches(d, fam, deg):
            exact01(t[(0,)], "at its own nodes")
            require(np.array_equal(t[(0,)], np.eye(deg + 1)), "not the identity: %s", t[(0,)].tolist())
        return {"ps:" + d["k"] + (":" + d.get("mod", "")), "match:%s" % matches(d, fam, deg)} if len(pts) == deg + 1 else False

    def do_edge(self, config, p):
        spec = L(FAM[config["fam"]], config["cell"], config["deg"])
        e = C.build(spec)
        dim = C.DIM[config["cell"]]
        n = p["n"] if p["n"] > 0 else int(e.space_dimension())
        n = max(n, 2) if p["lab"] == "GLL" else n
        x = node_order(p["lab"], n - 1)
        ents = [en for en in G.entities(e.cell) if en[0] == 1]
        ent = ents[p["ent"] % len(ents)]
        ps = LABEL[p["lab"]](x[:, None])
        t = tab_values(e, e.basis_evaluation(p["order"], ps, ent), ps)
        w = M.tabulate(spec, p["order"], M.embed(config["cell"], ent, x[:, None]))
        require(set(t) == set(w), "keys %s", sorted(t))
        for a in w:
            close(t[a], w[a], rtol=1e-8, atol=1e-9, what="D%s on edge %s" % (a, ent))
        return {"edge:%dD" % dim} if n == int(e.space_dimension()) else False

    def do_prod(self, config, p):
        cn = config["cell"]
        fams, degs = p["fams"], p["deg"]
        leaves = [L(FAM[f], "I", k) for f, k in zip(fams, degs)]
        flat = cn in "QH"
        if flat:
            degs = [degs[0]] * len(degs)
            leaves = [L(FAM[f], "I", degs[0]) for f in fams]
            spec = {"el": "Flat", "of": {"el": "TPE", "factors": leaves}}
        elif cn == "TxI":
            spec = {"el": "TPE", "factors": [L("GaussLegendre" if fams[0] == "GL" else "GaussLobattoLegendre", "T", degs[0])] + leaves}
        elif cn == "QxI":
            degs = [degs[0], degs[0], degs[2]]
            leaves = [L(FAM[f], "I", k) for f, k in zip(fams, degs)]
            spec = {"el": "TPE", "factors": [{"el": "Flat", "of": {"el": "TPE", "factors": leaves[:2]}}, leaves[2]]}
        else:
            spec = {"el": "TPE", "factors": leaves}
        e = C.build(spec)
        ents = G.entities(e.cell)
        ent = None if p["ent"] is None else ents[p["ent"] % len(ents)]
        # directions along which the entity extends
        if ent is None:
            live = [True] * len(leaves)
        elif flat:
            V = M.entity_vertices(cn, ent)
            live = [bool(np.ptp(V[:, k]) > 0) for k in range(len(leaves))]
        elif cn == "TxI":
            if ent[0][0] != 2:
                ent = None
                live = [True]
            else:
                live = [ent[0][1] == 1]
        elif cn == "QxI":
            if ent[0][0] == 1:
                ent = None
                live = [True] * 3
            else:
                live = [ent[0][0] == 2] * 2 + [ent[0][1] == 1]
        else:
            live = [k == 1 for k in ent[0]]
        sets, arrs, full = [], [], True
        for lv, d, f, k in zip(live, p["ps"], fams, degs):
            if lv:
                s, x = make_ps1(d, k)
                full = full and matches(d, f, k)
                sets.append(s)
                arrs.append(x[:, None])
            else:
                full = False
                if not flat:
                    sets.append(PointSingleton(np.zeros((0,))))
                arrs.append(np.zeros((1, 0)))
        if cn == "TxI":
            tp = np.array([G.cell_point("T", w) for w in p["tp"]])
            sets = [PointSet(tp)] + sets
            arrs = [tp] + arrs
            full = False
        elif cn == "QxI":
            sets = [TensorPointSet(sets[:2]), sets[2]]
        idx = np.indices([len(a) for a in arrs]).reshape(len(arrs), -1)
        pts = np.concatenate([a[i] for a, i in zip(arrs, idx)], axis=1)
        if p["plain"] and not flat and len(live) > 1 and all(live):
            ps = PointSet(pts)
            full = False
        elif flat and sum(live) == 0:
            ps = PointSingleton(np.zeros((0,)))
        elif flat and sum(live) == 1:
            ps, = sets
        else:
            ps = TensorPointSet(sets)
        t = tab_values(e, e.basis_evaluation(p["order"], ps, ent), ps)
        w = M.tabulate(spec, p["order"], M.embed(cn, ent, pts))
        require(set(t) == set(w), "keys %s", sorted(t))
        for a in w:
            close(t[a], w[a], rtol=1e-7, atol=1e-8, what="D%s" % (a,))
        if full:
            z = t[(0,) * G.point_dim(cn)]
            exact01(z, "product at its own nodes")
            require(np.array_equal(z.reshape(len(pts), -1), np.eye(len(pts))), "product at its own nodes is not the identity")
        near = any(lv and matches(d, f, k) for lv, d, f, k in zip(live, p["ps"], fams, degs))
        return {"prod:" + cn, "full:%s" % full} if near else False

    def do_wrap(self, config, p):
        w, fams, degs = p["w"], p["fams"], p["deg"]
        a = [L(FAM[f], "I", k) for f, k in zip(fams, degs)]
        ps, pts = make_ps1(p["ps"][0], degs[0])
        pts = pts[:, None]
        if w in ("hdiv", "hcurl", "rtcf"):
            x, y = L("GaussLobattoLegendre", "I", degs[0]), L("GaussLegendre", "I", degs[0] - 1)
            ps2, pts2 = make_ps1(p["ps"][1], degs[0] - 1)
            idx = np.indices([len(pts), len(pts2)]).reshape(2, -1)
            ps = TensorPointSet([ps, ps2])
            pts = np.concatenate([pts[idx[0]], pts2[:, None][idx[1]]], axis=1)
            wr = "HCurl" if w == "hcurl" else "HDiv"
            spec = {"el": wr, "of": {"el": "TPE", "factors": [x, y]}}
            if w == "rtcf":
                spec = {"el": "Flat", "of": {"el": "Enriched", "of": [spec, {"el": wr, "of": {"el": "TPE", "factors": [y, x]}}]}}
        elif w in ("vec", "vecT"):
            spec = {"el": "Vec", "of": a[0], "shape": [2], "transpose": w == "vecT"}
        elif w == "disc":
            spec = {"el": "Disc", "of": a[0]}
        elif w == "enrvec":
            spec = {"el": "Enriched", "of": [{"el": "Vec", "of": s, "shape": [2]} for s in (a + a)[:2]]}
        else:
            spec = {"el": "Enriched" if w == "enr" else "Mixed", "of": (a + a)[:max(2, len(a))]}
        e = C.build(spec)
        t = tab_values(e, e.basis_evaluation(p["order"], ps), ps)
        m = M.tabulate(spec, p["order"], pts)
        require(set(t) == set(m), "keys %s", sorted(t))
        for k in m:
            close(t[k], m[k], rtol=1e-7, atol=1e-8, what="D%s" % (k,))
        if w in ("vec", "vecT", "disc") and matches(p["ps"][0], fams[0], degs[0]):
            exact01(t[(0,)], "wrapped element at its own nodes")
        return {"wrap:" + w} if p["ps"][0]["k"] != "free" and p["ps"][0].get("dn") == 0 else False

    def do_rule(self, config, p):
        """The library's own quadrature rules on GL elements."""
        cn, deg = p["cell"], p["deg"]
        if cn == "H":
            deg = min(deg, 2)
        leaf = L("GaussLegendre", "I", deg)
        n = {"I": 1, "IxI": 2, "Q": 2, "H": 3}[cn]
        spec = leaf if n == 1 else {"el": "TPE", "factors": [leaf] * n}
        if cn in "QH":
            spec = {"el": "Flat", "of": spec}
        q = min(p["q"], 8) if n > 1 else p["q"]
        rule = finat.quadrature.make_quadrature(C.cell(cn) if cn != "H" else C.cell("IxIxI"), q)
        e = C.build(spec)
        ps = rule.point_set
        t = tab_values(e, e.basis_evaluation(p["order"], ps), ps)
        m = M.tabulate(spec, p["order"], np.asarray(ps.points))
        for k in m:
            close(t[k], m[k], rtol=1e-7, atol=1e-8, what="D%s" % (k,))
        hit = (q + 2) // 2 == deg + 1
        if hit:
            z = t[(0,) * n].reshape(len(ps.points), -1)
            exact01(z, "at the matching rule")
            require(np.array_equal(z, np.eye(len(ps.points))), "not the identity at the matching rule")
        return {"rule:" + cn} if hit else False


CHECK = C17()
