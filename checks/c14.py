"""C14 quadrature rules."""
from itertools import product
from math import factorial

import FIAT
import numpy as np
from FIAT.macro import AlfeldSplit, IsoSplit, PowellSabinSplit
from FIAT.reference_element import TensorProductCell
from finat.point_set import PointSet
from finat.quadrature import make_quadrature, QuadratureRule, TensorProductQuadratureRule
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib.core import Check, Discard, require, rejects, close
from vlib.gemeval import geval

SPLITS = {"alfeld": AlfeldSplit, "iso2": lambda c: IsoSplit(c, 2), "iso3": lambda c: IsoSplit(c, 3), "ps": PowellSabinSplit}


def simplex_monomial(a):
    """Integral of X^a over the unit simplex."""
    out = 1
    for k in a:
        out *= factorial(k)
    return out / factorial(len(a) + sum(a))


def axes(cn):
    """Simplex factors of a cell name (Q = IxI, H = IxIxI)."""
    out = []
    for c in cn.split("x"):
        out += {"Q": ["I", "I"], "H": ["I", "I", "I"]}.get(c, [c])
    return out


def total(dim, k):
    return [a for a in product(range(k + 1), repeat=dim) if sum(a) <= k]


class C14(Check):
    id = "C14"
    quick = 250
    thorough = 4000
    rule = ("A case is a cell (simplex, affine image of a simplex, macro split, quadrilateral, hexahedron, nested product), a degree (or a degree "
            "per factor) and a scheme. Every monomial up to the degree (per factor) must be integrated to 1e-10, every point lie in the "
            "cell and the weights sum to its volume, all read from the symbolic weights and points. Non-trivial: degree >= 1.")

    def configs(self, tier):
        out = [{"k": "simplex", "cell": c} for c in "PITK"]
        out += [{"k": "macro", "cell": c, "split": s, "w": 0.5, "cost": 2} for c in "ITK" for s in SPLITS
                if not (s == "ps" and c != "T") and not (s == "iso3" and c == "K")]
        out += [{"k": "prod", "cell": c, "cost": 2} for c in ("Q", "H", "IxI", "TxI", "IxT", "QxI", "IxIxI", "KxI", "IxQ")]
        out += [{"k": "prod", "cell": c, "w": 0.3, "cost": 3} for c in ("TxT", "QxQ", "HxI", "TxIxI")]
        out += [{"k": "kmv", "cell": c, "w": 0.2} for c in "TK"]
        out += [{"k": "maps", "cell": c, "w": 0.3} for c in ("I", "T", "IxI", "QxI", "TxI", "Q")]
        out += [{"k": "bad", "cell": "I", "w": 0.7}]
        return out

    def params(self, config):
        c, k = config["cell"], config["k"]
        scheme = st.sampled_from(["default", "default", "canonical"])
        if k == "simplex":
            d = C.DIM[c]
            hi = {0: 5, 1: 40, 2: 30, 3: 18}[d]
            return st.fixed_dictionaries({"deg": st.integers(0, hi), "scheme": scheme,
                                          "A": st.one_of(st.none(), G.st_affine(d, scale=(3, 30))) if d else st.none()})
        if k == "macro":
            return st.fixed_dictionaries({"deg": st.integers(0, {"I": 20, "T": 14, "K": 8}[c]), "scheme": scheme})
        if k in ("prod", "maps"):
            fac = c.split("x")
            cap = {"I": 12, "T": 10, "K": 6, "Q": 8, "H": 6}
            if c in ("TxT", "QxQ", "HxI", "TxIxI"):
                cap = dict.fromkeys(cap, 4)
            elif c == "IxIxI":
                cap["I"] = 8
            one = st.integers(0, min(cap[f] for f in fac))
            opts = [one]
            if c == "Q":
                opts.append(st.lists(st.integers(0, 10), min_size=2, max_size=2))
            if len(fac) > 1:
                def fdeg(f):
                    if f == "Q":
                        return st.one_of(st.integers(0, 8), st.lists(st.integers(0, 8), min_size=2, max_size=2))
                    return st.integers(0, cap[f])
                opts.append(st.tuples(*map(fdeg, fac)).map(list))
            return st.fixed_dictionaries({"deg": st.one_of(*opts), "scheme": scheme})
        if k == "kmv":
            return st.fixed_dictionaries({"deg": st.integers(1, 5 if c == "T" else 3)})
        return st.fixed_dictionaries({"what": st.sampled_from(["neg", "negprod", "scheme", "len", "mismatch", "mismatch0", "lenprod"]),
                                      "deg": st.integers(1, 12), "cell": st.sampled_from(["I", "T", "K", "Q", "IxI", "TxI", "QxI"]),
                                      "pos": st.integers(0, 2)})

    def read(self, rule):
        ps = rule.point_set
        require(set(rule.weight_expression.free_indices) == set(ps.indices), "weights with free indices %s for points with %s",
                rule.weight_expression.free_indices, ps.indices)
        w = geval(rule.weight_expression, ps.indices).reshape(-1)
        x = geval(ps.expression, ps.indices)
        x = x.reshape(len(w), -1)
        require(len(ps.points) == len(w), "%d points but %d weights", len(ps.points), len(w))
        close(np.asarray(ps.points).reshape(len(w), -1), x, what="stored and symbolic points")
        return x, w

    def run(self, config, p):
        return getattr(self, "run_" + config["k"])(config, p)

    def check_simplex(self, X, w, deg, vol, what):
        d = X.shape[1]
        require(abs(w.sum() - vol) <= 1e-10 * vol, "%s: weights sum to %r, volume is %r", what, w.sum(), vol)
        require(np.all(X >= -1e-9) and np.all(X.sum(axis=1) <= 1 + 1e-9), "%s: points outside the cell: %s", what, X)
        scale = vol * factorial(d)
        for a in total(d, deg):
            got = float(w @ np.prod(X ** np.array(a), axis=1)) if d else float(w.sum())
            want = scale * simplex_monomial(a)
            require(abs(got - want) <= 1e-10 * max(vol, abs(want)), "%s: monomial %s integrates to %r, exactly %r", what, a, got, want)

    def run_simplex(self, config, p):
        d = C.DIM[config["cell"]]
        if p["A"] is None:
            cell, A, b = C.cell(config["cell"]), np.eye(d), np.zeros(d)
        else:
            A, b = G.affine(d, p["A"])
            if np.linalg.cond(A) > 20:
                raise Discard
            cell = G.phys_simplex(d, A, b)
        rule = make_quadrature(cell, p["deg"], p["scheme"])
        x, w = self.read(rule)
        X = (x - b) @ np.linalg.inv(A).T if d else x
        vol = abs(np.linalg.det(A)) / factorial(d) if d else 1.0
        self.check_simplex(X, w, p["deg"], vol, "degree %d" % p["deg"])
        return {"cell:" + config["cell"], "affine" if p["A"] else "reference", p["scheme"]} if p["deg"] and d else False

    def run_macro(self, config, p):
        base = C.cell(config["cell"])
        cell = SPLITS[config["split"]](base)
        d = C.DIM[config["cell"]]
        rule = make_quadrature(cell, p["deg"], p["scheme"])
        x, w = self.read(rule)
        self.check_simplex(x, w, p["deg"], 1 / factorial(d), "degree %d on the split cell" % p["deg"])
        V = np.array(cell.get_vertices())
        seen = np.zeros(len(x), dtype=int)
        for i, vs in cell.get_topology()[d].items():
            W = V[list(vs)]
            B = (W[1:] - W[0]).T
            X = (x - W[0]) @ np.linalg.inv(B).T
            inside = np.all(X > 1e-9, axis=1) & (X.sum(axis=1) < 1 - 1e-9)
            seen += inside
            self.check_simplex(X[inside], w[inside], p["deg"], abs(np.linalg.det(B)) / factorial(d), "degree %d on subcell %d" % (p["deg"], i))
        require(np.all(seen == 1), "points shared between subcells")
        return {"macro:" + config["split"], "cell:" + config["cell"]} if p["deg"] else False

    def degrees(self, cn, deg):
        """Degree for each simplex factor."""
        fac = cn.split("x")
        if cn == "Q":
            return list(deg) if isinstance(deg, list) else [deg] * 2
        if cn == "H":
            return [deg] * 3
        if not isinstance(deg, list):
            deg = [deg] * len(fac)
        out = []
        for f, k in zip(fac, deg):
            if f == "Q":
                out += list(k) if isinstance(k, list) else [k, k]
            elif f == "H":
                out += [k] * 3
            else:
                out.append(k)
        return out

    def run_prod(self, config, p):
        cn = config["cell"]
        deg = p["deg"]
        arg = tuple(tuple(k) if isinstance(k, list) else k for k in deg) if isinstance(deg, list) else deg
        rule = make_quadrature(C.cell(cn), arg, p["scheme"])
        x, w = self.read(rule)
        fac, degs = axes(cn), self.degrees(cn, deg)
        vol = 1.0
        lists, off = [], 0
        for f, k in zip(fac, degs):
            d = C.DIM[f]
            X = x[:, off:off + d]
            require(np.all(X >= -1e-9) and np.all(X.sum(axis=1) <= 1 + 1e-9), "points outside the cell")
            off += d
            vol /= factorial(d)
            lists.append([(np.prod(X ** np.array(a), axis=1), simplex_monomial(a), a) for a in total(d, k)])
        require(abs(w.sum() - vol) <= 1e-10 * vol, "weights sum to %r, volume is %r", w.sum(), vol)
        for combo in product(*lists):
            got = float(np.prod([c[0] for c in combo], axis=0) @ w)
            want = float(np.prod([c[1] for c in combo]))
            require(abs(got - want) <= 1e-10 * vol, "degrees %s: monomial %s integrates to %r, exactly %r", degs, [c[2] for c in combo], got, want)
        return {"cell:" + cn, "tuple" if isinstance(deg, list) else "scalar"} if max(degs) else False

    def run_kmv(self, config, p):
        cn, k = config["cell"], p["deg"]
        rule = make_quadrature(C.cell(cn), k, "KMV")
        x, w = self.read(rule)
        self.check_simplex(x, w, k, 1 / factorial(C.DIM[cn]), "KMV degree %d" % k)
        e = C.build_fiat(C.L("KongMulderVeldhuizen", cn, k))
        t = e.tabulate(0, x)[(0,) * C.DIM[cn]]
        close(t, np.eye(len(t)), rtol=1e-9, atol=1e-8, what="KMV element at its lumping nodes")
        return {"kmv", "cell:" + cn}

    def run_maps(self, config, p):
        """Orientation data handed to assembly: per axis, the permutation of
        points of each intrinsic orientation; for the cell, the axes."""
        cn = config["cell"]
        deg = p["deg"]
        arg = tuple(tuple(k) if isinstance(k, list) else k for k in deg) if isinstance(deg, list) else deg
        cell = C.cell(cn)
        rule = make_quadrature(cell, arg, p["scheme"])
        if "T" in cn and p["scheme"] != "default" and cn != "I":
            raise Discard     # collapsed rules are not symmetric
        try:
            maps = rule.intrinsic_orientation_permutation_map_tuple
        except ValueError:
            raise Discard
        fac, degs = axes(cn), self.degrees(cn, deg)
        require(len(maps) == len(fac), "%d orientation maps for %d axes", len(maps), len(fac))
        for m, f, k in zip(maps, fac, degs):
            sub = make_quadrature(C.cell(f), k, p["scheme"])
            pts = sub.point_set.points
            n = len(pts)
            m = np.asarray(m)
            require(m.shape == (factorial(C.DIM[f] + 1), n), "orientation map of shape %s for %d points of %s", m.shape, n, f)
            require(np.all(m[0] == np.arange(n)), "orientation 0 permutes points: %s", m[0])
            for row in m:
                require(sorted(row) == list(range(n)), "orientation map row %s is not a permutation", row)
            if f == "I":
                close(pts[m[1]], 1 - pts, atol=1e-9, what="points reversed by orientation 1")
                close(sub.weights[m[1]], sub.weights, atol=1e-10, what="weights under orientation 1")
            else:
                for row in m:
                    close(sub.weights[row], sub.weights, atol=1e-10, what="weights under reorientation")
        ext = np.asarray(rule.extrinsic_orientation_permutation_map)
        c = cell.product if cn == "Q" else cell
        require(np.array_equal(ext, np.asarray(c.extrinsic_orientation_permutation_map)), "extrinsic map %s", ext)
        return {"maps", "cell:" + cn}

    def run_bad(self, config, p):
        cell = C.cell(p["cell"])
        d, w = p["deg"], p["what"]
        pts = np.linspace(0.1, 0.9, d + 1).reshape(-1, 1)
        if w == "neg":
            rejects(make_quadrature, cell, -d, what="negative degree")
        elif w == "negprod":
            degs = [1, 1]
            degs[p["pos"] % 2] = -d
            rejects(make_quadrature, C.cell("TxI"), tuple(degs), what="negative degree in a product")
        elif w == "scheme":
            if p["cell"] == "I" or p["cell"] in ("Q", "IxI", "QxI"):
                raise Discard    # intervals always use Gauss-Legendre
            rejects(make_quadrature, cell, d, "no-such-scheme", what="unknown scheme")
        elif w == "len":
            rejects(make_quadrature, C.cell("TxI"), (d,) * (3 - 2 * (p["pos"] % 2)), what="wrong number of degrees")
        elif w == "lenprod":
            rejects(make_quadrature, C.cell("Q"), (d,) * (3 - 2 * (p["pos"] % 2)), what="wrong number of degrees")
        elif w == "mismatch":
            rejects(QuadratureRule, PointSet(pts), np.ones(len(pts) + 1 + p["pos"]), what="more weights than points")
        elif w == "mismatch0":
            rejects(QuadratureRule, PointSet(pts), np.ones(len(pts) - 1), what="fewer weights than points")
        return {"bad:" + w}


CHECK = C14()
