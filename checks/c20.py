"""C20 symbolic names and metadata describe the element they denote."""
import itertools

import numpy as np
from hypothesis import strategies as st

import finat.ufl as FU

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib import uflx as U
from vlib.core import Check, Discard, require, rejects
from checks.c06 import facet_axes

FINAT_MAP = {"identity": "affine", "L2 Piola": "affine", "custom": "affine", "contravariant Piola": "contravariant piola",
             "covariant Piola": "covariant piola", "double covariant Piola": "double covariant piola",
             "double contravariant Piola": "double contravariant piola",
             "covariant contravariant Piola": "covariant contravariant piola"}
FEEC_CELLS = ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron")
# by definition not conforming in the space they are used for
NONCONFORMING = {"Morley", "Mardal-Tai-Winther", "Nonconforming Arnold-Winther"}
# degrees that FIAT can build (others are refused by FIAT itself)
DEGS = {"Brezzi-Douglas-Fortin-Marini": [2], "Kong-Mulder-Veldhuizen": [1, 2, 3, 4, 5], "Argyris": [5, 6], "Hsieh-Clough-Tocher": [3, 4],
        "Hu-Zhang": [3, 4], "Conforming Arnold-Winther": [3], "Bernardi-Raugel": [1], "Bernardi-Raugel Bubble": [None],
        "Guzman-Neilan Bubble": [None], "Guzman-Neilan 1st kind H1": [1], "Guzman-Neilan 2nd kind H1": [1], "Guzman-Neilan H1(div)": [2],
        "Hermite": [3]}


def concrete_families():
    out = []
    for f, r in U.TABLE.items():
        for c in r[6]:
            if c not in U.CN or (U.is_cube(c) and f in U.TO_CUBE):
                continue
            if f == "HDiv Trace":
                continue    # not tabulated in the interior
            if f == "Real" and c not in ("triangle", "tetrahedron"):
                continue
            if f in ("DPC", "S") and c == "interval" and f == "S":
                continue
            if U.spec_of(U.FE(f, c, 2)) is None:
                continue
            if f == "FacetBubble" and c == "interval":
                continue
            if f == "Brezzi-Douglas-Fortin-Marini" and c != "triangle":
                continue    # not available in FIAT
            out.append((f, c))
    return out


def degrees(f, c):
    lo, hi = U.TABLE[f][4], U.TABLE[f][5]
    if f in DEGS:
        d = DEGS[f]
    else:
        top = {"interval": 5, "triangle": 4, "quadrilateral": 4, "tetrahedron": 2, "hexahedron": 2}[c]
        d = list(range(lo, max(lo, min(hi, top) if hi is not None else top) + 1))
    if f == "Bubble":
        d = [k for k in d + [4] if k >= U.tdim(c) + 1]
    if f == "FacetBubble":
        d = [k for k in d + [3] if k >= U.tdim(c)]
    if f == "Crouzeix-Raviart":
        d = [1]
    if f == "Regge" and c == "interval":
        d = [0, 1]
    if f == "Kong-Mulder-Veldhuizen" and c == "tetrahedron":
        d = [1, 2, 3]
    if f in ("SminusCurl", "SminusDiv") and c == "hexahedron":
        d = [1, 2]
    return sorted(set(d), key=lambda k: -1 if k is None else k)


def monomials(dim, deg, total):
    return [a for a in itertools.product(range(deg + 1), repeat=dim) if not total or sum(a) <= deg]


def legendre(x, a):
    v = np.ones(len(x))
    for i, k in enumerate(a):
        v = v * np.polynomial.legendre.legval(x[:, i], [0] * k + [1])
    return v


def sub_vertices(spec):
    """Vertex lists of the pieces on which the basis is polynomial."""
    cx = M.cell_complex(spec)
    c = M.cell_of(spec)
    if cx is None or cx is c or not hasattr(cx, "is_macrocell") or not cx.is_macrocell():
        return [np.array(c.get_vertices(), dtype=float)]
    top = cx.get_topology()
    V = np.array(cx.get_vertices(), dtype=float)
    return [V[list(vs)] for vs in top[max(top)].values()]


class C20(Check):
    id = "C20"
    quick = 40
    thorough = 500
    rule = ("'names': every spelling x cell (named, product) x generated degree, compared with an independent table of canonical "
            "families (family, degree, cell, space, mapping, value shape, embedded degrees), equality with the canonical spelling, and "
            "refusal of cells, degrees and names outside the table. 'feec': exterior-calculus notation x form degree x dimension x degree "
            "against an independent resolution. 'true': families with a concrete element: value shape, mapping, degree bound (piecewise "
            "polynomial fit), constancy, and the continuity that the declared space promises, on generated points. Non-trivial: an accepted "
            "name other than the canonical one on that cell, a refused input, or a nonzero table.")
    assumptions = ["FIAT's reference bases define the concrete elements", "families that are nonconforming by definition (Morley, MTW, AWnc) "
                   "are not checked for continuity", "cells given as product cells are not validated by design"]

    def configs(self, tier):
        out = []
        for f in U.TABLE:
            for name in sorted(set([f] + U.TABLE[f][0])):
                out.append({"kind": "names", "name": name, "w": 0.7})
                out.append({"kind": "bounds", "name": name, "w": 0.02})
        for cell, n in U.CELLS.items():
            if cell in FEEC_CELLS:
                out += [{"kind": "feec", "name": name, "cell": cell, "k": k, "w": 0.08} for name in U.FEEC for k in range(n + 1)]
        out.append({"kind": "unknown"})
        for f, c in concrete_families():
            k = {"family": f, "cell": c, "w": 0.06, "cost": 3 if c in ("tetrahedron", "hexahedron") else 1}
            out += [dict(k, kind=kind, degree=d) for kind in ("true", "degree") for d in degrees(f, c)]
        return out

    def params(self, config):
        k = config["kind"]
        if k == "names":
            return st.fixed_dictionaries({
                "cell": st.one_of(st.sampled_from(U.ANY), st.sampled_from(U.PRODUCTS)),
                "degree": st.integers(-2, 9), "variant": st.sampled_from([None, "spectral", "mse"]),
                "quad": st.sampled_from([None, "KMV"])})
        if k == "bounds":
            return st.fixed_dictionaries({"variant": st.sampled_from([None, "spectral", "mse"]), "quad": st.sampled_from([None, "KMV"]),
                                          "top": st.integers(9, 25)})
        if k == "feec":
            return st.fixed_dictionaries({"degree": st.integers(8, 30), "variant": st.sampled_from([None, "integral"])})
        if k == "unknown":
            return st.fixed_dictionaries({"name": st.one_of(st.text(min_size=0, max_size=8), st.sampled_from(
                ["cg", "dg", "Lagrange ", "N1", "N3curl", "RTC", "BDMC", "Pminus", "p", "CG1", "Q-", "P-", "DG L", "EGL L2", "N1curl L2"])),
                "cell": st.sampled_from(U.ANY), "degree": st.integers(0, 4)})
        return st.fixed_dictionaries({"seed": st.integers(0, 10 ** 6)})

    def run(self, config, p):
        return getattr(self, config["kind"] + "_")(config, p)

    # -- names
    def compare(self, e, t):
        m = U.meta(t)
        n = U.tdim(t["cell"])
        require(e.cell == U.mkcell(t["cell"]), "%r: cell %r, expected %s", e, e.cell, t["cell"])
        require(tuple(e.reference_value_shape) == m.shape, "%r: value shape %s, expected %s", e, e.reference_value_shape, m.shape)
        require(e.reference_value_size == U.prod(m.shape), "%r: value size %s", e, e.reference_value_size)
        require(e.degree() == m.degree, "%r: degree %r, expected %r", e, e.degree(), m.degree)
        require(e.mapping() == m.mapping, "%r: mapping %s, expected %s", e, e.mapping(), m.mapping)
        require(U.same_space(m.space, e.sobolev_space, n), "%r: space %s, expected %s", e, e.sobolev_space, m.space)
        require(e.family() == m.family, "%r: family %s, expected %s", e, e.family(), m.family)
        require(e.variant() == m.variant, "%r: variant %s, expected %s", e, e.variant(), m.variant)
        require(e.quadrature_scheme() == m.quad, "%r: scheme %s, expected %s", e, e.quadrature_scheme(), m.quad)
        require(e.embedded_superdegree == m.sup, "%r: superdegree %s, expected %s", e, e.embedded_superdegree, m.sup)
        require(e.embedded_subdegree == m.sub, "%r: subdegree %s, expected %s", e, e.embedded_subdegree, m.sub)
        if e.is_cellwise_constant():
            require(m.const or m.family == "Real", "%r: declared constant", e)
        if m.leaf:
            require(e._is_globally_constant() == (m.family == "Real"), "%r: globally constant", e)
            require(e._is_linear() == (m.family == "Lagrange" and m.degree == 1), "%r: linear", e)
            require(bool(e.is_cellwise_constant()) == (m.degree == 0), "%r: constancy %r", e, e.is_cellwise_constant())

    def names_(self, config, p):
        name, cell, deg = config["name"], p["cell"], p["degree"]
        fam0 = U.SPELL[name]
        prodc = not isinstance(cell, str)
        fam = U.TO_CUBE.get(fam0, fam0) if U.is_cube(cell) else fam0
        row = U.TABLE[fam0]
        if prodc:
            if fam in ("RTCE", "RTCF"):
                ok_cell = cell == ["interval", "interval"]
            elif fam in ("NCE", "NCF"):
                ok_cell = cell == ["quadrilateral", "interval"]
            elif fam in ("Q", "DQ", "DQ L2"):
                ok_cell = True
            else:
                raise Discard   # product cells are not validated
        elif fam0 in U.TO_CUBE:
            ok_cell = True
        else:
            ok_cell = cell in row[6]
        lo, hi = row[4], row[5]
        ok_deg = (lo is None or deg >= lo) and (hi is None or deg <= hi)
        kw = {"variant": p["variant"], "quad_scheme": p["quad"]}
        c = U.mkcell(cell)
        if not (ok_cell and ok_deg):
            rejects(FU.FiniteElement, name, c, deg, what="%s of degree %d on %s" % (name, deg, cell), **kw)
            return {"refused"}
        e = FU.FiniteElement(name, c, deg, **kw)
        t = U.FE(name, cell, deg, p["variant"], p["quad"])
        self.compare(e, t)
        canon = FU.FiniteElement(fam, c, deg, **kw)
        require(e == canon and hash(e) == hash(canon) and repr(e) == repr(canon), "%s on %s is %r, its canonical name %s gives %r",
                name, cell, e, fam, canon)
        if isinstance(cell, str):
            require(e == FU.FiniteElement(name, cell, deg, **kw), "cell given by name: %r", e)
            back = FU.FiniteElement(e.family(), e.cell, e.degree(), quad_scheme=e.quadrature_scheme(), variant=e.variant())
            require(back == e, "%r does not denote itself: %r", e, back)
        return {"alias" if name != fam else "canonical", "product" if prodc else "named"}

    def bounds_(self, config, p):
        """Every cell, every degree around the bounds."""
        out = set()
        for cell in U.ANY + U.PRODUCTS:
            for deg in list(range(-2, 10)) + [p["top"]]:
                try:
                    out |= self.names_(config, dict(p, cell=cell, degree=deg))
                except Discard:
                    pass
        return out

    def feec_(self, config, p):
        return set().union(*(self.feec1(config, dict(p, degree=r)) for r in list(range(-2, 8)) + [p["degree"]]))

    def feec1(self, config, p):
        name, cell, k, r = config["name"], config["cell"], config["k"], p["degree"]
        n = U.tdim(cell)
        fam, deg = U.feec(name, n, r, k)
        simplexy = name[0] == "P"
        row = U.TABLE[fam]
        cube_ok = fam in U.TO_CUBE and U.is_cube(cell)
        fam_c = U.TO_CUBE[fam] if cube_ok else fam
        ok = (cell in row[6] or cube_ok) and (row[4] is None or deg >= row[4]) and (row[5] is None or deg <= row[5])
        args = (name, U.mkcell(cell), r)
        if not ok:
            rejects(FU.FiniteElement, *args, form_degree=k, variant=p["variant"], what="%s form degree %d degree %d on %s" % (name, k, r, cell))
            return {"refused"}
        e = FU.FiniteElement(*args, form_degree=k, variant=p["variant"])
        want = FU.FiniteElement(fam_c, U.mkcell(cell), deg, variant=p["variant"])
        require(e == want, "%s, degree %d, form degree %d on %s: %r, expected %r", name, r, k, cell, e, want)
        self.compare(e, U.FE(fam_c, cell, deg, p["variant"]))
        # position in the complex decides the space
        l2 = name.endswith("L2") and k == n
        space = {0: "H1", n: "L2"}.get(k, "HCurl" if (k == 1) else "HDiv")
        require(e.sobolev_space.name == space, "%d-forms in %d dimensions live in %s, got %s", k, n, space, e.sobolev_space)
        require(e.mapping() == {"H1": "identity", "L2": "L2 Piola" if l2 else "identity", "HCurl": "covariant Piola",
                                "HDiv": "contravariant Piola"}[space], "mapping of %r is %s", e, e.mapping())
        return {"feec:%d" % k, "simplex" if simplexy else "cube"}

    def unknown_(self, config, p):
        name = p["name"]
        if name in U.FEEC:
            # exterior calculus notation needs a form degree
            if name not in ("P", "S"):
                rejects(FU.FiniteElement, name, p["cell"], p["degree"], what="%s without a form degree" % name)
            return {"no form degree"}
        if name in U.SPELL or name.startswith("Lambda"):
            raise Discard
        rejects(FU.FiniteElement, name, p["cell"], p["degree"], what="family %r" % name)
        return {"unknown"}

    # -- concrete elements
    def pair(self, fam, cell, deg):
        t = U.FE(fam, cell, deg)
        spec = U.spec_of(t)
        if fam in ("Bernardi-Raugel Bubble", "Guzman-Neilan Bubble"):
            spec = dict(spec, deg=0)
        return U.build(t), C.build(spec), spec

    def true_(self, config, p):
        fam, cell, deg = config["family"], config["cell"], config["degree"]
        u, f, spec = self.pair(fam, cell, deg)
        n = U.tdim(cell)
        labels = {"space:" + str(u.sobolev_space)}
        require(tuple(f.value_shape) == tuple(u.reference_value_shape), "%r declares value shape %s, the element has %s",
                u, u.reference_value_shape, f.value_shape)
        # (the mapping of SminusCurl is mislabelled in FIAT)
        if f.mapping is not None and fam != "SminusCurl":
            require(f.mapping == FINAT_MAP[u.mapping()], "%r declares mapping %s, the element has %s", u, u.mapping(), f.mapping)
        rng = np.random.default_rng(p["seed"])
        vs = f.value_shape
        V = np.array(M.cell_of(spec).get_vertices(), dtype=float)
        x = rng.dirichlet(np.ones(len(V)), size=6) @ V
        tab = M.tabulate(spec, 1, x)
        nonzero = np.max(np.abs(tab[(0,) * n]), initial=0) > 1e-8
        if u.is_cellwise_constant():
            for a in tab:
                if sum(a) == 1:
                    require(np.max(np.abs(tab[a]), initial=0) < 1e-8, "%r is declared constant but has a derivative", u)
            labels.add("constant")
        if fam in NONCONFORMING:
            return labels if nonzero else False
        self.conforming(u, f, spec, cell, rng)
        return labels if nonzero else False

    def degree_(self, config, p):
        """The declared degree bounds the degree of the basis, piece by piece."""
        fam, cell, deg = config["family"], config["cell"], config["degree"]
        u, f, spec = self.pair(fam, cell, deg)
        n = U.tdim(cell)
        rng = np.random.default_rng(p["seed"])
        sup = u.embedded_superdegree
        total = cell not in ("quadrilateral", "hexahedron")
        mons = monomials(n, sup, total)
        nonzero = False
        for V in sub_vertices(spec):
            npts = 2 * len(mons) + 4
            if total:
                w = rng.dirichlet(np.ones(n + 1), size=npts)
                x = w @ V
                loc = 2 * w[:, 1:] - 1
            else:
                x = rng.random((npts, n))
                loc = 2 * x - 1
            v = M.tabulate(spec, 0, x)[(0,) * n].reshape(npts, -1)
            A = np.stack([legendre(loc, a) for a in mons], axis=1)
            sol = np.linalg.lstsq(A, v, rcond=None)[0]
            res = np.max(np.abs(A @ sol - v), initial=0)
            require(res < 1e-7 * max(1, np.max(np.abs(v), initial=0)), "%r declares superdegree %s, which does not bound the degree of its basis "
                    "(residual %.1e)", u, sup, res)
            nonzero = nonzero or np.max(np.abs(v), initial=0) > 1e-8
        return {"degree:%s" % sup} if nonzero else False

    def conforming(self, u, f, spec, cell, rng):
        """Functions of nodes outside the closure of a facet vanish there, in the sense of the space."""
        n = U.tdim(cell)
        s = u.sobolev_space.name
        if s == "L2" or n == 1 and s != "H1":
            return
        fe = C.build_fiat(spec) if spec["el"] not in ("Flat",) else None
        closure = fe.entity_closure_dofs() if fe is not None and hasattr(fe, "entity_closure_dofs") else f.entity_closure_dofs()
        c = M.cell_of(spec)
        cn = M.cname(spec)
        top = c.get_topology()
        for i in top[n - 1]:
            m = 4
            V = M.entity_vertices(cn, (n - 1, i))
            w = rng.dirichlet(np.ones(len(V)), size=m)
            x = w @ V
            tab = M.tabulate(spec, 1, x)
            v = tab[(0,) * n].reshape((m, -1) + tuple(f.value_shape))
            nrm, tan = facet_axes(cn, (n - 1, i))
            rank = len(f.value_shape)
            if s in ("H1", "H2"):
                tr = [v.reshape(m, v.shape[1], -1)]
                if s == "H2" and u.family() not in ("QuadraticPowellSabin6", "QuadraticPowellSabin12"):
                    tr += [tab[a].reshape(m, v.shape[1], -1) for a in tab if sum(a) == 1]
            elif s == "HDiv":
                tr = [np.einsum("pb...i,ki->pb...k", v, nrm).reshape(m, v.shape[1], -1)]
            elif s == "HCurl":
                tr = [np.einsum("pbi,ki->pbk", v, tan)]
            elif s == "HEin":
                tr = [np.einsum("pbij,ki,lj->pbkl", v, tan, tan).reshape(m, v.shape[1], -1)]
            elif s == "HDivDiv":
                tr = [np.einsum("pbij,ki,lj->pbkl", v, nrm, nrm).reshape(m, v.shape[1], -1)]
            elif s == "HCurlDiv":
                a = np.einsum("pbij,ki,lj->pbkl", v, tan, nrm).reshape(m, v.shape[1], -1)
                b = np.einsum("pbij,ki,lj->pbkl", v, nrm, tan).reshape(m, v.shape[1], -1)
                out = [j for j in range(v.shape[1]) if j not in set(closure[n - 1][i])]
                tr = [a if np.max(np.abs(a[:, out]), initial=0) <= np.max(np.abs(b[:, out]), initial=0) else b]
            else:
                return
            inside = set(closure[n - 1][i])
            for q in tr:
                for j in range(v.shape[1]):
                    if j not in inside:
                        require(np.max(np.abs(q[:, j]), initial=0) < 1e-7, "%r is declared in %s, but basis function %d, not associated with "
                                "facet %d, has a trace %s there", u, s, j, i, q[0, j].tolist())


CHECK = C20()
