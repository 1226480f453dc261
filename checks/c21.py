"""C21 shapes, symmetries and components of mixed, vector and tensor descriptions."""
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st

import ufl
import finat.ufl as FU

from vlib import catalogue as C
from vlib import uflx as U
from vlib.core import Check, Discard, require, rejects

WRAP = ("Enr", "NEnr", "Res", "Brk", "Map", "TP", "HDiv", "HCurl")
GDIM_MAPPED = {"contravariant Piola": 1, "covariant Piola": 1, "double covariant Piola": 2, "double contravariant Piola": 2,
               "covariant contravariant Piola": 2}


def idx(shape):
    return list(np.ndindex(*shape))


def flat(i, shape):
    k = 0
    for a, b in zip(i, shape):
        k = k * b + a
    return k


class Layout:
    """Independent model of the components of a description.

    phys: physical value shape (None: not defined for this nesting)
    where: physical component -> (leaf description, its component)
    pick: physical component -> reference component
    sym: symmetry map (component -> representing component)
    ref / rwhere: reference value shape, reference component -> (leaf, its component)
    """


def layout(t, gdim):
    L = Layout()
    k = t["t"]
    m = U.meta(t)
    if k == "Mix":
        subs = [layout(c, gdim) for c in t["parts"]]
        n = sum(U.prod(s.ref) for s in subs)
        L.ref = (n,)
        L.rwhere, L.where, L.pick, L.sym = {}, {}, {}, {}
        base = 0
        for s in subs:
            for c in idx(s.ref):
                L.rwhere[(base + flat(c, s.ref),)] = s.rwhere.get(c)
            base += U.prod(s.ref)
        if any(s.phys is None for s in subs):
            L.phys = None
            return L
        L.phys = (sum(U.prod(s.phys) for s in subs),)
        base = rbase = 0
        for s in subs:
            for c in idx(s.phys):
                j = (base + flat(c, s.phys),)
                L.where[j] = s.where[c]
                L.pick[j] = None if s.pick[c] is None else (rbase + flat(s.pick[c], s.ref),)
                if c in s.sym:
                    L.sym[j] = (base + flat(s.sym[c], s.phys),)
            base += U.prod(s.phys)
            rbase += U.prod(s.ref)
        return L
    if k in ("Vec", "Ten"):
        s = layout(t["of"], gdim)
        block = (t["dim"] if t["dim"] is not None else U.tdim(U.cell_of(t)),) if k == "Vec" else U.shape_of(t)
        sy = U.sym_dict(dict(t, shape=block)) if k == "Ten" else {}
        own = [b for b in idx(block) if b not in sy]
        num = {b: i for i, b in enumerate(own)}
        L.num = {b: num[sy.get(b, b)] for b in idx(block)}
        L.nsub = len(own)
        L.ref = ((len(own),) if sy else block) + s.ref
        L.rwhere = {}
        for i, b in enumerate(own):
            for c in idx(s.ref):
                L.rwhere[((i,) if sy else b) + c] = s.rwhere.get(c)
        inner = t["of"]["t"]
        plain = inner not in ("Mix",) and not (inner == "Ten" and U.sym_dict(dict(t["of"], shape=U.shape_of(t["of"]))))
        L.where, L.pick, L.sym = {}, {}, {}
        if s.phys is None or not (plain or sy):
            L.phys = None
            return L
        L.phys = block + s.phys
        for b in idx(block):
            rb = sy.get(b, b)
            for c in idx(s.phys):
                L.where[b + c] = s.where[c]
                p = s.pick[c]
                L.pick[b + c] = None if p is None else ((num[rb],) if sy else b) + p
                if b in sy:
                    L.sym[b + c] = rb + c
        L.block_sym = sy
        return L
    # simple, or treated as simple
    L.ref = m.shape
    L.phys = m.shape
    if m.mapping in GDIM_MAPPED:
        r = GDIM_MAPPED[m.mapping]
        if len(m.shape) < r:
            L.phys = None
        else:
            L.phys = m.shape[:-r] + (gdim,) * r
    elif m.mapping in ("undefined", "symmetries"):
        L.phys = None
    L.rwhere = {c: (t, c) for c in idx(L.ref)}
    L.where = {c: (t, c) for c in idx(L.phys)} if L.phys is not None else {}
    L.pick = {c: c if m.mapping in ("identity", "custom", "physical") else None for c in L.where}
    L.sym = {}
    L.leafy = True
    return L


@st.composite
def nest(draw, cell, depth, leaf):
    k = draw(st.sampled_from(["leaf", "Vec", "Ten", "Mix", "Mix", "Ten"] if depth else ["leaf"]))
    if k == "leaf":
        return draw(leaf)
    if k == "Mix":
        return {"t": "Mix", "parts": [draw(nest(cell, depth - 1, leaf)) for _ in range(draw(st.integers(1, 4)))]}
    of = draw(nest(cell, draw(st.integers(0, depth - 1)), leaf))
    if k == "Vec":
        return {"t": "Vec", "of": of, "dim": draw(st.sampled_from([None, 1, 2, 3, 4]))}
    return draw(tensor(of))


@st.composite
def tensor(draw, of):
    s = draw(st.sampled_from([None, "T", "D", "D"]))
    if s == "T":
        n = draw(st.integers(1, 4))
        return {"t": "Ten", "of": of, "shape": draw(st.sampled_from([None, [n, n]])), "sym": "T"}
    shape = draw(st.sampled_from([None, [1], [2], [4], [2, 2], [2, 3], [3, 2], [3, 3], [2, 2, 2], [1, 2, 3], [2, 1, 2, 2]]))
    if s is None:
        return {"t": "Ten", "of": of, "shape": shape, "sym": None}
    shape = shape or [2, 2]
    ix = idx(shape)
    free = sorted(set(draw(st.lists(st.sampled_from(ix), min_size=1, max_size=len(ix)))))
    sy = [[list(i), list(draw(st.sampled_from(free)))] for i in ix if i not in free]
    return {"t": "Ten", "of": of, "shape": shape, "sym": sy or None}


CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", ["interval", "interval"], ["triangle", "interval"],
         [["interval", "interval"], "interval"]]
BAD = ["cells", "scheme", "square", "symbounds", "symneg", "symrank", "symtype", "nested", "kwargs"]


class C21(Check):
    id = "C21"
    quick = 220
    thorough = 2500
    rule = ("Generated nestings (depth <= 3) of mixed, vector and tensor descriptions, with generated symmetries, over simple leaves of every "
            "family and wrapped leaves, on named and product cells, in generated geometric dimension. Every component index (and generated "
            "indices out of range) is compared with an independent model of the component layout: sizes, sub elements, flattened symmetry "
            "mapping, component lookup in physical and reference values, the component that the pullback picks, and the value shape of the "
            "concrete element. Non-trivial: at least one composite node.")
    assumptions = ["UFL's Mesh and FunctionSpace give the geometric dimension", "vector or tensor of mixed or symmetric parts have no "
                   "physical value shape in UFL", "reference look-up in multi-index shapes is refused by design"]

    def configs(self, tier):
        out = []
        for c in CELLS:
            out.append({"kind": "nest", "cell": c})
            out.append({"kind": "wrapped", "cell": c})
        for c in CELLS[:4]:
            out.append({"kind": "concrete", "cell": c, "w": 0.3, "cost": 3})
        out += [{"kind": "bad", "how": b, "w": 0.2} for b in BAD]
        return out

    def params(self, config):
        k = config["kind"]
        if k == "bad":
            return st.fixed_dictionaries({"tree": st.sampled_from(CELLS).flatmap(lambda c: U.tree(c, 1)),
                                          "other": st.sampled_from(CELLS).flatmap(lambda c: U.tree(c, 1)), "n": st.integers(1, 3), "m": st.integers(1, 4)})
        cell = config["cell"]
        if k == "nest":
            leaf = U.leaf(cell) if isinstance(cell, str) else U.scalar_on(cell, 0)
            if isinstance(cell, str):
                leaf = st.one_of(leaf, U.leaf(cell, 0, fams=["Lagrange", "Discontinuous Lagrange", "Q", "DQ"]))
            tr = nest(cell, 3, leaf)
        elif k == "wrapped":
            tr = nest(cell, 2, U.tree(cell, 2))
        else:
            tr = nest(cell, 2, self.concrete_leaf(cell))
        return st.fixed_dictionaries({"tree": tr, "gdim": st.integers(0, 1), "out": st.lists(st.integers(-3, 9), max_size=4),
                                      "style": st.integers(0, 2)})

    def concrete_leaf(self, cell):
        fams = {"interval": ["Lagrange", "Discontinuous Lagrange", "Hermite"],
                "triangle": ["Lagrange", "Discontinuous Lagrange", "Raviart-Thomas", "Nedelec 1st kind H(curl)", "Regge", "Bubble",
                             "Hellan-Herrmann-Johnson", "Crouzeix-Raviart"],
                "quadrilateral": ["Q", "DQ", "RTCE", "RTCF", "S", "DPC"],
                "tetrahedron": ["Lagrange", "Discontinuous Lagrange", "Raviart-Thomas", "Nedelec 1st kind H(curl)"]}[cell]
        low = {"Bubble": 3, "Hermite": 3, "DPC": 1}

        @st.composite
        def go(draw):
            f = draw(st.sampled_from(fams))
            return U.FE(f, cell, low.get(f) or draw(st.integers(max(1, U.TABLE[f][4]), 1 if f == "Crouzeix-Raviart" else 2)))
        return go()

    def run(self, config, p):
        if config["kind"] == "bad":
            return self.bad(config["how"], p)
        t = p["tree"]
        if U.size(t) > 25:
            raise Discard
        e = U.build(t, p["style"])
        cell = config["cell"]
        gdim = U.tdim(cell) + p["gdim"]
        L = layout(t, gdim)
        if U.prod(L.ref) > 400 or (L.phys is not None and U.prod(L.phys) > 400):
            raise Discard
        labels = set(U.kinds(t) & {"Vec", "Ten", "Mix"})
        self.shapes(e, t, L)
        self.reference(e, t, L, p["out"])
        if L.phys is not None:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                dom = ufl.Mesh(FU.VectorElement("CG", U.mkcell(cell), 1, dim=gdim))
                self.physical(e, t, L, dom, p["out"])
            if L.sym:
                labels.add("symmetry")
        if config["kind"] == "concrete":
            self.concrete(e, t)
            labels.add("concrete")
        return labels if labels & {"Vec", "Ten", "Mix"} else False

    # -- shapes
    def shapes(self, e, t, L):
        require(tuple(e.reference_value_shape) == L.ref, "%r: reference value shape %s, expected %s", e, e.reference_value_shape, L.ref)
        require(e.reference_value_size == U.prod(L.ref), "%r: reference value size %s, expected %s", e, e.reference_value_size, U.prod(L.ref))
        k = t["t"]
        if k in ("Mix", "Vec", "Ten"):
            subs = [U.build(c) for c in t["parts"]] if k == "Mix" else [U.build(t["of"])] * L.nsub
            require(list(e.sub_elements) == subs, "%r: sub elements %r", e, e.sub_elements)
            require(e.num_sub_elements == len(subs), "%r: %s sub elements", e, e.num_sub_elements)
            require(e.reference_value_size == sum(s.reference_value_size for s in e.sub_elements), "%r: sizes of the sub elements do not add up", e)
            for s, c in zip(e.sub_elements, t["parts"] if k == "Mix" else [t["of"]]):
                self.shapes(s, c, layout(c, 3))
        if k == "Ten":
            block = U.shape_of(t)
            got = e.flattened_sub_element_mapping()
            require(list(got) == [L.num[b] for b in idx(block)], "%r: flattened mapping %s, expected %s", e, got, [L.num[b] for b in idx(block)])
            require(dict(e.symmetry()) == L.block_sym if hasattr(L, "block_sym") else True, "%r: symmetry %s", e, e.symmetry())

    # -- lookup in reference values
    def reference(self, e, t, L, out):
        for i in idx(L.ref):
            try:
                got, sub = e.extract_reference_component(i)
            except AssertionError:
                require(self.multi(t), "%r: no element for reference component %s", e, i)
                continue
            want = L.rwhere[i]
            w = U.build(want[0])
            require(sub == w and tuple(got) == want[1], "%r: reference component %s is component %s of %r, expected %s of %r",
                    e, i, got, sub, want[1], w)
            if t["t"] in ("Mix", "Vec", "Ten"):
                require(e.degree(i) == w.degree(), "%r: degree of component %s is %s, expected %s", e, i, e.degree(i), w.degree())
                require(e.is_cellwise_constant(i) == w.is_cellwise_constant(), "%r: constancy of component %s", e, i)
                n, j = e.extract_subelement_reference_component(i)
                require(e.sub_elements[n].extract_reference_component(j) == (got, sub), "%r: component %s is in sub element %s", e, i, n)
        if len(L.ref) == 1:
            for j in (0, L.ref[0] - 1):
                try:
                    a = e.extract_reference_component(j)
                except AssertionError:
                    require(self.multi(t), "%r: no element for reference component %s", e, j)
                    continue
                require(a == e.extract_reference_component((j,)), "%r: component given as %s and as tuple differ", e, j)
        for i in self.outside(L.ref, out):
            rejects(e.extract_reference_component, i, what="%r: reference component %s" % (e, i))
            rejects(e.extract_subelement_reference_component, i, what="%r: reference component %s" % (e, i))

    def multi(self, t):
        """Some block below has a multi-index shape."""
        if t["t"] in ("Vec", "Ten"):
            L = layout(t, 3)
            if len(L.ref) > 1:
                return True
        return any(self.multi(c) for c in U.children(t)) if t["t"] in ("Vec", "Ten", "Mix") else False

    def outside(self, shape, out):
        bad = [tuple(-1 for _ in shape), tuple(shape), tuple(out), (0,) * (len(shape) + 1)]
        if shape:
            bad += [(0,) * (len(shape) - 1), tuple(shape[:-1]) + (0,) if len(shape) > 1 else (shape[0],), (0,) * (len(shape) - 1) + (-1,)]
        ok = set(idx(shape))
        return [b for b in bad if b not in ok]

    # -- lookup in physical values
    def physical(self, e, t, L, dom, out):
        pvs = tuple(e.pullback.physical_value_shape(e, dom))
        require(pvs == L.phys, "%r: physical value shape %s, expected %s", e, pvs, L.phys)
        V = ufl.FunctionSpace(dom, e)
        require(tuple(V.value_shape) == L.phys and V.value_size == U.prod(L.phys), "%r: value shape %s", e, V.value_shape)
        simple = t["t"] not in ("Mix", "Vec", "Ten")
        for i in idx(L.phys):
            got, sub = e.extract_component(dom, i)
            want = L.where[i]
            w = U.build(want[0])
            require(sub == w and tuple(got) == want[1], "%r: component %s is component %s of %r, expected %s of %r", e, i, got, sub, want[1], w)
            n, j = e.extract_subelement_component(dom, i)
            if simple:
                require(n is None and j == i, "%r: component %s of a simple element", e, i)
            else:
                require(e.sub_elements[n].extract_component(dom, j) == (got, sub), "%r: component %s is in sub element %s", e, i, n)
        if len(L.phys) == 1:
            require(e.extract_component(dom, 0) == e.extract_component(dom, (0,)), "%r: component as number", e)
        for i in self.outside(L.phys, out):
            rejects(e.extract_component, dom, i, what="%r: component %s" % (e, i))
        # symmetries
        if t["t"] == "Ten":
            sy = dict(e.symmetry(dom))
            r = len(U.shape_of(t))
            require(sy == L.block_sym, "%r: symmetry %s, expected %s", e, sy, L.block_sym)
            require({a: b for a, b in L.sym.items()} == {a: sy[a[:r]] + a[r:] for a in L.where if a[:r] in sy}, "model")
        elif t["t"] == "Mix":
            sy = {tuple(a): tuple(b) for a, b in e.symmetry(dom).items()}
            require(sy == L.sym, "%r: symmetry %s, expected %s", e, sy, L.sym)
        # what the pullback picks
        f = ufl.Coefficient(V)
        rv = ufl.classes.ReferenceValue(f)
        if all(L.pick[i] is not None for i in L.pick):
            g = e.pullback.apply(rv)
            require(tuple(g.ufl_shape) == L.phys, "%r: pulled back shape %s", e, g.ufl_shape)
            for i in L.pick:
                a = g[i] if i else g
                b = rv[L.pick[i]] if L.pick[i] else rv
                require(a == b, "%r: component %s is read from %s, expected %s", e, i, a, b)
        else:
            g = e.pullback.apply(rv)
            require(tuple(g.ufl_shape) == L.phys, "%r: pulled back shape %s", e, g.ufl_shape)

    # -- concrete elements
    def concrete(self, e, t):
        s = U.spec_of(t)
        if s is None:
            return
        f = C.build(s)
        require(tuple(f.value_shape) == tuple(e.reference_value_shape), "%r: value shape %s, the concrete element has %s",
                e, e.reference_value_shape, f.value_shape)

    # -- refusals
    def bad(self, how, p):
        t, o, n, m = p["tree"], p["other"], p["n"], p["m"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e = U.build(t)
            if how == "cells":
                g = U.build(o)
                if e.cell == g.cell:
                    raise Discard
                rejects(FU.MixedElement, e, g, what="different cells")
                rejects(FU.MixedElement, e, e, g, what="different cells")
                for k in range(m + 1):
                    parts = [e] * m
                    rejects(FU.MixedElement, *parts[:k], g, *parts[k:], what="different cells: part %d of %d" % (k, m + 1))
                rejects(lambda: e * g, what="different cells")
            elif how == "scheme":
                a = FU.FiniteElement("DG", "triangle", n, quad_scheme="KMV")
                b = FU.FiniteElement("DG", "triangle", m)
                rejects(FU.MixedElement, a, b, what="different schemes")
                rejects(FU.MixedElement, b, b, a, what="different schemes")
                for k in range(m + 1):
                    parts = [b] * m
                    rejects(FU.MixedElement, *parts[:k], a, *parts[k:], what="different schemes: part %d of %d" % (k, m + 1))
            elif how == "square":
                if n == m:
                    raise Discard
                rejects(FU.TensorElement, e, shape=(n, m), symmetry=True, what="symmetric non-square tensor")
                rejects(FU.TensorElement, e, shape=(n, n, n), symmetry=True, what="symmetric third-order tensor")
                rejects(FU.TensorElement, e, shape=(n,), symmetry=True, what="symmetric vector")
            elif how == "symbounds":
                rejects(FU.TensorElement, e, shape=(n, m), symmetry={(0, 0): (n, 0)}, what="symmetry out of bounds")
                rejects(FU.TensorElement, e, shape=(n, m), symmetry={(0, m): (0, 0)}, what="symmetry out of bounds")
            elif how == "symneg":
                rejects(FU.TensorElement, e, shape=(2, m), symmetry={(1, 0): (-2, 0)}, what="negative symmetry index")
                rejects(FU.TensorElement, e, shape=(2, m), symmetry={(-1, 0): (0, 0)}, what="negative symmetry index")
            elif how == "symrank":
                rejects(FU.TensorElement, e, shape=(2, 2), symmetry={(1, 0): (0,)}, what="symmetry rank")
                rejects(FU.TensorElement, e, shape=(2, 2), symmetry={(1,): (0, 1)}, what="symmetry rank")
            elif how == "symtype":
                rejects(FU.TensorElement, e, shape=(2, 2), symmetry=[((1, 0), (0, 1))], what="symmetry that is no map")
                rejects(FU.TensorElement, e, shape=(2, 2), symmetry="T", what="symmetry that is no map")
                rejects(FU.TensorElement, e, shape=(2, 2), symmetry={(0, 1): (1, 0), (1, 0): (0, 1)}, what="circular symmetry")
            elif how == "nested":
                parts = [e] * m
                a = FU.MixedElement((e, tuple(parts)), [e] * n)
                b = FU.MixedElement(FU.MixedElement(e, FU.MixedElement(*parts)), FU.MixedElement(*[e] * n))
                require(a == b and tuple(a.reference_value_shape) == tuple(b.reference_value_shape) == (e.reference_value_size * (1 + m + n),),
                        "nested tuples: %r, expected %r", a, b)
                require(FU.MixedElement([e, e]) == FU.MixedElement(e, e) == FU.MixedElement((e, e)) == e * e, "list of parts: %r", e)
            elif how == "kwargs":
                rejects(FU.MixedElement, e, e, reference_value_shape=(n,), what="keyword arguments")
                rejects(lambda: e * m, what="product with a number")
                rejects(lambda: e + m, what="sum with a number")
        return {how}


CHECK = C21()
