"""C23 products, sums and wrappers combine the metadata of their parts."""
import warnings

from hypothesis import strategies as st

import ufl

import finat.ufl as FU

from vlib import uflx as U
from vlib.core import Check, Discard, require, rejects
from checks.c22 import attempt

CELLS = U.NAMED + U.PRODUCTS
BAD = ["cells", "shapes", "schemes", "domain", "vectors", "empty", "types", "getitem", "symmetries", "form", "degree"]


def deep_expand(t):
    t = U.expand(t)
    return U.with_children(t, [deep_expand(c) for c in U.children(t)])


def misfit(parts, other, what):
    """Sums with one part that does not fit, wherever it is."""
    for k in range(len(parts) + 1):
        for cls in (FU.EnrichedElement, FU.NodalEnrichedElement):
            rejects(cls, *parts[:k], other, *parts[k:], what="%s: part %d of %d" % (what, k, len(parts) + 1))


class C23(Check):
    id = "C23"
    quick = 500
    thorough = 4000
    rule = ("Generated trees of all constructors and operators over leaves of every family on named and product cells, up to depth 3, in "
            "every equivalent spelling (operators, explicit cells, canonical names). Every node's cell, family, degree, embedded degrees, "
            "function space, mapping, scheme, variant and value shape are compared with an independent model of how parts combine; families "
            "on product cells are compared with their explicit interval factors; operators with constructors. Mismatched parts must be "
            "refused. Non-trivial: a tree with at least one combining node, or a refusal.")
    assumptions = ["constancy is checked in the safe direction only (declared constant implies constant)",
                   "UFL's Sobolev space inclusions"]

    def configs(self, tier):
        out = []
        for c in CELLS:
            out.append({"kind": "meta", "cell": c})
            out.append({"kind": "ops", "cell": c, "w": 0.5})
        out += [{"kind": "split", "cell": c, "w": 0.3} for c in U.PRODUCTS]
        out += [{"kind": "bad", "how": b, "w": 0.25} for b in BAD]
        return out

    def params(self, config):
        k = config["kind"]
        if k == "meta":
            return st.fixed_dictionaries({"tree": U.tree(config["cell"], 3), "style": st.integers(0, 2)})
        if k == "ops":
            c = config["cell"]
            return st.fixed_dictionaries({"a": U.tree(c, 1), "b": U.tree(c, 1), "same": st.booleans(), "domain": st.sampled_from(U.DOMAINS)})
        if k == "split":
            c = config["cell"]
            fams = ["Q", "DQ", "DQ L2", "CG", "DG", "P", "DP", "DG L2", "DP L2", "Lagrange", "Discontinuous Lagrange"]
            if c == ["interval", "interval"]:
                fams += ["RTCE", "RTCF"] * 3
            if c == ["quadrilateral", "interval"]:
                fams += ["NCE", "NCF"] * 3
            return st.fixed_dictionaries({"family": st.sampled_from(fams), "degree": st.integers(1, 6),
                                          "variant": st.sampled_from([None, "spectral", "mse", "integral"])})
        return st.fixed_dictionaries({"a": U.any_cell().flatmap(lambda c: U.tree(c, 1)), "b": U.any_cell().flatmap(lambda c: U.tree(c, 1)),
                                      "word": st.text(max_size=6), "n": st.integers(-3, 5)})

    def run(self, config, p):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return getattr(self, config["kind"] + "_")(config, p)

    def compare(self, e, t):
        m = U.meta(t)
        n = U.tdim(m.cell)
        require(e.cell == U.mkcell(m.cell), "%r: cell %r, expected %s", e, e.cell, m.cell)
        require(tuple(e.reference_value_shape) == m.shape, "%r: value shape %s, expected %s", e, e.reference_value_shape, m.shape)
        require(e.degree() == m.degree, "%r: degree %r, expected %r", e, e.degree(), m.degree)
        require(e.family() == m.family, "%r: family %s, expected %s", e, e.family(), m.family)
        require(e.mapping() == m.mapping, "%r: mapping %s, expected %s", e, e.mapping(), m.mapping)
        if m.space is not None:
            require(U.same_space(m.space, e.sobolev_space, n), "%r: function space %s, expected %s", e, e.sobolev_space, m.space)
        require(e.variant() == m.variant, "%r: variant %s, expected %s", e, e.variant(), m.variant)
        require(e.quadrature_scheme() == m.quad, "%r: scheme %s, expected %s", e, e.quadrature_scheme(), m.quad)
        if m.sup is not None:
            require(e.embedded_superdegree == m.sup, "%r: embedded superdegree %s, expected %s", e, e.embedded_superdegree, m.sup)
        if m.sub is not None:
            require(e.embedded_subdegree == m.sub, "%r: embedded subdegree %s, expected %s", e, e.embedded_subdegree, m.sub)
        if e.is_cellwise_constant():
            require(m.const or m.family == "Real", "%r is declared constant", e)
        if e._is_globally_constant():
            require(self.only_real(t), "%r is declared globally constant", e)
        require(e._is_linear() in (True, False) and (not e._is_linear() or self.linear(t)), "%r is declared linear", e)

    def only_real(self, t):
        t = U.expand(t)
        if t["t"] == "FE":
            return U.meta(t).family == "Real"
        return all(map(self.only_real, U.children(t)))

    def linear(self, t):
        t = U.expand(t)
        if t["t"] == "FE":
            m = U.meta(t)
            return m.family == "Lagrange" and m.degree == 1
        return all(map(self.linear, U.children(t)))

    def walk(self, e, t):
        """Compare every node."""
        self.compare(e, t)
        t = U.expand(t)
        ch = U.children(t)
        for c in ch:
            self.walk(U.build(c), c)
        if t["t"] == "TP":
            require(list(e.sub_elements) == [U.build(c) for c in ch] and e.num_sub_elements == len(ch), "%r: factors %r", e, e.sub_elements)
        if t["t"] == "Res":
            require(e.restriction_domain() == t["domain"] and e.sub_element() == U.build(ch[0]), "%r: restriction of %r to %s",
                    e, e.sub_element(), e.restriction_domain())

    def meta_(self, config, p):
        t = p["tree"]
        if U.size(t) > 25:
            raise Discard
        ok, e = attempt(lambda: U.build(t, p["style"]))
        if not ok:
            ok, _ = attempt(lambda: [U.build(c) for c in U.children(t)])
            if ok and self.buildable(t):
                require(False, "%s is refused: %s", t, e)
            raise Discard
        self.walk(e, t)
        return U.kinds(t) - {"FE"} or (set(["split"]) if U.expand(t) is not t else False)

    def buildable(self, t):
        """The parts are compatible (used when the whole is refused)."""
        k = t["t"]
        ms = [U.meta(c) for c in U.children(t)]
        if k in ("Enr", "NEnr"):
            return len({m.shape for m in ms}) == 1 and len({m.quad for m in ms} - {None}) <= 1
        if k == "Mix":
            return len({m.quad for m in ms}) == 1
        if k == "TP":
            return sum(len(m.shape) for m in ms) <= 1
        if k in ("Res", "Brk", "HDiv", "HCurl", "Map"):
            return True
        if k in ("Vec", "Ten"):
            return True
        return False

    def ops_(self, config, p):
        ta, tb = p["a"], (dict(p["a"]) if p["same"] else p["b"])
        ok, ab = attempt(lambda: (U.build(ta), U.build(tb, 2)))
        if not ok:
            raise Discard
        a, b = ab
        labels = set()
        for t, op, con in [({"t": "Enr", "parts": [ta, tb]}, lambda: a + b, lambda: FU.EnrichedElement(a, b)),
                           ({"t": "Mix", "parts": [ta, tb]}, lambda: a * b, lambda: FU.MixedElement(a, b)),
                           ({"t": "Res", "of": ta, "domain": p["domain"]}, lambda: a[p["domain"]], lambda: FU.RestrictedElement(a, p["domain"])),
                           ({"t": "HDiv", "of": ta}, lambda: FU.HDiv(a), lambda: FU.HDivElement(a)),
                           ({"t": "HCurl", "of": ta}, lambda: FU.HCurl(a), lambda: FU.HCurlElement(a))]:
            g, x = attempt(op)
            h, y = attempt(con)
            require(g == h, "%s: the operator gives %r, the constructor %r", t["t"], x, y)
            if not g:
                require(not self.buildable(t), "%s of %r and %r is refused: %s", t["t"], a, b, x)
                labels.add(t["t"] + " refused")
                continue
            require(x == y and repr(x) == repr(y), "%s: the operator gives %r, the constructor %r", t["t"], x, y)
            if t["t"] not in ("HDiv", "HCurl") or len(U.meta(ta).shape) == 0:
                self.compare(x, t)
            labels.add(t["t"])
        if a != b:
            require(a * b != b * a, "products of %r and %r in either order are equal", a, b)
        return labels

    def split_(self, config, p):
        t = U.FE(p["family"], config["cell"], p["degree"], p["variant"])
        e = U.build(t)
        x = deep_expand(t)
        g = U.build(x, 2)
        require(x["t"] != "FE" and type(e) is type(g), "%r is not split into factors", e)
        require(e == g and repr(e) == repr(g), "%r, expected %r", e, g)
        a, b = U.observe(e), U.observe(g)
        for x in (a, b):    # the pretty-printed forms name the simplex families differently
            del x["str"], x["short"]
        require(a == b, "%s, expected %s", a, b)
        self.walk(e, t)
        return {p["family"]}

    def bad_(self, config, p):
        how = config["how"]
        ok, ab = attempt(lambda: (U.build(p["a"]), U.build(p["b"])))
        if not ok:
            raise Discard
        a, b = ab
        if how == "cells":
            if a.cell == b.cell:
                raise Discard
            rejects(FU.EnrichedElement, a, b, what="sum on different cells")
            rejects(FU.NodalEnrichedElement, a, a, b, what="sum on different cells")
            rejects(lambda: a + b, what="sum on different cells")
            misfit([a] * (2 + abs(p["n"]) % 4), b, "sum on different cells")
        elif how == "shapes":
            v = FU.VectorElement(a, dim=abs(p["n"]) + 1)
            rejects(FU.EnrichedElement, a, v, what="sum of %s and %s valued parts" % (a.reference_value_shape, v.reference_value_shape))
            rejects(FU.NodalEnrichedElement, v, v, a, what="sum of parts of different shapes")
            misfit([a] * (2 + abs(p["n"]) % 4), v, "sum of parts of different shapes")
        elif how == "schemes":
            c = FU.FiniteElement("DG", "triangle", 1, quad_scheme="KMV")
            d = FU.FiniteElement("DG", "triangle", 2, quad_scheme="canonical")
            n = FU.FiniteElement("DG", "triangle", 0)
            rejects(FU.EnrichedElement, c, d, what="different schemes")
            rejects(FU.EnrichedElement, n, c, d, what="different schemes")
            # unless stated, the scheme is that of the others
            parts = [[c, n][(abs(p["n"]) >> k) & 1] for k in range(4)]
            if c in parts:
                misfit(parts, d, "different schemes")
                require(FU.EnrichedElement(*parts).quadrature_scheme() == "KMV", "scheme of the sum of %s", parts)
            require(FU.EnrichedElement(n, c).quadrature_scheme() == "KMV" == FU.EnrichedElement(c, n).quadrature_scheme(), "scheme of a sum")
        elif how == "domain":
            if p["word"] in U.DOMAINS:
                raise Discard
            rejects(FU.RestrictedElement, a, p["word"], what="restriction to %r" % p["word"])
            rejects(FU.RestrictedElement, "a", "facet", what="restriction of a string")
        elif how == "vectors":
            if not a.reference_value_shape or not b.reference_value_shape:
                a, b = FU.VectorElement(a, dim=2), FU.VectorElement(b, dim=1)
            rejects(FU.TensorProductElement, a, b, what="product of two vector-valued parts")
        elif how == "empty":
            rejects(FU.TensorProductElement, what="empty product")
            rejects(FU.EnrichedElement, what="empty sum")
            rejects(FU.TensorProductElement, a, a, sell=a.cell, what="unknown keyword")
        elif how == "types":
            rejects(lambda: a + p["n"], what="sum with a number")
            rejects(lambda: a * p["word"], what="product with a string")
            rejects(iter, a, what="iteration")
        elif how == "getitem":
            if p["word"] in U.DOMAINS:
                raise Discard
            rejects(lambda: a[p["word"]], what="restriction to %r" % p["word"])
            rejects(lambda: a[p["n"]], what="index %d" % p["n"])
        elif how == "symmetries":
            rejects(FU.WithMapping, a, "symmetries", what="mapping override 'symmetries'")
            require(U.rejected(lambda: FU.WithMapping(a, p["word"] or "x").pullback), "unknown mapping %r has a pullback", p["word"])
            n = a.cell.topological_dimension()
            if isinstance(a.cell, ufl.Cell) and n in (1, 2, 3):
                for gdim in {n, 3}:
                    dom = ufl.Mesh(FU.VectorElement("CG", a.cell, 1, dim=gdim))
                    for mapping, rank in (("covariant Piola", 1), ("contravariant Piola", 1), ("double covariant Piola", 2), ("double contravariant Piola", 2)):
                        w = FU.WithMapping(a, mapping)
                        require(tuple(w.value_shape(dom)) == (gdim,) * rank == tuple(w.pullback.physical_value_shape(w, dom)),
                                "%r in %d dimensions: value shape %s", w, gdim, w.value_shape(dom))
        elif how == "form":
            n = min(abs(p["n"]), 3)
            rejects(FU.FiniteElement, "P", "triangle", 1, form_degree=3 + n, what="form degree above the dimension")
            rejects(FU.FiniteElement, "RTCF", U.mkcell(["triangle", "interval"]), 1 + n, what="RTCF on a prism")
            rejects(FU.FiniteElement, "RTCE", U.mkcell(["interval", "quadrilateral"]), 1 + n, what="RTCE on a hexahedron")
            rejects(FU.FiniteElement, "NCF", U.mkcell(["triangle", "interval"]), 1 + n, what="NCF on a prism")
            rejects(FU.FiniteElement, "NCE", U.mkcell(["interval", "quadrilateral"]), 1 + n, what="NCE on interval x quadrilateral")
            rejects(FU.FiniteElement, "CG", "triangle", 1, variant=n, what="variant that is no string")
        elif how == "degree":
            rejects(FU.FiniteElement, "CG", U.mkcell(["interval", "interval"]), min(0, p["n"]), what="degree %d" % min(0, p["n"]))
            rejects(FU.FiniteElement, "DG", U.mkcell(["triangle", "interval"]), -1 - abs(p["n"]), what="negative degree")
            rejects(FU.FiniteElement, "RTCF", U.mkcell(["interval", "interval"]), min(0, p["n"]), what="degree %d" % min(0, p["n"]))
        return {how}


CHECK = C23()
