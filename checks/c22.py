"""C22 rebuilding a description changes only what was asked."""
import copy
import warnings

from hypothesis import strategies as st

import finat.ufl as FU

from vlib import uflx as U
from vlib.core import Check, Discard, require, rejects

ATTRS = ["family", "cell", "degree", "variant", "quad_scheme", "mapping"]
REFUSED = (ValueError, TypeError, KeyError, AssertionError, IndexError, AttributeError)


class Refuse(Exception):
    pass


def change(t, kw):
    """The description that has the changed attributes (independent model)."""
    t = U.expand(t)
    k = t["t"]
    if k == "FE":
        if "mapping" in kw:
            raise Refuse
        fam, deg = U.resolve(t["family"], t["cell"], t["degree"], t.get("k"))
        t = dict(t, family=fam, degree=deg, k=None)
        for a, b in (("family", "family"), ("cell", "cell"), ("degree", "degree"), ("variant", "variant"), ("quad_scheme", "quad")):
            if kw.get(a) is not None:
                t[b] = kw[a]
        return t
    kw = dict(kw)
    if k == "TP":
        t = dict(t, cell=kw.pop("cell", None) or U.cell_of(t))
    if k == "Map":
        t = dict(t, mapping=kw.pop("mapping", None) or t["mapping"])
    if k == "Vec" and t["dim"] is None:
        t = dict(t, dim=U.tdim(U.cell_of(t)))
    if k == "Ten":
        t = dict(t, shape=list(U.shape_of(t)))
    return U.with_children(t, [change(c, kw) for c in U.children(t)])


def attempt(f):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return True, f()
    except REFUSED as e:
        return False, e


@st.composite
def changes(draw, cell, n=3):
    kw = {}
    for a in draw(st.lists(st.sampled_from(ATTRS), unique=True, max_size=n)):
        if a == "family":
            f = draw(st.sampled_from(sorted(U.TABLE)))
            kw[a] = draw(st.sampled_from([f, "CG", "DG", "CG", "DG", "Q", "DQ"] + U.TABLE[f][0]))
        elif a == "cell":
            kw[a] = draw(st.sampled_from([cell] + U.ANY + U.PRODUCTS))
        elif a == "degree":
            kw[a] = draw(st.integers(0, 6))
        elif a == "variant":
            kw[a] = draw(st.sampled_from(["spectral", "equispaced", "integral", "mse", "fdm"]))
        elif a == "quad_scheme":
            kw[a] = draw(st.sampled_from(["KMV", "canonical", "default"]))
        else:
            kw[a] = draw(st.sampled_from(["identity", "custom", "physical", "L2 Piola", "covariant Piola", "contravariant Piola"]))
    return kw


@st.composite
def mapped(draw, cell, depth):
    """Trees whose every leaf is below a mapping override."""
    k = draw(st.sampled_from(["Map", "Mix", "Vec", "Brk", "Map"] if depth else ["Map"]))
    if k == "Map":
        return {"t": "Map", "of": draw(U.scalar_on(cell, 1)), "mapping": draw(st.sampled_from(["identity", "custom", "L2 Piola"]))}
    if k == "Mix":
        return {"t": "Mix", "parts": [draw(mapped(cell, depth - 1)) for _ in range(draw(st.integers(1, 3)))]}
    of = draw(mapped(cell, depth - 1))
    return {"t": k, "of": of, "dim": draw(st.integers(1, 3))} if k == "Vec" else {"t": k, "of": of}


CELLS = U.NAMED + U.PRODUCTS


class C22(Check):
    id = "C22"
    quick = 450
    thorough = 3000
    rule = ("Generated description trees (all node types, every family as leaf, named and product cells) and generated sequences of rebuilds, "
            "each with a generated set of changed attributes (family, cell, degree, variant, scheme, mapping). Oracle: an independent rewrite "
            "of the tree, built directly: equality, representation and every observable; both refuse or neither does; the original is "
            "observed before and after. 'parts': rebuilding mixed descriptions from generated replacement parts. "
            "Non-trivial: at least one rebuild that changes the description, or a refusal.")
    assumptions = ["a product keeps its factors' cells when its own cell is replaced", "an attribute given as None means unchanged"]

    def configs(self, tier):
        out = []
        for c in CELLS:
            out.append({"kind": "tree", "cell": c})
            out.append({"kind": "mapped", "cell": c, "w": 0.3})
            out.append({"kind": "parts", "cell": c, "w": 0.5})
        return out

    def params(self, config):
        cell = config["cell"]
        if config["kind"] == "parts":
            return st.fixed_dictionaries({"parts": st.lists(U.tree(cell, 1), min_size=1, max_size=4), "kind": st.sampled_from(["Mix", "Vec", "Ten", "Mix"]),
                                          "edits": st.lists(st.tuples(st.sampled_from(["same", "replace", "drop", "dup", "swap", "equal"]),
                                                                      st.integers(0, 3), U.tree(cell, 1)).map(list), min_size=1, max_size=3)})
        tr = U.tree(cell, 3) if config["kind"] == "tree" else mapped(cell, 2)
        simple = st.dictionaries(st.sampled_from(["degree"]), st.integers(1, 5), max_size=1)
        return st.fixed_dictionaries({"tree": tr, "style": st.integers(0, 2), "steps": st.lists(
            st.one_of(changes(cell, 1), changes(cell, 1), simple, changes(cell)), min_size=1, max_size=3)})

    def run(self, config, p):
        if config["kind"] == "parts":
            return self.parts(p)
        t = p["tree"]
        if U.size(t) > 25:
            raise Discard
        ok, e = attempt(lambda: U.build(t, p["style"]))
        if not ok:
            raise Discard
        labels = set()
        require(e.reconstruct() == e and repr(e.reconstruct()) == repr(e), "rebuilding without changes: %r, expected %r", e.reconstruct(), e)
        for kw in p["steps"]:
            before = U.observe(e)
            real = {a: (U.mkcell(v) if a == "cell" else v) for a, v in kw.items()}
            given = dict(real)
            got, new = attempt(lambda: e.reconstruct(**real))
            require(real == given, "%r: the given attributes were altered", e)
            after = U.observe(e)
            require(before == after, "rebuilding altered the original: %s, before %s", after, before)
            try:
                want_t = change(t, kw)
                possible, want = attempt(lambda: U.build(want_t))
            except Refuse:
                possible, want = False, None
            if not possible:
                require(not got, "%r rebuilt with %s gives %r, which cannot be built directly (%s)", e, kw, new, want)
                labels.add("refused")
                continue
            require(got, "%r rebuilt with %s is refused (%s: %s), expected %r", e, kw, type(new).__name__, new, want)
            require(new == want and want == new and repr(new) == repr(want), "%r rebuilt with %s is %r, expected %r", e, kw, new, want)
            a, b = U.observe(new), U.observe(want)
            require(a == b, "%r rebuilt with %s differs from direct construction: %s", e, kw, {q: (a[q], b[q]) for q in a if a[q] != b[q]})
            require(new.reconstruct() == new, "rebuilding %r again without changes gives %r", new, new.reconstruct())
            if new != e:
                labels |= {"changes:" + q for q in kw}
            e, t = new, want_t
        return labels or False

    def parts(self, p):
        sub = p["parts"]
        if sum(U.size(s) for s in sub) > 40:
            raise Discard
        k = p["kind"]
        if k == "Mix":
            t = {"t": "Mix", "parts": sub}
        elif k == "Vec":
            t = {"t": "Vec", "of": sub[0], "dim": len(sub)}
        else:
            t = {"t": "Ten", "of": sub[0], "shape": [2, 2], "sym": "T" if len(sub) % 2 else None}
        ok, e = attempt(lambda: U.build(t))
        if not ok:
            raise Discard
        before = U.observe(e)
        ch = list(sub) if k == "Mix" else [sub[0]] * e.num_sub_elements
        orig = list(ch)
        for op, i, other in p["edits"]:
            i = min(i, len(ch) - 1)
            if op == "replace":
                ch[i] = other
            elif op == "equal":
                ch[i] = copy.deepcopy(ch[i])
            elif op == "drop" and len(ch) > 1:
                del ch[i]
            elif op == "dup":
                ch.insert(i, ch[i])
            elif op == "swap":
                ch[i], ch[-1] = ch[-1], ch[i]
        ok, els = attempt(lambda: [U.build(c) for c in ch])
        if not ok:
            raise Discard
        same = [U.identity(c) for c in ch] == [U.identity(c) for c in orig]
        got, new = attempt(lambda: e.reconstruct_from_elements(*els))
        require(U.observe(e) == before, "rebuilding from parts altered the original %r", e)
        if same:
            require(got and new == e, "%r rebuilt from its own parts is %r", e, new)
            return {"same parts"}
        possible, want = attempt(lambda: FU.MixedElement(*els))
        require(possible == got, "%r rebuilt from %r: %r, expected %r", e, els, new, want)
        if possible:
            require(new == want and list(new.sub_elements) == els, "%r rebuilt from other parts is %r, expected %r", e, new, want)
            return {"other parts"}
        return {"refused"}


CHECK = C22()
