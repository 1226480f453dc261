"""C08 entity permutations."""
from itertools import permutations, product

import numpy as np
from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import geom as G
from vlib import model as M
from vlib import specs as S
from vlib.catalogue import L
from vlib.core import Check, Discard, require, rejects


class NoTable(Exception):
    pass


def axis_perms(cells, dims):
    """Extrinsic orientations: the ways to permute interchangeable axes."""
    n = len(cells)
    if len(set(cells)) == n:
        return [tuple(range(n))]
    if set(cells) == {"I"}:
        return [p for p in sorted(permutations(range(n))) if all(p[i] == i for i in range(n) if dims[i] == 0)]
    raise NoTable


def tables(spec):
    """{dim: {entity: {orientation: permutation}}} by definition."""
    e = spec["el"]
    if e == "TPE":
        facs = spec["factors"]
        tabs = [tables(f) for f in facs]
        cells = [M.cname(f) for f in facs]
        out = {}
        tops = [C.cell(c).get_topology() for c in cells]
        for dims in product(*[list(t) for t in tops]):
            aps = axis_perms(cells, dims)
            out[dims] = {}
            for num, ids in enumerate(product(*[sorted(t[d]) for t, d in zip(tops, dims)])):
                maps = [t[d][i] for t, d, i in zip(tabs, dims, ids)]
                sizes = [len(next(iter(m.values()))) for m in maps]
                o_p = {}
                for eo, ap in enumerate(aps):
                    for os in product(*[sorted(m) for m in maps]):
                        shape = [0] * len(facs)
                        for j, s in enumerate(sizes):
                            shape[ap[j]] = s
                        perm = []
                        for x in product(*[range(s) for s in sizes]):
                            y = [0] * len(facs)
                            for j, xj in enumerate(x):
                                y[ap[j]] = maps[j][os[j]][xj]
                            perm.append(int(np.ravel_multi_index(y, shape)))
                        o_p[(eo,) + os] = perm
                out[dims][num] = o_p
        return out
    if e == "Flat":
        inner = tables(spec["of"])
        out = {}
        for (d, i), (td, ti) in sorted(M.flat_entities(M.cname(spec["of"]), M.cname(spec)).items()):
            t = inner[td][ti]
            out.setdefault(d, {})[i] = {k: t[o] for k, o in enumerate(sorted(t))}
        return out
    if e in ("HDiv", "HCurl"):
        return tables(spec["of"])
    if e == "Disc":
        ed = M.entity_dofs(spec["of"])
        top = max(ed, key=lambda d: sum(d) if isinstance(d, tuple) else d)
        if any(x for d in ed for x in ed[d].values() if d != top):
            raise NoTable
        return tables(spec["of"])
    if e == "Enriched":
        parts = [tables(f) for f in spec["of"]]
        out = {}
        for d in parts[0]:
            out[d] = {}
            for i in parts[0][d]:
                out[d][i] = {}
                for o in parts[0][d][i]:
                    perm = []
                    for t in parts:
                        off = len(perm)
                        perm += [off + q for q in t[d][i][o]]
                    out[d][i][o] = perm
        return out
    if e in ("Vec", "Mixed"):
        raise NoTable
    try:
        t = C.build_fiat(spec).entity_permutations()
    except NotImplementedError:
        raise NoTable
    except AttributeError:
        # FIAT elements on Q/H without a dual set
        raise Discard
    return t


def norm(t):
    return {d: {i: {o: [int(v) for v in p] for o, p in m.items()} for i, m in ents.items()} for d, ents in t.items()}


def nodes(spec):
    """Node coordinates of a nodal (point evaluation) element, or None."""
    e = spec["el"]
    if e == "TPE":
        ns = [nodes(f) for f in spec["factors"]]
        if any(n is None for n in ns):
            return None
        return np.array([np.concatenate(t) for t in product(*ns)])
    if e == "Flat" or (e == "Disc"):
        return nodes(spec["of"])
    if e not in ("Lagrange", "DiscontinuousLagrange", "GaussLobattoLegendre", "GaussLegendre") or "kw" in spec:
        return None
    return np.array([list(n.pt_dict)[0] for n in C.build_fiat(spec).dual_basis()])


def simplex_move(dim, o, X):
    """Move points X of the reference simplex by orientation o, as defined by
    the vertices of the degree 1 element."""
    t = tables(L("DiscontinuousLagrange", {1: "I", 2: "T", 3: "K"}[dim], 1))[dim][0][o]
    V = np.vstack([np.zeros(dim), np.eye(dim)])
    bary = np.hstack([1 - X.sum(axis=1, keepdims=True), X])
    return bary @ V[list(t)]


def same_nodes(a, b):
    X, Y = (nodes(f)[M.entity_dofs(f)[1][0]] for f in (a, b))
    return X.shape == Y.shape and np.allclose(X, Y)


def check_geometry(spec, got):
    """Interior nodes move to the place where the orientation puts them."""
    while spec["el"] == "Disc":
        spec = spec["of"]
    cn = M.cname(spec)
    prod_cn = M.cname(spec["of"]) if spec["el"] == "Flat" else cn
    X = nodes(spec)
    if X is None or not set(prod_cn) <= set("ITKx"):
        return False
    cells = prod_cn.split("x")
    ed = M.entity_dofs(spec)
    top = max(ed, key=lambda d: sum(d) if isinstance(d, tuple) else d)
    t = got[top][0]
    dofs = ed[top][0]
    if not dofs:
        return False
    Y = X[dofs]
    dims = [C.DIM[c] for c in cells]
    cuts = np.cumsum([0] + dims)
    aps = axis_perms(cells, dims) if len(cells) > 1 else [(0,)]
    for k, o in enumerate(sorted(t)):
        ot = o
        if spec["el"] == "Flat":
            n = 2 ** len(cells)
            eo, io = divmod(k, n)
            ot = (eo,) + tuple((io >> (len(cells) - 1 - j)) & 1 for j in range(len(cells)))
        elif len(cells) == 1:
            ot = (0, o)
        parts = [None] * len(cells)
        ap = aps[ot[0]]
        facs = (spec["of"] if spec["el"] == "Flat" else spec).get("factors", [None])
        if any(ap[j] != j and not same_nodes(facs[j], facs[ap[j]]) for j in range(len(cells))):
            continue    # interchanging the axes leads to another element
        for j in range(len(cells)):
            parts[ap[j]] = simplex_move(dims[j], ot[1 + j], Y[:, cuts[j]:cuts[j + 1]])
        Z = np.hstack(parts)
        p = t[o]
        # node i sits, when seen in orientation o, where node p[i] is
        ok = np.allclose(Y[p], Z, atol=1e-9) if all(d == 1 for d in dims) else \
            np.allclose(np.sort(np.round(Y, 8), axis=0), np.sort(np.round(Z, 8), axis=0))
        if not ok and len(cells) > 1 and any(d > 1 for d in dims):
            raise AssertionError
        require(ok, "orientation %s of the interior: nodes move to %s, table says %s", o, Z.tolist(), Y[p].tolist())
    return True


class C08(Check):
    id = "C08"
    quick = 200
    thorough = 800
    rule = ("A case is a generated element (catalogue leaf, tensor product of up to three factors, flattened, H(div)/H(curl), enriched, "
            "discontinuous, vector, mixed). Every table for every entity and orientation is compared with the definition "
            "(permute axes, reflect each factor, concatenate blocks), must be a permutation and the identity at orientation 0; "
            "nodal products are additionally compared with how their node coordinates move. Non-trivial: some table is not the identity "
            "or the element must refuse.")
    assumptions = ["FIAT's tables for simplex leaves are the reference",
                   "extrinsic orientations are numbered by the sorted axis permutations, as FIAT does"]

    def configs(self, tier):
        out = [{"kind": "leaf", "spec": s} for s in C.simple_leaves(tier) + C.high_leaves(tier)]
        for cn in ("I", "Q", "H", "IxI", "IxIxI", "TxI", "QxI", "IxT"):
            out.append({"kind": "tpe", "cell": cn, "w": {"H": 0.4, "IxIxI": 0.4}.get(cn, 1), "cost": 3})
            out.append({"kind": "nodal", "cell": cn, "w": {"H": 0.4, "IxIxI": 0.4}.get(cn, 1), "cost": 3})
        for cn in S.FOUR:
            if cn not in ("QxQ", "HxI"):
                out.append({"kind": "nodal", "cell": cn, "w": 0.2, "cost": 4})
            out.append({"kind": "tpe", "cell": cn, "w": 0.3, "cost": 4})
        for cn in ("I", "T", "K", "Q", "IxI", "TxI", "QxI"):
            out.append({"kind": "enr", "cell": cn, "cost": 3})
        for cn in ("I", "T", "Q", "IxI", "TxI"):
            out.append({"kind": "disc", "cell": cn, "w": 0.5})
            out.append({"kind": "none", "cell": cn, "w": 0.3})
        out.append({"kind": "hdivcurl", "cell": "IxI"})
        out.append({"kind": "hdivcurl", "cell": "TxI"})
        out.append({"kind": "hdivcurl", "cell": "QxI"})
        out.append({"kind": "nested", "cell": "TxIxI", "w": 0.5})
        return out

    def examples(self, config, tier):
        return 1 if config["kind"] == "leaf" else super().examples(config, tier)

    def params(self, config):
        k = config["kind"]
        if k == "leaf":
            return st.just({})
        cn = config["cell"]
        dg = lambda c: st.integers(0, 3 if c == "I" else 2).map(lambda d: L("DiscontinuousLagrange", c, d))
        cg = lambda c: st.integers(1, 4 if c == "I" else 3).map(lambda d: L("Lagrange", c, d))
        gl = st.one_of(st.integers(0, 4).map(lambda d: L("GaussLegendre", "I", d)), st.integers(1, 4).map(lambda d: L("GaussLobattoLegendre", "I", d)))
        nod = lambda c: st.one_of(dg(c), cg(c), gl) if c == "I" else st.one_of(dg(c), cg(c))
        if k == "nodal":
            if cn in "QH":
                n = {"Q": 2, "H": 3}[cn]
                spec = st.integers(1, 3 if n == 2 else 2).flatmap(lambda d: S.tpe(*[st.sampled_from(
                    [L(e, "I", d) for e in ("Lagrange", "DiscontinuousLagrange", "GaussLegendre", "GaussLobattoLegendre")])] * n)).map(
                        lambda t: {"el": "Flat", "of": t})
            elif cn == "QxI":
                spec = S.tpe(S.flat_q(), nod("I"))
            elif "x" in cn:
                spec = S.tpe(*[nod(c) for c in cn.split("x")])
            else:
                spec = nod(cn)
        elif k == "tpe":
            spec = S.scalar(cn)
        elif k == "enr":
            spec = st.lists(st.one_of(S.scalar(cn), S.base(cn)) if cn != "Q" else st.one_of(S.flat_q(), S.quad_vec()), min_size=2, max_size=3).map(S.same_values)
        elif k == "disc":
            spec = S.base(cn).map(lambda s: {"el": "Disc", "of": s})
        elif k == "none":
            b = S.base(cn)
            spec = st.one_of(S.vec_of(b), S.mixed_of(b))
        elif k == "hdivcurl":
            spec = st.one_of(S.hdiv_tpe(cn), S.hcurl_tpe(cn))
        else:
            spec = S.tpe(nod("T"), nod("I"), nod("I"))
        return st.fixed_dictionaries({"spec": spec})

    def run(self, config, p):
        spec = p.get("spec") or config["spec"]
        e = C.build(spec)
        try:
            want = tables(spec)
        except NoTable:
            rejects(lambda: e.entity_permutations, exc=NotImplementedError, what="permutation table of an element without one")
            return {"refused", "el:" + spec["el"]}
        require(want is not None, "no table") if want is not None else None
        got = e.entity_permutations
        if want is None:
            require(got is None, "table %s, expected None", got)
            return False
        got = norm(got)
        want = norm(want)
        ed = M.entity_dofs(spec)
        moved = False
        require(set(got) == set(want), "dimensions %s, expected %s", sorted(got), sorted(want))
        for d in want:
            require(set(got[d]) == set(want[d]), "entities of dimension %s: %s, expected %s", d, sorted(got[d]), sorted(want[d]))
            for i in want[d]:
                g, w = got[d][i], want[d][i]
                require(set(g) == set(w), "orientations of %s: %s, expected %s", (d, i), sorted(g), sorted(w))
                n = len(ed[d][i])
                for o in w:
                    require(sorted(g[o]) == list(range(n)), "table of entity %s orientation %s is not a permutation of its %d dofs: %s", (d, i), o, n, g[o])
                    require(g[o] == w[o], "table of entity %s orientation %s is %s, expected %s", (d, i), o, g[o], w[o])
                    moved = moved or g[o] != list(range(n))
                first = sorted(g)[0]
                require(g[first] == list(range(n)), "orientation zero of %s is not the identity: %s", (d, i), g[first])
        lab = {"el:" + spec["el"], "cell:" + M.cname(spec)}
        if check_geometry(spec, got):
            lab.add("geometry")
        return lab if moved else False


CHECK = C08()
