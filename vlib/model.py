"""Reference model: what an element specification means, in plain numpy.

Leaves are FIAT elements built directly; every FInAT combinator is given its
textbook definition here, independently of FInAT."""
from itertools import product

import numpy as np
from FIAT.polynomial_set import mis

from vlib import catalogue as C
from vlib import geom as G
from vlib.core import HarnessError


def cname(spec):
    return C.cellname(spec)


def cell_of(spec):
    return C.cell(cname(spec))


def dim_of(spec):
    return G.point_dim(cname(spec))


# --- geometry ---------------------------------------------------------------

def entity_vertices(cn, ent):
    c = C.cell(cn)
    top = c.get_topology()
    V = np.array(c.get_vertices(), dtype=float)
    return V[list(top[ent[0]][ent[1]])]


def split_entity(cn, ent):
    """Factor entities of an entity of a tensor product cell name."""
    cells = [C.cell(n) for n in cn.split("x")]
    d, i = ent
    shape = tuple(len(c.get_topology()[k]) for c, k in zip(cells, d))
    ids = np.unravel_index(i, shape)
    return [(k, int(j)) for k, j in zip(d, ids)]


def embed(cn, ent, pts):
    """Reference-entity coordinates -> cell coordinates."""
    pts = np.asarray(pts, dtype=float)
    if ent is None:
        return pts
    if "x" in cn:
        out, off = [], 0
        for c, e in zip(cn.split("x"), split_entity(cn, ent)):
            k = G.point_dim(G.entity_cellname(c, e[0]))
            out.append(embed(c, e, pts[:, off:off + k]))
            off += k
        return np.concatenate(out, axis=1)
    V = entity_vertices(cn, ent)
    if cn in "QH":
        lo, hi = V.min(axis=0), V.max(axis=0)
        axes = [a for a in range(V.shape[1]) if hi[a] > lo[a]]
        out = np.repeat(lo[None], len(pts), axis=0)
        for k, a in enumerate(axes):
            out[:, a] = lo[a] + pts[:, k] * (hi[a] - lo[a])
        return out
    if V.shape[0] == 1:
        return np.repeat(V, len(pts), axis=0)
    return V[0] + pts @ (V[1:] - V[0])


# --- structure --------------------------------------------------------------

def index_shape(spec):
    e = spec["el"]
    if e == "TPE":
        return sum((index_shape(f) for f in spec["factors"]), ())
    if e in ("Flat", "HDiv", "HCurl", "Disc"):
        return index_shape(spec["of"])
    if e == "Vec":
        s = tuple(spec["shape"])
        return s + index_shape(spec["of"]) if spec.get("transpose") else index_shape(spec["of"]) + s
    if e == "Enriched" and len(spec["of"]) == 1:
        return index_shape(spec["of"][0])
    if e == "Mixed" and len(spec["of"]) == 1:
        return index_shape(spec["of"][0])
    if e in ("Enriched", "Mixed"):
        return (sum(space_dim(f) for f in spec["of"]),)
    if C.is_zany(spec):
        return tuple(C.build(spec).index_shape)
    return (C.build_fiat(spec).space_dimension(),)


def space_dim(spec):
    return int(np.prod(index_shape(spec), dtype=int))


def value_shape(spec):
    e = spec["el"]
    if e == "TPE":
        s = [value_shape(f) for f in spec["factors"]]
        s = [x for x in s if x]
        if len(s) > 1:
            raise HarnessError("two nonscalar factors")
        return s[0] if s else ()
    if e in ("Flat", "Disc"):
        return value_shape(spec["of"])
    if e in ("HDiv", "HCurl"):
        return (dim_of(spec),)
    if e == "Vec":
        return tuple(spec["shape"]) + value_shape(spec["of"])
    if e == "Enriched":
        return value_shape(spec["of"][0])
    if e == "Mixed":
        return (int(sum(np.prod(value_shape(f), dtype=int) for f in spec["of"])),)
    if C.is_zany(spec):
        return tuple(C.build(spec).value_shape)
    return tuple(C.build_fiat(spec).value_shape())


def formdegree(spec):
    e = spec["el"]
    if e == "TPE":
        k = [formdegree(f) for f in spec["factors"]]
        return None if None in k else sum(k)
    if e == "Flat" or e == "Vec":
        return formdegree(spec["of"])
    if e == "Disc":
        return dim_of(spec)
    if e == "HDiv":
        return dim_of(spec) - 1
    if e == "HCurl":
        return 1
    if e in ("Enriched", "Mixed"):
        k = {formdegree(f) for f in spec["of"]}
        return None if None in k else max(k)
    if C.is_zany(spec):
        return C.build(spec).formdegree
    return C.build_fiat(spec).get_formdegree()


def mapping(spec):
    e = spec["el"]
    if e == "TPE":
        m = [mapping(f) for f in spec["factors"]]
        m = [x for x in m if x != "affine"]
        return "affine" if not m else (m[0] if len(m) == 1 else None)
    if e in ("Flat", "Vec", "Disc"):
        return mapping(spec["of"])
    if e == "HDiv":
        return "contravariant piola"
    if e == "HCurl":
        return "covariant piola"
    if e in ("Enriched", "Mixed"):
        m = {mapping(f) for f in spec["of"]}
        return m.pop() if len(m) == 1 else None
    if C.is_zany(spec):
        return C.build(spec).mapping
    m = set(C.build_fiat(spec).mapping())
    return m.pop() if len(m) == 1 else None


def degree(spec):
    e = spec["el"]
    if e == "TPE":
        return tuple(degree(f) for f in spec["factors"])
    if e == "Flat":
        d, = set(degree(spec["of"]))
        return d
    if e in ("HDiv", "HCurl", "Disc", "Vec"):
        return degree(spec["of"])
    if e in ("Enriched", "Mixed"):
        return _tmax([degree(f) for f in spec["of"]])
    if C.is_zany(spec):
        return C.build(spec).degree
    return C.build_fiat(spec).degree()


def _tmax(ds):
    if isinstance(ds[0], tuple):
        return tuple(_tmax(list(x)) for x in zip(*ds))
    return max(ds)


# --- tabulation --------------------------------------------------------------

def multiindices(dim, order):
    return [a for k in range(order + 1) for a in mis(dim, k)]


# tables of the physically mapped leaves inside a composite: a function of
# (spec, order), set while a composite is compared with its own parts
LEAF = None


def tabulate(spec, order, pts):
    """{alpha: (npts, *index_shape, *value_shape)} at cell points."""
    e = spec["el"]
    d = dim_of(spec)
    n = len(pts)
    ish, vsh = index_shape(spec), value_shape(spec)
    if e == "TPE":
        facs = spec["factors"]
        off, res, dims = 0, [], []
        for f in facs:
            k = dim_of(f)
            res.append(tabulate(f, order, pts[:, off:off + k]))
            dims.append(slice(off, off + k))
            off += k
        out = {}
        for a in multiindices(d, order):
            acc = np.ones((n,))
            vpos = None
            nidx = 0
            val = np.ones((n, 1))
            vs = np.ones((n, 1))
            # basis part (flattened) and value part kept separately
            t = np.ones((n, 1, 1))
            for f, r, s in zip(facs, res, dims):
                b = r[a[s]]
                nb = int(np.prod(index_shape(f), dtype=int))
                nv = int(np.prod(value_shape(f), dtype=int))
                b = b.reshape(n, nb, nv)
                t = np.einsum("pbv,pcw->pbcvw", t, b).reshape(n, t.shape[1] * nb, t.shape[2] * nv)
            out[a] = t.reshape((n,) + ish + vsh)
        return out
    if e in ("Flat", "Disc"):
        return tabulate(spec["of"], order, pts)
    if e == "Vec":
        r = tabulate(spec["of"], order, pts)
        s = tuple(spec["shape"])
        m = int(np.prod(s, dtype=int))
        bi, bv = index_shape(spec["of"]), value_shape(spec["of"])
        out = {}
        for a, t in r.items():
            t = t.reshape(n, int(np.prod(bi, dtype=int)), int(np.prod(bv, dtype=int)))
            big = np.zeros((n,) + ((m, t.shape[1]) if spec.get("transpose") else (t.shape[1], m)) + (m, t.shape[2]))
            for c in range(m):
                if spec.get("transpose"):
                    big[:, c, :, c, :] = t
                else:
                    big[:, :, c, c, :] = t
            out[a] = big.reshape((n,) + ish + vsh)
        return out
    if e == "Enriched":
        rs = [tabulate(f, order, pts) for f in spec["of"]]
        return {a: np.concatenate([r[a].reshape((n, -1) + vsh) for r in rs], axis=1).reshape((n,) + ish + vsh)
                for a in rs[0]}
    if e == "Mixed":
        rs = [tabulate(f, order, pts) for f in spec["of"]]
        out = {}
        for a in rs[0]:
            blocks, off = [], 0
            for f, r in zip(spec["of"], rs):
                sz = int(np.prod(value_shape(f), dtype=int))
                b = np.zeros((n, space_dim(f)) + vsh)
                b[:, :, off:off + sz] = r[a].reshape(n, space_dim(f), sz)
                blocks.append(b)
                off += sz
            out[a] = np.concatenate(blocks, axis=1).reshape((n,) + ish + vsh)
        return out
    if e in ("HDiv", "HCurl"):
        base = spec["of"]
        r = tabulate(base, order, pts)
        M = wrapper_matrix(spec)
        out = {}
        for a, t in r.items():
            t = t.reshape((n,) + ish + (M.shape[1],))
            out[a] = t @ M.T
        return out
    if LEAF is not None and C.is_zany(spec):
        return LEAF(spec, order)
    fe = C.build_fiat(spec)
    r = fe.tabulate(order, pts)
    ish = (fe.space_dimension(),)   # of the reference basis, also where the mapped one drops functions
    return {a: np.moveaxis(np.asarray(t), -1, 0).reshape((n,) + ish + vsh) for a, t in r.items()}


def wrapper_matrix(spec):
    """Constant matrix taking wrapped values to vector values.

    H(div): a normal component pointing left on y-aligned edges, up on
    x-aligned edges; H(curl): tangents pointing right/up; base vectors are
    padded, or rotated by 90 degrees when the base uses the other Piola map."""
    base = spec["of"]
    d = dim_of(spec)
    ks = tuple(formdegree(f) for f in base["factors"])
    m = mapping(base)
    if spec["el"] == "HDiv":
        if ks == (0, 1):
            return np.array([[-1.], [0.]])
        if ks == (1, 0):
            return np.array([[0.], [1.]])
        if ks == (2, 0):
            return np.array([[0.], [0.], [1.]])
        if ks == (1, 1) and m == "contravariant piola":
            return np.array([[1., 0.], [0., 1.], [0., 0.]])
        if ks == (1, 1) and m == "covariant piola":
            return np.array([[0., 1.], [-1., 0.], [0., 0.]])
    else:
        if m == "affine" and ks == (1, 0):
            return np.array([[1.], [0.]])
        if m == "affine" and ks == (0, 1):
            return np.array([[0.]] * (d - 1) + [[1.]])
        if m == "covariant piola":
            return np.array([[1., 0.], [0., 1.], [0., 0.]])
        if m == "contravariant piola":
            return np.array([[0., -1.], [1., 0.], [0., 0.]])
    raise HarnessError("wrapper %r %r" % (ks, m))


# --- dofs --------------------------------------------------------------------

def flat_entities(tname, fname):
    """Map (flat dim, id) -> tensor entity, by comparing vertex coordinates.

    tname: tensor cell name of intervals (possibly via Q), fname: Q or H."""
    F = C.cell(fname)
    T = C.cell(tname)
    key = lambda V: frozenset(tuple(np.round(v, 12)) for v in V)
    table = {}
    tV = np.array(T.get_vertices(), dtype=float)
    for d, ents in T.get_topology().items():
        for i, vs in ents.items():
            table[key(tV[list(vs)])] = (d, i)
    fV = np.array(F.get_vertices(), dtype=float)
    out = {}
    for d, ents in F.get_topology().items():
        for i, vs in ents.items():
            out[(d, i)] = table[key(fV[list(vs)])]
    return out


def entity_dofs(spec):
    e = spec["el"]
    if e == "TPE":
        facs = spec["factors"]
        eds = [entity_dofs(f) for f in facs]
        shape = tuple(space_dim(f) for f in facs)
        cn = cname(spec)
        T = C.cell(cn)
        out = {}
        for d, ents in T.get_topology().items():
            out[d] = {}
            for i in ents:
                fe = split_entity(cn, (d, i))
                combos = product(*[ed[k][j] for ed, (k, j) in zip(eds, fe)])
                out[d][i] = [int(np.ravel_multi_index(c, shape)) for c in combos]
        return out
    if e == "Flat":
        inner = entity_dofs(spec["of"])
        tn = cname(spec["of"])
        m = flat_entities(tn, cname(spec))
        out = {}
        for (d, i), (td, ti) in sorted(m.items()):
            out.setdefault(d, {})[i] = list(inner[td][ti])
        return out
    if e in ("HDiv", "HCurl"):
        return entity_dofs(spec["of"])
    if e == "Disc":
        c = cell_of(spec)
        out = {d: {i: [] for i in ents} for d, ents in c.get_topology().items()}
        out[c.get_dimension()][0] = list(range(space_dim(spec)))
        return out
    if e == "Vec":
        inner = entity_dofs(spec["of"])
        m = int(np.prod(spec["shape"], dtype=int))
        nb = space_dim(spec["of"])
        if spec.get("transpose"):
            f = lambda dofs: [v + k * nb for k in range(m) for v in dofs]
        else:
            f = lambda dofs: [v * m + k for v in dofs for k in range(m)]
        return {d: {i: f(x) for i, x in ents.items()} for d, ents in inner.items()}
    if e in ("Enriched", "Mixed"):
        out, off = None, 0
        for f in spec["of"]:
            ed = entity_dofs(f)
            if out is None:
                out = {d: {i: [] for i in ents} for d, ents in ed.items()}
            for d, ents in ed.items():
                for i, x in ents.items():
                    out[d][i] += [v + off for v in x]
            off += space_dim(f)
        return out
    if C.is_zany(spec):
        return C.build(spec).entity_dofs()
    return C.build_fiat(spec).entity_dofs()


def refines(a, b):
    """Whether complex a is b or a split of it, factor by factor for products."""
    a, b = getattr(a, "product", a), getattr(b, "product", b)
    if hasattr(a, "cells"):
        return all(refines(x, y) for x, y in zip(a.cells, b.cells))
    while a is not None:
        if a == b:
            return True
        a = a.get_parent_complex()
    return False


def same_complex(a, b):
    return refines(a, b) and refines(b, a)


def cell_complex(spec):
    """The complex over which the basis is (piecewise) polynomial, or None
    when the components' complexes have no common refinement among them."""
    from FIAT.reference_element import TensorProductCell
    e = spec["el"]
    if e == "TPE":
        cs = [cell_complex(f) for f in spec["factors"]]
        return None if any(c is None for c in cs) else TensorProductCell(*cs)
    if e in ("Flat", "HDiv", "HCurl", "Disc", "Vec"):
        return cell_complex(spec["of"])
    if e in ("Enriched", "Mixed"):
        cs = [cell_complex(f) for f in spec["of"]]
        if any(c is None for c in cs):
            return None
        for c in cs:
            if all(refines(c, d) for d in cs):
                return c
        return None
    if C.is_zany(spec):
        return C.build(spec).complex
    return C.build_fiat(spec).get_reference_complex()


def fiat_of(spec):
    """The FIAT element for a composite, built through FIAT alone (None where
    FIAT cannot build it)."""
    try:
        return _fiat_of(spec)
    except (NotImplementedError, AttributeError, TypeError):
        return None


def _fiat_of(spec):
    import FIAT
    from FIAT.tensor_product import FlattenedDimensions as FD
    from FIAT.hdivcurl import Hdiv, Hcurl
    e = spec["el"]
    if e == "TPE":
        if len(spec["factors"]) != 2:
            raise NotImplementedError
        return FIAT.TensorProductElement(*map(_fiat_of, spec["factors"]))
    if e == "Flat":
        return FD(_fiat_of(spec["of"]))
    if e == "Enriched":
        return FIAT.EnrichedElement(*map(_fiat_of, spec["of"]))
    if e == "Mixed":
        return FIAT.MixedElement(list(map(_fiat_of, spec["of"])), ref_el=cell_of(spec))
    if e == "HDiv":
        return Hdiv(_fiat_of(spec["of"]))
    if e == "HCurl":
        return Hcurl(_fiat_of(spec["of"]))
    if e == "Disc":
        return FIAT.DiscontinuousElement(_fiat_of(spec["of"]))
    if e == "Vec":
        raise NotImplementedError
    return C.build_fiat(spec)
