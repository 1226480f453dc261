"""Geometry: generators of points / cells, and a PhysicalGeometry."""
import FIAT
import gem
import numpy as np
from hypothesis import strategies as st
from finat.physically_mapped import PhysicalGeometry
from finat.point_set import PointSet, PointSingleton, TensorPointSet

from vlib.catalogue import DIM, cell
from vlib.core import HarnessError

# offsets making points generic w.r.t. every macro-cell interface
_OFF = (0.137, 0.291, 0.433, 0.61)


def simplex_point(ws):
    w = np.array([w + o for w, o in zip(ws, _OFF)])
    return (w / w.sum())


def st_bary(dim):
    """Integer weights for a generic interior point of a dim-simplex."""
    if dim == 0:
        return st.just([1])
    return st.lists(st.integers(0, 24), min_size=dim + 1, max_size=dim + 1)


def st_unit():
    return st.integers(0, 40)


def st_cell_point(cname):
    """Weights for a point in (possibly tensor product) cell `cname`."""
    if "x" in cname:
        return st.tuples(*[st_cell_point(c) for c in cname.split("x")]).map(list)
    if cname == "Q":
        return st.tuples(st_bary(1), st_bary(1)).map(list)
    if cname == "H":
        return st.tuples(st_bary(1), st_bary(1), st_bary(1)).map(list)
    return st_bary(DIM[cname])


def cell_point(cname, w):
    """Reference coordinates of the point described by weights."""
    if "x" in cname:
        return np.concatenate([cell_point(c, x) for c, x in zip(cname.split("x"), w)])
    if cname == "Q":
        return np.concatenate([cell_point("I", x) for x in w])
    if cname == "H":
        return np.concatenate([cell_point("I", x) for x in w])
    d = DIM[cname]
    if d == 0:
        return np.zeros(0)
    # ufc simplex: coordinates are barycentric weights of vertices 1..d
    return simplex_point(w)[1:]


def entities(c):
    """All (dim, id) entities of a FIAT cell."""
    top = c.get_topology()
    return [(d, e) for d in sorted(top) for e in sorted(top[d])]


def entity_cellname(cname, dim):
    """Name of the reference cell of entities of dimension `dim`."""
    if "x" in cname:
        return "x".join(entity_cellname(c, d) for c, d in zip(cname.split("x"), dim))
    if cname in ("I", "T", "K", "P"):
        return "PITK"[dim]
    if cname == "Q":
        return "PIQ"[dim]
    if cname == "H":
        return "PIQH"[dim]
    raise HarnessError(cname)


def ent_json(ent):
    if ent is None:
        return None
    d, i = ent
    return [list(d) if isinstance(d, tuple) else d, int(i)]


def ent_parse(e):
    if e is None:
        return None
    d, i = e
    return (tuple(d) if isinstance(d, list) else d, i)


def point_dim(cname):
    return sum(DIM[c] for c in cname.split("x"))


# --- point sets --------------------------------------------------------------

def st_pointset(cname, allow=("set", "single", "tensor"), maxn=4):
    """Describe a point set on the reference cell `cname`."""
    opts = []
    if "set" in allow:
        opts.append(st.lists(st_cell_point(cname), min_size=1, max_size=maxn).map(lambda p: {"k": "set", "p": p}))
    if "single" in allow:
        opts.append(st_cell_point(cname).map(lambda p: {"k": "single", "p": p}))
    fac = factor_names(cname)
    if "tensor" in allow and len(fac) > 1:
        opts.append(st.tuples(*[st.lists(st_cell_point(c), min_size=1, max_size=3) for c in fac])
                    .map(lambda fs: {"k": "tensor", "p": [list(f) for f in fs]}))
        if cname == "QxI":
            # three interval factors on a two-factor cell / nested tensor sets
            opts.append(st.tuples(st.sampled_from(["tensor3", "nested"]),
                                  st.lists(st.lists(st_cell_point("I"), min_size=1, max_size=2), min_size=3, max_size=3))
                        .map(lambda t: {"k": t[0], "p": t[1]}))
    return st.one_of(*opts)


def factor_names(cname):
    if "x" in cname:
        return cname.split("x")
    return {"Q": ["I", "I"], "H": ["I", "I", "I"]}.get(cname, [cname])


def pointset(cname, d):
    """Build (FInAT point set, numpy array (n, dim))."""
    if d["k"] == "set":
        pts = np.array([cell_point(cname, w) for w in d["p"]]).reshape(len(d["p"]), point_dim(cname))
        return PointSet(pts), pts
    if d["k"] == "single":
        pt = cell_point(cname, d["p"])
        return PointSingleton(pt), pt.reshape(1, -1)
    if d["k"] in ("tensor", "tensor3", "nested"):
        fac = factor_names(cname) if d["k"] == "tensor" else ["I", "I", "I"]
        sets = [np.array([cell_point(c, w) for w in ws]).reshape(len(ws), point_dim(c)) for c, ws in zip(fac, d["p"])]
        pss = [PointSet(s) for s in sets]
        if d["k"] == "nested":
            pss = [TensorPointSet(pss[:2]), pss[2]]
        ps = TensorPointSet(pss)
        idx = np.indices([len(s) for s in sets]).reshape(len(sets), -1)
        pts = np.concatenate([s[i] for s, i in zip(sets, idx)], axis=1)
        return ps, pts
    raise HarnessError(d["k"])


# --- affine physical cells ---------------------------------------------------

def st_affine(dim, reflect=True, scale=(2, 30)):
    """Well conditioned random affine map: rotation*diag*rotation (+reflection)."""
    ang = st.integers(0, 71)
    s = st.integers(*scale)
    if dim == 1:
        return st.fixed_dictionaries({"s": st.lists(s, min_size=1, max_size=1), "a": st.just([]), "b": st.just([]),
                                      "r": st.booleans() if reflect else st.just(False),
                                      "o": st.lists(st.integers(-20, 20), min_size=1, max_size=1)})
    na = 1 if dim == 2 else 3
    return st.fixed_dictionaries({
        "s": st.lists(s, min_size=dim, max_size=dim),
        "a": st.lists(ang, min_size=na, max_size=na),
        "b": st.lists(ang, min_size=na, max_size=na),
        "r": st.booleans() if reflect else st.just(False),
        "o": st.lists(st.integers(-20, 20), min_size=dim, max_size=dim)})


def _rot(dim, angs):
    R = np.eye(dim)
    planes = [(0, 1)] if dim == 2 else [(0, 1), (0, 2), (1, 2)]
    for (i, j), a in zip(planes, angs):
        t = a * np.pi / 36
        G = np.eye(dim)
        G[i, i] = G[j, j] = np.cos(t)
        G[i, j] = -np.sin(t)
        G[j, i] = np.sin(t)
        R = R @ G
    return R


def affine(dim, d):
    """(A, b) with x = A X + b."""
    S = np.diag([s / 10.0 for s in d["s"]])
    # keep the aspect ratio bounded
    if d["r"]:
        S[0, 0] *= -1
    A = _rot(dim, d["a"]) @ S @ _rot(dim, d["b"]) if dim > 1 else S
    return A, np.array(d["o"]) / 10.0


def phys_simplex(dim, A, b):
    ref = FIAT.ufc_simplex(dim)
    verts = [tuple(A @ np.array(v) + b) for v in ref.get_vertices()]
    c = FIAT.ufc_simplex(dim)
    c.vertices = tuple(verts)
    return c


class AffineGeometry(PhysicalGeometry):
    """Implements the PhysicalGeometry contract for an affine simplex.

    With symbolic=True every quantity is a gem.Variable whose value is in
    `bindings` (as in a compiled kernel); otherwise it is a gem.Literal."""

    def __init__(self, dim, A, b, h=None, symbolic=False):
        self.dim = dim
        self.A = A
        self.b = b
        self.ref = cell("PITK"[dim])
        self.phys = phys_simplex(dim, A, b)
        self.verts = np.array(self.phys.get_vertices())
        self.h = np.ones(dim + 1) if h is None else np.asarray(h, dtype=float)
        self.symbolic = symbolic
        self.bindings = {}

    def _g(self, name, val):
        val = np.asarray(val, dtype=float)
        if not self.symbolic:
            return gem.Literal(val)
        self.bindings[name] = val
        return gem.Variable(name, val.shape)

    def cell_size(self):
        return self._g("cell_size", self.h)

    def jacobian_at(self, point):
        assert len(point) == self.dim
        return self._g("jac", self.A)

    def detJ_at(self, point):
        assert len(point) == self.dim
        return self._g("detJ", np.linalg.det(self.A))

    def _facet_data(self):
        sd = self.dim
        top = self.ref.get_topology()
        return sd, top

    def reference_normals(self):
        n = len(self.ref.get_topology()[self.dim - 1])
        return self._g("rns", [self.ref.compute_normal(i) for i in range(n)])

    def physical_tangents(self):
        assert self.dim == 2
        top = self.ref.get_topology()
        t = []
        for e in sorted(top[1]):
            a, b = top[1][e]
            v = self.verts[b] - self.verts[a]
            t.append(v / np.linalg.norm(v))
        return self._g("pts", t)

    def physical_normals(self):
        # clockwise rotation of the physical tangents
        assert self.dim == 2
        top = self.ref.get_topology()
        n = []
        for e in sorted(top[1]):
            a, b = top[1][e]
            v = self.verts[b] - self.verts[a]
            v = v / np.linalg.norm(v)
            n.append([v[1], -v[0]])
        return self._g("pns", n)

    def physical_edge_lengths(self):
        top = self.ref.get_topology()
        el = []
        for e in sorted(top[1]):
            a, b = top[1][e]
            el.append(np.linalg.norm(self.verts[b] - self.verts[a]))
        return self._g("pel", el)

    def physical_points(self, point_set, entity=None):
        pts = point_set.points
        if entity is not None and entity[0] != self.dim:
            pts = np.array([self.ref.get_entity_transform(*entity)(p) for p in pts])
        return self._g("ppts%d" % len(self.bindings), np.array([self.A @ p + self.b for p in pts]))

    def physical_vertices(self):
        return self._g("pverts", self.verts)


def push_forward(vals, mapping, A):
    """Map reference values (nbf, *value_shape, npts) to physical ones."""
    mapping = mapping or "affine"
    if mapping == "affine":
        return vals
    d = np.linalg.det(A)
    C = A / d
    K = np.linalg.inv(A).T
    if mapping == "contravariant piola":
        return np.einsum("ij,bjp->bip", C, vals)
    if mapping == "covariant piola":
        return np.einsum("ij,bjp->bip", K, vals)
    if mapping == "double contravariant piola":
        return np.einsum("ij,bjkp,lk->bilp", C, vals, C)
    if mapping == "double covariant piola":
        return np.einsum("ij,bjkp,lk->bilp", K, vals, K)
    if mapping == "covariant contravariant piola":
        return np.einsum("ij,bjkp,lk->bilp", K, vals, C)
    raise HarnessError("mapping %s" % mapping)
