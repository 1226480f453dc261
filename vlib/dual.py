"""Model of dual bases: points and weights of every functional, from FIAT's
functionals on the leaves and the definitions of the combinators."""
from itertools import product

import numpy as np

from vlib import catalogue as C
from vlib import model as M


class NoDual(Exception):
    """exc: what FInAT must raise, or None for anything."""


def leaf_dual(spec):
    fe = C.build_fiat(spec)
    try:
        nodes = fe.dual_basis()
    except Exception:
        raise NoDual
    if any(n is None for n in nodes) or not nodes:
        raise NoDual
    if any(len(n.deriv_dict) for n in nodes):
        raise NoDual
    vs = tuple(fe.value_shape())
    pts, where = [], {}
    for n in nodes:
        for p in n.pt_dict:
            if p not in where:
                where[p] = len(pts)
                pts.append(p)
    W = np.zeros((len(nodes), len(pts)) + vs)
    for i, n in enumerate(nodes):
        for p, terms in n.pt_dict.items():
            for w, cmp in terms:
                W[(i, where[p]) + tuple(cmp)] += w
    return np.array(pts, dtype=float).reshape(len(pts), M.dim_of(spec)), W


def dual(spec):
    """(points (m, d), weights (n, m, *value_shape)), n = flattened index."""
    e = spec["el"]
    if e == "TPE":
        parts = [dual(f) for f in spec["factors"]]
        X = np.array([np.concatenate(t) for t in product(*[x for x, _ in parts])])
        W = np.ones((1, 1, 1))
        for _, w in parts:
            w = w.reshape(w.shape[0], w.shape[1], -1)
            W = np.einsum("imv,jnw->ijmnvw", W, w).reshape(W.shape[0] * w.shape[0], W.shape[1] * w.shape[1], W.shape[2] * w.shape[2])
        return X, W.reshape(W.shape[:2] + M.value_shape(spec))
    if e in ("Flat", "Disc"):
        return dual(spec["of"])
    if e == "Vec":
        X, w = dual(spec["of"])
        m = int(np.prod(spec["shape"], dtype=int))
        v = w.reshape(w.shape[0], w.shape[1], -1)
        eye = np.eye(m)
        if spec.get("transpose"):
            W = np.einsum("imv,ab->aimbv", v, eye)
        else:
            W = np.einsum("imv,ab->iambv", v, eye)
        return X, W.reshape((w.shape[0] * m, w.shape[1]) + M.value_shape(spec))
    if e in ("HDiv", "HCurl"):
        X, w = dual(spec["of"])
        A = M.wrapper_matrix(spec)
        v = w.reshape(w.shape[0], w.shape[1], A.shape[1])
        return X, v @ A.T
    if e in ("Enriched", "Mixed"):
        raise NoDual
    return leaf_dual(spec)
