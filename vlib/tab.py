"""Helpers to evaluate FInAT tabulations numerically."""
import numpy as np
import gem

from vlib.core import Violation, require
from vlib.gemeval import Evaluator, geval, GemEvalError


def tab_values(elem, result, ps, bindings=None, what="basis_evaluation"):
    """{alpha: array (npts, *index_shape, *value_shape)} from a tabulation
    dict, checking the documented shape / free-index contract."""
    ev = Evaluator(bindings)
    out = {}
    want = tuple(elem.index_shape) + tuple(elem.value_shape)
    fids = tuple(ps.indices)
    for alpha, expr in result.items():
        require(isinstance(expr, gem.Node), "%s[%s] is not a GEM expression: %r", what, alpha, type(expr))
        require(tuple(expr.shape) == want, "%s[%s] has shape %s, expected index_shape+value_shape %s", what, alpha, expr.shape, want)
        if isinstance(expr, gem.Failure):
            out[alpha] = expr.exception
            continue
        require(set(expr.free_indices) <= set(fids), "%s[%s] has free indices %s not among the point indices", what, alpha, expr.free_indices)
        a = geval(expr, fids, ev=ev)
        out[alpha] = a.reshape((-1,) + want)
    return out


def values(elem, order, ps, entity=None, cm=None, bindings=None, pass_cm=True):
    kw = {}
    if cm is not None:
        kw["coordinate_mapping"] = cm
    r = elem.basis_evaluation(order, ps, entity, **kw)
    b = dict(bindings or {})
    if cm is not None:
        b.update(getattr(cm, "bindings", {}))
    return tab_values(elem, r, ps, b)


def fiat_values(table, npts):
    """FIAT (nbf, *vs, npts) -> (npts, nbf, *vs)"""
    t = np.asarray(table)
    return np.moveaxis(t, -1, 0)
