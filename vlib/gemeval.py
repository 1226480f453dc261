"""A small, independent, vectorised evaluator for GEM expressions.

Part of the oracle side of every check: it gives GEM its documented meaning
without going through gem.interpreter (which is scalar, slow, and does not
implement logical nodes).  A value is (array, fids): leading axes are the free
indices in the order `fids`, trailing axes are the shape of the node.
"""
import math
import sys

import numpy as np
import gem
from gem import gem as G

sys.setrecursionlimit(100000)


class GemEvalError(Exception):
    """The expression cannot be given a value (e.g. a Failure node)."""


_MATH = {
    "abs": np.abs, "sqrt": np.sqrt, "exp": np.exp, "log": np.log, "ln": np.log,
    "sin": np.sin, "cos": np.cos, "tan": np.tan, "asin": np.arcsin,
    "acos": np.arccos, "atan": np.arctan, "sinh": np.sinh, "cosh": np.cosh,
    "tanh": np.tanh, "real": np.real, "imag": np.imag, "conj": np.conj,
    "erf": np.vectorize(math.erf, otypes=[float]),
}
_MATH2 = {"atan2": np.arctan2, "atan_2": np.arctan2, "power": np.power}

_CMP = {">": np.greater, ">=": np.greater_equal, "==": np.equal,
        "!=": np.not_equal, "<": np.less, "<=": np.less_equal}

_BIN = {G.Sum: np.add, G.Product: np.multiply, G.Division: np.divide,
        G.FloorDiv: np.floor_divide, G.Remainder: np.remainder,
        G.Power: np.power, G.MinValue: np.minimum, G.MaxValue: np.maximum,
        G.LogicalAnd: np.logical_and, G.LogicalOr: np.logical_or}


def _align(a, fids, target, rank):
    """Transpose/expand array (fids + shape) so leading axes follow target."""
    if fids == target:
        return a
    shape = a.shape[len(fids):]
    perm = [fids.index(i) for i in target if i in fids]
    a = np.transpose(a, perm + list(range(len(fids), a.ndim)))
    newshape = tuple(i.extent if i in fids else 1 for i in target) + shape
    return a.reshape(newshape)


def _union(*fidss):
    out = []
    for f in fidss:
        for i in f:
            if i not in out:
                out.append(i)
    return tuple(out)


class Evaluator:
    def __init__(self, bindings=None):
        self.bindings = dict(bindings or {})   # Variable name -> array
        self.cache = {}
        self.keep = []

    def __call__(self, node):
        key = id(node)
        r = self.cache.get(key)
        if r is None:
            r = self._eval(node)
            self.cache[key] = r
            self.keep.append(node)
        return r

    # --
    def _eval(self, n):
        t = type(n)
        if t is G.Literal:
            return np.asarray(n.array), ()
        if t is G.Zero:
            return np.zeros(n.shape), ()
        if t is G.Identity:
            return np.eye(*n.shape), ()
        if t is G.Failure:
            raise GemEvalError("Failure node: %r" % (n.exception,))
        if t is G.Variable:
            try:
                v = self.bindings[n.name]
            except KeyError:
                raise GemEvalError("unbound variable %s" % n.name)
            v = np.asarray(v)
            if v.shape != n.shape:
                raise GemEvalError("binding shape %s for variable %s of shape %s" % (v.shape, n.name, n.shape))
            return v, ()
        if t in _BIN:
            (a, fa), (b, fb) = map(self, n.children)
            f = _union(fa, fb)
            return _BIN[t](_align(a, fa, f, 0), _align(b, fb, f, 0)), f
        if t is G.Comparison:
            (a, fa), (b, fb) = map(self, n.children)
            f = _union(fa, fb)
            return _CMP[n.operator](_align(a, fa, f, 0), _align(b, fb, f, 0)), f
        if t is G.LogicalNot:
            a, f = self(n.children[0])
            return np.logical_not(a), f
        if t is G.Conditional:
            (c, fc), (a, fa), (b, fb) = map(self, n.children)
            f = _union(fc, fa, fb)
            rank = len(n.shape)
            c = _align(c, fc, f, 0)
            c = c.reshape(c.shape + (1,) * rank)
            a = _align(a, fa, f, rank)
            b = _align(b, fb, f, rank)
            return np.where(c, a, b), f
        if t is G.MathFunction:
            if n.name in _MATH2 and len(n.children) == 2:
                (a, fa), (b, fb) = map(self, n.children)
                f = _union(fa, fb)
                return _MATH2[n.name](_align(a, fa, f, 0), _align(b, fb, f, 0)), f
            if n.name not in _MATH:
                raise GemEvalError("unknown math function %s" % n.name)
            a, f = self(n.children[0])
            return _MATH[n.name](a), f
        if t is G.Indexed:
            return self._indexed(n)
        if t is G.FlexiblyIndexed:
            return self._flex(n)
        if t is G.ComponentTensor:
            a, f = self(n.children[0])
            rest = tuple(i for i in f if i not in n.multiindex)
            tgt = rest + tuple(n.multiindex)
            a = _align(a, f, tgt, 0)
            # indices the child does not depend on are broadcast
            shp = tuple(i.extent for i in tgt)
            return np.broadcast_to(a, shp), rest
        if t is G.IndexSum:
            return self._indexsum(n)
        if t is G.ListTensor:
            vals = [self(c) for c in n.children]
            f = _union(*[v[1] for v in vals])
            ext = tuple(i.extent for i in f)
            arr = [np.broadcast_to(_align(a, fa, f, 0), ext) for a, fa in vals]
            st = np.stack(arr, axis=-1) if arr else np.zeros(ext + (0,))
            return st.reshape(ext + n.shape), f
        if t is G.Concatenate:
            vals = [self(c) for c in n.children]
            f = _union(*[v[1] for v in vals])
            ext = tuple(i.extent for i in f)
            arr = []
            for c, (a, fa) in zip(n.children, vals):
                a = np.broadcast_to(_align(a, fa, f, len(c.shape)), ext + c.shape)
                arr.append(a.reshape(ext + (-1,)))
            return np.concatenate(arr, axis=-1), f
        if t is G.Delta:
            i, j = n.i, n.j
            if isinstance(i, G.Index) and isinstance(j, G.Index):
                return np.eye(i.extent, j.extent), (i, j)
            raise GemEvalError("Delta over %r, %r" % (i, j))
        if t is G.Inverse:
            a, f = self(n.children[0])
            return np.linalg.inv(a), f
        if t is G.Solve:
            (a, fa), (b, fb) = map(self, n.children)
            f = _union(fa, fb)
            a = _align(a, fa, f, 2)
            b = _align(b, fb, f, len(n.children[1].shape))
            ext = tuple(i.extent for i in f)
            a = np.broadcast_to(a, ext + a.shape[len(f):])
            b = np.broadcast_to(b, ext + b.shape[len(f):])
            bs = b.shape
            x = np.linalg.solve(a, b.reshape(bs[:len(f) + 1] + (-1,)))
            return x.reshape(bs), f
        raise GemEvalError("cannot evaluate node type %s" % t.__name__)

    def _indexed(self, n):
        a, f = self(n.children[0])
        nf = len(f)
        # Fast path: all ints / distinct plain indices not already free
        newf = list(f)
        idx = [slice(None)] * nf
        for k, i in enumerate(n.multiindex):
            if isinstance(i, (int, np.integer)):
                idx.append(int(i))
            elif isinstance(i, G.Index):
                idx.append(slice(None))
                newf.append(i)
            elif isinstance(i, G.VariableIndex):
                v, fv = self(i.expression)
                if fv:
                    raise GemEvalError("VariableIndex with free indices")
                idx.append(int(v))
            else:
                raise GemEvalError("unexpected index %r" % (i,))
        a = a[tuple(idx)]
        if len(set(newf)) != len(newf):
            # repeated index: take diagonals
            uniq = list(dict.fromkeys(newf))
            ids = {i: k for k, i in enumerate(uniq)}
            a = np.einsum(a, [ids[i] for i in newf], [ids[i] for i in uniq])
            newf = uniq
        for i, e in zip(newf, a.shape):
            if i.extent != e:
                raise GemEvalError("index extent %s does not match axis %s" % (i.extent, e))
        return a, tuple(newf)

    def _flex(self, n):
        a, f = self(n.children[0])
        if f:
            raise GemEvalError("FlexiblyIndexed of non-terminal")
        fids = []
        for off, idxs in n.dim2idxs:
            if isinstance(off, G.Node):
                raise GemEvalError("node offset")
            for i, s in idxs:
                if isinstance(i, G.Index):
                    if i not in fids:
                        fids.append(i)
                else:
                    raise GemEvalError("unsupported flexible index")
        ext = tuple(i.extent for i in fids)
        grid = np.indices(ext) if ext else []
        sel = []
        for off, idxs in n.dim2idxs:
            p = np.full(ext, int(off))
            for i, s in idxs:
                p = p + grid[fids.index(i)] * int(s)
            sel.append(p)
        return a[tuple(sel)], tuple(fids)

    def _factors(self, n, out):
        if type(n) is G.Product and id(n) not in self.cache:
            for c in n.children:
                self._factors(c, out)
        else:
            out.append(self(n))

    def _indexsum(self, n):
        ops = []
        self._factors(n.children[0], ops)
        allf = _union(*[f for _, f in ops])
        rest = tuple(i for i in allf if i not in n.multiindex)
        missing = [i for i in n.multiindex if i not in allf]
        if len(allf) > 40:
            raise GemEvalError("too many indices")
        ids = {i: k for k, i in enumerate(allf)}
        args = []
        for a, f in ops:
            if a.dtype == bool or a.dtype.kind in "iu":
                a = a.astype(float)
            args += [a, [ids[i] for i in f]]
        r = np.einsum(*args, [ids[i] for i in rest], optimize=len(ops) > 2)
        for i in missing:
            r = r * i.extent
        return r, rest


def geval(node, fids=(), bindings=None, ev=None):
    """Evaluate; leading axes = fids in that order (broadcast if absent)."""
    ev = ev or Evaluator(bindings)
    a, f = ev(node)
    extra = [i for i in f if i not in fids]
    if extra:
        raise GemEvalError("unexpected free indices %r" % (extra,))
    a = _align(a, f, tuple(fids), len(node.shape))
    return np.array(np.broadcast_to(a, tuple(i.extent for i in fids) + tuple(node.shape)))


def free_ok(node, fids):
    return set(node.free_indices) <= set(fids)
