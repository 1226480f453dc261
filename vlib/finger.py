"""Fingerprints of answers, computed in processes of their own.

Run as a program it answers one JSON request per line: a list of jobs, each
{"spec", "ops"} or {"tree"}, with a JSON list of fingerprints in the same
order.  Answers depend only on the structure of the expressions, with indices
numbered by first appearance, and on the rounded values of the constants."""
import hashlib
import json
import os
import sys
import traceback

import numpy as np


def _walk(roots):
    """Nodes of the expressions in depth-first order, each once."""
    seen, out, stack = set(), [], list(reversed(roots))
    while stack:
        n = stack.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        out.append(n)
        stack.extend(reversed(n.children))
    return out


def expressions(exprs, first=(), offset=0.0):
    """Digest of a list of GEM expressions."""
    import gem
    num = {}

    def index(i):
        return num.setdefault(i, len(num))

    def data(x):
        if isinstance(x, gem.Index):
            return ["i", index(x), x.extent]
        if isinstance(x, gem.VariableIndex):
            return ["v", str(type(x.expression).__name__)]
        if isinstance(x, (tuple, list)):
            return [data(y) for y in x]
        if isinstance(x, np.ndarray):
            return array(x)
        if isinstance(x, np.generic):
            return x.item()
        if isinstance(x, BaseException):
            return ["e", type(x).__name__]
        if isinstance(x, gem.gem.Node):
            return ["n", type(x).__name__]
        return x if isinstance(x, (int, float, str, bool, type(None))) else str(x)

    def array(a):
        a = np.asarray(a)
        if a.dtype.kind not in "fc" or not a.size:
            return [a.shape, a.tolist()]
        m = float(np.max(np.abs(a), initial=0)) or 1.0
        return [a.shape, "%.4e" % m if offset == 0 else "", hashlib.sha256(np.rint(a / m * 1e5 + offset).astype(complex).tobytes()).hexdigest()[:12]]
    for i in first:
        index(i)
    nodes = _walk(exprs)
    extra = {}
    for n in nodes:
        extra[id(n)] = [data(getattr(n, a)) for a in tuple(n.__front__) + tuple(n.__back__)]
    digest = {}

    def get(n):
        stack = [n]
        while stack:
            m = stack[-1]
            if id(m) in digest:
                stack.pop()
                continue
            todo = [c for c in m.children if id(c) not in digest]
            if todo:
                stack.extend(todo)
                continue
            s = json.dumps([type(m).__name__, extra[id(m)], [digest[id(c)] for c in m.children]], default=str)
            digest[id(m)] = hashlib.sha256(s.encode()).hexdigest()[:16]
            stack.pop()
        return digest[id(n)]
    return [get(n) for n in exprs], len(nodes)


def ordered(x):
    """JSON of nested dictionaries, keeping their order."""
    if isinstance(x, dict):
        return [[str(k), ordered(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [ordered(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(str(v) for v in x)
    return x.item() if isinstance(x, np.generic) else x if isinstance(x, (int, float, str, type(None))) else str(x)


def answer(e, spec, op, offset):
    from checks.comp import eval_points, geometry
    from vlib import model as M
    import gem
    cn = M.cname(spec)
    k = op["k"]
    if k == "tab":
        ent, ps, pts = eval_points(cn, op["ev"])
        kw = {"coordinate_mapping": geometry(cn, op["geo"])} if op.get("geo") else {}
        r = e.basis_evaluation(op["ev"]["order"], ps, ent, **kw)
        return [[list(a) for a in r]] + list(expressions(list(r.values()), ps.indices, offset))
    if k == "pt":
        ent, ps, pts = eval_points(cn, op["ev"])
        r = e.point_evaluation(op["ev"]["order"], gem.Variable("X", (ps.dimension,)), ent)
        return [[list(a) for a in r]] + list(expressions(list(r.values()), (), offset))
    if k == "dual":
        Q, x = e.dual_basis
        return [np.round(np.asarray(x.points), 6).tolist()] + list(expressions([Q], x.indices, offset))
    if k == "layout":
        out = [ordered(e.entity_dofs()), ordered(e.entity_closure_dofs()), int(e.space_dimension()), ordered(e.index_shape), ordered(e.value_shape), str(e.mapping)]
        return out
    if k == "support":
        return [ordered(e.entity_support_dofs())]
    if k == "perm":
        return [ordered(e.entity_permutations)]
    if k == "meta":
        return [str(e.degree), str(e.formdegree), type(e.cell).__name__, type(e.complex).__name__, len(e.complex.get_topology())]
    if k == "quad":
        from finat.quadrature import make_quadrature
        r = make_quadrature(e.cell, op["deg"])
        ps = r.point_set
        return [np.round(np.asarray(ps.points), 6).tolist(), [i.extent for i in ps.indices]] + list(expressions([r.weight_expression], ps.indices, offset))
    raise KeyError(k)


def symbolic(t):
    from vlib import uflx as U
    try:
        e = U.build(t)
    except Exception as x:
        return ["refused", type(x).__name__]
    o = U.observe(e)
    return [repr(e), str(e), str(e.cell), [repr(s) for s in e.sub_elements], ordered(o)]


def job(j, offset):
    if "tree" in j:
        return [symbolic(j["tree"])]
    from vlib import catalogue as C
    try:
        e = C.build(j["spec"])
    except Exception as x:
        return ["refused", type(x).__name__]
    out = []
    for op in j["ops"]:
        try:
            out.append(answer(e, j["spec"], op, offset))
        except Exception as x:
            out.append(["refused", type(x).__name__])
    return out


def serve():
    import warnings
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(100000)
    real = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        r = json.loads(line)
        from vlib import catalogue as C
        jobs = list(enumerate(r["jobs"]))
        if r["reverse"]:
            jobs.reverse()
        try:
            out = dict((i, job(j, r["offset"])) for i, j in jobs)
            text = json.dumps([out[i] for i in range(len(out))])
        except Exception:
            text = json.dumps({"error": traceback.format_exc()[-1500:]})
        C.clear_caches()
        real.write(text + "\n")
        real.flush()


if __name__ == "__main__":
    serve()
