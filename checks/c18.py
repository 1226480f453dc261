"""C18 translation of symbolic algebra (sympy / symengine) to GEM."""
from fractions import Fraction
import math

import gem
import numpy as np
import sympy
import symengine
from hypothesis import strategies as st

from finat.sympy2gem import sympy2gem
from vlib.core import Check, Discard, require, rejects
from vlib.gemeval import geval, Evaluator

SYMS = ["x", "y", "z"]
REL = ["<", "<=", ">", ">=", "=="]


class Undef(Exception):
    pass


# --- grammar -------------------------------------------------------------------

def st_num(depth):
    leaf = st.one_of(
        st.sampled_from(SYMS).map(lambda s: ["s", s]), st.sampled_from(SYMS).map(lambda s: ["s", s]),
        st.integers(-4, 4).map(lambda i: ["i", i]),
        st.integers(-10 ** 6, 10 ** 6).map(lambda i: ["i", i]),
        st.tuples(st.integers(-7, 7), st.integers(2, 9)).map(lambda t: ["q", t[0], t[1]]),
        st.integers(-20, 20).map(lambda i: ["f", i]))
    if depth == 0:
        return leaf
    n = st.deferred(lambda: st_num(depth - 1))
    b = st.deferred(lambda: st_bool(depth - 1))
    many = st.lists(n, min_size=2, max_size=4)
    return st.one_of(
        leaf,
        many.map(lambda a: ["+"] + a), many.map(lambda a: ["*"] + a),
        st.tuples(n, n).map(lambda t: ["-", t[0], t[1]]),
        st.tuples(n, n).map(lambda t: ["/", t[0], t[1]]),
        st.tuples(n, st.integers(-3, 4)).map(lambda t: ["^", t[0], ["i", t[1]]]),
        st.tuples(n, st.sampled_from([[1, 2], [3, 2], [-1, 2], [1, 3]])).map(lambda t: ["^", ["abs", t[0]], ["q"] + t[1]]),
        st.tuples(st.one_of(st.integers(2, 3).map(lambda i: ["i", i]), n.map(lambda a: ["abs", a])), st.sampled_from(SYMS)).map(lambda t: ["^", t[0], ["s", t[1]]]),
        n.map(lambda a: ["abs", a]),
        st.tuples(st.lists(st.tuples(n, b).map(list), min_size=1, max_size=3), st.one_of(st.none(), n)).map(lambda t: ["pw", t[0], t[1]]),
        st.tuples(st.lists(st.tuples(n, b).map(list), min_size=1, max_size=3), n).map(lambda t: ["pw", t[0], t[1]]))


def st_bool(depth):
    n = st_num(max(0, depth - 1))
    rel = st.tuples(st.sampled_from(REL), n, n).map(list)
    small = st.tuples(st.sampled_from(REL), st.sampled_from(SYMS).map(lambda s: ["s", s]),
                      st.one_of(st.sampled_from(SYMS).map(lambda s: ["s", s]), st.integers(-3, 3).map(lambda i: ["i", i]))).map(list)
    if depth == 0:
        return st.one_of(rel, small)
    b = st.deferred(lambda: st_bool(depth - 1))
    many = st.lists(b, min_size=2, max_size=3)
    return st.one_of(rel, small, small, b.map(lambda a: ["not", a]), many.map(lambda a: ["and"] + a),
                     many.map(lambda a: ["or"] + a), st.tuples(b, b, b).map(lambda t: ["ite"] + list(t)), st.sampled_from([["T"], ["F"]]))


# --- oracle: the expression's own meaning ----------------------------------------

class Ev:
    """Evaluate an expression at one assignment: exact Fractions where
    possible, floats otherwise; `mag` bounds all intermediate values."""

    def __init__(self, env):
        self.env = env
        self.mag = 1.0

    def out(self, v, exact):
        if isinstance(v, complex) or not math.isfinite(float(v)) or abs(v) > 1e8 or (v and abs(v) < 1e-8):
            raise Undef
        self.mag = max(self.mag, abs(float(v)))
        return v, exact

    def num(self, t):
        k = t[0]
        if k == "s":
            return self.out(self.env[t[1]], True)
        if k == "i":
            return self.out(Fraction(t[1]), True)
        if k == "q":
            v = Fraction(t[1], t[2])
            return self.out(v, v.denominator & (v.denominator - 1) == 0)
        if k == "f":
            return self.out(Fraction(t[1], 8), True)
        if k in ("+", "*"):
            vs = [self.num(a) for a in t[1:]]
            v = vs[0][0]
            for w, _ in vs[1:]:
                v = v + w if k == "+" else v * w
            return self.out(v, all(x for _, x in vs) and isinstance(v, Fraction))
        if k == "-":
            a, b = self.num(t[1]), self.num(t[2])
            return self.out(a[0] - b[0], a[1] and b[1])
        if k == "/":
            a, b = self.num(t[1]), self.num(t[2])
            if b[0] == 0 or (not b[1] and abs(b[0]) < 1e-6 * self.mag):
                raise Undef
            self.out(Fraction(1) / b[0] if isinstance(b[0], Fraction) else 1 / b[0], False)
            return self.out(a[0] / b[0], False)
        if k == "abs":
            a = self.num(t[1])
            return self.out(abs(a[0]), a[1])
        if k == "^":
            (a, xa), (b, xb) = self.num(t[1]), self.num(t[2])
            if a == 0 and (b <= 0 or not xa) or (b < 0 and not xa and abs(a) < 1e-6 * self.mag):
                raise Undef
            if isinstance(b, Fraction) and b.denominator == 1:
                if abs(b) > 40 or (a != 0 and abs(math.log(abs(a))) * abs(float(b)) > 40):
                    raise Undef
                return self.out(a ** int(b), xa and b > 0)
            if a < 0:
                raise Undef
            if not xa and a < 1e-6 * self.mag:
                raise Undef     # root amplifies rounding
            if a and abs(math.log(a)) * abs(float(b)) > 40:
                raise Undef
            return self.out(float(a) ** float(b), False)
        if k == "pw":
            for v, c in t[1]:
                if self.bool(c):
                    return self.num(v)
            if t[2] is None:
                return float("nan"), True
            return self.num(t[2])
        raise AssertionError(k)

    def bool(self, t):
        k = t[0]
        if k in REL:
            (a, xa), (b, xb) = self.num(t[1]), self.num(t[2])
            if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
                raise Undef
            if abs(float(a - b)) <= 1e-7 * self.mag and not (xa and xb):
                raise Undef
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b}[k]
        if k == "not":
            return not self.bool(t[1])
        if k == "and":
            return all([self.bool(a) for a in t[1:]])
        if k == "or":
            return any([self.bool(a) for a in t[1:]])
        if k == "ite":
            vs = [self.bool(a) for a in t[1:]]
            return vs[1] if vs[0] else vs[2]
        return k == "T"


# --- builders --------------------------------------------------------------------

class Sympy:
    def __init__(self, ev):
        self.kw = {} if ev else {"evaluate": False}
        self.lib = sympy

    def __call__(self, t):
        k, kw = t[0], self.kw
        if k == "s":
            return sympy.Symbol(t[1])
        if k == "i":
            return sympy.Integer(t[1])
        if k == "q":
            return sympy.Rational(t[1], t[2])
        if k == "f":
            return sympy.Float(t[1] / 8)
        if k == "T":
            return sympy.true
        if k == "F":
            return sympy.false
        if k == "pw":
            args = [(self(v), self(c)) for v, c in t[1]]
            if t[2] is not None:
                args.append((self(t[2]), True))
            return sympy.Piecewise(*args, **kw)
        a = [self(x) for x in t[1:]]
        if k == "+":
            return sympy.Add(*a, **kw)
        if k == "*":
            return sympy.Mul(*a, **kw)
        if k == "-":
            return sympy.Add(a[0], sympy.Mul(sympy.Integer(-1), a[1], **kw), **kw)
        if k == "/":
            return sympy.Mul(a[0], sympy.Pow(a[1], sympy.Integer(-1), **kw), **kw)
        f = {"^": sympy.Pow, "abs": sympy.Abs, "<": sympy.Lt, "<=": sympy.Le, ">": sympy.Gt, ">=": sympy.Ge, "==": sympy.Eq,
             "not": sympy.Not, "and": sympy.And, "or": sympy.Or, "ite": sympy.ITE}[k]
        return f(*a, **kw)


class Symengine:
    def __call__(self, t):
        k = t[0]
        if k == "s":
            return symengine.Symbol(t[1])
        if k == "i":
            return symengine.Integer(t[1])
        if k == "q":
            return symengine.Rational(t[1], t[2])
        if k == "f":
            return symengine.Float(t[1] / 8)
        if k == "T":
            return symengine.true
        if k == "F":
            return symengine.false
        if k == "pw":
            args = [(self(v), self(c)) for v, c in t[1]]
            if t[2] is not None:
                args.append((self(t[2]), True))
            return symengine.Piecewise(*args)
        a = [self(x) for x in t[1:]]
        if k == "+":
            return symengine.Add(*a)
        if k == "*":
            return symengine.Mul(*a)
        if k == "-":
            return a[0] - a[1]
        if k == "/":
            return a[0] / a[1]
        if k == "ite":
            return symengine.Or(symengine.And(a[0], a[1]), symengine.And(symengine.Not(a[0]), a[2]))
        f = {"^": lambda x, y: x ** y, "abs": symengine.Abs, "<": symengine.Lt, "<=": symengine.Le, ">": symengine.Gt, ">=": symengine.Ge,
             "==": symengine.Eq, "not": symengine.Not, "and": symengine.And, "or": symengine.Or}[k]
        return f(*a)


def kinds(t, out=None):
    out = set() if out is None else out
    if isinstance(t, list):
        if t and isinstance(t[0], str):
            if not (t[0] == "s" or t[0] in "iqf"):
                out.add(t[0])
            elif t[0] == "q":
                out.add("q")
        for a in t:
            kinds(a, out)
    return out


def degenerate(e):
    """Constants or rewritings outside the supported language that the
    algebra system itself introduced."""
    s = str(e)
    return any(w in s for w in ("nan", "zoo", "oo", "I", "sign", "re(", "im(", "Ne(", "Xor", "!=", "exp", "log", "E", "Min", "Max"))


VALS = [Fraction(k, 2) for k in range(-5, 6)] + [Fraction(k, 4) for k in (-3, -1, 1, 3)]


class C18(Check):
    id = "C18"
    quick = 400
    thorough = 6000
    rule = ("A case is one to three expression trees over +, -, *, /, powers, roots, |.|, rationals, floats, Piecewise (with and without a "
            "default), ITE, comparisons and logical operators, built in sympy (with and without automatic evaluation) or symengine, with "
            "their symbols bound to GEM variables, indexed vectors or composite GEM expressions, and eight assignments. The translation "
            "must evaluate to the tree's own value, computed in exact rational arithmetic. Near-ties of inexactly representable "
            "operands and undefined operations are skipped. Non-trivial: at least two operator kinds and a defined value.")
    assumptions = ["sympy and symengine preserve values when they rearrange an expression at construction."]

    def configs(self, tier):
        out = []
        for lib in ("sympy", "sympy_raw", "symengine"):
            for depth in (1, 2, 3):
                for kind in ("num", "bool"):
                    out.append({"k": "tree", "lib": lib, "depth": depth, "kind": kind, "w": {1: 1, 2: 1.5, 3: 1}[depth]})
        out.append({"k": "bad"})
        out.append({"k": "python"})
        out.append({"k": "poly"})
        return out

    def params(self, config):
        if config["k"] == "bad":
            return st.fixed_dictionaries({"i": st.integers(0, 200), "wrap": st.sampled_from(["", "+", "*", "^", "pw", "pwc", "abs", "<"]), "tree": st_num(1)})
        if config["k"] == "python":
            return st.fixed_dictionaries({"v": st.one_of(st.booleans(), st.integers(-10 ** 9, 10 ** 9), st.floats(-1e6, 1e6))})
        if config["k"] == "poly":
            return st.fixed_dictionaries({"c": st.lists(st.tuples(st.integers(-30, 30), st.integers(0, 4), st.integers(0, 4), st.integers(0, 3)).map(list), min_size=1, max_size=6),
                                          "fac": st.booleans(), "lib": st.sampled_from(["sympy", "symengine"]), "env": st_env()})
        t = st_num(config["depth"]) if config["kind"] == "num" else st_bool(config["depth"])
        return st.fixed_dictionaries({"trees": st.lists(t, min_size=1, max_size=3 if config["depth"] < 3 else 1), "env": st_env(),
                                      "bind": st.sampled_from(["indexed", "shifted", "component"])})

    def run(self, config, p):
        with np.errstate(all="ignore"):
            return getattr(self, "do_" + config["k"])(config, p)

    def bindings(self, lib, env, how):
        n = len(env)
        arr = {s: np.array([float(VALS[e[i] % len(VALS)]) for e in env]) for i, s in enumerate(SYMS)}
        idx = gem.Index(extent=n)
        b, vals = {}, {}
        mk = sympy.Symbol if lib != "symengine" else symengine.Symbol
        if how == "component":
            V = gem.Variable("V", (n, len(SYMS)))
            vals["V"] = np.stack([arr[s] for s in SYMS], axis=1)
            for i, s in enumerate(SYMS):
                b[mk(s)] = gem.Indexed(V, (idx, i))
        else:
            for s in SYMS:
                v = gem.Indexed(gem.Variable(s, (n,)), (idx,))
                vals[s] = arr[s]
                if how == "shifted":
                    v = gem.Sum(v, gem.Literal(0.25))
                    vals[s] = arr[s] - 0.25
                b[mk(s)] = v
        return b, vals, idx

    def do_tree(self, config, p):
        lib = config["lib"]
        build = Symengine() if lib == "symengine" else Sympy(lib == "sympy")
        b, vals, idx = self.bindings(lib, p["env"], p["bind"])
        mapper = gem.node.Memoizer(sympy2gem)
        mapper.bindings = b
        useful = False
        labs = set()
        n = len(p["env"])
        for tree in p["trees"]:
            want, tol, ok = np.zeros(n), np.zeros(n), np.zeros(n, dtype=bool)
            for j, e in enumerate(p["env"]):
                ev = Ev({s: VALS[e[i] % len(VALS)] for i, s in enumerate(SYMS)})
                try:
                    v = ev.num(tree)[0] if config["kind"] == "num" else ev.bool(tree)
                    want[j], ok[j], tol[j] = float(v), True, 1e-8 * ev.mag
                except Undef:
                    pass
            if not ok.any():
                continue
            try:
                expr = build(tree)
            except RuntimeError:    # symengine refuses to build it
                continue
            if degenerate(expr) or lib == "symengine" and ("True" == str(expr) or "False" == str(expr)):
                continue
            g = mapper(expr)
            require(isinstance(g, gem.Node) and g.shape == (), "not a scalar GEM expression: %r", g)
            require(set(g.free_indices) <= {idx}, "free indices %s", g.free_indices)
            got = np.asarray(geval(g, (idx,), bindings=vals) if g.free_indices else np.broadcast_to(geval(g, (), bindings=vals), (n,)))
            if config["kind"] == "bool":
                got = got.astype(bool).astype(float)
            for j in np.nonzero(ok)[0]:
                if math.isnan(want[j]):
                    require(np.isnan(got[j]), "%s = %r where no condition holds, expected nan (from %s)", g, got[j], expr)
                    continue
                require(abs(got[j] - want[j]) <= tol[j], "%s at %s: %r, expected %r", expr,
                        {s: str(VALS[p["env"][j][i] % len(VALS)]) for i, s in enumerate(SYMS)}, complex(got[j]), float(want[j]))
            k = kinds(tree)
            if len(k) >= 2:
                useful = True
                labs |= {"op:" + a for a in k} | {"lib:" + lib}
        return labs if useful else False

    def do_poly(self, config, p):
        """Large polynomials, as elements produce them."""
        build = Sympy(True) if p["lib"] == "sympy" else Symengine()
        lib = sympy if p["lib"] == "sympy" else symengine
        x, y, z = map(lib.Symbol, SYMS)
        e = lib.Integer(1) if p["fac"] else lib.Integer(0)
        for c, i, j, k in p["c"]:
            q = lib.Rational(c, 7)
            e = e * (q * x ** i - y ** j + z) if p["fac"] else e + q * x ** i * y ** j * z ** k
        b, vals, idx = self.bindings(p["lib"], p["env"], "component")
        for d in (e, lib.diff(e, x), lib.diff(e, y, z), lib.expand(e) if p["lib"] == "sympy" else e.expand()):
            mapper = gem.node.Memoizer(sympy2gem)
            mapper.bindings = b
            g = mapper(d)
            got = np.broadcast_to(geval(g, (idx,) if g.free_indices else (), bindings=vals), (len(p["env"]),))
            for j, env in enumerate(p["env"]):
                sub = {s: VALS[env[i] % len(VALS)] for i, s in enumerate(SYMS)}
                w = float(sympy.sympify(d).subs({sympy.Symbol(s): sympy.Rational(v.numerator, v.denominator) for s, v in sub.items()}))
                require(abs(got[j] - w) <= 1e-6 * max(1, abs(w)) or abs(got[j] - w) <= 1e-9 * 10 ** len(p["c"]) * 1e3, "%s at %s: %r, expected %r", d, sub, float(got[j]), w)
        return {"poly:" + p["lib"]}

    def do_python(self, config, p):
        mapper = gem.node.Memoizer(sympy2gem)
        mapper.bindings = {}
        v = p["v"]
        for w in (v, sympy.sympify(v), symengine.sympify(v) if not isinstance(v, bool) else v):
            g = mapper(w)
            got = geval(g, ())
            require(abs(float(got) - float(v)) <= 1e-12 * max(1, abs(float(v))), "%r translated to %r", w, g)
        return True

    def do_bad(self, config, p):
        x, X = sympy.Symbol("x"), symengine.Symbol("x")
        bad = [sympy.sin(x), sympy.exp(x), sympy.log(x), sympy.Max(x, 1), sympy.Min(x, 1), sympy.sign(x), sympy.Heaviside(x), sympy.floor(x),
               sympy.pi, sympy.I, sympy.oo, sympy.zoo, sympy.nan, sympy.E, sympy.Function("f")(x), sympy.Derivative(sympy.Function("f")(x), x),
               sympy.Integral(x, x), sympy.atan2(x, 2), sympy.tan(x), sympy.cosh(x), sympy.Mod(x, 2), sympy.re(x), sympy.conjugate(x), sympy.gamma(x)]
        sbad = [symengine.sin(X), symengine.exp(X), symengine.log(X), symengine.Max(X, 1), symengine.Min(X, 1), symengine.pi, symengine.I, symengine.oo,
                symengine.nan, symengine.E, symengine.Function("f")(X), symengine.tan(X), symengine.cosh(X), symengine.sign(X), symengine.floor(X)]
        other = ["x", None, (1, 2), 1j, b"x", sympy.Ne(x, 1), sympy.Xor(x > 1, x < 5), sympy.Interval(0, 1), sympy.Tuple(1, 2), sympy.Array([1, 2]),
                 sympy.Symbol("unbound"), symengine.Symbol("unbound"), symengine.Ne(X, 1), object]
        i = p["i"] % (len(bad) + len(sbad) + len(other))
        mapper = gem.node.Memoizer(sympy2gem)
        mapper.bindings = {k: gem.Variable(str(k), ()) for k in list(map(sympy.Symbol, SYMS)) + list(map(symengine.Symbol, SYMS))}
        if i >= len(bad) + len(sbad):
            w = other[i - len(bad) - len(sbad)]
            rejects(mapper, w, what=repr(w))
            return True
        se = i >= len(bad)
        b = sbad[i - len(bad)] if se else bad[i]
        try:
            lib, a = (symengine, Symengine()(p["tree"])) if se else (sympy, Sympy(True)(p["tree"]))
        except RuntimeError:
            raise Discard
        if degenerate(a):
            raise Discard
        y = lib.Symbol("y")
        try:
            w = {"": lambda: b, "+": lambda: a + b, "*": lambda: (a + y) * b, "^": lambda: (y + 2) ** b, "abs": lambda: lib.Abs(b * y), "<": lambda: lib.Lt(y, b),
                 "pw": lambda: lib.Piecewise((b, y > 1), (a, True)), "pwc": lambda: lib.Piecewise((y, y < b), (y + 1, True))}[p["wrap"]]()
        except (TypeError, RuntimeError):
            raise Discard
        # some combinations simplify the unsupported part away
        s, names = str(w), ("sin", "exp", "log", "Max", "Min", "sign", "Heaviside", "floor", "pi", "I", "oo", "zoo", "nan", "E", "f(", "Derivative", "Integral",
                            "atan2", "tan", "cosh", "Mod", "re(", "conjugate", "gamma")
        if str(b) not in s and not any(n in s for n in names):
            raise Discard
        rejects(mapper, w, what=repr(w))
        return True


def st_env():
    return st.lists(st.tuples(*[st.integers(0, len(VALS) - 1)] * 3).map(list), min_size=8, max_size=8)


CHECK = C18()
