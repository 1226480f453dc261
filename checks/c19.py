"""C19 equality, hashing, printing, ordering, copying, pickling of symbolic elements."""
import base64
import copy
import json
import os
import pickle
import random
import subprocess
import sys

from hypothesis import strategies as st

from vlib import uflx as U
from vlib.core import Check, Discard, require, HarnessError

REPO = os.environ.get("FINAT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHILD = """
import sys, json, pickle, base64, warnings
warnings.simplefilter("ignore")
from vlib import uflx as U
trees = json.load(sys.stdin)
els = [U.build(t, s) for t, s in trees]
order = sorted(range(len(els)), key=lambda i: els[i])
print(json.dumps({"hash": [str(hash(e)) for e in els], "repr": [repr(e) for e in els], "order": [repr(els[i]) for i in order],
                  "pickle": [base64.b64encode(pickle.dumps(e)).decode() for e in els]}))
"""


def try_build(t, style=0):
    try:
        return U.build(t, style)
    except (ValueError, TypeError, KeyError, AssertionError) as e:
        return e


def ident(t):
    return U.identity(t)


def same(a, b, what):
    require(a == b and b == a, "%s: not equal: %r and %r", what, a, b)
    require(not (a != b) and not (b != a), "%s: both equal and unequal: %r", what, a)
    require(hash(a) == hash(b), "%s: equal elements with different hashes: %r", what, a)
    require(repr(a) == repr(b), "%s: equal elements print differently: %r / %r", what, a, b)
    require(str(a) == str(b) and a.shortstr() == b.shortstr(), "%s: equal elements print differently: %s / %s", what, a, b)
    require(not a < b and not b < a, "%s: equal elements are ordered: %r", what, a)


def different(a, b):
    require(not (a == b) and not (b == a) and a != b and b != a, "different elements are equal: %r and %r", a, b)
    require(repr(a) != repr(b), "different elements print the same: %r", a)
    require((a < b) != (b < a), "different elements are not strictly ordered: %r and %r", a, b)


class C19(Check):
    id = "C19"
    quick = 220
    thorough = 4000
    rule = ("A case is a generated description tree (all element classes, nested, on simplices, cubes and product cells). 'pair': the tree "
            "is built in three spellings (aliases, operators, defaults), with one random mutation, and all pairs must be equal exactly "
            "when a canonical form of the tree says so; then copied, deep-copied and pickled (protocols 2-5), all observable metadata "
            "unchanged. 'pool': sorting, sets and dictionaries over a pool of trees. 'process': hashes, printed forms, order and pickles "
            "computed in processes with other hash seeds. Non-trivial: the tree builds and, for pairs, the mutation really differs.")
    assumptions = ["pickle protocols 0 and 1 cannot represent classes with __slots__ and are outside the domain",
                   "tensor symmetries are given as dictionaries in index order, shapes as tuples"]

    def configs(self, tier):
        out = []
        for i, c in enumerate(U.NAMED + U.PRODUCTS):
            out.append({"kind": "pair", "cell": c})
            out.append({"kind": "pool", "cell": c, "w": 0.3})
        out.append({"kind": "process", "cell": None, "w": 0.04, "cost": 8})
        return out

    def params(self, config):
        c = config["cell"]
        t = U.tree(c, 3) if c else U.any_cell().flatmap(lambda x: U.tree(x, 3))
        if config["kind"] == "pair":
            return t.flatmap(lambda x: st.fixed_dictionaries({"t": st.just(x), "m": U.mutate(x)}))
        if config["kind"] == "pool":
            base = st.lists(t, min_size=1, max_size=4)
            return base.flatmap(lambda b: st.fixed_dictionaries(
                {"ts": st.lists(st.one_of(*[st.one_of(st.just(x), U.vary(x), U.mutate(x)) for x in b]), min_size=3, max_size=10),
                 "styles": st.lists(st.integers(0, 2), min_size=10, max_size=10), "seed": st.integers(0, 999)}))
        return st.fixed_dictionaries({"ts": st.lists(t, min_size=12, max_size=25), "seeds": st.lists(st.integers(1, 4000), min_size=2, max_size=2)})

    def run(self, config, p):
        return getattr(self, config["kind"])(p)

    def pair(self, p):
        t = p["t"]
        bs = [try_build(t, s) for s in (0, 1, 2)]
        if any(isinstance(b, Exception) for b in bs):
            require(all(isinstance(b, Exception) for b in bs), "one spelling is refused, another accepted: %r", bs)
            raise Discard
        a = bs[0]
        for b in bs[1:] + [a]:
            same(a, b, "spelling")
        for other in (1, None, repr(a), (), object()):
            require(not (a == other) and a != other, "equal to %r: %r", other, a)
        before = U.observe(a)
        clones = [("copy", copy.copy), ("deepcopy", copy.deepcopy)]
        clones += [("pickle%d" % k, lambda e, k=k: pickle.loads(pickle.dumps(e, k))) for k in (2, 3, 4, 5)]
        for what, f in clones:
            try:
                b = f(a)
            except RecursionError:
                require(False, "%s of %r: endless recursion", what, a)
            require(type(b) is type(a), "%s changes the type of %r", what, a)
            same(a, b, what)
            after = U.observe(b)
            for k in before:
                require(after[k] == before[k], "%s of %r changes %s: %r, was %r", what, a, k, after[k], before[k])
        require(U.observe(a) == before, "copying %r changed it", a)
        m = try_build(p["m"], 0)
        if isinstance(m, Exception):
            return {"unmutated"}
        if ident(t) == ident(p["m"]):
            same(a, m, "equivalent description")
            return {"equivalent"}
        different(a, m)
        return {"mutated"} | {"has:" + k for k in U.kinds(t)}

    def pool(self, p):
        els = []
        for t, s in zip(p["ts"], p["styles"]):
            b = try_build(t, s)
            if not isinstance(b, Exception):
                els.append((ident(t), b))
        if len(els) < 2:
            raise Discard
        for i, a in els:
            for j, b in els:
                if i == j:
                    same(a, b, "pool")
                else:
                    different(a, b)
        ids = {i for i, _ in els}
        require(len({b for _, b in els}) == len(ids), "a set holds %d of %d distinct elements", len({b for _, b in els}), len(ids))
        d = {b: i for i, b in els}
        for i, b in els:
            require(d[b] == i, "dictionary lookup with %r finds another element", b)
        s0 = [repr(b) for b in sorted(b for _, b in els)]
        require(s0 == sorted(repr(b) for _, b in els), "the order does not agree with the printed form")
        r = random.Random(p["seed"])
        sh = [b for _, b in els]
        r.shuffle(sh)
        require([repr(b) for b in sorted(sh)] == s0, "sorting depends on the initial order")
        return {"distinct:%d" % min(len(ids), 6)} if len(ids) > 1 else False

    def process(self, p):
        trees, els = [], []
        for i, t in enumerate(p["ts"]):
            b = try_build(t, i % 3)
            if not isinstance(b, Exception):
                trees.append([t, i % 3])
                els.append(b)
        if not els:
            raise Discard
        order = [repr(b) for b in sorted(els)]
        for seed in p["seeds"]:
            env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=os.pathsep.join([REPO, HERE, os.path.join(HERE, "vendor")]))
            r = subprocess.run([sys.executable, "-c", "import sys; sys.path.append(%r)\n%s" % (
                "/opt/veriftools/pyvenv/lib/python3.12/site-packages", CHILD)], input=json.dumps(trees), env=env,
                capture_output=True, text=True, timeout=300)
            if r.returncode < 0:
                raise HarnessError("child process killed (%d)" % r.returncode)
            require(r.returncode == 0, "building or pickling fails in another process: %s", r.stderr[-400:])
            out = json.loads(r.stdout)
            for k, e in enumerate(els):
                require(out["repr"][k] == repr(e), "printed form differs in another process: %r / %s", e, out["repr"][k])
                require(out["hash"][k] == str(hash(e)), "hash of %r differs in another process (hash seed %d)", e, seed)
                same(e, pickle.loads(base64.b64decode(out["pickle"][k])), "pickled in another process")
            require(out["order"] == order, "order differs in another process")
        return {"process"}


CHECK = C19()
