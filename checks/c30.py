"""C30 the answers are the same in every process."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vlib import catalogue as C
from vlib import model as M
from vlib import specs as S
from vlib import uflx as U
from vlib.core import Check, Discard, HarnessError, require
from checks.comp import ZANY, PLAIN, st_eval, st_geo, same_shape, labels

REPO = os.environ.get("FINAT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CELLS = ["I", "T", "K", "Q", "IxI", "TxI", "QxI", "IxT", "H", "IxIxI", "KxI"]
HEAVY = ("K", "H", "KxI", "TxI", "IxIxI", "IxT")


class Child:
    """A process with its own hash seed that answers requests."""

    def __init__(self, seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   PYTHONPATH=os.pathsep.join([REPO, HERE, os.path.join(HERE, "vendor"), "/opt/veriftools/pyvenv/lib/python3.12/site-packages"]))
        self.p = subprocess.Popen([sys.executable, "-c", "import sys; sys.path.remove(%r); sys.path.append(%r); from vlib import finger; finger.serve()" % (
            ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",) * 2)], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def send(self, request):
        self.p.stdin.write(json.dumps(request) + "\n")
        self.p.stdin.flush()

    def receive(self):
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("a process answering requests ended (%s)" % self.p.wait())
        r = json.loads(line)
        if isinstance(r, dict):
            raise HarnessError(r["error"])
        return r


CHILDREN = {}


def ask(requests):
    """Answers of processes with different hash seeds, one request each."""
    kids = []
    for k, r in enumerate(requests):
        key = (os.getpid(), k)
        if key not in CHILDREN:
            CHILDREN[key] = Child([1, 4242, 7, 99, 123456][k])
        kids.append(CHILDREN[key])
    try:
        for c, r in zip(kids, requests):
            c.send(r)
        return [c.receive() for c in kids]
    except BaseException as e:
        for k in range(len(kids)):
            CHILDREN.pop((os.getpid(), k)).p.kill()
        if isinstance(e, OSError):
            raise HarnessError("a process answering requests cannot be reached: %s" % e)
        raise


class C30(Check):
    id = "C30"
    quick = 150
    thorough = 4000
    rule = ("A case is a list of descriptions (elements with requests for tables, symbolic tables, dual bases, layouts, supports, permutations, degrees and rules; "
            "or symbolic elements), put to two processes with different hash seeds, the second in reverse order and after a different history. Fingerprints of "
            "the answers (the structure of the expressions with indices in order of appearance, rounded constants, dictionaries in their order) must agree. "
            "Non-trivial: at least one request was answered.")
    assumptions = ["constants are compared after rounding to 1e-5 of the largest entry; where they differ, again with shifted rounding",
                   "the free indices of dual_evaluation are outside (GEM orders them by creation)"]

    def configs(self, tier):
        out = []
        for cn in CELLS:
            out.append({"k": "elements", "cell": cn, "w": 0.4 if cn in HEAVY else 1, "cost": 3 if cn in HEAVY else 1})
        for c in "ITK":
            out.append({"k": "leaves", "cell": c, "w": 0.6, "tier": tier})
        for c in sorted(ZANY):
            out.append({"k": "mapped", "cell": c, "w": 0.6, "cost": 4})
        out.append({"k": "symbolic", "cell": None, "w": 1.5})
        return out

    def params(self, config):
        k, cn = config["k"], config["cell"]
        if k == "symbolic":
            return st.fixed_dictionaries({"jobs": st.lists(U.any_cell().flatmap(lambda x: U.tree(x, 3)).map(lambda t: {"tree": t}), min_size=2, max_size=8)})
        ev = st_eval(cn, 1 if cn in HEAVY else 2)
        plain = [st.sampled_from([{"k": x} for x in ("layout", "support", "perm", "meta", "dual")]),
                 st.integers(0, 5).map(lambda d: {"k": "quad", "deg": d})]
        if k == "mapped":
            z, mix = st_zany_pair(cn)
            if cn == "K":
                # Johnson-Mercier composites take many seconds here
                z = st.sampled_from(ZANY[cn][:2])
                mix = st.one_of(z, st.sampled_from(PLAIN[cn]))
            spec = st.one_of(z, z, st.lists(z, min_size=2, max_size=2).map(same_shape), S.mixed_of(mix),
                             z.map(lambda s: {"el": "Vec", "of": s, "shape": [2], "transpose": False}))
            op = st.one_of(st.fixed_dictionaries({"k": st.just("tab"), "ev": st_eval(cn, 1 if cn in "IT" else 0), "geo": st_geo(cn)}), *plain)
        else:
            spec = S.any_spec(cn) if k == "elements" else st.sampled_from([s for s in C.simple_leaves(config["tier"]) if s["cell"] == cn])
            op = st.one_of(st.fixed_dictionaries({"k": st.just("tab"), "ev": ev}), st.fixed_dictionaries({"k": st.just("pt"), "ev": st_eval(cn, 0)}), *plain)
        job = st.fixed_dictionaries({"spec": spec, "ops": st.lists(op, min_size=2, max_size=5)})
        return st.fixed_dictionaries({"jobs": st.lists(job, min_size=1, max_size=3)})

    def run(self, config, p):
        def answers(offset, jobs):
            return ask([{"jobs": jobs, "reverse": bool(r), "offset": offset} for r in range(many)])
        many = 5 if config["k"] == "symbolic" else 2
        first, *others = answers(0.0, p["jobs"])
        out = set()
        for j, x, y in ((j, x, y) for b in others for j, x, y in zip(p["jobs"], first, b)):
            for k, (u, v) in enumerate(zip(x, y)):
                if u != v:
                    u, v, *_ = [r[0][k] for r in answers(0.37, [j])]
                what = j["ops"][k]["k"] if "ops" in j and k < len(j["ops"]) else "tree"
                require(u == v, "%s of %s differs between processes: %s / %s", what, j.get("spec", j.get("tree")), str(u)[:300], str(v)[:300])
                out.add(("refused:" if isinstance(u, list) and u and u[0] == "refused" else "same:") + what)
            if "spec" in j:
                out |= labels(j["spec"])
        return out if any(l.startswith("same:") for l in out) else False


def st_zany_pair(cn):
    z = st.sampled_from(ZANY[cn])
    return z, st.one_of(z, z, st.sampled_from(PLAIN[cn]))


CHECK = C30()
