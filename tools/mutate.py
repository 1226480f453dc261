#!/usr/bin/env python3
"""Mutation testing of the checks.  mutate.py OUT.jsonl [--n N] [--seed S] [--jobs J] FILES...
Random single-site mutants of the named repository files; each is run against the quick checks
that claim to cover the file (first kill wins); survivors are run against the repository's tests."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time, hashlib, argparse
V = os.environ.get("MUT_VERIF", "/verif")
PY = "/opt/venv/bin/python"
MAP = {
 "finat/fiat_elements.py": "C01 C08 C09 C15 C07 C02 C26",
 "finat/physically_mapped.py": "C10 C12 C11",
 "finat/piola_mapped.py": "C10 C11 C12",
 "finat/tensor_product.py": "C03 C02 C08 C09 C25",
 "finat/cube.py": "C03 C02 C08 C07 C25 C09",
 "finat/enriched.py": "C04 C08 C02 C25 C07",
 "finat/mixed.py": "C04 C02 C25",
 "finat/tensorfiniteelement.py": "C05 C09 C08 C02 C07",
 "finat/hdivcurl.py": "C06 C02 C08 C25",
 "finat/discontinuous.py": "C07 C08 C25 C09 C02",
 "finat/restricted.py": "C16",
 "finat/quadrature.py": "C14 C15",
 "finat/quadrature_element.py": "C15 C25 C26",
 "finat/point_set.py": "C15 C03",
 "finat/spectral.py": "C17 C01",
 "finat/sympy2gem.py": "C18 C02",
 "finat/direct_serendipity.py": "C13 C26",
 "finat/runtime_tabulated.py": "C24",
 "finat/finiteelementbase.py": "C07 C08 C09 C01 C25",
 "finat/nodal_enriched.py": "C27",
}
def checks_for(f):
    if f in MAP: return MAP[f].split()
    if f.startswith("finat/ufl/"): return "C19 C20 C21 C22 C23".split()
    return "C10 C11 C12".split()

def sites(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    b = src.encode()
    def span(n): return off[n.lineno-1] + n.col_offset, off[n.end_lineno-1] + n.end_col_offset
    def seg(n): s, e = span(n); return b[s:e].decode()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0])); doc.add(id(n.body[0].value))
    skipfn = {"__repr__", "__str__", "_repr_latex_"} if False else set()
    out = []
    def add(n, new, what):
        s, e = span(n)
        out.append((s, e, new, what, n.lineno))
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n): parents[id(c)] = n
    def in_raise(n):
        while id(n) in parents:
            n = parents[id(n)]
            if isinstance(n, (ast.Raise, ast.JoinedStr)): return True
            if isinstance(n, ast.Assert): return True
        return False
    for n in ast.walk(tree):
        if id(n) in doc or in_raise(n): continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            sw = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
            for o in sw.get(type(n.ops[0]), []): add(n, "(%s %s %s)" % (l, o, r), "cmp")
        elif isinstance(n, ast.BinOp):
            l, r = seg(n.left), seg(n.right)
            sw = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["//"], ast.Pow: ["*"], ast.MatMult: ["*"], ast.BitOr: ["&"], ast.BitAnd: ["|"]}
            for o in sw.get(type(n.op), []): add(n, "(%s %s %s)" % (l, o, r), "arith")
            if isinstance(n.op, (ast.Add, ast.MatMult, ast.Sub)): add(n, "(%s %s %s)" % (r, {ast.Add: "+", ast.MatMult: "@", ast.Sub: "-"}[type(n.op)], l), "swap-operands")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % seg(v) for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                rest = [seg(v) for j, v in enumerate(n.values) if j != i]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % x for x in rest) + ")", "drop-cond")
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub)): add(n, "(%s)" % seg(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool): add(n, str(not n.value), "bool")
            elif isinstance(n.value, int): add(n, str(n.value + 1), "const+1"); 
            elif isinstance(n.value, float): add(n, repr(n.value + 1), "const+1")
            elif isinstance(n.value, str) and not isinstance(parents.get(id(n)), (ast.Expr, ast.JoinedStr, ast.FormattedValue)) and len(n.value) < 30 and n.value: add(n, repr(n.value + "x"), "str")
            if isinstance(n.value, int) and not isinstance(n.value, bool) and n.value > 0: add(n, str(n.value - 1), "const-1")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, "(not (%s))" % seg(n.test), "negate-if")
            if isinstance(n, ast.If): add(n.test, "False", "if-false")
        elif isinstance(n, ast.Call):
            name = seg(n.func)
            if name in ("sorted", "reversed", "abs", "set", "frozenset", "deepcopy", "copy.deepcopy") and len(n.args) == 1 and not n.keywords: add(n, ("list(%s)" if name in ("sorted", "reversed") else "(%s)") % seg(n.args[0]), "drop-" + name)
            if name in ("max", "min"): add(n.func, "min" if name == "max" else "max", "minmax")
            if name in ("any", "all"): add(n.func, "all" if name == "any" else "any", "anyall")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and name not in ("isinstance", "issubclass", "hasattr", "getattr", "range", "str.format"):
                a = [seg(x) for x in n.args]; i = 0
                a[0], a[1] = a[1], a[0]
                kw = ["%s=%s" % (k.arg, seg(k.value)) if k.arg else "**" + seg(k.value) for k in n.keywords]
                if a[0] != a[1]: add(n, "%s(%s)" % (name, ", ".join(a + kw)), "swap-args")
            for i in range(len(n.keywords)):
                kw = ["%s=%s" % (k.arg, seg(k.value)) if k.arg else "**" + seg(k.value) for j, k in enumerate(n.keywords) if j != i]
                add(n, "%s(%s)" % (name, ", ".join([seg(x) for x in n.args] + kw)), "drop-kw")
            if name == "range" and len(n.args) == 1: add(n, "range(%s - 1)" % seg(n.args[0]), "range-1")
            if name == "zip" and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args): pass
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield)): continue
            if "itations" in seg(n): continue
            add(n, "pass", "delete-stmt")
            if isinstance(n, ast.AugAssign):
                sw = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/="}
                if type(n.op) in sw: add(n, "%s %s %s" % (seg(n.target), sw[type(n.op)], seg(n.value)), "augassign")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            pass
        elif isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs: add(c, "True", "drop-filter")
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            a, c = seg(n.elts[0]), seg(n.elts[1])
            if a != c: add(n, "(%s, %s)" % (c, a), "swap-tuple")
        elif isinstance(n, ast.BinOp): pass
    return b, out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("files", nargs="+"); ap.add_argument("--n", type=int, default=20); ap.add_argument("--seed", type=int, default=0); ap.add_argument("--time", type=float, default=1e9)
    a = ap.parse_args()
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp"); root = d + "/repo"
    subprocess.run("cp -a /repo %s; cp -a %s %s/verif; rm -f %s/verif/evidence/*" % (root, V, d, d), shell=True)
    t_end = time.time() + a.time
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out): done.add(json.loads(l)["key"])
    try:
        for f in a.files:
            src = open(os.path.join(root, f)).read()
            b, S = sites(src)
            rng = random.Random("%d %s" % (a.seed, f)); rng.shuffle(S)
            k = 0
            for s, e, new, what, line in S:
                if k >= a.n or time.time() > t_end: break
                m = b[:s] + new.encode() + b[e:]
                try: ast.parse(m)
                except SyntaxError: continue
                if ast.dump(ast.parse(m)) == ast.dump(ast.parse(b)): continue
                key = hashlib.sha1((f + m.decode()).encode()).hexdigest()[:12]
                k += 1
                if key in done: continue
                open(os.path.join(root, f), "wb").write(m)
                rec = dict(key=key, file=f, line=line, what=what, old=b[s:e].decode()[:200], new=new[:200])
                env = dict(os.environ, FINAT_REPO=root, VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1")
                imp = subprocess.run([PY, "-c", "import finat, finat.ufl"], cwd=root, env=dict(env, PYTHONPATH=root), capture_output=True, text=True)
                t0 = time.time()
                if imp.returncode: rec["result"] = "import-error"
                else:
                    rec["result"] = "SURVIVED"
                    for c in checks_for(f):
                        if not os.path.exists(d + "/verif/checks/%s.py" % c.lower()): continue
                        try: r = subprocess.run(["python3", "run.py", c], cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=900)
                        except subprocess.TimeoutExpired: rec["result"] = "timeout " + c; break
                        if r.returncode == 1 and "VIOLATION property=" in r.stdout: rec["result"] = "killed " + c; break
                        if r.returncode not in (0, 1): rec["result"] = "broken %s rc=%d" % (c, r.returncode); rec["log"] = (r.stdout + r.stderr)[-500:]; break
                    if rec["result"] == "SURVIVED":
                        r = subprocess.run("cd %s && PYTHONPATH=%s OMP_NUM_THREADS=1 %s -m pytest -q -x -p no:cacheprovider test 2>&1" % (root, root, PY), shell=True, capture_output=True, text=True)
                        rec["tests"] = (r.stdout.strip().splitlines() or [""])[-1]
                rec["t"] = round(time.time() - t0, 1)
                open(a.out, "a").write(json.dumps(rec) + "\n")
                print(rec["result"], f, line, what, repr(rec["old"][:60]), "->", repr(new[:60]), rec.get("tests", ""), rec["t"], flush=True)
            open(os.path.join(root, f), "w").write(src)
    finally:
        shutil.rmtree(d)
main()
