#!/usr/bin/env python3
"""plant.py FILE.py : FILE defines BUGS, a list of dict(id, property, edits=[(file, old, new)],
needs, what, demo).  For each, in a scratch copy of /repo: make the change, write
seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}; confirm that the demo passes without
and fails with the change, that the stable tests pass with it, and report what the
property's quick check says.   plant.py --recheck [ids]: run the quick checks again."""
import json, os, shutil, subprocess, sys, tempfile, time
V = "/verif"
PY = "/opt/venv/bin/python"
STABLE = None
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def scratch():
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    sh("cp -a /repo %s/repo" % d)
    return d
def tests(root):
    r = sh("cd %s && PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 %s -m pytest -q -p no:cacheprovider -x --timeout=300 -n 4 test 2>&1 || true" % (root, root, PY))
    if "unrecognized arguments" in r.stdout:
        r = sh("cd %s && PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 %s -m pytest -q -p no:cacheprovider --timeout=300 test 2>&1" % (root, root, PY))
    return r.stdout.strip().splitlines()[-1]
def demo(root, bid):
    return sh("cd %s && bash %s/seeded/%s/demo.sh" % (root, V, bid))
def check(root, prop, seed="1"):
    t = time.time()
    r = sh("cd %s && FINAT_REPO=%s VERIF_SEED=%s timeout 900 python3 run.py %s" % (V, root, seed, prop))
    out = r.stdout + r.stderr
    hit = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s" % prop)]
    extra = [l for l in out.splitlines() if "  " in l or "case" in l][:0]
    return r.returncode, bool(hit), time.time() - t, out
def main():
    if sys.argv[1] == "--recheck":
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        for b in ids:
            d = scratch(); root = d + "/repo"
            meta = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
            r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (root, V, b))
            if r.returncode: print(b, "PATCH DOES NOT APPLY", r.stderr)
            rc, hit, t, out = check(root, meta["property"], os.environ.get("VERIF_SEED", "1"))
            print("%-24s %s rc=%d caught=%s %.0fs" % (b, meta["property"], rc, hit, t), flush=True)
            shutil.rmtree(d)
        return
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        bid = b["id"]; S = "%s/seeded/%s" % (V, bid)
        os.makedirs(S, exist_ok=True)
        d = scratch(); root = d + "/repo"
        try:
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(S + "/meta.json", "w"), indent=1)
            open(S + "/demo.py", "w").write(b["demo"])
            open(S + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            r0 = demo(root, bid)
            bad = False
            for f, old, new in b["edits"]:
                s = open(root + "/" + f).read()
                if s.count(old) != 1:
                    print(bid, "EDIT does not match once:", f, s.count(old)); bad = True; break
                open(root + "/" + f, "w").write(s.replace(old, new))
            if bad: shutil.rmtree(S); continue
            diff = sh("git -C %s diff" % root).stdout
            open(S + "/patch.diff", "w").write(diff)
            r1 = demo(root, bid)
            t = tests(root)
            ok = r0.returncode == 0 and r1.returncode != 0
            rc, hit, tt, out = check(root, b["property"])
            print("%-22s %s demo %d/%d  tests: %s  check rc=%d caught=%s %.0fs" % (bid, b["property"], r0.returncode, r1.returncode, t, rc, hit, tt), flush=True)
            if not ok: print(r0.stdout[-600:], r0.stderr[-600:], "----", r1.stdout[-600:], r1.stderr[-600:])
            if rc == 1: print("     ", [l for l in out.splitlines() if "VIOLATION" not in l and l.strip()][-1][:300])
            if rc not in (0, 1): print(out[-1500:])
        finally:
            shutil.rmtree(d)
main()
