"""Core of the property-based testing framework: exceptions, sharded runner,
evidence, replay."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this case."""


class Discard(Exception):
    """The case is outside the property's domain."""


class HarnessError(Exception):
    """The check could not do its job (never a violation)."""


class _StopShrink(BaseException):
    pass


RESOURCE = (MemoryError, OSError, HarnessError)


def require(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def rejects(fn, *args, exc=Exception, what="invalid input", **kw):
    """`fn` must refuse its input by raising."""
    try:
        r = fn(*args, **kw)
    except exc:
        return
    raise Violation("%s accepted: got %r" % (what, r))


def close(a, b, rtol=1e-8, atol=1e-9, what="values"):
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return
    a = a.astype(complex) if a.dtype.kind == "c" else a.astype(float)
    scale = max(1.0, float(np.max(np.abs(b))) if np.all(np.isfinite(b)) else 1.0)
    err = np.abs(a - b)
    tol = atol * scale + rtol * np.abs(b)
    bad = ~(err <= tol)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err - tol)), err.shape)
        raise Violation("%s differ at %s: got %r, expected %r (%d of %d entries differ)"
                        % (what, tuple(int(k) for k in i), complex(a[i]) if a.dtype.kind == "c" else float(a[i]),
                           complex(b[i]) if b.dtype.kind == "c" else float(b[i]), int(bad.sum()), bad.size))


def canon(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(canon(list(parts)).encode()).digest()[:6], "big")


class Check:
    """Subclass per property."""
    id = None
    rule = ""
    assumptions = []
    quick = 12          # examples per config (default)
    thorough = 80
    seconds_quick = 420      # stop starting new work after this long
    seconds_thorough = 6600

    def configs(self, tier):
        raise NotImplementedError

    def params(self, config):
        from hypothesis import strategies as st
        return st.just({})

    def run(self, config, params):
        """Raise Violation / Discard; return truthy (optionally a set of
        labels) if the case was non-trivial, falsy if trivial."""
        raise NotImplementedError

    def examples(self, config, tier):
        n = self.thorough if tier == "thorough" else self.quick
        return max(1, int(round(n * config.get("w", 1))))

    def clear(self):
        from vlib import catalogue
        catalogue.clear_caches()

    # optional: known findings matcher
    def known(self, config, params, msg, findings):
        return None


def load_check(pid):
    mod = importlib.import_module("checks.%s" % pid.lower())
    return mod.CHECK


def _execute(check, config, params):
    """Run one case. Returns (status, info): ok/trivial/discard/violation."""
    try:
        r = check.run(config, params)
    except Discard:
        return "discard", None
    except Violation as e:
        return "violation", str(e)
    except RESOURCE as e:
        raise HarnessError("%s: %s" % (type(e).__name__, e)) from e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
        return "violation", "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where)
    return ("ok" if r else "trivial"), (r if isinstance(r, (set, list, tuple)) else None)


SHRINK_SECONDS = 25


def _in_repo(e):
    """Was this exception raised in (or below) the code under test?"""
    import finat
    root = os.path.dirname(os.path.abspath(finat.__file__)) + os.sep
    return any(os.path.abspath(f.filename).startswith(root) for f in traceback.extract_tb(e.__traceback__))


def run_config(check, config, tier, seed, deadline):
    """Drive Hypothesis over one configuration."""
    import hypothesis
    from hypothesis import settings, Phase, HealthCheck, strategies as st
    out = dict(evaluations=0, discards=0, trivial=0, digests=[], samples=[],
               violation=None, labels={}, error=None, done=False, skipped=None)
    state = dict(best=None, t_fail=None, history=[])
    check.clear()
    n = check.examples(config, tier)

    def body(params):
        params = json.loads(canon(params))
        st_, info = _execute(check, config, params)
        if state["t_fail"] is None:
            out["evaluations"] += 1
            if st_ == "discard":
                out["discards"] += 1
            elif st_ == "trivial":
                out["trivial"] += 1
            elif st_ == "ok":
                out["digests"].append(hashlib.sha1((canon(config) + canon(params)).encode()).hexdigest()[:16])
                for lab in info or ():
                    out["labels"][lab] = out["labels"].get(lab, 0) + 1
                if not out["samples"]:
                    out["samples"].append({"config": config, "params": params})
        if st_ == "violation":
            size = len(canon(params))
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
                state["prefix"] = list(state["history"])
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, params, info)
            if time.time() - state["t_fail"] > SHRINK_SECONDS:
                raise _StopShrink()
            raise Violation(info)
        if state["t_fail"] is None:
            state["history"].append(params)
            if time.time() > deadline:
                raise _StopShrink()
        elif time.time() - state["t_fail"] > SHRINK_SECONDS:
            raise _StopShrink()
        if st_ == "discard":
            hypothesis.reject()

    try:
        test = hypothesis.given(check.params(config))(body)
        test = hypothesis.seed(seed_of(seed, check.id, config))(test)
        test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                        report_multiple_bugs=False, print_blob=False,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck))(test)
        test()
        out["done"] = True
    except _StopShrink:
        pass
    except Violation:
        pass
    except HarnessError as e:
        out["error"] = str(e)
    except hypothesis.errors.Unsatisfiable:
        out["done"] = True      # every case was outside the domain
    except Exception as e:
        if state["best"] is None:
            if _in_repo(e):
                # the generators consult the library, which failed on valid input
                out["violation"] = {"property": check.id, "config": config, "params": {},
                                    "message": "unexpected %s while generating a case: %s" % (type(e).__name__, str(e)[:300])}
                return out
            out["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    if state["best"] is not None:
        _, params, msg = state["best"]
        # does it reproduce with a clean slate?
        check.clear()
        st_, info = _execute(check, config, params)
        case = {"property": check.id, "config": config, "params": params, "message": msg}
        if st_ == "violation":
            case["message"] = info
        else:
            case["history"] = state.get("prefix", [])[-60:]
            case["message"] += " (only after the preceding calls in 'history')"
        out["violation"] = case
    return out


def _worker(check, configs, tier, seed, deadline, stop, order, counter, queue_out):
    import warnings
    warnings.simplefilter("ignore")
    sys.stdout = open(os.devnull, "w")
    try:
        while True:
            with counter.get_lock():
                pos = counter.value
                counter.value += 1
            if pos >= len(order):
                break
            k = order[pos]
            if time.time() > deadline or stop.value >= 3:
                queue_out.put((k, None))
                continue
            t0 = time.time()
            try:
                r = run_config(check, configs[k], tier, seed, deadline)
            except BaseException as e:
                r = dict(error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()),
                         evaluations=0, discards=0, trivial=0, digests=[], samples=[],
                         violation=None, labels={}, done=False)
            r["t"] = time.time() - t0
            if r["violation"] is not None and not check.known_case(r["violation"]):
                with stop.get_lock():
                    stop.value += 1
            queue_out.put((k, r))
    finally:
        queue_out.put((-1, None))


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def _known_case(self, case):
    for f in load_known():
        if f["property"] == self.id and f.get("status") == "known":
            m = f["match"]
            if all(case["config"].get(k) == v for k, v in m.get("config", {}).items()) and \
               all(case["params"].get(k) == v for k, v in m.get("params", {}).items()) and \
               m.get("message", "") in case["message"]:
                return f
    return None


Check.known_case = _known_case


def main(pid, tier=None, seed=None, jobs=None, only=None, verbose=False):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = seed_of(os.environ.get("VERIF_SEED"))
    check = load_check(pid)
    configs = list(check.configs(tier))
    if only:
        configs = [c for c in configs if only in canon(c)]
    order = sorted(range(len(configs)), key=lambda k: (-configs[k].get("cost", 1), seed_of(seed, configs[k])))
    limit = check.seconds_thorough if tier == "thorough" else check.seconds_quick
    limit = float(os.environ.get("VERIF_LIMIT", limit))
    deadline = t0 + limit
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(configs)))
    ctx = mp.get_context("fork")
    qo = ctx.Queue()
    stop = ctx.Value("i", 0)
    counter = ctx.Value("i", 0)
    procs = [ctx.Process(target=_worker, args=(check, configs, tier, seed, deadline, stop, order, counter, qo), daemon=True)
             for _ in range(jobs)]
    for p in procs:
        p.start()
    results = {}
    ended = 0
    hard = deadline + 240
    import queue as _q
    while ended < jobs:
        try:
            k, r = qo.get(timeout=5)
        except _q.Empty:
            if time.time() > hard or not any(p.is_alive() for p in procs):
                break
            continue
        if k == -1:
            ended += 1
        else:
            results[k] = r
            if verbose and r is not None:
                print("%6.2fs ev=%d disc=%d triv=%d %s %s %s" % (r["t"], r["evaluations"], r["discards"], r["trivial"],
                      canon(configs[k]), (r["violation"] or {}).get("message", ""), r["error"] or ""), flush=True)
    crashed = [p.exitcode for p in procs if p.exitcode not in (0, None)]
    for p in procs:
        if p.is_alive():
            p.terminate()
    # a worker that died (e.g. killed) is a harness error
    ev = sum(r["evaluations"] for r in results.values() if r)
    digests = set()
    samples = []
    labels = {}
    errors = []
    violations = []
    for k in sorted(results):
        r = results[k]
        if not r:
            continue
        digests.update(r["digests"])
        for lab, c in r["labels"].items():
            labels[lab] = labels.get(lab, 0) + c
        if r["samples"] and len(samples) < 400:
            samples += r["samples"]
        if r["error"]:
            errors.append("%s: %s" % (canon(configs[k]), r["error"]))
        if r["violation"]:
            violations.append(r["violation"])
    step = max(1, len(samples) // 5)
    samples = samples[::step][:5]
    known, fresh = [], []
    for v in violations:
        f = check.known_case(v)
        (known if f else fresh).append((f, v))
    evidence = {
        "property": check.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(digests), "rule": check.rule,
            "samples": samples,
            "configurations": len(configs),
            "configurations_completed": sum(1 for r in results.values() if r and r["done"]),
            "configurations_not_started": sum(1 for k in range(len(configs)) if not results.get(k)),
            "discarded": sum(r["discards"] for r in results.values() if r),
            "trivial": sum(r["trivial"] for r in results.values() if r),
            "classes": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:80]),
        },
        "assumptions": list(check.assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % check.id), "w") as f:
        json.dump(evidence, f, indent=1)
    # Known findings: re-run each listed case directly so that it is reported
    # whether or not the random search met it.
    for f in load_known():
        if f["property"] == check.id and f.get("status") == "known":
            check.clear()
            try:
                s, info = _execute(check, f["case"]["config"], f["case"]["params"])
            except HarnessError:
                s = None
            if s == "violation":
                print("KNOWN-FINDING: property=%s %s" % (check.id, f["what"]), flush=True)
    for i, (_, v) in enumerate(fresh[:5]):
        path = os.path.join(VERIF, "evidence", "replay_%s_%s.json" % (check.id, hashlib.sha1(canon(v["config"]).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("  %s %s -> %s" % (canon(v["config"]), canon(v["params"])[:600], v["message"]), flush=True)
        print("VIOLATION property=%s replay=%s" % (check.id, path), flush=True)
    print("%s tier=%s seed=%d configs=%d/%d evaluations=%d nontrivial=%d violations=%d errors=%d wall=%.1fs"
          % (check.id, tier, seed, evidence["coverage"]["configurations_completed"], len(configs), ev,
             len(digests), len(fresh), len(errors), time.time() - t0), flush=True)
    if fresh:
        return 1
    if errors or crashed or ended < jobs:
        for e in errors[:5]:
            print("HARNESS-ERROR %s" % e, file=sys.stderr)
        if crashed or ended < jobs:
            print("HARNESS-ERROR worker ended abnormally: %r" % (crashed,), file=sys.stderr)
        return 2
    if not digests:
        print("HARNESS-ERROR nothing was explored", file=sys.stderr)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        case = json.load(f)
    check = load_check(case["property"])
    check.clear()
    if "while generating a case" in case["message"]:
        v = run_config(check, case["config"], "quick", 1, time.time() + 600)["violation"]
        print("%s: %s" % (case["property"], v and v["message"]))
        if v:
            print("VIOLATION property=%s replay=%s" % (case["property"], path))
        return 1 if v else 0
    for p in case.get("history", []):
        _execute(check, case["config"], p)
    st_, info = _execute(check, case["config"], case["params"])
    print("%s: %s %s" % (case["property"], st_, info or ""))
    if st_ == "violation":
        print("VIOLATION property=%s replay=%s" % (case["property"], path))
        return 1
    return 0
