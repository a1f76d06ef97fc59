"""Runs the harnesses of one property: symbolic exploration in a process pool,
counterexample replay on plain code, evidence file, exit status."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_path():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pfrl

    assert os.path.realpath(pfrl.__file__).startswith(os.path.realpath(REPO)), pfrl.__file__


class Harness:
    """One symbolic obligation family.

    fn(S, **cfg): builds symbolic inputs from S, runs real code, asserts.
    quick/thorough: lists of config dicts (the stated bounds).
    covers: labels that must be reached on some completed path (vacuity guard).
    functions: the pfrl functions executed symbolically.
    """

    def __init__(self, fn, quick, thorough=None, covers=(), functions=(), bounds="", opts=None, name=None):
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.covers = tuple(covers)
        self.functions = tuple(functions)
        self.bounds = bounds
        self.opts = opts or {}

    def configs(self, tier):
        if tier == "thorough" and self.thorough is not None:
            return self.thorough
        return self.quick


def load(pid):
    return importlib.import_module("props.%s" % pid.lower())


def get_harness(pid, name):
    for h in load(pid).HARNESSES:
        if h.name == name:
            return h
    raise KeyError(name)


def _run_one(job):
    pid, hname, cfg, tier, time_limit = job
    import warnings

    warnings.simplefilter("ignore")
    from symex import core, symtorch
    import torch

    torch.set_num_threads(1)
    h = get_harness(pid, hname)
    opts = dict(h.opts)
    opts.setdefault("time_limit", time_limit)
    t = time.time()
    symtorch.OPLOG.clear()
    out = {"harness": hname, "cfg": cfg}
    try:
        res = core.explore(lambda S: h.fn(S, **cfg), opts)
        out["violations"] = res.violations
        out["errors"] = res.errors
        out["tb"] = getattr(res, "tb", None)
        out["unsupported_inputs"] = getattr(res, "unsupported_inputs", None)
        out["stats"] = res.stats.as_dict()
    except BaseException as e:  # engine failure
        out["violations"] = []
        out["errors"] = ["engine: %r" % (e,)]
        out["tb"] = traceback.format_exc()
        out["stats"] = core.Stats().as_dict()
    out["ops"] = sorted(symtorch.OPLOG)
    out["wall_s"] = time.time() - t
    return out


def _alarm(signum, frame):
    raise TimeoutError("replay time limit")


def _run_replay(job):
    """Confirm a counterexample on plain code.  Returns dict or None."""
    pid, hname, cfg, values, kind, seed = job
    import warnings
    import signal

    warnings.simplefilter("ignore")
    from symex import core
    import torch

    torch.set_num_threads(1)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(120)
    h = get_harness(pid, hname)
    f = lambda S: h.fn(S, **cfg)
    tried = []
    # 1. the solver's assignment
    st, msg, used = core.replay(f, values)
    if st == "violated":
        return {"values": used, "msg": msg, "source": "solver model"}
    # 2. the solver says sat on this configuration, but the model's values for
    # uninterpreted functions may differ from the real ones: look for a concrete
    # witness near it (only used to confirm, never to decide)
    rng = random.Random(seed)
    t0 = time.time()
    for i in range(400):
        if time.time() - t0 > 90:
            break
        if i % 2 == 0:
            vals = {k: v for k, v in values.items() if rng.random() < 0.7}
            # keep discrete choices, perturb reals
            vals = {k: v for k, v in vals.items() if not isinstance(v, float) or rng.random() < 0.4}
        else:
            vals = {}
        st, msg, used = core.replay(f, vals, rng=rng)
        if st == "violated":
            return {"values": used, "msg": msg, "source": "witness search"}
    return None


def _child(fn, job, q):
    try:
        q.put(fn(job))
    except BaseException:
        q.put({"__error__": traceback.format_exc()})


def run_jobs(fn, jobs, nproc, deadline):
    """A tiny process pool: one fresh forked process per job, hard deadline."""
    results = [None] * len(jobs)
    running = {}
    nxt = 0
    ctx = mp.get_context("fork")
    while nxt < len(jobs) or running:
        while nxt < len(jobs) and len(running) < nproc:
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=(fn, jobs[nxt], q))
            p.start()
            running[nxt] = (p, q)
            nxt += 1
        done = []
        for i, (p, q) in running.items():
            if not q.empty():
                results[i] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
                done.append(i)
            elif not p.is_alive():
                if not q.empty():
                    results[i] = q.get()
                else:
                    results[i] = {"__error__": "worker died (exit %s)" % p.exitcode}
                done.append(i)
        for i in done:
            del running[i]
        if time.time() > deadline:
            for i, (p, q) in running.items():
                p.kill()
                results[i] = {"__error__": "deadline"}
            for i in range(nxt, len(jobs)):
                results[i] = {"__error__": "deadline (not started)"}
            break
        if not done:
            time.sleep(0.02)
    return results


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args(argv)
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    setup_path()
    import torch

    torch.set_num_threads(1)
    try:
        mod = load(pid)
    except Exception as e:  # the tree cannot be imported as the harnesses expect it: no answer
        print("INCONCLUSIVE property=%s cannot load the code under check: %r" % (pid, e))
        sys.exit(3)
    budget = float(os.environ.get("VERIF_BUDGET", 780 if tier == "quick" else 3000))
    deadline = t0 + budget
    jobs = []
    for h in mod.HARNESSES:
        if a.only and a.only not in h.name:
            continue
        for cfg in h.configs(tier):
            jobs.append((pid, h.name, cfg, tier, budget - 30))
    from symex import symtorch

    symtorch.warmup()
    outs = run_jobs(_run_one, jobs, a.j, deadline)
    errors = []
    cands = []
    tot = dict(paths=0, completed=0, aborted=0, branches=0, queries=0, assertions=0, solver_s=0.0)
    covers = {}
    per = {}
    ops = set()
    decided = set()
    for job, o in zip(jobs, outs):
        if "__error__" in o:
            errors.append("%s %s: %s" % (job[1], job[2], o["__error__"]))
            continue
        s = o["stats"]
        for k in tot:
            tot[k] += s[k]
        p = per.setdefault(job[1], dict(configs=0, paths=0, queries=0, assertions=0, solver_s=0.0, wall_s=0.0))
        p["configs"] += 1
        for k in ("paths", "queries", "assertions", "solver_s"):
            p[k] += s[k]
        p["wall_s"] += o["wall_s"]
        ops |= set(o["ops"])
        for c, n in s["covers"].items():
            covers[(job[1], c)] = covers.get((job[1], c), 0) + n
        if s["completed"] == 0 and not o["violations"] and not o["errors"]:
            errors.append("%s %s: no path reached the assertions (vacuous)" % (job[1], job[2]))
        for v in o["violations"]:
            cands.append((job, v))
        if s["completed"] and not o["violations"] and not o["errors"]:
            decided.add(job[1])
        for e in o["errors"]:
            errors.append("%s %s: %s" % (job[1], job[2], e))
            if o.get("tb") and a.v:
                errors.append(o["tb"])
            if o.get("unsupported_inputs") is not None:
                cands.append((job, {"kind": "unsupported", "msg": e, "inputs": o["unsupported_inputs"]}))
        if a.v:
            print("  %-40s %-60s paths=%d q=%d solver=%.1fs wall=%.1fs %s" % (
                job[1], json.dumps(jsonable(job[2])), s["paths"], s["queries"], s["solver_s"], o["wall_s"],
                "VIOL" if o["violations"] else ("ERR" if o["errors"] else "ok")), flush=True)
    if not cands:
        for h in mod.HARNESSES:
            if a.only and a.only not in h.name:
                continue
            for c in h.covers:
                if not covers.get((h.name, c)) and not any(e.startswith(h.name + " ") for e in errors):
                    errors.append("%s: cover label '%s' never reached (vacuity guard)" % (h.name, c))
    confirmed = []
    unconfirmed = []
    # one replay job per (harness, cfg, message-class), bounded
    seen = {}
    rjobs = []
    for job, v in cands:
        key = (job[1], json.dumps(jsonable(job[2]), sort_keys=True))
        if seen.get(key, 0) >= 3:
            continue
        seen[key] = seen.get(key, 0) + 1
        rjobs.append(((pid, job[1], job[2], v["inputs"], v["kind"], seed), v))
    if rjobs:
        routs = run_jobs(_run_replay, [r[0] for r in rjobs[:24]], a.j, time.time() + 200)
        for (rj, v), ro in zip(rjobs, routs):
            if ro is None:
                if v["kind"] != "unsupported":
                    unconfirmed.append("%s %s: %s (not reproduced)" % (rj[1], rj[2], v["msg"]))
                    if a.v and v.get("tb"):
                        print(v["tb"][-1500:])
            elif "__error__" in ro:
                if v["kind"] != "unsupported":
                    unconfirmed.append("%s %s: replay failed: %s" % (rj[1], rj[2], ro["__error__"][-600:]))
            else:
                confirmed.append((rj, v, ro))
    known = load_known()
    violations = []
    knownhits = []
    for rj, v, ro in confirmed:
        k = match_known(known, pid, rj[1], rj[2], ro)
        if k:
            knownhits.append(k)
            continue
        outdir = os.path.join(VERIF, "out")
        os.makedirs(outdir, exist_ok=True)
        body = {
            "property": pid,
            "harness": rj[1],
            "cfg": jsonable(rj[2]),
            "inputs": jsonable(ro["values"]),
            "message": ro["msg"],
            "source": ro["source"],
            "how": "/opt/venv/bin/python %s/replay.py <this file>" % VERIF,
        }
        hsh = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(outdir, "%s-%s-%s.json" % (pid, rj[1], hsh))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        violations.append((path, body))
    wall = time.time() - t0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": (
                "Path-exhaustive symbolic execution of the real pfrl code with z3: every "
                "feasible path of each harness within the stated bounds was executed on "
                "symbolic inputs and every assertion was discharged by the solver on every path."
            ),
            "functions_encoded": sorted({f for h in mod.HARNESSES for f in h.functions}),
            "harnesses": [
                {
                    "name": h.name,
                    "bounds": h.bounds,
                    "configs": jsonable(h.configs(tier)),
                    **per.get(h.name, {}),
                    "covers": {c: covers.get((h.name, c), 0) for c in h.covers},
                }
                for h in mod.HARNESSES
            ],
            "paths": tot["paths"],
            "paths_completed": tot["completed"],
            "branch_points": tot["branches"],
            "queries_discharged": tot["queries"],
            "assertions": tot["assertions"],
            "solver_time_s": round(tot["solver_s"], 3),
            "torch_operators_interpreted": sorted(ops),
            "inconclusive": errors + unconfirmed,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "violations": [{"replay": p, "message": b["message"]} for p, b in violations],
        "wall_s": round(wall, 3),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    for k in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violations:
        for p, b in violations[:4]:
            print("  %s %s: %s" % (b["harness"], json.dumps(b["cfg"]), str(b["message"])[:300]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if errors or unconfirmed:
        for e in errors + unconfirmed:
            print("INCONCLUSIVE %s: %s" % (pid, e))
        # The property held on everything explored; what was not explored is printed
        # above and recorded in the evidence.  If nothing at all was decided, or a cover
        # label was missed, there is no answer.
        if not decided or any("vacu" in e for e in errors):
            return 3
        print("PARTIAL %s: held on everything explored; see the inconclusive list in the evidence" % pid)
        return 0
    print(
        "OK %s tier=%s paths=%d queries=%d assertions=%d solver=%.1fs wall=%.1fs"
        % (pid, tier, tot["paths"], tot["queries"], tot["assertions"], tot["solver_s"], wall)
    )
    return 0


COMMON_ASSUMPTIONS = [
    "floating-point values are modelled as mathematical reals; rounding, overflow, inf and nan are outside the claim",
    "exp/log/tanh/pow are uninterpreted functions constrained by true facts only",
    "only executions within the stated bounds are covered",
]


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def match_known(known, pid, hname, cfg, ro):
    for k in known:
        if k["property"] != pid or k["harness"] != hname:
            continue
        if not all(cfg.get(a) == b for a, b in k.get("cfg", {}).items()):
            continue
        if not re.search(k["message"], str(ro["msg"])):
            continue
        return k["what"]
    return None


if __name__ == "__main__":
    sys.exit(main())
