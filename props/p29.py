"""P29: step hooks and evaluation hooks."""
from .common import *
from . import loops


def hook(S, calls):
    """LinearInterpolationHook on arbitrary steps, in any order."""
    from pfrl.experiments.hooks import LinearInterpolationHook

    with sym_env(S, use_torch=False):
        total = S.int("total", 2, 10**7)
        a, b = S.real("start", -5, 5), S.real("stop", -5, 5)
        got = []
        env, agent = object(), object()
        h = LinearInterpolationHook(total, a, b, lambda e, g, v: got.append((e is env and g is agent, v)))
        for i in range(calls):
            t = S.int("t%d" % i, 1, 2 * 10**7)
            h(env, agent, t)
            S.check(len(got) == i + 1, "the setter is called exactly once per step")
            ok, v = got[-1]
            S.check(ok, "the setter gets the environment and the agent")
            if S.le(total, t):
                S.cover("after the last step")
                S.check_eq(v, b, "the stop value at and after the last step")
            else:
                S.cover("in between")
                S.check_eq(v * (total - 1), a * (total - t) + b * (t - 1), "linear interpolation")
            lo, hi = (a, b) if S.le(a, b) else (b, a)
            S.check(S.le(lo, v), "never below both endpoints")
            S.check(S.le(v, hi), "never above both endpoints")


def wired(S, steps, off):
    """The training loop calls every hook exactly once per step, with that step's number."""
    from pfrl.experiments.hooks import LinearInterpolationHook
    import sys as _sys

    with sym_env(S, use_torch=False):
        import pfrl.experiments.train_agent  # noqa

        mod = _sys.modules["pfrl.experiments.train_agent"]
        a, b = S.real("start", -5, 5), S.real("stop", -5, 5)
        total = S.int("total", 2, steps + off + 1)
        log, seen = [], []
        env = loops.RecEnv(S, "env", log)
        agent = loops.RecAgent(log)
        h = LinearInterpolationHook(total, a, b, lambda e, g, v: (seen.append((e is env and g is agent, v)), log.append(("set",))))
        with scratch_dir() as d:
            mod.train_agent(agent, env, steps + off, d, step_offset=off, step_hooks=[h], logger=CountingLogger())
        n = sum(1 for x in log if x[0] == "env.step")
        S.check(n == steps, "number of steps")
        S.check(len(seen) == n, "one call per step")
        kinds = [x[0] for x in log if x[0] in ("env.step", "observe", "set")]
        S.check(kinds == ["env.step", "observe", "set"] * n, "the hook runs after each step")
        for i, (ok, v) in enumerate(seen):
            t = off + i + 1
            S.check(ok, "arguments of the hook")
            if S.le(total, t):
                S.check_eq(v, b, "the stop value at and after the last step")
            else:
                S.check_eq(v * (total - 1), a * (total - t) + b * (t - 1), "the value belongs to the step just made")
        S.cover("trained")


def pruner(S, evals):
    """OptunaPrunerHook: report each evaluation once, prune exactly when told to."""
    from pfrl.experiments import evaluation_hooks as H

    with sym_env(S, use_torch=False), contextlib.ExitStack() as st:
        P = Patcher()
        st.callback(P.restore)

        class Pruned(Exception):
            pass

        class Optuna:
            TrialPruned = Pruned

        P.set(H, "optuna", Optuna)
        P.set(H, "_optuna_available", True)
        log, told = [], []

        class Trial:
            def report(self, score, step):
                log.append(("report", score, step))

            def should_prune(self):
                log.append(("ask",))
                told.append(S.flag("prune%d_%d" % (i, len(told))))
                return told[-1]

        h = H.OptunaPrunerHook(Trial())
        S.check(h.support_train_agent and h.support_train_agent_batch and not h.support_train_agent_async, "supported loops")
        t = 0
        for i in range(evals):
            t = t + S.int("dt%d" % i, 1, 1000)
            m = S.real("mean%d" % i, -5, 5)
            log.clear()
            told.clear()
            try:
                h(env=None, agent=None, evaluator=None, step=t, eval_stats={"mean": m, "median": m + 1, "max": m + 2}, agent_stats=[], env_stats=[])
                pruned = False
            except Pruned:
                pruned = True
            rep = [x for x in log if x[0] == "report"]
            S.check(len(rep) == 1, "each evaluation is reported once")
            S.check_eq(rep[0][1], m, "the mean score is reported")
            S.check_eq(rep[0][2], t, "under its step number")
            asks = [k for k, x in enumerate(log) if x[0] == "ask"]
            S.check(len(asks) >= 1 and asks[0] > log.index(rep[0]), "the decision is asked for after reporting")
            S.check(len(asks) == 1, "one decision per evaluation")
            S.cover("pruned" if pruned else "kept")
            S.check(pruned == told[0], "pruned exactly when told to")


FN = ["LinearInterpolationHook.__call__", "OptunaPrunerHook.__call__", "train_agent (hook calls)"]
ASSUMPTIONS = ["total_steps >= 2, steps >= 1", "optuna replaced by a stand-in trial with arbitrary answers", "real arithmetic; np.interp by its documented piecewise-linear definition (replay uses the real one)"]
HARNESSES = [
    Harness(hook, quick=[dict(calls=2)], thorough=[dict(calls=4)], covers=["after the last step", "in between"], functions=FN, bounds="any total up to 10^7, any step, any endpoints, 2 (4) calls"),
    Harness(wired, quick=[dict(steps=2, off=o) for o in (0, 1)], thorough=[dict(steps=4, off=o) for o in (0, 2)], covers=["trained"], functions=FN, bounds="2 (4) steps, offsets 0-2, any rewards and episode ends"),
    Harness(pruner, quick=[dict(evals=2)], thorough=[dict(evals=4)], covers=["pruned", "kept"], functions=FN, bounds="2 (4) evaluations"),
]
