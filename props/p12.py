"""P12: evaluation rollouts and their statistics."""
from .common import *
from .loops import RecEnv, RecVectorEnv, RecAgent, stream


def _bounded(cls, K):
    class Bounded(cls):
        def step(self, a):
            if self.k >= K:
                self.S.assume(False)  # longer evaluations are outside the bound
            return super().step(a)

    return Bounded


def _budget(S, mode, hi):
    if mode == "episodes":
        return None, S.int("n_episodes", 1, hi)
    return S.int("n_steps", 1, hi), None


def single(S, mode, budget, K, max_len, flags, training):
    from pfrl.experiments.evaluator import run_evaluation_episodes

    with sym_env(S, use_torch=False):
        log = []
        env = _bounded(RecEnv, K)(S, "env", log, flags=flags)
        agent = RecAgent(log)
        agent.training = training
        n_steps, n_eps = _budget(S, mode, budget)
        L = S.int("max_episode_len", 1, K) if max_len == "any" else None
        scores, lengths = run_evaluation_episodes(env, agent, n_steps, n_eps, max_episode_len=L, logger=CountingLogger())
        S.check(agent.training is training, "the agent is back in its previous mode")
        est = stream(log, "env.reset", "env.step")
        acts, obsv = stream(log, "act"), stream(log, "observe")
        S.check(est[0][0] == "env.reset", "evaluation starts with a reset")
        cur, ln, tot, ended = est[0][1], 0, 0, False
        eps, k, steps = [], 0, 0
        for e in est[1:]:
            if e[0] == "env.reset":
                S.check(ended, "the environment is reset only after an episode ended")
                cur, ln, tot, ended = e[1], 0, 0, False
                continue
            S.check(not ended, "an ended episode is not stepped further")
            S.check(k < len(acts) and acts[k][1] == cur and acts[k][2] == e[1], "the agent's action for the current observation is used")
            S.check(acts[k][3] is False, "the agent is evaluated in evaluation mode")
            o = obsv[k] if k < len(obsv) else None
            S.check(o is not None and o[1] == e[2], "the agent observes every transition")
            S.check_eq(o[2], e[3], "observed reward")
            S.check(bool(o[3]) == e[4], "observed done flag")
            S.check(o[5] is False, "the agent observes in evaluation mode")
            k += 1
            steps += 1
            cur = e[2]
            ln += 1
            tot = tot + e[3]
            ended = bool(e[4] or e[5] or (L is not None and S.eq(ln, L)))
            S.check(bool(o[4]) or e[4] or not ended, "the agent is told when the episode is cut")
            S.check(ended or not o[4] or k == len(acts), "the agent is not told of a cut that did not happen")
            if ended:
                eps.append((tot, ln))
        S.check(len(acts) == k and len(obsv) == k, "one act and one observe per step")
        if mode == "episodes":
            S.check(S.eq(len(scores), n_eps), "number of scores")
            S.check(ended and len(eps) == len(scores), "evaluation stops with the last requested episode")
        else:
            S.check(S.eq(steps, n_steps), "exactly the budgeted number of steps")
            if not eps:
                eps = [(tot, ln)]
                S.cover("unfinished")
            S.check(len(scores) == len(eps), "every completed episode is counted once")
        if len(eps) > 1:
            S.cover("several")
        for a, b, (r, n) in zip(scores, lengths, eps):
            S.check_eq(a, r, "the score is the sum of the episode's rewards")
            S.check_eq(b, n, "the episode's length")


def batch(S, n, mode, budget, K, max_len, flags, training=True):
    from pfrl.experiments.evaluator import batch_run_evaluation_episodes

    with sym_env(S, use_torch=False):
        log = []
        env = _bounded(RecVectorEnv, K)(S, "env", n, log, flags=flags)
        agent = RecAgent(log)
        agent.training = training
        n_steps, n_eps = _budget(S, mode, budget)
        L = S.int("max_episode_len", 1, K) if max_len == "any" else None
        scores, lengths = batch_run_evaluation_episodes(env, agent, n_steps, n_eps, max_episode_len=L, logger=CountingLogger())
        S.check(agent.training is training, "the agent is back in its previous mode")
        est = stream(log, "env.reset", "env.step")
        acts, obsv = stream(log, "batch_act"), stream(log, "batch_observe")
        S.check(est[0][0] == "env.reset" and not any(est[0][1]), "evaluation starts by resetting every environment")
        cur = est[0][2]
        eps = [dict(r=0, n=0, done=False) for _ in range(n)]  # by start order
        at = list(range(n))
        ended = None
        k = 0
        for e in est[1:]:
            if e[0] == "env.reset":
                S.check(ended is not None and list(e[1]) == [not x for x in ended], "exactly the environments whose episode ended are reset")
                cur, ended = e[2], None
                continue
            S.check(ended is None or not any(ended), "an ended episode is not stepped further")
            S.check(k < len(acts) and acts[k][1] == cur and acts[k][2] == e[1], "the agent's actions for the current observations are used")
            S.check(acts[k][3] is False, "the agent is evaluated in evaluation mode")
            o = obsv[k] if k < len(obsv) else None
            S.check(o is not None and o[1] == e[2] and o[5] is False, "the agent observes every transition")
            ended = []
            for i in range(n):
                ep = eps[at[i]]
                ep["r"] = ep["r"] + e[3][i]
                ep["n"] += 1
                S.check_eq(o[2][i], e[3][i], "observed reward")
                S.check(bool(o[3][i]) == e[4][i], "observed done flag")
                cut = bool(e[5][i] or (L is not None and S.eq(ep["n"], L)))
                S.check(bool(o[4][i]) == cut or k == len(acts) - 1, "observed interruption flag")
                S.check(bool(o[4][i]) or e[4][i] or not cut, "the agent is told when the episode is cut")
                ended.append(e[4][i] or cut)
                ep["done"] = ended[i]
            for i in range(n):
                if ended[i]:
                    at[i] = len(eps)
                    eps.append(dict(r=0, n=0, done=False))
            k += 1
            cur = e[2]
            # would the result be determined already?
            fin = 0
            while fin < len(eps) and eps[fin]["done"]:
                fin += 1
            if mode == "episodes":
                over = S.le(n_eps, fin)
            else:
                tot = sum(x["n"] for x in eps[:fin])
                over = S.le(n_steps, tot + eps[fin]["n"])
            last = k == len(acts)
            S.check(bool(over) == last, "evaluation stops exactly when the requested episodes or steps are complete")
        S.check(all(bool(x) for x in obsv[-1][4]), "the last observation closes every episode")
        if any(x["done"] for x in eps[fin + 1:]):
            S.cover("later episode finished first")
        if mode == "episodes":
            S.check(S.eq(len(scores), n_eps), "number of scores")
            want = eps[: len(scores)]
        else:
            want, tot = [], 0
            for x in eps[:fin]:
                if not S.le(tot + x["n"], n_steps):
                    break
                tot += x["n"]
                want.append(x)
            if fin == 0:
                want = [eps[0]]
                S.cover("unfinished")
            S.check(len(scores) == len(want), "the completed episodes within the step budget are counted once")
        S.check(len(lengths) == len(scores), "one length per score")
        if len(want) > 1:
            S.cover("several")
        for a, b, x in zip(scores, lengths, want):
            S.check_eq(a, x["r"], "scores are the returns of the first episodes by start order")
            S.check_eq(b, x["n"], "lengths are those of the first episodes by start order")


def statistics(S, n):
    from pfrl.experiments.evaluator import eval_performance

    with sym_env(S, use_torch=False):
        log = []
        env = RecEnv(S, "env", log, flags=())
        agent = RecAgent(log)
        st = eval_performance(env, agent, None, n, max_episode_len=1, logger=CountingLogger())
        rs = [e[3] for e in stream(log, "env.step")]
        S.check(len(rs) == n and st["episodes"] == n, "number of episodes")
        tot = sum(rs)
        S.check_eq(st["mean"] * n, tot, "mean")
        S.check_eq(st["max"], smax(S, rs), "maximum")
        S.check_eq(st["min"], smin(S, rs), "minimum")
        m = tot / n
        if n == 1:
            S.check_eq(st["stdev"], 0, "deviation of a single score")
            S.check_eq(st["median"], rs[0], "median")
        else:
            S.check(S.le(0, st["stdev"]), "deviation is non-negative")
            S.check_eq(st["stdev"] * st["stdev"] * (n - 1), sum((r - m) * (r - m) for r in rs), "sample deviation")
        if n == 2:
            S.check_eq(st["median"], m, "median of two")
        if n == 3:
            a, b, c = rs
            S.check_eq(st["median"], tot - smax(S, rs) - smin(S, rs), "median of three")
        S.check_eq(st["length_mean"], 1, "mean length")
        S.check_eq(st["length_max"], 1, "maximum length")
        S.check_eq(st["length_min"], 1, "minimum length")
        S.cover("done")


B = ("done", "reset")
FN = ["run_evaluation_episodes", "_run_episodes", "batch_run_evaluation_episodes", "_batch_run_episodes", "eval_performance"]
ASSUMPTIONS = ["environment and agent are stubs; every reward, done and needs_reset value is symbolic", "evaluations that take more than the stated number of steps are outside the bound"]
_s = lambda **k: dict(dict(mode="episodes", budget=3, K=5, max_len="any", flags=("done",), training=True), **k)
_b = lambda **k: dict(dict(n=2, mode="episodes", budget=3, K=3, max_len="any", flags=("done",)), **k)
HARNESSES = [
    Harness(single, quick=[_s(), _s(flags=B, max_len=None, K=3, training=False), _s(mode="steps", budget=4), _s(mode="steps", budget=3, flags=B, max_len=None)],
            thorough=[_s(K=6, budget=4), _s(flags=B, K=4), _s(mode="steps", budget=6, K=6), _s(mode="steps", budget=5, K=5, flags=B, max_len=None), _s(training=False, K=5)],
            covers=["several", "unfinished"], functions=FN[:2], bounds="<= 4 (6) steps, every done/needs_reset pattern, any episode limit, any budget"),
    Harness(batch, quick=[_b(K=4), _b(mode="steps", budget=5), _b(n=3, K=2, budget=4), _b(flags=B, max_len=None, K=2), _b(n=2, mode="steps", budget=4, max_len=None, K=4), _b(n=1, K=4, training=False)],
            thorough=[_b(K=4, budget=5), _b(mode="steps", budget=7, K=4), _b(n=3, K=3, budget=5, max_len=None), _b(flags=B, K=3), _b(n=3, mode="steps", budget=6, K=3, max_len=None), _b(n=1, K=6, training=False)],
            covers=["several", "unfinished", "later episode finished first"], functions=FN[2:4],
            bounds="1..3 environments, <= 4 batch steps, every done pattern (and needs_reset pattern for 2), any episode limit, any budget"),
    Harness(statistics, quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=i) for i in (1, 2, 3, 4)], covers=["done"], functions=FN[4:], bounds="1..3 (4) scores of any value"),
]
