"""P13: evaluation schedule and best-agent tracking."""
from .common import *
from .loops import RecEnv, RecAgent, stream
import os


def schedule(S, n_calls, max_t, max_interval, save_best):
    from pfrl.experiments.evaluator import Evaluator

    with sym_env(S, use_torch=False), scratch_dir() as out:
        log, hooks = [], []
        env = RecEnv(S, "env", log, flags=())
        agent = RecAgent(log)
        interval = S.int("eval_interval", 1, max_interval)
        off = S.int("step_offset", 0, max_t)

        class Hook:
            def __call__(self, **k):
                hooks.append(k)

        ev = Evaluator(agent, env, None, 1, interval, out, max_episode_len=1, step_offset=off, evaluation_hooks=[Hook()],
                       save_best_so_far_agent=save_best, logger=CountingLogger())
        last_q = off // interval  # intervals already accounted for
        t = off
        best = None
        n_ev = 0
        records = []
        for c in range(n_calls):
            t2 = S.int("t%d" % c, 0, max_t)
            S.assume(S.le(t, t2))
            t = t2
            agent.n = 1000 * (c + 1)  # the agent's current state
            before = len(stream(log, "env.step"))
            nb = len(stream(log, "save"))
            r = ev.evaluate_if_necessary(t, c)
            did = len(stream(log, "env.step")) > before
            q = t // interval
            due = S.lt(last_q, q)
            S.check(or_(and_(due, did), and_(not_(due), not did)), "an evaluation runs exactly at the first opportunity at or after each multiple of the interval")
            saves = stream(log, "save")[nb:]
            if not did:
                S.cover("skipped")
                S.check(r is None, "no score without an evaluation")
                S.check(not saves, "nothing is saved without an evaluation")
                continue
            S.cover("evaluated")
            last_q = q
            n_ev += 1
            score = stream(log, "env.step")[-1][3]
            records.append((t, score))
            S.check_eq(r, score, "the returned score is the mean")
            if best is None or S.lt(best, score):
                best = score
                S.check(len(saves) == (1 if save_best else 0), "the best agent is saved on improvement")
                if saves:
                    S.check(saves[0][1] == os.path.join(out, "best"), "the best agent's directory")
                    S.check(1000 * (c + 1) <= saves[0][2] <= 1000 * (c + 1) + 1, "the saved agent is the one evaluated")
                S.cover("improved")
            else:
                S.cover("not improved")
                S.check(not saves, "a non-improving evaluation keeps the saved agent")
            S.check_eq(ev.max_score, best, "best score is the maximum of all evaluation means")
            S.check(len(hooks) == n_ev, "evaluation hooks run once per evaluation")
            S.check_eq(hooks[-1]["step"], t, "hooks see the step")
            S.check_eq(hooks[-1]["eval_stats"]["mean"], score, "hooks see the statistics")
        lines = open(os.path.join(out, "scores.txt")).read().splitlines()
        S.check(len(lines) == n_ev + 1, "exactly one record per evaluation")
        if not S.symbolic:
            S.check([l.split("\t")[0] for l in lines[1:]] == [str(a) for a, _ in records], "records in step order")


FN = ["Evaluator.__init__", "Evaluator.evaluate_if_necessary", "Evaluator.evaluate_and_update_max_score", "eval_performance", "record_stats", "save_agent"]
ASSUMPTIONS = ["each evaluation is one one-step episode whose reward is an arbitrary real, so every sequence of evaluation means is covered"]
HARNESSES = [
    Harness(schedule, quick=[dict(n_calls=4, max_t=200, max_interval=50, save_best=True), dict(n_calls=2, max_t=100000, max_interval=1000, save_best=False)],
            thorough=[dict(n_calls=5, max_t=200, max_interval=50, save_best=True), dict(n_calls=3, max_t=100000, max_interval=10000, save_best=False)],
            covers=["evaluated", "skipped", "improved", "not improved"], functions=FN,
            bounds="3 (5) opportunities at any non-decreasing step numbers, any offset, interval and scores"),
]
