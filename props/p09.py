"""P09: single-environment training loop."""
from .common import *
from .loops import RecEnv, RecAgent, Boom, stream
import os


class _Evaluator:
    def __init__(self, S, fail):
        self.S, self.calls, self.max_score, self.fail = S, [], -1000.0, fail
        self.scores = []

    def evaluate_if_necessary(self, t, episodes):
        self.fail("evaluator")
        self.calls.append((t, episodes))
        if self.S.flag("evaluated%d" % len(self.calls)):
            s = self.S.real("score%d" % len(self.calls), -5, 5)
            self.scores.append(s)
            self.max_score = smax(self.S, [self.max_score, s])
            return s
        self.scores.append(None)
        return None


def train(S, max_steps, max_len, flags, freq, with_eval, during, success, exceptions, with_t=True):
    import pfrl.experiments as ta

    with sym_env(S, use_torch=False) as P, scratch_dir() as out:
        log = []
        where = []
        if exceptions:
            n_calls = [0]
            at = S.choice("fail_at", exceptions)
            kind = S.flag("interrupt")

            def fail(w):
                n_calls[0] += 1
                if n_calls[0] == at + 2:  # the very first reset happens before training starts
                    where.append(w)
                    raise (KeyboardInterrupt if kind else Boom)(w)
        else:
            fail = lambda w: None
        env = RecEnv(S, "env", log, flags=flags, fail=fail)
        agent = RecAgent(log, fail=fail, with_t=with_t)
        steps = S.int("steps", 1, max_steps)
        off = S.choice("step_offset", max_steps)
        S.assume(S.lt(off, steps))
        L = S.int("max_episode_len", 1, max_steps + 1) if max_len == "any" else max_len
        if freq == "any":
            freq = S.int("checkpoint_freq", 1, max_steps + 1)
        hooks = []
        ev = _Evaluator(S, fail) if with_eval else None
        thr = S.real("successful_score", -5, 5) if success else None
        raised, ret = None, None
        try:
            ret = ta.train_agent(agent, env, steps, out, checkpoint_freq=freq, max_episode_len=L, step_offset=off, evaluator=ev,
                                 successful_score=thr, step_hooks=[lambda e, a, t: hooks.append((e is env, a is agent, t)), lambda e, a, t: fail("hook")],
                                 eval_during_episode=during)
        except (Boom, KeyboardInterrupt) as e:
            raised = e
        # ---- oracle: replay the recorded environment decisions
        est = stream(log, "env.reset", "env.step")
        acts = stream(log, "act")
        obsv = stream(log, "observe")
        saves = stream(log, "save")
        n_steps = len(stream(log, "env.step"))
        S.check(est and est[0][0] == "env.reset", "training starts with a reset")
        cur = est[0][1]
        t, ep_len, episodes = off, 0, 0
        i = 1
        exp_eval, exp_ckpt, stop, last_end = [], [], False, False
        n_exp = 0
        k = 0
        S.cover("ran")
        for e in est[1:]:
            if e[0] == "env.reset":
                S.check(last_end and not stop and bool(S.lt(t, steps)), "the environment is reset exactly when an episode ended and training continues")
                cur = e[1]
                ep_len = 0
                last_end = False
                continue
            S.check(not last_end, "an ended episode is not stepped further")
            S.check(bool(S.lt(t, steps)) and not stop, "no step after the end of training")
            S.check(k < len(acts) and acts[k][1] == cur, "the agent acts on the current observation")
            S.check(acts[k][2] == e[1], "the environment receives the agent's action")
            S.check(acts[k][3] is True, "the agent acts in training mode")
            t += 1
            ep_len += 1
            reset = bool(e[5] or (L is not None and S.eq(ep_len, L)))
            if k < len(obsv):
                o = obsv[k]
                S.check(o[1] == e[2], "the agent observes the next observation")
                S.check_eq(o[2], e[3], "the agent observes the reward")
                S.check(bool(o[3]) == e[4], "the agent observes the done flag")
                S.check(bool(o[4]) == bool(reset), "the interruption flag")
            else:
                S.check(raised is not None and k == len(acts) - 1, "every step is observed")
            k += 1
            cur = e[2]
            end = e[4] or reset or bool(S.eq(t, steps))
            if end:
                S.cover("episode end")
                episodes += 1
                last_end = True
            if ev is not None and (end or during):
                exp_eval.append((t, episodes))
                j = len(exp_eval) - 1
                if thr is not None and j < len(ev.scores):
                    best = smax(S, [-1000.0] + [s for s in ev.scores[: j + 1] if s is not None])
                    if S.le(thr, best):
                        stop = True
                        S.cover("success")
            if freq is not None and S.eq(t % freq, 0):
                exp_ckpt.append(t)
        if raised is None:
            S.check(stop or bool(S.eq(t, steps)), "training runs the requested number of steps")
            S.check(n_steps == t - off and len(acts) == n_steps and len(obsv) == n_steps, "one act and one observe per step")
            S.check([h[2] for h in hooks] == list(range(off + 1, t + 1)), "step hooks see every step number once, in order")
            S.check(all(h[0] and h[1] for h in hooks), "hooks receive the environment and the agent")
            if ev is not None:
                S.check(ev.calls == exp_eval, "evaluation is offered after each episode end")
                got = [d.get("eval_score") for d in ret]
                want = [s for s in ev.scores if s is not None]
                S.check(len(got) == len(want), "one history record per evaluation")
                for a, b in zip(got, want):
                    S.check_eq(a, b, "recorded score")
            ck = [s[1] for s in saves if s[1].endswith("_checkpoint")]
            fin = [s[1] for s in saves if s[1].endswith("_finish")]
            S.check(len(ck) + len(fin) == len(saves), "only checkpoints and the final agent are saved")
            S.check(fin == [os.path.join(out, "%d_finish" % t)] and saves[-1][1] == fin[0], "the final agent is saved exactly once, last")
            allc = [os.path.join(out, "%d_checkpoint" % c) for c in exp_ckpt]
            need = [os.path.join(out, "%d_checkpoint" % c) for c in exp_ckpt if c < t]
            S.check(ck == need or ck == allc, "checkpoints at every multiple of the frequency")
            if with_t:
                pass
        else:
            S.cover("exception")
            ex = [s for s in saves if s[1].endswith("_except")]
            S.check(len(ex) == 1 and saves[-1] is ex[0], "an exception leaves a saved agent")
            S.check(str(raised) == where[0], "the exception propagates")
            S.check(not any(s[1].endswith("_finish") for s in saves), "no final agent after an exception")


def driver(S, steps, n_eps, interval, save_best, eval_len, train_len, separate):
    """train_agent_with_evaluation with the real Evaluator on recorded environments."""
    import pfrl.experiments as ta

    with sym_env(S, use_torch=False) as P, scratch_dir() as out:
        log = []
        env = RecEnv(S, "env", log, flags=("done",))
        env2 = RecEnv(S, "eval", log, flags=())
        agent = RecAgent(log)
        off = S.choice("step_offset", 3)
        S.assume(off < steps)
        interval = S.int("eval_interval", 1, interval)
        during = S.flag("during")
        thr = S.real("successful_score", -9, 9)
        hook_log = []

        class Hook:
            support_train_agent = True
            support_train_agent_batch = True
            support_train_agent_async = True

            def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
                hook_log.append((step, eval_stats["mean"]))

        a, hist = ta.train_agent_with_evaluation(
            agent, env, steps, None, n_eps, interval, out, train_max_episode_len=train_len, step_offset=off, eval_max_episode_len=eval_len,
            eval_env=env2, successful_score=thr, evaluation_hooks=[Hook()], save_best_so_far_agent=save_best, eval_during_episode=during)
        S.check(a is agent, "the agent is returned")
        L = eval_len if eval_len is not None else train_len
        # oracle
        t, ep = off, 0
        prev = 0
        while S.le(prev + interval, off):
            prev = prev + interval
        best = None
        phases = []  # (t, mean)
        ep_len = 0
        stop = False
        # split the log into training steps and evaluation phases
        i = 0
        tr = []
        cur_eval = None
        for e in log:
            if e[0] == "env.step":
                tr.append(dict(step=e, evals=[], saves=[]))
            elif e[0] == "eval.step":
                tr[-1]["evals"].append(e)
            elif e[0] == "save":
                tr[-1]["saves"].append(e)
            elif e[0] == "act":
                S.check((e[1][0] == "env") == e[3], "training steps in training mode, evaluation steps in evaluation mode")
        for x in tr:
            S.check(not stop and t < steps, "no step after success or the last step")
            t += 1
            ep_len += 1
            end = x["step"][4] or (train_len is not None and ep_len == train_len) or t == steps
            if end:
                ep += 1
                ep_len = 0
            due = bool((end or during) and S.le(prev + interval, t))
            S.check(bool(x["evals"]) == due, "an evaluation runs at the first opportunity at or after each multiple of the interval")
            if due:
                S.cover("evaluation")
                while S.le(prev + interval, t):
                    prev = prev + interval
                S.check(len(x["evals"]) == n_eps * L, "evaluation episodes are as many and as long as requested")
                tot = 0
                for e in x["evals"]:
                    tot = tot + e[3]
                mean = tot / n_eps
                phases.append((t, mean))
                better = best is None or S.lt(best, mean)
                bs = [s for s in x["saves"] if s[1].endswith("best")]
                if better:
                    best = mean
                    S.check(len(bs) == (1 if save_best else 0), "the best agent is saved when the score improves")
                    S.cover("best")
                else:
                    S.check(not bs, "the best agent is kept otherwise")
                if S.le(thr, best):
                    stop = True
                    S.cover("success")
        S.check(stop or t == steps, "training runs the requested number of steps")
        S.check(len(hist) == len(phases) and len(hook_log) == len(phases), "one record and one hook call per evaluation")
        for h, g, (tt, m) in zip(hist, hook_log, phases):
            S.check_eq(h["eval_score"], m, "the history holds the evaluation mean")
            S.check(g[0] == tt, "the hook sees the step")
            S.check_eq(g[1], m, "the hook sees the mean")
        S.check(log[-1][0] == "save" and log[-1][1] == os.path.join(out, "%d_finish" % t), "the final agent is saved last")
        S.check(os.path.exists(os.path.join(out, "scores.txt")), "scores are recorded")
        lines = open(os.path.join(out, "scores.txt")).read().splitlines()
        S.check(len(lines) == 1 + len(phases), "one line per evaluation")
        S.check([l.split("\t")[0] for l in lines[1:]] == [str(p[0]) for p in phases], "in step order")


FN = ["train_agent", "save_agent", "train_agent_with_evaluation", "Evaluator.evaluate_if_necessary", "Evaluator.evaluate_and_update_max_score", "eval_performance", "_run_episodes"]
ASSUMPTIONS = ["environment, agent and evaluator are stubs with symbolic decisions; the agent records every call",
               "whether a checkpoint is also written at the very last step (where the final agent is saved anyway) is left open",
               "step_offset is below the number of steps"]
B = ("done", "reset")
HARNESSES = [
    Harness(train,
            quick=[dict(max_steps=4, max_len=L, flags=B, freq=None, with_eval=False, during=False, success=False, exceptions=0) for L in (None, "any")]
            + [dict(max_steps=4, max_len="any", flags=("done",), freq="any", with_eval=False, during=False, success=False, exceptions=0)]
            + [dict(max_steps=3, max_len=L, flags=("done",), freq=None, with_eval=True, during=d, success=True, exceptions=0) for L in (None, "any") for d in (False, True)]
            + [dict(max_steps=3, max_len=2, flags=("done",), freq=2, with_eval=w, during=w, success=False, exceptions=12) for w in (False, True)],
            thorough=[dict(max_steps=6, max_len=L, flags=("done",), freq=f, with_eval=False, during=False, success=False, exceptions=0) for L in (None, "any") for f in (None, "any")]
            + [dict(max_steps=5, max_len=L, flags=B, freq="any", with_eval=False, during=False, success=False, exceptions=0) for L in (None, "any")]
            + [dict(max_steps=4, max_len=L, flags=B, freq=2, with_eval=True, during=d, success=s, exceptions=0) for L in (None, 2) for d in (False, True) for s in (False, True)]
            + [dict(max_steps=4, max_len=2, flags=("done",), freq=2, with_eval=w, during=w, success=False, exceptions=20) for w in (False, True)],
            covers=["ran", "episode end", "success", "exception"], functions=FN[:2],
            bounds="1..4 (6) steps from any offset, every done/needs_reset pattern, maximum length none or 1..5 (7), checkpoint frequency none or 1..5 (7), all scores, an exception at any of the first 12 (20) calls"),
    Harness(driver,
            quick=[dict(steps=4, n_eps=1, interval=2, save_best=True, eval_len=1, train_len=3, separate=True),
                   dict(steps=2, n_eps=2, interval=2, save_best=True, eval_len=None, train_len=1, separate=True),
                   dict(steps=4, n_eps=1, interval=3, save_best=False, eval_len=2, train_len=None, separate=True)],
            thorough=[dict(steps=6, n_eps=n, interval=i, save_best=b, eval_len=1, train_len=3, separate=True) for n in (1, 2) for i in (1, 2, 3) for b in (True, False)],
            covers=["evaluation", "best", "success"], functions=FN,
            bounds="3..4 (6) steps, offsets 0..2, 1-2 evaluation episodes of 1-2 steps, all rewards and success thresholds"),
]
