"""P10: batch training loop."""
from .common import *
from .loops import RecVectorEnv, RecAgent, Boom, stream
from .p09 import _Evaluator as _BaseEvaluator
import os


class _Evaluator(_BaseEvaluator):
    def __init__(self, S, fail, env):
        super().__init__(S, fail)
        self.env = env

    def evaluate_if_necessary(self, t, episodes):
        return super().evaluate_if_necessary(int(t), int(episodes))


def batch(S, n, max_steps, max_len, flags, freq, with_eval, success, exceptions, log_interval=None):
    import pfrl.experiments as ta

    with sym_env(S, use_torch=False) as P, scratch_dir() as out:
        log, where = [], []
        if exceptions:
            n_calls = [0]
            at = S.choice("fail_at", exceptions)
            kind = S.flag("interrupt")

            def fail(w):
                n_calls[0] += 1
                if n_calls[0] == at + 2:
                    where.append(w)
                    raise (KeyboardInterrupt if kind else Boom)(w)
        else:
            fail = lambda w: None
        env = RecVectorEnv(S, "env", n, log, flags=flags, fail=fail)
        evlog = []
        agent = RecAgent(log, fail=fail, with_t=True)
        steps = S.int("steps", 1, max_steps)
        off = S.choice("step_offset", max_steps)
        S.assume(S.lt(off, steps))
        L = S.int("max_episode_len", 1, max_steps) if max_len == "any" else max_len
        if freq == "any":
            freq = S.int("checkpoint_freq", 1, max_steps + 1)
        hooks = []
        ev = _Evaluator(S, fail, RecVectorEnv(S, "eval", n, evlog)) if with_eval else None
        thr = S.real("successful_score", -5, 5) if success else None
        raised, ret = None, None
        try:
            ret = ta.train_agent_batch(agent, env, steps, out, checkpoint_freq=freq, max_episode_len=L, step_offset=off, evaluator=ev,
                                       successful_score=thr, log_interval=log_interval, logger=CountingLogger(),
                                       step_hooks=[lambda e, a, t: hooks.append((e is env, a is agent, t)), lambda e, a, t: fail("hook")])
        except (Boom, KeyboardInterrupt) as e:
            raised = e
        est = stream(log, "env.reset", "env.step")
        acts = stream(log, "batch_act")
        obsv = stream(log, "batch_observe")
        saves = stream(log, "save")
        S.check(est and est[0][0] == "env.reset" and not any(est[0][1]), "training starts by resetting every environment")
        S.cover("ran")
        cur = est[0][2]
        t = off
        lens = [0] * n
        episodes = 0
        ended = None
        stop = False
        exp_eval, exp_ckpt = [], []
        k = 0
        for e in est[1:]:
            if e[0] == "env.reset":
                S.check(ended is not None and not stop and bool(S.lt(t, steps)), "environments are reset only between steps while training continues")
                S.check(list(e[1]) == [not x for x in ended], "exactly the environments whose episode ended are reset")
                for i in range(n):
                    if ended[i]:
                        lens[i] = 0
                cur = e[2]
                ended = None
                continue
            S.check(ended is None or not any(ended), "an ended episode is not stepped further")
            S.check(not stop and bool(S.lt(t, steps)), "no step after the end of training")
            S.check(k < len(acts) and acts[k][1] == cur, "the agent acts on every environment's current observation")
            S.check(acts[k][2] == e[1] and acts[k][3] is True, "every environment receives its action")
            resets = []
            for i in range(n):
                lens[i] += 1
                resets.append(bool(e[5][i] or (L is not None and S.eq(lens[i], L))))
            if k < len(obsv):
                o = obsv[k]
                S.check(o[1] == e[2], "the agent observes the next observations")
                for i in range(n):
                    S.check_eq(o[2][i], e[3][i], "reward at its environment's index")
                    S.check(bool(o[3][i]) == e[4][i], "done flag at its environment's index")
                    S.check(bool(o[4][i]) == resets[i], "interruption flag at its environment's index")
            else:
                S.check(raised is not None and k == len(acts) - 1, "every step is observed")
            k += 1
            cur = e[2]
            ended = [a or b for a, b in zip(e[4], resets)]
            if any(ended) and not all(ended):
                S.cover("some episodes end")
            if all(ended):
                S.cover("all episodes end")
            episodes += sum(ended)
            for _ in range(n):
                t += 1
                if freq is not None and S.eq(t % freq, 0):
                    exp_ckpt.append(t)
            if ev is not None:
                exp_eval.append((t, episodes))
                j = len(exp_eval) - 1
                if thr is not None and j < len(ev.scores) and ev.scores[j] is not None:
                    best = smax(S, [-1000.0] + [s for s in ev.scores[: j + 1] if s is not None])
                    if S.le(thr, best):
                        stop = True
                        S.cover("success")
        if raised is None:
            S.check(stop or bool(S.le(steps, t)), "training runs the requested number of steps")
            S.check(len(acts) == k and len(obsv) == k, "one act and one observe per step")
            S.check([h[2] for h in hooks] == list(range(off + 1, t + 1)), "step hooks see every step number once, in order")
            S.check(all(h[0] and h[1] for h in hooks), "hooks receive the environment and the agent")
            if ev is not None:
                S.check(ev.calls == exp_eval, "evaluation is offered after each batch step with the number of finished episodes")
                got = [d.get("eval_score") for d in ret]
                want = [s for s in ev.scores if s is not None]
                S.check(len(got) == len(want), "one history record per evaluation")
                for a, b in zip(got, want):
                    S.check_eq(a, b, "recorded score")
            ck = [s[1] for s in saves if s[1].endswith("_checkpoint")]
            fin = [s[1] for s in saves if s[1].endswith("_finish")]
            S.check(len(ck) + len(fin) == len(saves), "only checkpoints and the final agent are saved")
            S.check(fin == [os.path.join(out, "%d_finish" % t)] and saves[-1][1] == fin[0], "the final agent is saved exactly once, last")
            S.check(ck == [os.path.join(out, "%d_checkpoint" % c) for c in exp_ckpt], "checkpoints at every multiple of the frequency")
        else:
            S.cover("exception")
            ex = [s for s in saves if s[1].endswith("_except")]
            S.check(len(ex) == 1 and saves[-1] is ex[0], "an exception leaves a saved agent")
            S.check(str(raised) == where[0], "the exception propagates")
            S.check(("env.close",) in log, "an exception closes the environment")


def driver(S, n, steps, interval, eval_len, train_len):
    """train_agent_batch_with_evaluation with the real Evaluator."""
    import pfrl
    import pfrl.experiments as ta

    with sym_env(S, use_torch=False) as P, scratch_dir() as out:
        log = []

        class VE(RecVectorEnv, pfrl.env.VectorEnv):
            pass

        env = VE(S, "env", n, log, flags=("done",))
        env2 = VE(S, "eval", n, log, flags=())
        agent = RecAgent(log)
        off = S.choice("step_offset", 3)
        S.assume(off < steps)
        interval = S.int("eval_interval", 1, interval)
        thr = S.real("successful_score", -9, 9)
        a, hist = ta.train_agent_batch_with_evaluation(
            agent, env, steps, None, 1, interval, out, max_episode_len=train_len, step_offset=off, eval_max_episode_len=eval_len,
            eval_env=env2, successful_score=thr, logger=CountingLogger())
        S.check(a is agent, "the agent is returned")
        L = eval_len if eval_len is not None else train_len
        tr = []
        for e in log:
            if e[0] == "env.step":
                tr.append(dict(step=e, evals=[], saves=[]))
            elif e[0] == "eval.step":
                tr[-1]["evals"].append(e)
            elif e[0] == "save":
                tr[-1]["saves"].append(e)
            elif e[0] == "batch_act":
                S.check((e[1][0][0] == "env") == e[3], "training steps in training mode, evaluation steps in evaluation mode")
        t, best, stop, phases, prev = off, None, False, [], 0
        while S.le(prev + interval, off):
            prev = prev + interval
        for x in tr:
            S.check(not stop and t < steps, "no step after success or the last step")
            t += n
            due = bool(S.le(prev + interval, t))
            S.check(bool(x["evals"]) == due, "an evaluation runs at the first opportunity at or after each multiple of the interval")
            if due:
                S.cover("evaluation")
                while S.le(prev + interval, t):
                    prev = prev + interval
                S.check(len(x["evals"]) == L, "evaluation episodes are as long as requested")
                tot = 0
                for e in x["evals"]:
                    tot = tot + e[3][0]
                phases.append((t, tot))
                bs = [s for s in x["saves"] if s[1].endswith("best")]
                if best is None or S.lt(best, tot):
                    best = tot
                    S.check(len(bs) == 1, "the best agent is saved when the score improves")
                else:
                    S.check(not bs, "the best agent is kept otherwise")
                if S.le(thr, best):
                    stop = True
                    S.cover("success")
        S.check(stop or t >= steps, "training runs the requested number of steps")
        S.check(len(hist) == len(phases), "one record per evaluation")
        for h, (tt, m) in zip(hist, phases):
            S.check_eq(h["eval_score"], m, "the history holds the evaluation mean")


FN = ["train_agent_batch", "save_agent", "train_agent_batch_with_evaluation", "Evaluator.evaluate_if_necessary", "_batch_run_episodes"]
ASSUMPTIONS = ["environment, agent and evaluator are stubs with symbolic decisions; the agent records every call", "step_offset is below the number of steps"]
B = ("done", "reset")
_q = lambda **k: dict(dict(n=2, max_steps=4, max_len="any", flags=("done",), freq=None, with_eval=False, success=False, exceptions=0), **k)
HARNESSES = [
    Harness(batch,
            quick=[_q(max_steps=6), _q(max_len=None, flags=B), _q(n=1, flags=B, max_steps=3), _q(n=3, max_steps=4, flags=("done",)), _q(freq="any", max_len=2), _q(n=3, max_steps=5, flags=(), max_len=2, freq="any"),
                   _q(with_eval=True, success=True, max_len=2), _q(with_eval=True, success=False, max_len=None, log_interval=1), _q(max_len=2, freq=2, with_eval=True, exceptions=12)],
            thorough=[_q(max_steps=6), _q(flags=B), _q(n=1, flags=B, max_steps=5), _q(n=3, max_steps=6), _q(freq="any", max_steps=6), _q(n=4, max_steps=8, flags=("done",), max_len=2, freq=3),
                      _q(with_eval=True, success=True, max_steps=6), _q(with_eval=True, success=False, max_len=None, log_interval=1, max_steps=6), _q(max_len=2, freq=2, with_eval=True, exceptions=20, max_steps=6)],
            covers=["ran", "some episodes end", "all episodes end", "success", "exception"], functions=FN[:2],
            bounds="1..3 (4) environments, 1..5 (8) requested steps from any offset, every done/needs_reset pattern, any episode limit, checkpoint frequency and score, an exception at any of the first 12 (20) calls"),
    Harness(driver, quick=[dict(n=2, steps=4, interval=4, eval_len=1, train_len=3), dict(n=1, steps=3, interval=3, eval_len=None, train_len=2), dict(n=2, steps=3, interval=2, eval_len=2, train_len=None)],
            thorough=[dict(n=2, steps=6, interval=5, eval_len=1, train_len=3), dict(n=1, steps=4, interval=3, eval_len=None, train_len=2), dict(n=3, steps=6, interval=4, eval_len=2, train_len=None)],
            covers=["evaluation", "success"], functions=FN, bounds="<= 2 (3) environments, <= 4 (6) steps, any evaluation interval up to 4 (5), all rewards and thresholds"),
]
