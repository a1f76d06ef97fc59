"""P11: asynchronous training under every interleaving of its workers."""
import os
import sys
import warnings

from .common import *
from .loops import Boom
from . import sched as sc


class WEnv:
    observation_space = action_space = spec = None

    def __init__(self, H, i, test):
        self.H, self.i, self.test, self.k, self.n = H, i, test, 0, 0

    def reset(self):
        if self.test:
            self.H.sched.yield_()
        self.n += 1
        o = (self.i, self.test, self.n)
        self.H.log(self.i, "eval_reset" if self.test else "reset", o)
        return o

    def step(self, a):
        S, H = self.H.S, self.H
        if not self.test:
            H.maybe_fail(self.i)
        self.k += 1
        self.n += 1
        o = (self.i, self.test, self.n)
        if self.test:
            r = S.real("score_w%d_%d" % (self.i, self.k), -3, 3)
            H.log(self.i, "eval_step", a, o, r)
            return o, r, True, {}
        done = S.flag("done_w%d_%d" % (self.i, self.k)) if H.done_flags else False
        H.log(self.i, "step", a, o, done)
        return o, float(self.k), done, {}

    def close(self):
        self.H.log(self.i, "eval_close" if self.test else "close")


class WAgent:
    shared_attributes = ("shared",)

    def __init__(self, H, i):
        self.H, self.i, self.training, self.n = H, i, True, 0
        self.shared = object()
        self.process_idx = None

    def act(self, obs):
        self.n += 1
        self.H.log(self.i, "act", obs, (self.i, self.n), self.training)
        return (self.i, self.n)

    def observe(self, obs, r, done, reset):
        self.H.log(self.i, "observe", obs, r, done, reset, self.training)

    def get_statistics(self):
        return [("s", 0.5)]

    def save(self, d):
        self.H.log(self.i, "save", d)

    def eval_mode(self):
        import contextlib

        @contextlib.contextmanager
        def cm():
            o = self.training
            self.training = False
            try:
                yield
            finally:
                self.training = o

        return cm()


class H:
    def __init__(self, S, sched, done_flags, fail):
        self.S, self.sched, self.done_flags, self.fail = S, sched, done_flags, fail
        self.events = []
        self.n_fail = 0

    def log(self, w, *e):
        self.events.append((w,) + e)

    def maybe_fail(self, w):
        if self.fail is not None:
            if self.n_fail == self.fail[0]:
                self.n_fail += 1
                self.log(w, "fail")
                raise (KeyboardInterrupt if self.fail[1] else Boom)("boom")
            self.n_fail += 1

    def of(self, w, *kinds):
        return [e for e in self.events if e[0] == w and (not kinds or e[1] in kinds)]


def train(S, n, total, preempt, interval, success, done_flags, max_len, fail, signal_at, shared, save_best=True, offsets=1, seeds_given=False):
    import pfrl.experiments  # noqa
    import subprocess

    ta = sys.modules["pfrl.experiments.train_agent_async"]
    ev = sys.modules["pfrl.experiments.evaluator"]
    with sym_env(S, use_torch=False) as P, scratch_dir() as out:
        sched = sc.Sched(S, preempt)
        kind = S.flag("interrupt") if fail else None
        h = H(S, sched, done_flags, (S.choice("fail_at", total + 1), kind) if fail else None)

        class MP:
            @staticmethod
            def Value(t, v=0, *a, **k):
                return sc.Value(sched, v)

            @staticmethod
            def Event():
                return sc.Event(sched, on_set=lambda: h.log(sched.me, "stop_set"))

            @staticmethod
            def Lock():
                return sc.Lock(sched)

            RLock = Lock

        P.set(ta, "mp", MP)
        P.set(ev, "mp", MP)
        seeds = {}

        def set_seed(s):
            seeds[sched.me] = s
            S.check(type(s) is int, "the seed is a plain int, the only kind random.seed accepts")

        P.set(ta.random_seed, "set_random_seed", set_seed)

        def kill(*a, **k):
            h.log(sched.me, "kill")
            raise sc.Killed()

        for o, nm in ((os, "killpg"), (os, "kill"), (os, "_exit"), (subprocess, "run")):
            P.set(o, nm, kill)
        exc = []

        def run_async(k, f):
            S.check(k == n, "the requested number of workers")
            exc.extend(sched.run([lambda i=i: f(i) for i in range(n)]))

        P.set(ta.async_, "run_async", run_async)
        off = S.choice("step_offset", offsets)
        steps = off + S.int("steps", 1, total)
        L = S.int("max_episode_len", 1, max_len) if max_len else None
        iv = S.int("eval_interval", 1, interval) if interval else None
        thr = S.real("successful_score", -4, 4) if success else None
        stop_event = MP.Event()
        exception_event = sc.Event(sched)
        exception_event.is_set_plain = lambda: exception_event.f
        numbers = {i: [] for i in range(n)}

        def hook(env, agent, t):
            w = agent.i
            numbers[w].append(t)
            h.log(w, "hook", t, sched.me == w, agent.process_idx, env.i, env.test)
            if signal_at is not None and t == off + signal_at:
                h.log(w, "signal")
                exception_event.f = True

        agents = {}

        def make_agent(i):
            a = WAgent(h, i)
            agents.setdefault(("first", i), a)
            agents[i] = a
            return a

        envs = {}

        def make_env(i, test):
            S.check((i, test) not in envs, "one environment per worker and purpose")
            envs[i, test] = WEnv(h, i, test)
            return envs[i, test]

        hook_log = []

        class EHook:
            support_train_agent = support_train_agent_batch = support_train_agent_async = True

            def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
                S.check(env is envs[agent.i, True], "evaluation runs in the worker's own evaluation environment")
                hook_log.append((agent.i, step, eval_stats["mean"]))

        ext = seeds_given
        killed = False
        ret = None
        evaluators = []
        AE = ta.AsyncEvaluator

        def mkev(*a, **k):
            e = AE(*a, **k)
            evaluators.append(e)
            return e

        P.set(ta, "AsyncEvaluator", mkev)
        try:
            ret = ta.train_agent_async(
                out, n, make_env, steps=steps, eval_interval=iv, eval_n_steps=None, eval_n_episodes=1, max_episode_len=L, step_offset=off,
                successful_score=thr, make_agent=make_agent, global_step_hooks=[hook], evaluation_hooks=[EHook()] if interval else [],
                save_best_so_far_agent=save_best, random_seeds=np.array([7 + 3 * i for i in range(n)]) if ext else None,
                stop_event=stop_event, exception_event=exception_event, use_shared_memory=shared, logger=CountingLogger())
        except sc.Killed:
            killed = True
        S.check(killed or not sched.stuck, "no worker waits forever")
        allnum = sorted(x for v in numbers.values() for x in v)
        K = len(allnum)
        S.check(allnum == list(range(off + 1, off + K + 1)), "every step gets its own consecutive number")
        last = off + K
        stop_i = next((j for j, e in enumerate(h.events) if e[1] == "stop_set"), None)
        sig_i = next((j for j, e in enumerate(h.events) if e[1] == "signal"), None)
        fail_i = next((j for j, e in enumerate(h.events) if e[1] == "fail"), None)
        if killed:
            S.check(sig_i is not None, "workers are killed only after the exception signal")
        for i in range(n):
            S.check((killed and i not in seeds) or seeds.get(i) == (7 + 3 * i if ext else i), "each worker gets its own seed")
            es = h.of(i)
            st = [e for e in es if e[1] == "step"]
            hk = [e for e in es if e[1] == "hook"]
            failed = any(e[1] == "fail" for e in es)
            S.check(len(hk) == len(st) or (killed and len(hk) + 1 == len(st)), "each environment step is counted exactly once")
            S.check(all(e[3] and e[4] == i and e[5] == i and e[6] is False for e in hk), "hooks get the worker's own training environment and agent")
            # protocol of the worker
            cur, ep, k = None, 0, 0
            tr = [e for e in es if not (e[1] in ("act", "observe") and e[-1] is False)]
            for j, e in enumerate(tr):
                if e[1] == "reset":
                    S.check(cur is None or ended, "the environment is reset exactly when an episode ended")
                    cur, ep = e[2], 0
                    ended = False
                elif e[1] == "act":
                    S.check(not ended and e[2] == cur, "the agent acts on the current observation of its own environment")
                    act = e[3]
                elif e[1] == "step":
                    S.check(e[2] == act, "the action is executed in its own environment")
                    cur, dn = e[3], e[4]
                    ep += 1
                    k += 1
                elif e[1] == "observe":
                    rs = bool(L is not None and S.eq(ep, L))
                    S.check(e[2] == cur and e[3] == float(k) and bool(e[4]) == dn and bool(e[5]) == rs, "the agent observes its own transition")
                elif e[1] == "hook":
                    g = e[2]
                    ended = bool(dn or rs)
                    over = S.le(steps, g)
                    nxt = [x for x in tr[j + 1:] if x[1] in ("act", "step", "reset")]
                    if over:
                        S.check(not nxt, "a worker stops at its first step numbered at or beyond the total")
                    elif not nxt and not killed and not failed and sig_i is None:
                        S.check(stop_i is not None, "a worker goes on until the total is reached or training is stopped")
            if stop_i is not None:
                after = [e for e in h.events[stop_i:] if e[0] == i and e[1] == "step"]
                S.check(len(after) <= 1, "a stopped worker takes at most the step it is in")
            if not killed:
                closed = [e for e in es if e[1] in ("close", "eval_close")]
                S.check(failed or sorted(e[1] for e in closed) == (["close", "eval_close"] if interval else ["close"]), "environments are closed")
            if shared and i in agents:
                S.check(agents[i].shared is agents["first", 0].shared, "workers share the declared attributes")
        S.check(sum(1 for _, t in envs if not t) <= n, "one training environment per worker")
        # ---- final save
        saves = [e for e in h.events if e[1] == "save"]
        fin = [e for e in saves if e[2].endswith("_finish")]
        owner = [i for i in range(n) if any(S.eq(steps, x) for x in numbers[i])]
        if not killed:
            if owner and not (fail_i is not None and h.events[fail_i][0] == owner[0]):
                S.check(len(fin) == 1 and fin[0][0] == owner[0] and fin[0][2] in (os.path.join(out, "%d_finish" % steps), os.path.join(out, "<sym>_finish")), "exactly one worker saves the final agent, once")
                S.cover("finish")
            if not owner:
                S.check(not fin, "no final save before the total is reached")
                S.check(stop_i is not None or fail_i is not None, "the requested number of steps is taken")
            if stop_i is None or h.events[stop_i][0] is None:
                S.check(K <= steps - off + n - 1, "no worker starts new steps after the total")
        # ---- evaluations
        evs = [e for e in h.events if e[1] == "eval_step"]
        S.check(all(e[-1] is False for e in h.events if e[1] == "act" and e[2][1] is True), "evaluation acts in evaluation mode")
        if interval:
            q = 0
            while S.le((q + 1) * iv, off):
                q += 1
            due = 0
            while S.le((q + due + 1) * iv, last):
                due += 1
            S.check(len(evs) <= due, "at most one evaluation per interval")
            if not killed and fail_i is None and stop_i is not None and h.events[stop_i][0] is None and due >= 1:
                S.check(len(evs) >= 1, "the first due evaluation happens")
            if len(evs) > 1:
                S.cover("two evaluations")
            if not killed:
                S.check(len(hook_log) == len(evs), "each evaluation is reported once")
                lines = open(os.path.join(out, "scores.txt")).read().splitlines()
                S.check(len(lines) == (1 + len(evs) if evs else 0), "one header, then one record per evaluation")
                if evs:
                    S.check(lines[0].startswith("steps\t") and not any(l.startswith("steps") for l in lines[1:]), "the header comes first, once")
                    best = smax(S, [e[4] for e in evs])
                    S.check_eq(evaluators[0].max_score, best, "the best score is the maximum over all workers")
                    bs = [j for j, e in enumerate(h.events) if e[1] == "save" and e[2].endswith("best")]
                    S.check(bool(bs) == save_best, "the best agent is saved")
                    if bs:
                        w = h.events[bs[-1]][0]
                        mine = [e for e in h.events[: bs[-1]] if e[0] == w and e[1] == "eval_step"]
                        S.check_eq(mine[-1][4], best, "the agent kept as best is the one that scored best")
                suc = [e for e in saves if e[2].endswith("successful")]
                hits = [e for e in evs if thr is not None and S.le(thr, e[4])]
                S.check(sorted(e[0] for e in suc) == sorted(e[0] for e in hits), "each successful worker saves its successful agent")
                if hits:
                    S.cover("success")
                    S.check(h.events[stop_i][0] is not None, "success stops all workers")
                else:
                    S.check(stop_i is None or h.events[stop_i][0] is None, "nothing but success or the end stops training")
        else:
            S.check(not evs and not any(e[2].endswith(("best", "successful")) for e in saves), "no evaluation unless asked for")
        # ---- failures
        ex = [e for e in saves if e[2].endswith("_except")]
        if fail_i is not None:
            w = h.events[fail_i][0]
            S.cover("failure")
            if not killed:
                S.check(isinstance(exc[w], KeyboardInterrupt if kind else Boom), "the worker's exception propagates")
                S.check(len(ex) == (1 if w == 0 else 0) and all(e[0] == 0 for e in ex), "worker 0 saves its agent when it fails")
                if ex:
                    S.check(ex[0][2] == os.path.join(out, "%d_except" % (numbers[0][-1] if numbers[0] else 0)), "named by its last step")
        elif sig_i is None:
            S.check(not ex and not killed and all(e is None for e in exc), "no failure of its own")
        if sig_i is not None:
            S.cover("signal")
            a = [e for e in h.events[sig_i:] if e[0] == 0 and e[1] == "step"]
            S.check(len(a) <= 1, "worker 0 reacts to an exception signal within one step")
            if killed:
                S.check(len(ex) == 1 and ex[0][0] == 0, "worker 0 saves its agent before killing the others")
        if not killed:
            S.check(stop_event.f, "training is marked as stopped at the end")
            S.check(ret is agents["first", 0] if shared else True, "the agent is returned")
        S.cover("ran")


def runner(S, n):
    import pfrl.utils  # noqa

    am = sys.modules["pfrl.utils.async_"]
    with sym_env(S, use_torch=False) as P:
        ev = []

        class Proc:
            def __init__(self, target=None, args=(), kwargs=None):
                self.target, self.args, self.kw = target, args, kwargs or {}
                self.exitcode, self.pid = None, 100 + len(ev)

            def start(self):
                ev.append(("start", self))

            def join(self, timeout=None):
                ev.append(("join", self))
                if not hasattr(self, "done"):
                    self.done = True
                    self.target(*self.args, **self.kw)
                    self.exitcode = codes[ran[-1]]

        P.set(am, "mp", type("MP", (), {"Process": Proc}))
        codes = [(0, 1, -9)[S.choice("exit%d" % i, 3)] for i in range(n)]
        ran = []
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            am.run_async(n, lambda i: ran.append(i))
        S.check(sorted(ran) == list(range(n)), "every worker index runs exactly once")
        first = next((j for j, e in enumerate(ev) if e[0] == "join"), len(ev))
        S.check(sum(1 for e in ev if e[0] == "start") == n and all(e[0] == "start" for e in ev[:n]) and first == n, "all workers start before any is awaited")
        S.check(len({id(e[1]) for e in ev if e[0] == "join"}) == n, "all workers are awaited")
        w = [x for x in ws if issubclass(x.category, am.AbnormalExitWarning)]
        S.check(len(w) == sum(1 for c in codes if c != 0), "each abnormal exit is reported once")
        S.cover("ran")


ASSUMPTIONS = ["workers run the real train_agent_async/train_loop/AsyncEvaluator code; process creation is replaced by threads that hand over control at every shared-memory operation, which loses no interleaving of those operations up to the preemption bound",
               "multiprocessing Value/Event are sequentially consistent; environments and agents are recording stubs",
               "process-killing calls are stand-ins that only record"]
FN = ["train_agent_async", "train_loop", "AsyncEvaluator.__init__", "AsyncEvaluator.evaluate_if_necessary", "AsyncEvaluator.evaluate_and_update_max_score", "eval_performance", "kill_all"]


def c(**k):
    d = dict(n=2, total=2, preempt=2, interval=0, success=False, done_flags=True, max_len=None, fail=False, signal_at=None, shared=True)
    d.update(k)
    return d


HARNESSES = [
    Harness(train,
            quick=[c(total=3, done_flags=False, offsets=2), c(done_flags=True, max_len=None, seeds_given=True), c(n=3, done_flags=False, preempt=1, total=2), c(max_len=2, done_flags=False, total=3, preempt=1),
                   c(interval=2, preempt=2, total=2, done_flags=False, max_len=1), c(interval=2, success=True, preempt=1, done_flags=False, max_len=1, total=2, offsets=2),
                   c(n=3, interval=1, preempt=1, total=2, done_flags=False, max_len=1, offsets=1), c(interval=1, done_flags=True, preempt=1, save_best=False, shared=False),
                   c(fail=True, preempt=1), c(signal_at=1, preempt=2, done_flags=False, total=3)],
            thorough=[c(total=4, preempt=3), c(n=3, total=4, preempt=2, done_flags=False), c(total=4, preempt=3, done_flags=False, max_len=2),
                      c(interval=2, preempt=3, total=3, max_len=2), c(interval=3, success=True, preempt=2, total=3), c(n=3, interval=2, success=True, preempt=2, total=2, done_flags=False, max_len=1),
                      c(fail=True, preempt=2, total=3), c(signal_at=1, preempt=3), c(signal_at=2, preempt=2, interval=2, total=3)],
            covers=["ran", "finish", "success", "two evaluations", "failure", "signal"], functions=FN,
            bounds="2-3 workers, 1..3 (4) global steps from offset 0-1, every interleaving at shared-memory operations with at most 1-2 (3) preemptions, every done pattern, episode limits, evaluation intervals, scores, success thresholds and failure points"),
    Harness(runner, quick=[dict(n=n) for n in (1, 2, 3)], covers=["ran"], functions=["run_async"], bounds="1-3 workers, all exit codes"),
]
