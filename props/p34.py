"""P34: actor-learner training under every interleaving of actors, poller and learner."""
import time

from torch import nn

from .common import *
from .loops import Boom
from .p25 import Conn
from . import sched as sc
from . import p23
import pfrl
from pfrl import replay_buffers as rbs


class World:
    """Versions of the shared state that the two polling loops wait for.  A polling iteration that
    finds nothing new changes nothing, so it is only scheduled again after a change."""

    def __init__(self, S, sched):
        self.S, self.sched = S, sched
        self.v, self.seen = {"msg": 0, "buf": 0}, {}

    def bump(self, k):
        self.v[k] += 1

    def spin(self, k, extra=lambda: False):
        s = self.seen.get(k)
        self.sched.yield_(lambda: self.v[k] == s or extra())
        self.seen[k] = self.v[k]


class AConn(Conn):
    def __init__(self, w):
        super().__init__(w)
        self.w = w

    def send(self, m):
        super().send(m)
        self.w.bump("msg")

    def recv(self):
        if not self.q:
            self.w.sched.yield_(lambda: not self.q and not self.peer.closed)
        if not self.q:
            raise EOFError()
        self.got += 1
        return self.q.popleft()

    def poll(self, timeout=0.0):
        self.w.sched.yield_()
        return bool(self.q)


class AEvent:
    """Event; `spin`: the reader is the learner's polling loop."""

    def __init__(self, w):
        self.w, self.f, self.spin = w, False, None

    def is_set(self):
        if self.spin is not None and self.w.sched.me == self.spin[0]:
            self.w.spin("buf", lambda: self.spin[1]() and not self.f)
        else:
            self.w.sched.yield_()
        return self.f

    def set(self):
        self.w.sched.yield_()
        self.f = True
        self.w.bump("buf")
        self.w.bump("msg")


class Thread:
    def __init__(self, w, stop_event, target, kwargs):
        self.w, self.stop_event, self.f, self.wk = w, stop_event, lambda: target(**kwargs), None

    def start(self):
        self.wk = self.w.sched.spawn(self.f)

    def stop(self):
        self.stop_event.set()

    def is_stopped(self):
        return self.stop_event.f

    def join(self, timeout=None):
        self.w.sched.yield_(lambda: not self.wk.done)

    def is_alive(self):
        return not self.wk.done


class Net(nn.Module):
    def __init__(self, w):
        super().__init__()
        self.p = nn.Parameter(torch.zeros(1))
        self.w = w
        self.learner = [None]

    def forward(self, x):
        if self.w.sched.me == self.learner[0]:  # network evaluation takes time
            self.w.sched.yield_()
        ids = [int(v) for v in x.ravel()]
        q = torch.tensor([[0.0, 0.25] if i % 2 else [0.25, 0.0] for i in ids])
        return pfrl.action_value.DiscreteActionValue(q + 0.0 * self.p)

    def share_memory(self):
        return self

    def __deepcopy__(self, memo):
        n = Net(self.w)
        n.learner = self.learner
        n.p.data.copy_(self.p.data)
        return n


class Opt:
    """Each step adds one to the parameter."""

    def __init__(self, net, on_step):
        self.net, self.on_step = net, on_step
        self.param_groups = [dict(params=list(net.parameters()), lr=1.0)]

    def zero_grad(self, *a, **k):
        self.net.p.grad = None

    def step(self, *a, **k):
        self.on_step()
        with torch.no_grad():
            self.net.p += 1.0

    def state_dict(self):
        return {}

    def load_state_dict(self, d):
        pass


def instrument(S, w, rb, log):
    """Log the buffer's operations; each takes time, and two may not overlap."""
    inside = []

    def wrap(name):
        f = getattr(rb, name)

        def g(*a, **k):
            S.check(not inside, "operations on the replay buffer do not overlap: %s during %s" % (name, inside))
            inside.append(name)
            w.sched.yield_()
            r = f(*a, **k)
            inside.pop()
            log.append((name, a, k, r))
            w.bump("buf")
            return r

        setattr(rb, name, g)

    for n in ("append", "stop_current_episode", "sample", "update_errors", "sample_episodes"):
        if hasattr(rb, n):
            wrap(n)


def run(S, actors, steps, n_updates, cap, preempt, buf="plain", fail=None, interval=2, ui=1, tui=2, ends=True, start=1, request=True, reenter=False):
    """actors: number of actors; steps: environment steps each; n_updates: limit given to the learner;
    cap: bound on explored updates; fail: None, "hook" (a learner hook raises) or "save" (saving fails)."""
    D = sys.modules["pfrl.agents.dqn"]
    with sym_env(S, use_torch=False) as P:
        rng = RngStub(S, P, max_calls=12)
        sched = sc.Sched(S, preempt, delays=True)
        w = World(S, sched)

        class MP:
            @staticmethod
            def Pipe(duplex=True):
                a, b = AConn(w), AConn(w)
                a.peer, b.peer = b, a
                return a, b

            @staticmethod
            def Event():
                return AEvent(w)

            @staticmethod
            def Lock():
                return sc.Lock(sched)

            RLock = Lock

            @staticmethod
            def Value(t, v=0, *a, **k):
                return sc.Value(sched, v)

        P.set(D, "mp", MP)
        P.set(pfrl.utils, "StoppableThread", lambda stop_event, target=None, kwargs=None, args=(), **k: Thread(w, stop_event, target, kwargs or {}))
        P.set(time, "sleep", lambda t: w.spin("msg"))
        log, upd, hooks, saved = [], [], [], []
        net = Net(w)
        if buf == "plain":
            rb = rbs.ReplayBuffer(4)
        elif buf == "nstep":
            rb = rbs.ReplayBuffer(8, num_steps=2)
        elif buf == "episodic":
            rb = rbs.EpisodicReplayBuffer(8)
        else:
            rb = rbs.PrioritizedReplayBuffer(2, alpha=1.0, beta0=1.0, betasteps=10, normalize_by_max=False)
        ag = pfrl.agents.DQN(net, Opt(net, lambda: upd.append((float(ag.model.p), float(ag.target_model.p), float(sh[0].p), cnt.v))), rb, gamma=0.5, explorer=pfrl.explorers.Greedy(),
                             replay_start_size=start, minibatch_size=1, update_interval=ui, target_update_interval=tui, phi=lambda x: np.float32(x), logger=CountingLogger())
        instrument(S, w, rb, log)
        cnt = MP.Value("L", 0)

        def hook(kind):
            def h(e, a, t):
                hooks.append((kind, e, a, t))
                if fail == "hook" and kind == "opt" and t == 1:
                    S.cover("learner fails")
                    raise Boom("learner")
            return h

        def save(d):
            saved.append((d, "saved"))
            if fail == "save":
                S.cover("saving fails")
                raise OSError("disk full")

        ag.save = save
        ag.load = lambda d: saved.append((d, "loaded"))
        mk, learner, poller, exc = ag.setup_actor_learner_training(actors, update_counter=cnt, n_updates=n_updates, actor_update_interval=interval, step_hooks=[hook("step")], optimizer_step_hooks=[hook("opt")])
        acts = [mk(i) for i in range(actors)]
        sh = [acts[0].model]
        S.check(all(a.model is sh[0] for a in acts) and sh[0] is not net, "the actors share one model, not the learner's")
        seen = [[] for _ in range(actors)]  # what each actor did
        stats = []

        def actor(i):
            a = acts[i]
            obs = 10 * i
            for k in range(steps):
                act = a.act(np.float32(obs))
                S.check(int(act) == obs % 2, "actors act greedily with respect to the shared model")
                nxt, r = 10 * i + k + 1, float(10 * i + k + 1)
                end = S.choice("end%d_%d" % (i, k), 3) if ends is True or (ends is not False and ends == i) else 0
                a.observe(np.float32(nxt), r, end == 1, end == 2)
                seen[i].append(("t", obs, int(act), r, nxt, end == 1))
                if end:
                    S.cover("episode end")
                    seen[i].append(("stop",))
                    mine = sum(1 for e in log if e[0] == "append" and e[2].get("env_id") == i)
                    S.check(mine == k + 1, "at the end of an episode all its transitions are in the replay buffer")
                obs = nxt
                if learner.stop_event.is_set():
                    S.cover("stopped")
                    break
            if request and i == 0:
                lo = sum(1 for e in log if e[0] == "append")
                st = dict(a.get_statistics())
                hi = sum(1 for e in log if e[0] == "append")
                stats.append(st)
                S.check(lo <= st["cumulative_steps"] <= hi and len(seen[0]) - sum(1 for e in seen[0] if e[0] == "stop") <= st["cumulative_steps"], "statistics count the steps stored so far")
                a.save("D%d" % i)
                S.check(saved[-1:] == [("D%d" % i, "saved")], "a save request is carried out before it returns")
                if exc.f:
                    S.cover("requests served after a failure")
                else:
                    a.load("L")
                    S.check(saved[-1:] == [("L", "loaded")], "a load request is carried out before it returns")

        def main():
            poller.start()
            learner.start()
            net.learner[0] = learner.wk.idx
            learner.stop_event.spin = (learner.wk.idx, lambda: ag.optim_t >= cap and n_updates is None)
            poller.stop_event.is_set = lambda: poller.stop_event.f  # read next to time.sleep, which yields
            ws = [sched.spawn(lambda i=i: actor(i)) for i in range(actors)]
            for x in ws:
                sched.yield_(lambda: not x.done)
            learner.stop()
            learner.join()
            poller.stop()
            poller.join()

        excs = sched.run([main])
        for e in excs:
            if e is not None:
                raise e
        S.check(not sched.stuck, "no deadlock: actors, learner and poller all end (failure: %s)" % fail)
        S.check(exc.f == (fail == "save" or (fail == "hook" and ag.optim_t >= 1)), "a failure of the learner or poller is reported, and only that")
        # replay buffer
        for i in range(actors):
            got = []
            for name, a, k, _ in log:
                if k.get("env_id", a[0] if name == "stop_current_episode" and a else None) != i:
                    continue
                if name == "append":
                    got.append(("t", float(k["state"]), int(k["action"]), k["reward"], float(k["next_state"]), bool(k["is_state_terminal"])))
                elif name == "stop_current_episode":
                    got.append(("stop",))
            S.check(got == seen[i][: len(got)], "the buffer receives each actor's transitions and episode ends once, in order: %r vs %r" % (got, seen[i]))
            if request and i == 0:
                S.check(len(got) == len(seen[i]), "everything sent before an answered request is stored")
        n = sum(1 for e in log if e[0] == "append")
        S.check(all(e[2].get("env_id") in range(actors) for e in log if e[0] == "append"), "every transition belongs to an actor")
        S.check(ag.cumulative_steps == n, "the step count is the number of stored transitions")
        # learner
        K = len(upd)
        S.check(ag.optim_t == K and float(net.p) == K, "each update counts once")
        if n_updates is not None:
            S.check(K <= n_updates, "no more updates than asked for")
            if K == n_updates and not exc.f:
                S.cover("n_updates reached")
        shared_at = lambda k: float((k // interval) * interval)
        target_at = lambda k: float(max([j for j in range(1, k + 1) if (j * ui) % tui == 0], default=0))
        for k, (m, t, s, c) in enumerate(upd):
            S.check(m == k, "updates follow each other")
            S.check(t == target_at(k), "the target network follows the effective step count: %s after %d updates" % (t, k))
            S.check(s == shared_at(k) and c == k // interval, "actors receive the model every %d updates: %s, %s after %d" % (interval, s, c, k))
        if not exc.f:
            S.check(float(ag.target_model.p) == target_at(K) and float(sh[0].p) == shared_at(K) and cnt.v == K // interval, "target and shared models after the last update")
            S.check([h for h in hooks if h[0] == "opt"] == [("opt", None, ag, k + 1) for k in range(K)], "optimizer hooks see each update once")
            S.check([h for h in hooks if h[0] == "step"] == [("step", None, ag, (k + 1) * ui) for k in range(K)], "step hooks see each effective step once")
            S.check(ag.t == K * ui, "effective step count")
        if K >= 2:
            S.cover("two updates")
        # sampling
        stored = []
        prio, mx = [], 1.0
        size = 0
        for name, a, k, r in log:
            if name == "append":
                stored.append((float(k["state"]), float(k["next_state"])))
                prio.append([mx, k["reward"]])
                size = min(size + 1, rb.capacity)
            elif name == "sample":
                S.check(len(stored) >= start, "updates start only when enough transitions are stored")
                last = [(float(e[0]["state"]), float(e[-1]["next_state"]), float(e[0]["reward"])) for e in r]
                for s0, s1, _ in last:
                    S.check(any(x[0] == s0 for x in stored) and any(x[1] == s1 for x in stored), "sampled transitions come from the buffer")
            elif name == "update_errors":
                S.cover("priorities written")
                for (s0, s1, rew), p in zip(last, rb.priority_from_errors(a[0])):
                    p = float(p)
                    for e, (x0, x1) in zip(prio, stored):
                        if x0 == s0 and x1 == s1:
                            e[0] = p
                            mx = max(mx, p)
        if buf == "prio" and not exc.f:
            if len(stored) > rb.capacity:
                S.cover("eviction")
            data = list(rb.memory.data)
            live = prio[len(prio) - len(data):]
            for d, (p, rew) in zip(data, live):
                S.check(float(d[0]["reward"]) == rew, "contents of the buffer")
                got = rb.memory.priority_sums.popleft()
                S.check_eq(got, p, "the priority of each stored transition is its own error's")


def actor(S, kind, T, evals):
    """What one actor sends, with evaluation phases anywhere, judged like a learning agent in P23."""
    p23.offpolicy(S, kind, 1, T, evals=evals, single=True)


ASSUMPTIONS = ["actors, poller and learner are workers of a symbolic scheduler; pipes, locks, events, shared values, network evaluation and replay-buffer operations are its scheduling points",
               "polling loops are rescheduled only after the state they poll has changed (an idle iteration changes nothing)",
               "the optimizer adds one to a single parameter per step, so models identify the number of updates they contain; Q-values are fixed",
               "a transition sent but not followed by an answered request may be lost when the poller is stopped"]
FN = ["DQN.setup_actor_learner_training", "DQN._learner_loop", "DQN._poller_loop", "DQN._poll_pipe", "DQN.update", "StateQFunctionActor.act/observe/save/load/get_statistics", "PrioritizedReplayBuffer.sample/update_errors"]
O = dict(timeout_ms=20000, time_limit=400)
HARNESSES = [
    Harness(run, quick=[dict(actors=2, steps=1, n_updates=None, cap=1, preempt=1),
                        dict(actors=1, steps=2, n_updates=None, cap=1, preempt=1, request=False), dict(actors=2, steps=2, n_updates=1, cap=1, preempt=0, ends=1, request=False),
                        dict(actors=1, steps=2, n_updates=2, cap=2, preempt=1, ends=False),
                        dict(actors=1, steps=2, n_updates=3, cap=3, preempt=1, ends=False, interval=1, ui=2, tui=4),
                        dict(actors=1, steps=3, n_updates=1, cap=1, preempt=2, buf="prio", ends=False, start=2, request=False),
                        dict(actors=1, steps=2, n_updates=None, cap=2, preempt=2, ends=False, fail="hook"),
                        dict(actors=1, steps=1, n_updates=None, cap=1, preempt=1, fail="save")],
            thorough=[dict(actors=2, steps=1, n_updates=None, cap=1, preempt=2), dict(actors=2, steps=2, n_updates=None, cap=1, preempt=1, ends=1), dict(actors=1, steps=2, n_updates=2, cap=2, preempt=2, ends=False), dict(actors=1, steps=4, n_updates=2, cap=2, preempt=2, buf="prio", ends=False, start=2, request=False),
                      dict(actors=2, steps=2, n_updates=None, cap=2, preempt=1, buf="nstep"), dict(actors=2, steps=1, n_updates=None, cap=2, preempt=2, fail="hook")],
            covers=["episode end", "stopped", "n_updates reached", "two updates", "priorities written", "eviction", "learner fails", "requests served after a failure", "saving fails"],
            functions=FN, opts=O, bounds="1-2 actors, <= 3 (4) steps each, <= 3 updates, <= 2 delays (preemptions or deviations from round-robin order)"),
    Harness(actor, quick=[dict(kind=k, T=3, evals=1) for k in ("Actor", "recActor")], thorough=[dict(kind=k, T=4, evals=2) for k in ("Actor", "recActor")],
            covers=["evaluation", "ended", "continues", "recurrent states"], functions=["StateQFunctionActor.act/observe", "pfrl.utils.recurrent"], opts=dict(timeout_ms=20000), bounds="3 (4) steps, <= 1 (2) evaluation phases"),
]
