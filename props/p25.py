"""P25: vector environments."""
import multiprocessing
import signal
from collections import deque

from .common import *
from . import sched as sc


class VEnv:
    observation_space, action_space = "obs space", "act space"

    def __init__(self, S, i, log):
        self.S, self.i, self.log = S, i, log
        self.n = 0
        self.spec = "spec%d" % i

    def _o(self):
        self.n += 1
        return ("obs", self.i, self.n)

    def reset(self):
        o = self._o()
        self.log.append(("reset", o))
        return o

    def step(self, a):
        o = self._o()
        r = self.S.real("r%d_%d" % (self.i, self.n), -3, 3)
        d = self.S.bool("d%d_%d" % (self.i, self.n))
        self.log.append(("step", a, o, r, d, {"i": self.i, "n": self.n}))
        return o, r, d, {"i": self.i, "n": self.n}

    def seed(self, s=None):
        self.log.append(("seed", s))
        return [self.i, s]

    def close(self):
        self.log.append(("close",))


class Conn:
    """One end of a pipe between workers of the symbolic scheduler."""

    def __init__(self, H):
        self.H, self.q, self.peer, self.closed = H, deque(), None, False
        self.sent = self.got = 0

    def send(self, m):
        if self.closed:
            raise OSError("handle is closed")
        if self.peer.closed:
            raise BrokenPipeError()
        self.peer.q.append(m)
        self.sent += 1

    def recv(self):
        self.H.sched.yield_(lambda: not self.q and not self.peer.closed)
        if not self.q:
            raise EOFError()
        self.got += 1
        return self.q.popleft()

    def poll(self, timeout=0.0):
        self.H.sched.yield_()
        return bool(self.q)

    def close(self):
        self.closed = True

    def fileno(self):
        return 99


class Proc:
    def __init__(self, H, target=None, args=(), kwargs=None, **k):
        self.H, self.f, self.w = H, lambda: target(*args, **(kwargs or {})), None
        self.daemon = False

    def start(self):
        self.w = self.H.sched.spawn(self.f)

    def join(self, timeout=None):
        self.H.sched.yield_(lambda: not self.w.done)

    def is_alive(self):
        return not self.w.done

    def terminate(self):
        pass


class H:
    pass


def vector(S, kind, n, ops, preempt):
    import pfrl.envs.multiprocess_vector_env as M
    from pfrl.envs import SerialVectorEnv

    with sym_env(S, use_torch=False) as P:
        h = H()
        h.sched = sc.Sched(S, preempt)
        logs = [[] for _ in range(n)]
        envs = [VEnv(S, i, logs[i]) for i in range(n)]
        conns = []

        def Pipe(duplex=True):
            a, b = Conn(h), Conn(h)
            a.peer, b.peer = b, a
            conns.append((a, b))
            return a, b

        mkproc = lambda group=None, target=None, name=None, args=(), kwargs=None, daemon=None: Proc(h, target, args, kwargs)
        for m in (M, multiprocessing):
            for nm, f in (("Pipe", Pipe), ("Process", mkproc)):
                if hasattr(m, nm):
                    P.set(m, nm, f)
        P.set(signal, "signal", lambda *a: None)
        failed = []

        def same_steps(out, exp, last):
            obs, rs, ds, infos = out
            S.check(len(obs) == len(rs) == len(ds) == len(infos) == n, "one result per environment")
            for i in range(n):
                S.check(obs[i] == exp[i][2] and infos[i] == exp[i][5], "the i-th result comes from the i-th environment")
                S.check_eq(rs[i], exp[i][3], "the i-th reward comes from the i-th environment")
                S.check(S.eq(ds[i], exp[i][4]), "the i-th flag comes from the i-th environment")
                last[i] = exp[i][2]

        def drive():
            if kind == "serial":
                v = SerialVectorEnv(list(envs))
            else:
                v = M.MultiprocessVectorEnv([(lambda e=e: e) for e in envs])
            S.check(v.num_envs == n, "number of environments")
            S.check(v.action_space == "act space" and v.observation_space == "obs space", "spaces of the environments")
            S.check(v.spec == "spec0", "spec of the environments")
            last = [None] * n
            pos = [0] * n

            def new(i):
                out = logs[i][pos[i]:]
                pos[i] = len(logs[i])
                return out

            for k in range(ops):
                op = 1 if k == 0 else S.choice("op%d" % k, 4)
                if op == 0:  # step
                    S.cover("step")
                    acts = [("a", k, i) for i in range(n)]
                    out = v.step(acts)
                    exp = []
                    for i in range(n):
                        ls = new(i)
                        S.check(len(ls) == 1 and ls[0][0] == "step" and ls[0][1] == acts[i], "each environment is stepped once with its own action")
                        exp.append(ls[0])
                    same_steps(out, exp, last)
                elif op in (1, 2):  # reset
                    if op == 1:
                        S.cover("reset all")
                        mask = [False] * n
                        obs = v.reset()
                    else:
                        mask = [S.flag("mask%d_%d" % (k, i)) for i in range(n)]
                        S.cover("reset some")
                        obs = v.reset(np.array(mask) if kind == "multi" or S.flag("array%d" % k) else list(mask))
                    S.check(len(obs) == n, "one observation per environment")
                    for i in range(n):
                        ls = new(i)
                        if mask[i]:
                            S.check(ls == [], "masked environments are left alone")
                        else:
                            S.check(len(ls) == 1 and ls[0][0] == "reset", "unmasked environments are reset once")
                            last[i] = ls[0][1]
                        S.check(obs[i] == last[i], "the current observation of every environment is returned")
                else:
                    S.cover("seed")
                    seeds = [7 + 10 * k + i for i in range(n)]
                    v.seed(seeds)
                    for i in range(n):
                        S.check(new(i) == [("seed", seeds[i])], "each environment gets its own seed")
            v.close()
            for i in range(n):
                ls = new(i)
                S.check(ls == [("close",)], "each environment is closed once")
            for a, b in conns:
                S.check(b.got == a.sent and len(b.q) == 0, "a worker takes every request")
                S.check(a.got == b.sent and len(a.q) == 0 and b.sent == a.sent - 1, "a worker replies to each request exactly once")
            if kind != "serial":
                v.closed = True

        excs = h.sched.run([drive])
        for e in excs:
            if e is not None:
                raise e
        S.check(not h.sched.stuck, "no deadlock: everything ends after close")
        S.cover("done")


FN = ["SerialVectorEnv.step/reset/seed/close", "MultiprocessVectorEnv.__init__/step/reset/seed/close/spec", "worker"]
ASSUMPTIONS = ["processes are threads under a scheduler whose choices are symbolic, pipes are FIFO queues (their documented contract); interleavings at every receive and join, with a bound on preemptions (preempt=None: one fixed schedule, longer histories); environments do not fail"]
HARNESSES = [
    Harness(vector, quick=[dict(kind="serial", n=2, ops=4, preempt=0), dict(kind="serial", n=3, ops=3, preempt=0), dict(kind="multi", n=2, ops=2, preempt=0), dict(kind="multi", n=2, ops=3, preempt=None), dict(kind="multi", n=1, ops=4, preempt=1)],
            thorough=[dict(kind="serial", n=3, ops=4, preempt=0), dict(kind="multi", n=2, ops=3, preempt=1), dict(kind="multi", n=3, ops=2, preempt=0), dict(kind="multi", n=3, ops=3, preempt=None)],
            covers=["step", "reset all", "reset some", "seed", "done"], functions=FN, bounds="2-3 environments, 3-4 operations (first a reset), any masks"),
]
