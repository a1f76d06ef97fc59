"""P01: n-step experience windows."""
from .common import *


def _mk(kind, capacity, n):
    from pfrl.replay_buffers import ReplayBuffer, PrioritizedReplayBuffer

    if kind == "plain":
        return ReplayBuffer(capacity=capacity, num_steps=n)
    return PrioritizedReplayBuffer(capacity=capacity, num_steps=n)


def _contents(buf, S):
    n = len(buf)
    if n == 0:
        return []
    out = buf.sample(n)
    S.check(len(out) == n, "sample(len) returns len experiences")
    return [list(e) for e in out]


def _check_contents(S, got, expected):
    S.check(len(got) == len(expected), "number of stored experiences: got %d, expected %d" % (len(got), len(expected)))
    got = sorted(got, key=lambda w: w[0]["state"])
    expected = sorted(expected, key=lambda w: w[0]["state"])
    for g, e in zip(got, expected):
        S.check([t["state"] for t in g] == [t["state"] for t in e], "window %s, expected %s" % ([t["state"] for t in g], [t["state"] for t in e]))
        for a, b in zip(g, e):
            for k in ("state", "action", "reward", "next_state", "next_action", "extra"):
                S.check(a.get(k) == b[k], "field %s of stored transition" % k)
            S.check(S.eq(a["is_state_terminal"], b["is_state_terminal"]), "terminal flag of stored transition")


def nstep_windows(S, kind, T, n_envs, max_n, capacity, ops):
    with sym_env(S, use_torch=False):
        n = S.choice("num_steps_minus_1", max_n) + 1
        buf = _mk(kind, capacity, n)
        pending = {e: [] for e in range(n_envs)}
        emitted = []
        c = 0
        for t in range(T):
            e = S.choice("env%d" % t, n_envs)
            op = S.choice("op%d" % t, len(ops))
            op = ops[op]
            if op == "append":
                c += 1
                term = S.bool("terminal%d" % t)
                tr = dict(state=c, action=c + 1000, reward=c + 2000, next_state=c + 3000,
                          next_action=c + 4000, is_state_terminal=term, extra=c + 5000)
                buf.append(env_id=e, **dict(tr))
                p = pending[e]
                p.append(tr)
                if term:
                    while p:
                        emitted.append(list(p))
                        p.pop(0)
                    S.cover("terminal")
                elif len(p) == n:
                    emitted.append(list(p))
                    p.pop(0)
                    S.cover("full window")
            elif op == "stop":
                p = pending[e]
                buf.stop_current_episode(env_id=e)
                if p:
                    S.cover("interrupted")
                while p:
                    emitted.append(list(p))
                    p.pop(0)
            elif op == "reload":
                with scratch_dir() as d:
                    f = os.path.join(d, "buf.pkl")
                    buf.save(f)
                    b2 = _mk(kind, capacity, n)
                    b2.load(f)
                # a reload keeps what was stored; windows of running episodes
                # are not part of the saved content
                buf = b2
                pending = {k: [] for k in pending}
                S.cover("reload")
        expected = emitted if capacity is None else emitted[max(0, len(emitted) - capacity):]
        if capacity is not None and len(emitted) > capacity:
            S.cover("overflow")
        S.check(len(buf) == len(expected), "len(buffer)")
        S.check(buf.capacity == capacity, "capacity")
        _check_contents(S, _contents(buf, S), expected)


HARNESSES = [
    Harness(
        nstep_windows,
        quick=grid(kind=["plain", "prio"], T=[4], n_envs=[2], max_n=[3], capacity=[None, 2], ops=[["append", "stop"]])
        + grid(kind=["plain", "prio"], T=[6], n_envs=[1], max_n=[3], capacity=[None, 3], ops=[["append", "stop"]])
        + grid(kind=["plain"], T=[6], n_envs=[1], max_n=[6], capacity=[5], ops=[["append"]])
        + grid(kind=["plain", "prio"], T=[4], n_envs=[1], max_n=[2], capacity=[None, 3], ops=[["append", "reload"]]),
        thorough=grid(kind=["plain", "prio"], T=[5], n_envs=[2], max_n=[3], capacity=[None, 1, 2, 3], ops=[["append", "stop"]])
        + grid(kind=["plain", "prio"], T=[8], n_envs=[1], max_n=[4], capacity=[None, 1, 3, 4], ops=[["append", "stop"]])
        + grid(kind=["plain"], T=[9], n_envs=[1], max_n=[8], capacity=[None, 5], ops=[["append"]])
        + grid(kind=["plain", "prio"], T=[5], n_envs=[1], max_n=[2], capacity=[None, 3], ops=[["append", "stop", "reload"]]),
        covers=["terminal", "full window", "interrupted", "overflow", "reload"],
        functions=["ReplayBuffer.append", "ReplayBuffer.stop_current_episode", "ReplayBuffer.sample", "ReplayBuffer.save",
                   "ReplayBuffer.load", "PrioritizedReplayBuffer.sample", "RandomAccessQueue.append", "RandomAccessQueue.popleft",
                   "PrioritizedBuffer.append", "PrioritizedBuffer.popleft"],
        bounds="histories of <= 6 (thorough 9) operations append/stop/save+load, <= 2 envs, num_steps <= 6 (8), capacities listed; terminal flags, env ids, op kinds and num_steps symbolic",
    )
]
