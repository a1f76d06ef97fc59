"""P03: episodic replay buffers."""
from .common import *


def _mk(kind, capacity):
    from pfrl.replay_buffers import EpisodicReplayBuffer, PrioritizedEpisodicReplayBuffer

    if kind == "plain":
        return EpisodicReplayBuffer(capacity=capacity)
    return PrioritizedEpisodicReplayBuffer(capacity=capacity, return_sample_weights=(kind == "prio_w"))


def _episodes(S, buf, kind, n, max_len=None):
    r = buf.sample_episodes(n, max_len) if max_len is not None else buf.sample_episodes(n)
    if kind == "prio_w":
        r, w = r
        S.check(len(w) == n, "one weight per sampled episode")
    if kind != "plain":
        buf.update_errors([1.0] * n)
    return r


FIELDS = ("state", "action", "reward", "next_state", "next_action", "extra")


def _same(S, a, b, what):
    for k in FIELDS:
        S.check(a.get(k) == b[k], "field %s of a transition of %s" % (k, what))
    S.check(S.eq(a["is_state_terminal"], b["is_state_terminal"]), "terminal flag of a transition of %s" % what)


def history(S, kind, T, n_envs, capacity, reload=False):
    with sym_env(S, use_torch=False) as P:
        buf = _mk(kind, capacity)
        S.check(buf.capacity == capacity, "capacity attribute")
        cur = {e: [] for e in range(n_envs)}
        done = []
        c = 0
        for t in range(T):
            e = S.choice("env%d" % t, n_envs)
            op = S.choice("op%d" % t, 3 if reload else 2)
            if op == 0:
                c += 1
                term = S.bool("terminal%d" % t)
                tr = dict(state=c, action=c + 100, reward=c + 200, next_state=c + 300, next_action=c + 400,
                          is_state_terminal=term, extra=c + 500)
                buf.append(env_id=e, **dict(tr))
                cur[e].append(tr)
                if term:
                    done.append(cur[e])
                    cur[e] = []
                    S.cover("terminal")
            elif op == 1:
                buf.stop_current_episode(env_id=e)
                if cur[e]:
                    done.append(cur[e])
                    S.cover("interrupted")
                cur[e] = []
            else:
                with scratch_dir() as d:
                    f = os.path.join(d, "b.pkl")
                    buf.save(f)
                    buf = _mk(kind, capacity)
                    buf.load(f)
                cur = {k: [] for k in cur}
                S.cover("reload")
            # eviction: whole oldest episodes until it fits
            while capacity is not None and sum(len(x) for x in done) > capacity:
                done.pop(0)
                S.cover("evicted")
            S.check(buf.n_episodes == len(done), "number of episodes %d, expected %d" % (buf.n_episodes, len(done)))
            tot = sum(len(x) for x in done)
            S.check(len(buf) == tot, "len(buffer) %d, expected %d" % (len(buf), tot))
        if not done:
            return
        # deterministic random source for reading out the contents
        P.set(np.random, "choice", lambda n, k=None, replace=True: np.arange(k))
        P.set(np.random, "uniform", lambda a, b: a)
        eps = _episodes(S, buf, kind, len(done))
        S.check(len(eps) == len(done), "sampling all episodes returns all of them")
        for g, x in zip(sorted(eps, key=lambda ep: ep[0]["state"]), sorted(done, key=lambda ep: ep[0]["state"])):
            S.check([a["state"] for a in g] == [a["state"] for a in x], "stored episode %s, expected %s" % ([a["state"] for a in g], [a["state"] for a in x]))
            for a, b in zip(g, x):
                _same(S, a, b, "an episode")
        trs = buf.sample(tot)
        S.check(len(trs) == tot, "sampling all transitions returns all of them")
        flat = [t for ep in done for t in ep]
        for w in trs:
            S.check(isinstance(w, list) and len(w) == 1, "a sampled transition is a one-element window")
        for w, b in zip(sorted(trs, key=lambda w: w[0]["state"]), sorted(flat, key=lambda t: t["state"])):
            _same(S, w[0], b, "the transition view")
        S.cover("checked")


def sampling(S, kind, lens, k, max_len):
    """Any outcome of the random source: distinct episodes, contiguous parts."""
    with sym_env(S, use_torch=False) as P:
        buf = _mk(kind, None)
        c = 0
        for n in lens:
            for i in range(n):
                buf.append(state=c, action=0, reward=0, next_state=c + 1, next_action=0, is_state_terminal=i == n - 1)
                c += 1
        starts = [sum(lens[:i]) for i in range(len(lens))]
        RngStub(S, P, max_calls=2)
        eps = _episodes(S, buf, kind, k, max_len)
        S.check(len(eps) == k, "number of sampled episodes")
        src = []
        for ep in eps:
            st = [t["state"] for t in ep]
            j = max(i for i in range(len(lens)) if starts[i] <= st[0])
            src.append(j)
            S.check(st == list(range(st[0], st[0] + len(st))), "contiguous subsequence %s" % st)
            S.check(st[-1] < starts[j] + lens[j], "subsequence crosses episodes")
            want = lens[j] if max_len is None else min(lens[j], max_len)
            S.check(len(st) == want, "subsequence of length %d from an episode of %d (max_len %s)" % (len(st), lens[j], max_len))
            if st[0] > starts[j]:
                S.cover("offset start")
            if st[-1] == starts[j] + lens[j] - 1 and len(st) < lens[j]:
                S.cover("reaches the end")
        S.check(len(set(src)) == len(src), "sampled episodes are distinct")
        S.cover("done")


FN = ["EpisodicReplayBuffer.append", "EpisodicReplayBuffer.stop_current_episode", "EpisodicReplayBuffer.sample",
      "EpisodicReplayBuffer.sample_episodes", "EpisodicReplayBuffer.save", "EpisodicReplayBuffer.load",
      "PrioritizedEpisodicReplayBuffer.stop_current_episode", "PrioritizedEpisodicReplayBuffer.sample_episodes",
      "random_subseq", "sample_n_k"]

HARNESSES = [
    Harness(history,
            quick=grid(kind=["plain", "prio", "prio_w"], T=[5], n_envs=[2], capacity=[None, 3])
            + grid(kind=["plain", "prio"], T=[7], n_envs=[1], capacity=[2, 4])
            + grid(kind=["plain", "prio"], T=[5], n_envs=[1], capacity=[3], reload=[True]),
            thorough=grid(kind=["plain", "prio", "prio_w"], T=[6], n_envs=[2], capacity=[None, 1, 3, 4])
            + grid(kind=["plain", "prio"], T=[9], n_envs=[1], capacity=[2, 4, 5])
            + grid(kind=["plain", "prio"], T=[6], n_envs=[2], capacity=[3], reload=[True]),
            covers=["terminal", "interrupted", "evicted", "checked", "reload"], functions=FN,
            bounds="<= 7 (9) append/stop/save+load operations, <= 2 environments, capacities listed; environment, operation and terminal flags symbolic"),
    Harness(sampling,
            quick=grid(kind=["plain", "prio"], lens=[[1, 3, 4], [5, 2]], k=[1, 2], max_len=[None, 2, 3])
            + grid(kind=["plain"], lens=[[2, 2, 3, 1, 1, 2, 4]], k=[2], max_len=[2]),
            thorough=grid(kind=["plain", "prio", "prio_w"], lens=[[1, 3, 4], [5, 2, 2], [6, 1, 4]], k=[1, 2, 3], max_len=[None, 1, 2, 3, 5])
            + grid(kind=["plain"], lens=[[2, 2, 3, 1, 1, 2, 4]], k=[2, 3], max_len=[2]),
            covers=["offset start", "reaches the end", "done"], functions=FN,
            opts=dict(sym_hash=True, max_paths=20000),
            bounds="<= 3 (7) stored episodes of <= 6 transitions, all outcomes of the random source"),
]
