"""P06: prioritized sampling, probabilities, importance weights, new priorities."""
from .common import *


def _fill(S, b, n, warm):
    """n items with arbitrary positive priorities after `warm` dropped ones."""
    ps = []
    for i in range(warm + n):
        p = S.real("p%d" % i, lo_strict=0, hi=9)
        b.append(i, priority=p)
        ps.append(p)
    for _ in range(warm):
        b.popleft()
    return list(range(warm, warm + n)), ps[warm:]


def pick_by_mass(S, n, k, warm, wait, ratio):
    from pfrl.collections.prioritized import PrioritizedBuffer

    with sym_env(S, use_torch=False) as P:
        b = PrioritizedBuffer(capacity=None, wait_priority_after_sampling=wait)
        toks, ps = _fill(S, b, n, warm)
        total = sum(ps[1:], ps[0])
        pri = dict(zip(toks, ps))
        rng = RngStub(S, P, max_calls=2)
        u = S.real("uniform_ratio", lo_strict=0, hi=1) if ratio else 0
        items, probs, minp = b.sample(k, uniform_ratio=u)
        S.check(len(items) == k and len(probs) == k, "k items and probabilities")
        for it in items:
            S.check(it in pri, "a sampled item is stored")
        if wait or not ratio:
            S.check(len(set(items)) == k, "distinct items")
        share = lambda p: u / n + (1 - u) * p / total if ratio else p / total
        for it, pr in zip(items, probs):
            S.check_eq(pr, share(pri[it]), "probability of a sampled item")
        S.check_eq(minp, share(smin(S, ps)), "smallest probability")
        # the drawn points (as fractions of the remaining mass) lie in the items' intervals
        fr = [d for d in rng.draws if d[0] in ("uniform", "rand")]
        nuni = k - len(fr)
        live = dict(pri)
        for it in items[:nuni]:
            if wait:
                live[it] = 0
            S.cover("uniform draw")
        for d, it in zip(fr, items[nuni:]):
            rest = sum(live.values())
            if d[0] == "uniform":
                # the source yields any point of [low, high)
                S.check_eq(d[1], 0, "draw from 0")
                S.check_eq(d[2], rest, "draw over the remaining mass")
                point = d[3]
            else:
                point = d[1] * rest
            before = 0
            for t in toks:
                if t == it:
                    break
                before = before + live[t]
            S.check(and_(S.le(before, point), S.le(point, before + live[it])), "the drawn point lies in the picked item's interval")
            S.check(live[it] > 0, "an item without remaining mass was drawn")
            live[it] = 0
            S.cover("mass draw")
        if not ratio:
            S.check(nuni == 0, "one draw per item")
        if wait:
            b.set_last_priority([pri[it] for it in items])
        S.check_eq(b.priority_sums.sum(), total, "total priority restored")
        S.cover("done")


def weights(S, n, k, mode, beta0, betasteps, kind):
    """Importance weights through the replay buffers' own sample()."""
    from pfrl.replay_buffers import PrioritizedReplayBuffer, PrioritizedEpisodicReplayBuffer

    with sym_env(S, use_torch=False) as P:
        b0 = S.real("beta0", 0, 1) if beta0 is None else beta0
        kw = dict(capacity=None, alpha=1.0, beta0=b0, betasteps=betasteps, eps=0.5, normalize_by_max=mode, error_min=None, error_max=None)
        if kind == "plain":
            buf = PrioritizedReplayBuffer(num_steps=1, **kw)
        else:
            buf = PrioritizedEpisodicReplayBuffer(return_sample_weights=True, **kw)
        for i in range(n):
            buf.append(state=i, action=0, reward=0.0, next_state=0, next_action=None, is_state_terminal=True)
        rng = RngStub(S, P)

        def sample(k):
            if kind == "plain":
                out = buf.sample(k)
                return [o[0]["state"] for o in out], [o[0]["weight"] for o in out]
            eps, w = buf.sample_episodes(k)
            return [e[0]["state"] for e in eps], list(w)

        # give every item its own priority (error + eps), alpha = 1
        errs = [S.real("err%d" % i, 0, 5) for i in range(n)]
        first, _ = sample(n)
        buf.update_errors(errs)
        pri = {t: e + 0.5 for t, e in zip(first, errs)}
        calls = 1
        total = sum(pri.values())
        toks, ws = sample(k)
        beta = buf_beta(S, b0, betasteps, calls)
        calls += 1
        p = [pri[t] / total for t in toks]
        S.check(len(ws) == k, "one weight per sample")
        if mode in (True, "batch"):
            ref = smin(S, p)
        elif mode == "memory":
            ref = smin(S, list(pri.values())) / total
        else:
            ref = None
        for w, q in zip(ws, p):
            S.check(w > 0, "positive weight")
            if ref is not None:
                S.check(S.le(w, 1), "normalized weight exceeds 1")
            if not S.symbolic or beta0 is not None:
                x = q * n if ref is None else q / ref
                if not S.symbolic:
                    S.check_eq(w, x ** (-beta), "importance weight")
                elif beta0 == 1:
                    S.check_eq(w * x, 1, "importance weight (beta 1)")
                elif beta0 == 0.5:
                    S.check_eq(w * w * x, 1, "importance weight (beta 1/2)")
                elif beta0 == 0:
                    S.check_eq(w, 1, "importance weight (beta 0)")
        S.check_eq(buf.beta, buf_beta(S, b0, betasteps, calls), "beta after %d samples" % calls)
        S.cover("done")


def buf_beta(S, b0, steps, calls):
    if steps is None:
        return b0
    return smin(S, [1.0, b0 + calls * (1.0 - b0) / steps])


def new_priorities(S, n, k, alpha, clip, kind):
    """update_errors assigns (clip(error)+eps)^alpha to the items last sampled."""
    from pfrl.replay_buffers import PrioritizedReplayBuffer, PrioritizedEpisodicReplayBuffer

    with sym_env(S, use_torch=False) as P:
        eps = S.real("eps", lo_strict=0, hi=1)
        lo, hi = (0, 1) if clip else (None, None)
        if kind == "plain":
            buf = PrioritizedReplayBuffer(capacity=None, alpha=alpha, beta0=0.4, betasteps=None, eps=eps, error_min=lo, error_max=hi)
            mem = buf.memory
        else:
            buf = PrioritizedEpisodicReplayBuffer(capacity=None, alpha=alpha, beta0=0.4, betasteps=None, eps=eps, error_min=lo, error_max=hi)
            mem = buf.episodic_memory
        for i in range(n):
            buf.append(state=i, action=0, reward=0.0, next_state=0, next_action=None, is_state_terminal=True)
        RngStub(S, P)
        if kind == "plain":
            toks = [o[0]["state"] for o in buf.sample(k)]
        else:
            toks = [e[0]["state"] for e in buf.sample_episodes(k)[0]]
        errs = [S.real("err%d" % i, -1 if clip else 0, 3) for i in range(k)]
        buf.update_errors(errs)
        exp = {i: 1.0 for i in range(n)}
        for t, e in zip(toks, errs):
            c = smin(S, [1, smax(S, [0, e])]) if clip else e
            exp[t] = (c + eps) ** alpha if not S.symbolic else core.spow(c + eps, alpha)
        S.check_eq(mem.max_priority, smax(S, [1.0] + [exp[t] for t in toks]), "largest priority ever assigned")
        for i in range(n):
            S.check_eq(mem.priority_sums.popleft(), exp[i], "priority of item %d" % i)
            S.check_eq(mem.priority_mins.popleft(), exp[i], "priority of item %d (minimum)" % i)
        S.cover("done")


FN = ["PrioritizedBuffer.sample", "PrioritizedBuffer._sample_indices_and_probabilities", "SumTreeQueue.prioritized_sample",
      "SumTreeQueue.uniform_sample", "_find", "PriorityWeightError.priority_from_errors", "PriorityWeightError.weights_from_probabilities",
      "PrioritizedReplayBuffer.sample", "PrioritizedReplayBuffer.update_errors", "PrioritizedEpisodicReplayBuffer.sample_episodes",
      "PrioritizedEpisodicReplayBuffer.update_errors"]
ASSUMPTIONS = ["np.random.uniform(a,b) returns any real in [a,b); binomial(n,p) any integer in 0..n",
               "pow with symbolic exponent is uninterpreted (sign/monotonicity facts only); exact weights are decided for beta in {0, 1/2, 1}"]

HARNESSES = [
    Harness(pick_by_mass,
            quick=grid(n=[3], k=[1, 2], warm=[0, 2], wait=[True], ratio=[False]) + grid(n=[4], k=[2], warm=[1], wait=[False], ratio=[False])
            + grid(n=[3], k=[2], warm=[1], wait=[True, False], ratio=[True]) + [dict(n=5, k=3, warm=0, wait=True, ratio=False)],
            thorough=grid(n=[3, 5], k=[1, 3], warm=[0, 2, 3], wait=[True, False], ratio=[False]) + grid(n=[3, 4], k=[2], warm=[0, 1], wait=[True, False], ratio=[True])
            + [dict(n=7, k=2, warm=4, wait=True, ratio=False), dict(n=8, k=2, warm=0, wait=True, ratio=False)],
            covers=["mass draw", "uniform draw", "done"], functions=FN, opts=dict(sym_hash=True),
            bounds="<= 5 (8) live items in windows shifted by <= 2 (4), <= 3 draws"),
    Harness(weights,
            quick=grid(n=[3], k=[2], mode=[True, "memory", False], beta0=[0, 0.5, 1, None], betasteps=[None], kind=["plain"])
            + grid(n=[2], k=[2], mode=["batch", False], beta0=[None], betasteps=[1, 3], kind=["plain", "episodic"])
            + grid(n=[3], k=[2], mode=[True, "memory"], beta0=[1], betasteps=[None], kind=["episodic"]),
            thorough=grid(n=[4], k=[3], mode=[True, "memory", False], beta0=[0, 0.5, 1, None], betasteps=[None], kind=["plain", "episodic"])
            + grid(n=[2, 3], k=[2], mode=["batch", False], beta0=[None], betasteps=[1, 2, 3, 5], kind=["plain", "episodic"]),
            covers=["done"], functions=FN,
            bounds="<= 3 (4) stored items, batches <= 2 (3), symbolic errors/beta"),
    Harness(new_priorities,
            quick=grid(n=[3], k=[2], alpha=[0, 1, 0.5, 2, 0.6], clip=[True, False], kind=["plain"]) + grid(n=[3], k=[3], alpha=[0.6], clip=[False], kind=["episodic"]),
            thorough=grid(n=[4], k=[3], alpha=[0, 1, 0.5, 2, 0.6], clip=[True, False], kind=["plain", "episodic"]),
            covers=["done"], functions=FN, bounds="<= 4 items; symbolic errors and eps"),
]
