"""P05: aggregates of the prioritized memory."""
from .common import *


def _agg(S, b, ref, where):
    """ref: list of (token, priority) in order."""
    S.check(len(b) == len(ref), "length after %s" % where)
    total = 0
    for _, p in ref:
        total = total + p
    S.check_eq(b.priority_sums.sum(), total, "total priority after %s" % where)
    if ref:
        S.check_eq(b.priority_mins.min(), smin(S, [p for _, p in ref]), "minimum priority after %s" % where)


def buffer_history(S, T, capacity, n_init, wait):
    from pfrl.collections.prioritized import PrioritizedBuffer

    with sym_env(S, use_torch=False) as P:
        maxp = S.real("initial_max", lo_strict=0, hi=5)
        b = PrioritizedBuffer(capacity=capacity, wait_priority_after_sampling=wait, initial_max_priority=maxp)
        ref = []
        c = 0

        def push(p):
            nonlocal c
            c += 1
            if capacity is not None and len(ref) == capacity:
                ref.pop(0)
                S.cover("capacity drop")
            if p is None:
                b.append(c)
                ref.append((c, maxp))
            else:
                b.append(c, priority=p)
                ref.append((c, p))

        for i in range(n_init):
            push(S.real("p_init%d" % i, lo_strict=0, hi=9))
        _agg(S, b, ref, "set-up")
        # positions returned by the sampler are chosen nondeterministically
        tree = type(b.priority_sums)
        for t in range(T):
            op = S.choice("op%d" % t, 4)
            if op == 0:
                push(None)
                S.cover("default priority")
            elif op == 1:
                push(S.real("p%d" % t, lo_strict=0, hi=9))
            elif op == 2:
                if not ref:
                    continue
                got = b.popleft()
                S.check(got == ref[0][0], "popleft returns the oldest item")
                ref.pop(0)
                S.cover("popleft")
            else:
                k = min(2, len(ref))
                if k == 0:
                    continue
                rng = RngStub(S, P)
                items, probs, _ = b.sample(k)
                S.check(len(set(items)) == k, "distinct items sampled")
                errs = [S.real("u%d_%d" % (t, i), lo_strict=0, hi=9) for i in range(k)]
                b.set_last_priority(errs)
                pos = {tok: i for i, (tok, _) in enumerate(ref)}
                for it, e in zip(items, errs):
                    S.check(it in pos, "a sampled item is stored")
                    ref[pos[it]] = (it, e)
                    maxp = smax(S, [maxp, e])
                S.cover("update")
            _agg(S, b, ref, ["append", "append with priority", "popleft", "update"][op])
        # the item-priority association, observed through sampling without removal
        if ref:
            total = b.priority_sums.sum()
            S.check_eq(b.max_priority, maxp, "maximum priority")
            while ref:
                p = b.priority_sums.popleft()
                q = b.priority_mins.popleft()
                d = b.data.popleft()
                S.check(d == ref[0][0], "data order")
                S.check_eq(p, ref[0][1], "priority of item %d" % d)
                S.check_eq(q, ref[0][1], "priority of item %d in the minimum tree" % d)
                ref.pop(0)


def tree_history(S, op, T, warm):
    """TreeQueue alone: sliding-window shapes, updates at a symbolic index."""
    from pfrl.collections.prioritized import SumTreeQueue, MinTreeQueue

    with sym_env(S, use_torch=False):
        q = SumTreeQueue() if op == "sum" else MinTreeQueue()
        ref = []
        k = 0
        # a concrete warm-up brings the window to an arbitrary shape
        for a, n in warm:
            for _ in range(n):
                if a == "a":
                    v = S.real("w%d" % k, 0, 9)
                    k += 1
                    q.append(v)
                    ref.append(v)
                else:
                    S.check_eq(q.popleft(), ref.pop(0), "popped value")
        for t in range(T):
            o = S.choice("op%d" % t, 3)
            v = S.real("v%d" % t, 0, 9)
            if o == 0:
                q.append(v)
                ref.append(v)
            elif o == 1:
                if not ref:
                    continue
                S.check_eq(q.popleft(), ref.pop(0), "popped value")
                S.cover("pop")
            else:
                if not ref:
                    continue
                i = S.choice("i%d" % t, len(ref))
                q[i] = v
                ref[i] = v
                S.cover("update")
            S.check(q.length == len(ref), "length")
            if op == "sum":
                tot = 0
                for x in ref:
                    tot = tot + x
                S.check_eq(q.sum(), tot, "sum")
            elif ref:
                S.check_eq(q.min(), smin(S, ref), "min")
            else:
                S.check(q.min() == float("inf"), "min of empty")
        S.cover("done")


FN = ["PrioritizedBuffer.append", "PrioritizedBuffer.popleft", "PrioritizedBuffer.sample", "PrioritizedBuffer.set_last_priority",
      "TreeQueue.append", "TreeQueue.popleft", "TreeQueue._write", "_write", "_reduce", "_expand", "_find",
      "SumTreeQueue.sum", "SumTreeQueue.prioritized_sample", "MinTreeQueue.min"]
ASSUMPTIONS = ["np.random.uniform(a, b) returns any real in [a, b)"]

HARNESSES = [
    Harness(buffer_history,
            quick=[dict(T=3, capacity=None, n_init=2, wait=True), dict(T=3, capacity=3, n_init=2, wait=True), dict(T=4, capacity=2, n_init=1, wait=True),
                   dict(T=2, capacity=4, n_init=4, wait=False), dict(T=2, capacity=5, n_init=5, wait=True)],
            thorough=[dict(T=4, capacity=None, n_init=2, wait=w) for w in (True, False)] + [dict(T=4, capacity=3, n_init=2, wait=True),
                      dict(T=5, capacity=2, n_init=1, wait=True), dict(T=3, capacity=5, n_init=5, wait=True), dict(T=2, capacity=7, n_init=7, wait=True)],
            covers=["capacity drop", "default priority", "popleft", "update"], functions=FN,
            bounds="<= 4 (5) operations on <= 6 (9) items; all positive real priorities and all random draws"),
    Harness(tree_history,
            quick=grid(op=["sum", "min"], T=[3], warm=[[], [("a", 4), ("p", 1)], [("a", 5), ("p", 3), ("a", 2)], [("a", 8), ("p", 5)], [("a", 2), ("p", 2)]]),
            thorough=grid(op=["sum", "min"], T=[4], warm=[[], [("a", 4), ("p", 1)], [("a", 5), ("p", 3), ("a", 2)], [("a", 8), ("p", 5)], [("a", 2), ("p", 2)], [("a", 3), ("p", 2), ("a", 5), ("p", 4)]]),
            covers=["pop", "update", "done"], functions=FN,
            bounds="windows of <= 8 positions after the listed warm-ups, then <= 3 (4) arbitrary operations"),
]
