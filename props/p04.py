"""P04: RandomAccessQueue and sample_n_k."""
from .common import *

STRUCT = ["append", "popleft", "extend0", "extend2"]
ACCESS = ["get", "set"]


def _mkq(maxlen, init, kw):
    from pfrl.collections.random_access_queue import RandomAccessQueue

    if kw:
        return RandomAccessQueue(init, maxlen=maxlen)
    q = RandomAccessQueue(init) if init else RandomAccessQueue()
    return q


def queue_history(S, T, maxlen, n_init):
    """Model-based: the reference is a Python list.  T structural operations
    (any queue state), then one access at a symbolic index, then one more
    structural operation."""
    with sym_env(S, use_torch=False):
        c = 100
        init = list(range(c, c + n_init))
        c += n_init
        q = _mkq(maxlen, init, maxlen is not None)
        ref = list(init)
        if maxlen is not None:
            ref = ref[max(0, len(ref) - maxlen):]

        def same(where):
            S.check(len(q) == len(ref), "length after %s" % where)
            S.check(list(q) == ref, "contents after %s: %s, expected %s" % (where, list(q), ref))

        for t in range(T + 2):
            ops = ACCESS if t == T else STRUCT
            op = ops[S.choice("op%d" % t, len(ops))]
            if op == "append":
                c += 1
                q.append(c)
                ref.append(c)
            elif op.startswith("extend"):
                xs = [c + 1 + i for i in range(int(op[6:]))]
                c += len(xs)
                q.extend(iter(xs) if t % 2 else xs)
                ref.extend(xs)
            elif op == "popleft":
                try:
                    g = q.popleft()
                except IndexError:
                    S.check(not ref, "IndexError from popleft of a non-empty queue")
                    S.cover("empty pop")
                else:
                    S.check(bool(ref) and g == ref.pop(0), "popleft returns the oldest item")
                    S.cover("pop")
            else:
                i = S.int("index%d" % t, -T - n_init - 6, T + n_init + 6)
                ok = bool(and_(i >= -len(ref), i < len(ref)))
                try:
                    if op == "get":
                        g = q[i]
                    else:
                        c += 1
                        q[i] = c
                except IndexError:
                    S.check(not ok, "IndexError for a valid index")
                    S.cover("bad index")
                else:
                    S.check(ok, "no IndexError for an out-of-range index")
                    # the position the index denotes
                    pos = i.__index__() % len(ref) if ok else 0
                    if op == "get":
                        S.check(g == ref[pos], "item at the index")
                        S.cover("negative index" if i.__index__() < 0 else "index")
                    else:
                        ref[pos] = c
                        S.cover("set")
            if maxlen is not None:
                while len(ref) > maxlen:
                    ref.pop(0)
                    S.cover("maxlen drop")
            same(op)


def distinct_sample(S, n, k):
    """Whatever the random source yields: k distinct positions within range."""
    from pfrl.utils.random import sample_n_k

    with sym_env(S, use_torch=False) as P:
        rng = RngStub(S, P, max_calls=2)
        try:
            r = list(sample_n_k(n, k))
        except ValueError:
            S.check(k > n or k < 0, "ValueError for a feasible sample")
            S.cover("refused")
            return
        S.check(0 <= k <= n, "an impossible sample is refused")
        S.check(len(r) == k, "k samples")
        for i, x in enumerate(r):
            S.check(and_(x >= 0, x < n), "sample within range")
            for y in r[:i]:
                S.check(not_(S.eq(x, y)), "distinct samples")
        if rng.n_choice > 1:
            S.cover("redraw")
        S.cover("sampled")


def queue_sample(S, n_front, n_back, k):
    """sample() on a queue in any internal split."""
    from pfrl.collections.random_access_queue import RandomAccessQueue

    with sym_env(S, use_torch=False) as P:
        q = RandomAccessQueue()
        q.append(-1)
        for i in range(n_front):
            q.append(i)
        q.popleft()
        for i in range(n_back):
            q.append(n_front + i)
        RngStub(S, P, max_calls=2)
        r = q.sample(k)
        S.check(len(r) == k and len(set(r)) == k and all(0 <= x < n_front + n_back for x in r), "distinct stored items: %s" % (r,))
        S.cover("sampled")


FN = ["RandomAccessQueue.__init__", "RandomAccessQueue.__getitem__", "RandomAccessQueue.__setitem__", "RandomAccessQueue.append",
      "RandomAccessQueue.extend", "RandomAccessQueue.popleft", "RandomAccessQueue.sample", "RandomAccessQueue.__iter__", "sample_n_k"]
ASSUMPTIONS = ["np.random.choice returns arbitrary values within its documented range (distinct when replace=False); at most one redraw in sample_n_k"]

HARNESSES = [
    Harness(queue_history,
            quick=grid(T=[4], maxlen=[2, 1], n_init=[0]) + grid(T=[3], maxlen=[None, 3], n_init=[0, 4]) + grid(T=[2], maxlen=[0], n_init=[2]) + grid(T=[3], maxlen=[2], n_init=[2]),
            thorough=grid(T=[5], maxlen=[None, 1, 2, 3], n_init=[0]) + grid(T=[4], maxlen=[None, 3, 5], n_init=[4]) + grid(T=[3], maxlen=[0], n_init=[2]),
            covers=["pop", "empty pop", "bad index", "index", "negative index", "set", "maxlen drop"], functions=FN,
            bounds="<= 4 (5) operations on initial lengths 0..4; all integer indices in a range exceeding every length"),
    Harness(distinct_sample,
            quick=[dict(n=n, k=k) for n, k in [(3, 0), (3, 4), (2, -1), (1, 1), (3, 1), (6, 2), (7, 2), (20, 2), (10, 3), (100, 3)]],
            thorough=[dict(n=n, k=k) for n, k in [(0, 0), (3, 0), (3, 4), (2, -1), (1, 1), (3, 1), (4, 1), (6, 2), (7, 2), (20, 2), (9, 3), (10, 3), (1000, 3), (13, 4), (12, 4)]],
            covers=["sampled", "refused", "redraw"], functions=FN, opts=dict(sym_hash=True),
            bounds="populations <= 100 (1000), k <= 3 (4); all draws"),
    Harness(queue_sample, quick=[dict(n_front=f, n_back=b, k=k) for f, b, k in [(2, 1, 2), (0, 3, 3), (3, 0, 1), (4, 3, 2)]],
            thorough=[dict(n_front=f, n_back=b, k=k) for f, b, k in [(2, 1, 2), (0, 3, 3), (3, 0, 1), (4, 3, 2), (3, 3, 4), (5, 4, 2)]],
            covers=["sampled"], functions=FN, opts=dict(sym_hash=True), bounds="queues of <= 9 items in any front/back split"),
]
