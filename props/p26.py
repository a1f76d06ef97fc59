"""P26: recurrent state handling."""
import torch
from torch import nn

from .common import *


def _lens(S, nseq, maxlen):
    """Non-increasing sequence lengths (as packing requires)."""
    out = [1 + S.choice("len0", maxlen)]
    for i in range(1, nseq):
        out.append(1 + S.choice("len%d" % i, out[-1]))
    return out


def _seqs(S, lens, width=1):
    """Symbolic sequences: tensors (len, width) and their entries."""
    ts, vs = [], []
    for i, L in enumerate(lens):
        t, v = real_tensor(S, "x%d" % i, (L, width), -3, 3)
        ts.append(t)
        vs.append([v[k * width : (k + 1) * width] for k in range(L)])
    return ts, vs


def _time_first(vs):
    return [vs[i][t] for t in range(max(len(v) for v in vs)) for i in range(len(vs)) if t < len(vs[i])]


def _flat(S, got, want, msg):
    got = got if isinstance(got, list) else elems(got)
    S.check(len(got) == len(want), msg + " (size)")
    for x, y in zip(got, want):
        S.check_eq(x, y, msg)


def packing(S, nseq, maxlen):
    from pfrl.utils import recurrent as R

    with sym_env(S):
        lens = _lens(S, nseq, maxlen)
        ts, vs = _seqs(S, lens, 2)
        us, ws = _seqs(S, lens, 1)
        S.cover("ragged" if lens[0] != lens[-1] else "equal")
        order = _time_first(vs)
        flat = [x for row in order for x in row]
        # plain objects
        toks = [[("s", i, t) for t in range(L)] for i, L in enumerate(lens)]
        S.check(R.flatten_sequences_time_first(toks) == _time_first(toks), "flattening keeps sequences apart, time first")
        p = R.pack_sequences_recursive(ts)
        _flat(S, R.unwrap_packed_sequences_recursive(p), flat, "packing orders elements time first")
        _flat(S, torch.stack(R.flatten_sequences_time_first([[r for r in t] for t in ts])), flat, "flattening and packing agree")
        bs, si = R.get_packed_sequence_info(p)
        S.check([int(b) for b in elems(bs)] == [sum(1 for L in lens if L > t) for t in range(lens[0])], "batch sizes per time step")

        def unpack(q):
            S.check(isinstance(q, nn.utils.rnn.PackedSequence) and q.sorted_indices is None and q.unsorted_indices is None, "a packed sequence in the given order")
            rows, k = [[] for _ in range(nseq)], 0
            for b in elems(q.batch_sizes):
                for i in range(int(b)):
                    rows[i] += elems(q.data[k + i])
                k += int(b)
            S.check([len(r) for r in rows] == [2 * L for L in lens], "lengths survive")
            for i in range(nseq):
                _flat(S, rows[i], [x for row in vs[i] for x in row], "unpacking restores each sequence")

        unpack(p)
        unpack(R.wrap_packed_sequences_recursive(R.unwrap_packed_sequences_recursive(p), bs, si))
        # nested structures
        q = R.pack_sequences_recursive([(t, (u,)) for t, u in zip(ts, us)])
        S.check(isinstance(q, tuple) and isinstance(q[1], tuple), "tuples are packed separately")
        d = R.unwrap_packed_sequences_recursive(q)
        _flat(S, d[0], flat, "first component")
        _flat(S, d[1][0], [r[0] for r in _time_first(ws)], "nested component")
        bs2, si2 = R.get_packed_sequence_info(q)
        S.check([int(b) for b in elems(bs2)] == [int(b) for b in elems(bs)], "the same layout")
        q2 = R.wrap_packed_sequences_recursive(d, bs2, si2)
        unpack(q2[0])
        _flat(S, q2[1][0].data, [r[0] for r in _time_first(ws)], "nested component")
        # one-step batches
        x, xv = real_tensor(S, "b", (nseq, 2), -3, 3)
        o = R.pack_one_step_batch_as_sequences((x, x[:, :1]))
        S.check([int(b) for b in elems(o[0].batch_sizes)] == [nseq], "one time step")
        back = R.unpack_sequences_as_one_step_batch(o)
        _flat(S, back[0], xv, "one-step batches survive")
        _flat(S, back[1], xv[::2], "one-step batches survive")
        S.cover("done")


def states(S, n, kind, width):
    from pfrl.utils import recurrent as R

    with sym_env(S):
        L = 2  # layers

        def one(i):
            """Recurrent state of one sequence: (structure, entries)"""
            def t(k):
                return real_tensor(S, "h%d_%d" % (i, k), (L, width), -3, 3)

            if kind == "tensor":
                a, v = t(0)
                return a, [v]
            if kind == "lstm":
                (a, v), (b, w) = t(0), t(1)
                return (a, b), [v, w]
            (a, v), (b, w), (c, u) = t(0), t(1), t(2)
            return ((a, b), None, c), [v, w, u]

        zero = [[0.0] * (L * width)] * {"tensor": 1, "lstm": 2, "nested": 3}[kind]
        items, want = [], []
        for i in range(n):
            if S.flag("none%d" % i):
                items.append(None)
                want.append(zero)
            else:
                a, v = one(i)
                items.append(a)
                want.append(v)
        leaves = lambda s: [s] if not isinstance(s, tuple) else [y for x in s if x is not None for y in leaves(x)]

        def cmp(state, w, msg):
            ls = leaves(state)
            S.check(len(ls) == len(w), msg + " (structure)")
            for l, v in zip(ls, w):
                _flat(S, l, v, msg)

        b = R.concatenate_recurrent_states(items)
        if all(x is None for x in items):
            S.cover("all none")
            S.check(b is None, "no states give no state")
            S.check(R.get_recurrent_state_at(b, 0, detach=True) is None and R.mask_recurrent_state_at(b, 0) is None and R.detach_recurrent_state(b) is None and R.recurrent_state_as_numpy(b) is None, "no state stays no state")
            return
        if any(x is None for x in items):
            S.cover("some none")
        for l in leaves(b):
            S.check(tuple(l.shape) == (L, n, width), "batched along the second axis")
            l.requires_grad_(True)
        for i in range(n):
            cmp(R.get_recurrent_state_at(b, i, detach=False), want[i], "extracting the i-th state returns it")
            g = R.get_recurrent_state_at(b, i, detach=True)
            cmp(g, want[i], "extracting the i-th state returns it")
            S.check(all(not l.requires_grad for l in leaves(g)), "detached")
        # several at once
        ix = [n - 1, 0] if n > 1 else [0]
        g = R.get_recurrent_state_at(b, ix, detach=True)
        for k, i in enumerate(ix):
            cmp(R.get_recurrent_state_at(g, k, detach=True), want[i], "extracting several states keeps their order")
        # masking
        sel = [i for i in range(n) if S.flag("mask%d" % i)]
        m = R.mask_recurrent_state_at(b, sel[0] if len(sel) == 1 else (np.array(sel, dtype=int) if len(sel) == 2 else sel))
        for i in range(n):
            cmp(R.get_recurrent_state_at(m, i, detach=True), zero if i in sel else want[i], "masking zeroes exactly the selected entries")
            cmp(R.get_recurrent_state_at(b, i, detach=True), want[i], "the original is not modified")
        S.cover("masked %d" % len(sel))
        d = R.detach_recurrent_state(b)
        nps = R.recurrent_state_as_numpy(b)
        t = R.recurrent_state_from_numpy(nps, torch.device("cpu"))
        for i in range(n):
            cmp(R.get_recurrent_state_at(d, i, detach=True), want[i], "detaching keeps values")
            cmp(R.get_recurrent_state_at(t, i, detach=True), want[i], "the numpy round trip keeps values")
        S.check(all(not l.requires_grad for l in leaves(d)), "detached")
        # separate numpy states can be batched as well
        parts = [None if items[i] is None else R.recurrent_state_as_numpy(R.get_recurrent_state_at(b, i, detach=True)) for i in range(n)]
        t2 = R.recurrent_state_from_numpy(R.concatenate_recurrent_states(parts), torch.device("cpu"))
        for i in range(n):
            cmp(R.get_recurrent_state_at(t2, i, detach=True), want[i], "batching numpy states")


# ---- composite models


class Affine(nn.Module):
    def __init__(self, S, name):
        super().__init__()
        self.p, self.q = S.real(name + "_p", -2, 2), S.real(name + "_q", -2, 2)

    def forward(self, x):
        return x * self.p + self.q

    def run(self, x, st):
        return x * self.p + self.q, st


def make_cell(S, name, form):
    from pfrl.nn import Recurrent

    class Cell(Recurrent, nn.Module):
        """h' = a h + b x (+ c), c' = c + k h'; output h'.  State: tensor, or tuple like an LSTM's."""

        def __init__(self):
            super().__init__()
            self.a, self.b, self.k = (S.real("%s_%s" % (name, z), -2, 2) for z in "abk")
            self.form = form

        def cell(self, x, h, c):
            h = h * self.a + x * self.b + (c if form == "lstm" else 0)
            c = c + h * self.k if form == "lstm" else c
            return h, c

        def forward(self, pk, state):
            data, bs = pk.data, [int(b) for b in elems(pk.batch_sizes)]
            B = bs[0]
            if state is None:
                h, c = torch.zeros(B, data.shape[1]), torch.zeros(B, data.shape[1])
            elif form == "lstm":
                assert isinstance(state, tuple) and len(state) == 2
                h, c = state[0][0], state[1][0]
            else:
                h, c = state[0], torch.zeros(B, data.shape[1])
            assert len(h) == B, "one state per sequence"
            ys, k = [], 0
            hs, cs = [h[i] for i in range(B)], [c[i] for i in range(B)]
            for b in bs:
                for i in range(b):
                    hs[i], cs[i] = self.cell(data[k + i], hs[i], cs[i])
                    ys.append(hs[i])
                k += b
            y = nn.utils.rnn.PackedSequence(torch.stack(ys), pk.batch_sizes, pk.sorted_indices, pk.unsorted_indices)
            H, C = torch.stack(hs)[None], torch.stack(cs)[None]
            return y, ((H, C) if form == "lstm" else H)

        def run(self, x, st):
            """Scalar reference: one step."""
            h, c = st if st is not None else (0.0, 0.0)
            h, c = self.cell(x, h, c)
            return h, (h, c)

    return Cell()


class SeqRef:
    """Step-by-step reference of a composite."""

    def __init__(self, layers):
        self.layers = layers

    def run(self, x, st):
        st = st or [None] * len(self.layers)
        new = []
        for l, s in zip(self.layers, st):
            x, s = l.run(x, s)
            new.append(s)
        return x, new


class BranchRef:
    def __init__(self, layers):
        self.layers = layers

    def run(self, x, st):
        st = st or [None] * len(self.layers)
        out = [l.run(x, s) for l, s in zip(self.layers, st)]
        return tuple(o[0] for o in out), [o[1] for o in out]


def build(S, arch):
    from pfrl.nn import RecurrentSequential, RecurrentBranched

    def net(a, name):
        if a == "A":
            m = Affine(S, name)
            return m, m
        if a == "C":
            m = make_cell(S, name, "tensor")
            return m, m
        if a == "L":
            m = make_cell(S, name, "lstm")
            return m, m
        op, subs = a[0], a[1]
        ms = [net(s, "%s_%d" % (name, i)) for i, s in enumerate(subs)]
        if op == "seq":
            return RecurrentSequential(*[m[0] for m in ms]), SeqRef([m[1] for m in ms])
        return RecurrentBranched(*[m[0] for m in ms]), BranchRef([m[1] for m in ms])

    return net(arch, "n")


ARCHS = {
    "cell": ("seq", ["C"]),
    "sandwich": ("seq", ["A", "L", "A"]),
    "two": ("seq", ["C", "A", "L", "A"]),
    "adjacent": ("seq", ["A", "L", "C"]),
    "branched": ("br", [("seq", ["L", "A"]), ("seq", ["A", "C"])]),
    "nested": ("seq", ["A", ("seq", ["C", "A"]), "L"]),
    "branch in seq": ("seq", ["A", "C", ("br", [("seq", ["A", "L"]), "C"])]),
    "stateless": ("seq", ["A", "A"]),
}


def model(S, arch, nseq, maxlen, init):
    from pfrl.utils import recurrent as R

    with sym_env(S):
        net, ref = build(S, ARCHS[arch])
        lens = _lens(S, nseq, maxlen)
        ts, vs = _seqs(S, lens, 1)
        st = None
        refst = [None] * nseq
        if init:
            # a first batched step gives every sequence its own state
            w, wv = real_tensor(S, "w", (nseq, 1), -3, 3)
            y0, st = R.one_step_forward(net, w, None)
            y0 = y0 if isinstance(y0, tuple) else (y0,)
            outs0 = []
            for i in range(nseq):
                o, refst[i] = ref.run(wv[i], None)
                outs0.append(o if isinstance(o, tuple) else (o,))
            for j in range(len(y0)):
                _flat(S, y0[j], [o[j] for o in outs0], "one batched step equals one step of each sequence")
            # a masked sequence starts over
            for i in range(nseq):
                if S.flag("restart%d" % i):
                    st = R.mask_recurrent_state_at(st, i)
                    refst[i] = None
                    S.cover("restarted")
        y, new = R.pack_and_forward(net, ts, st)
        y = y if isinstance(y, tuple) else (y,)
        outs = []
        for i in range(nseq):
            o = []
            for x in vs[i]:
                z, refst[i] = ref.run(x[0], refst[i])
                o.append(z if isinstance(z, tuple) else (z,))
            outs.append(o)
        for j in range(len(y)):
            _flat(S, y[j], [o[j] for o in _time_first(outs)], "each sequence's outputs are as if it were run alone, step by step")
        # final states: continue every sequence by one more step
        w, wv = real_tensor(S, "w2", (nseq, 1), -3, 3)
        if arch != "stateless":
            y, _ = R.one_step_forward(net, w, new)
            y = y if isinstance(y, tuple) else (y,)
            o2 = []
            for i in range(nseq):
                o, _ = ref.run(wv[i], refst[i])
                o2.append(o if isinstance(o, tuple) else (o,))
            for j in range(len(y)):
                _flat(S, y[j], [o[j] for o in o2], "each sequence's final state is as if it were run alone")
        S.cover("done")


FN = ["flatten_sequences_time_first", "pack_sequences_recursive", "unwrap_packed_sequences_recursive", "wrap_packed_sequences_recursive", "get_packed_sequence_info", "pack_one_step_batch_as_sequences",
      "unpack_sequences_as_one_step_batch", "one_step_forward", "pack_and_forward", "concatenate_recurrent_states", "get_recurrent_state_at", "mask_recurrent_state_at", "detach_recurrent_state",
      "recurrent_state_as_numpy", "recurrent_state_from_numpy", "RecurrentSequential.forward", "RecurrentBranched.forward"]
ASSUMPTIONS = ["recurrent layers are linear cells with arbitrary weights and tensor or LSTM-like tuple states (torch's own RNN kernels are not encoded)", "packing requires sequences sorted by decreasing length (torch's contract)"]
HARNESSES = [
    Harness(packing, quick=[dict(nseq=3, maxlen=3), dict(nseq=1, maxlen=2)], thorough=[dict(nseq=4, maxlen=4)], covers=["ragged", "equal", "done"], functions=FN, bounds="up to 3 (4) sequences of up to 3 (4) steps"),
    Harness(states, quick=[dict(n=2, kind=k, width=1) for k in ("tensor", "lstm", "nested")] + [dict(n=3, kind="tensor", width=2), dict(n=1, kind="lstm", width=1)],
            thorough=[dict(n=3, kind=k, width=2) for k in ("tensor", "lstm", "nested")], covers=["all none", "some none", "masked 0", "masked 1", "masked 2"], functions=FN, bounds="up to 3 states of 2 layers, any mixture of absent states and masks"),
    Harness(model, quick=[dict(arch=a, nseq=2, maxlen=2, init=i) for a in ARCHS for i in (False, True) if not (a == "stateless" and i)] + [dict(arch="two", nseq=3, maxlen=2, init=False)],
            thorough=[dict(arch=a, nseq=3, maxlen=3, init=i) for a in ARCHS for i in (False, True) if not (a == "stateless" and i)], covers=["done", "restarted"], functions=FN, bounds="2-3 sequences of up to 2 (3) steps, eight architectures, any weights and inputs"),
]
