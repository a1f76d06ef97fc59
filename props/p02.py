"""P02: batching of sampled experiences."""
from .common import *

FUNCS = ["batch_experiences", "batch_recurrent_experiences", "batch_states", "flatten_sequences_time_first",
         "concatenate_recurrent_states", "recurrent_state_from_numpy"]


def _state(S, name, dim=2):
    """A state: tensor/array of `dim` symbolic reals."""
    vals = [S.real("%s_%d" % (name, i), -9, 9) for i in range(dim)]
    return vals


def window_batch(S, lens, next_action, vec_action):
    from pfrl.replay_buffer import batch_experiences

    with sym_env(S):
        gamma = S.real("gamma", 0, 1)
        exps = []
        spec = []
        for e, n in enumerate(lens):
            w = []
            for i in range(n):
                s = _state(S, "s%d_%d" % (e, i))
                s2 = _state(S, "n%d_%d" % (e, i))
                if vec_action:
                    a = [S.real("a%d_%d" % (e, i), -9, 9), S.real("ab%d_%d" % (e, i), -9, 9)]
                    act = _nparr(S, a)
                else:
                    a = S.int("a%d_%d" % (e, i), 0, 5)
                    act = a
                na = None
                if next_action == "all" or (next_action == "some" and (e, i) != (len(lens) - 1, n - 1)):
                    na = S.int("na%d_%d" % (e, i), 0, 5)
                # only the last transition of a window can be terminal in a real
                # buffer, but the flag is defined as "any"
                t = S.bool("t%d_%d" % (e, i))
                r = S.real("r%d_%d" % (e, i))
                w.append(dict(state=tensor(S, s), action=act, reward=r, next_state=tensor(S, s2), next_action=na,
                              is_state_terminal=t))
                spec.append((e, i, s, a, r, s2, na, t))
            exps.append(w)
        phi_scale = 2.0
        phi = lambda x: x * phi_scale
        b = batch_experiences(exps, torch.device("cpu"), phi, gamma)
        B = len(lens)
        S.check(tuple(b["state"].shape) == (B, 2), "state batch shape")
        S.check(tuple(b["next_state"].shape) == (B, 2), "next_state batch shape")
        S.check(tuple(b["reward"].shape) == (B,), "reward shape")
        S.check(tuple(b["discount"].shape) == (B,), "discount shape")
        S.check(tuple(b["is_state_terminal"].shape) == (B,), "terminal shape")
        by = {(x[0], x[1]): x for x in spec}
        st, ns = elems(b["state"]), elems(b["next_state"])
        for e, n in enumerate(lens):
            first, last = by[(e, 0)], by[(e, n - 1)]
            for d in range(2):
                S.check_eq(st[2 * e + d], first[2][d] * phi_scale, "state of experience %d" % e)
                S.check_eq(ns[2 * e + d], last[5][d] * phi_scale, "next state of experience %d" % e)
            if vec_action:
                for d in range(2):
                    S.check_eq(elems(b["action"])[2 * e + d], first[3][d], "action")
            else:
                S.check_eq(elems(b["action"])[e], first[3], "action")
            R = 0
            for i in range(n):
                R = R + gamma**i * by[(e, i)][4]
            S.check_eq(elems(b["reward"])[e], R, "n-step return")
            S.check_eq(elems(b["discount"])[e], gamma**n, "discount")
            anyt = or_(*[by[(e, i)][7] for i in range(n)])
            S.check_eq(elems(b["is_state_terminal"])[e], ite(S, anyt, 1.0, 0.0), "terminal flag")
            if next_action == "all":
                S.check_eq(elems(b["next_action"])[e], last[6], "next action")
        if next_action != "all":
            S.check("next_action" not in b, "next_action batched although some are missing")
        S.cover("done")


def _nparr(S, xs):
    return senv.obj_array(xs) if S.symbolic else np.array(xs, dtype=np.float32)


def sequence_batch(S, lens, next_action, recurrent):
    from pfrl.replay_buffer import batch_recurrent_experiences

    with sym_env(S):
        gamma = S.real("gamma", 0, 1)
        eps = []
        by = {}
        rs = {}
        for e, n in enumerate(lens):
            ep = []
            for i in range(n):
                s, s2 = _state(S, "s%d_%d" % (e, i)), _state(S, "n%d_%d" % (e, i))
                a = S.int("a%d_%d" % (e, i), 0, 5)
                na = S.int("na%d_%d" % (e, i), 0, 5) if next_action else None
                t = S.bool("t%d_%d" % (e, i))
                r = S.real("r%d_%d" % (e, i))
                by[(e, i)] = (s, a, r, s2, na, t)
                tr = dict(state=tensor(S, s), action=a, reward=r, next_state=tensor(S, s2), next_action=na, is_state_terminal=t)
                if recurrent == "none":
                    tr["recurrent_state"] = None
                    tr["next_recurrent_state"] = None
                else:
                    h = [S.real("h%d_%d_%d" % (e, i, k), -9, 9) for k in range(2)]
                    h2 = [S.real("g%d_%d_%d" % (e, i, k), -9, 9) for k in range(2)]
                    rs[(e, i)] = (h, h2)
                    # stored recurrent states are numpy arrays of shape (layers, size)
                    tr["recurrent_state"] = _nparr(S, h).reshape(1, 2)
                    tr["next_recurrent_state"] = _nparr(S, h2).reshape(1, 2)
                ep.append(tr)
            eps.append(ep)
        b = batch_recurrent_experiences(eps, torch.device("cpu"), lambda x: x, gamma)
        order = [(e, i) for i in range(max(lens)) for e in range(len(lens)) if i < lens[e]]
        N = len(order)
        for k in ("action", "reward", "is_state_terminal", "discount"):
            S.check(tuple(b[k].shape) == (N,), "%s shape" % k)
        for j, key in enumerate(order):
            s, a, r, s2, na, t = by[key]
            S.check_eq(elems(b["action"])[j], a, "action time-major order")
            S.check_eq(elems(b["reward"])[j], r, "reward time-major order")
            S.check_eq(elems(b["is_state_terminal"])[j], ite(S, t, 1.0, 0.0), "terminal")
            S.check_eq(elems(b["discount"])[j], gamma, "discount")
            if next_action:
                S.check_eq(elems(b["next_action"])[j], na, "next action")
        S.check(("next_action" in b) == bool(next_action), "next_action presence")
        S.check(len(b["state"]) == len(lens) and len(b["next_state"]) == len(lens), "one entry per sequence")
        for e, n in enumerate(lens):
            S.check(tuple(b["state"][e].shape) == (n, 2), "sequence state shape")
            for i in range(n):
                for d in range(2):
                    S.check_eq(elems(b["state"][e])[2 * i + d], by[(e, i)][0][d], "sequence state")
                    S.check_eq(elems(b["next_state"][e])[2 * i + d], by[(e, i)][3][d], "sequence next state")
        if recurrent == "none":
            S.check(b["recurrent_state"] is None and b["next_recurrent_state"] is None, "no recurrent state")
        else:
            for nm, w in (("recurrent_state", 0), ("next_recurrent_state", 1)):
                t = b[nm]
                S.check(tuple(t.shape) == (1, len(lens), 2), "%s shape %s" % (nm, tuple(t.shape)))
                for e in range(len(lens)):
                    for k in range(2):
                        S.check_eq(elems(t)[2 * e + k], rs[(e, 0)][w][k], nm)
        S.cover("done")


ASSUMPTIONS = ["states are 2-dimensional float tensors; phi is multiplication by 2 (resp. identity)"]

HARNESSES = [
    Harness(window_batch,
            quick=[dict(lens=l, next_action=na, vec_action=va) for l, na, va in [
                ([1], "all", False), ([3], "all", False), ([1, 3, 2], "all", False), ([2, 1], "none", True),
                ([2, 3], "some", False), ([1, 2], "some", True)]],
            thorough=[dict(lens=l, next_action=na, vec_action=va)
                      for l in ([1], [5], [1, 3, 2], [4, 1, 4], [2, 2, 2, 2], [6, 5]) for na in ("all", "none", "some") for va in (False, True)],
            covers=["done"], functions=FUNCS,
            bounds="batches of <= 3 (4) windows of <= 3 (6) transitions; rewards, gamma, flags, actions, states symbolic"),
    Harness(sequence_batch,
            quick=[dict(lens=l, next_action=na, recurrent=rc) for l, na, rc in [
                ([1], True, "none"), ([3, 1], True, "array"), ([2, 2, 1], False, "array"), ([3, 2, 2], False, "none")]],
            thorough=[dict(lens=l, next_action=na, recurrent=rc)
                      for l in ([1], [4, 1], [3, 3, 2, 1], [5, 2, 2], [2, 2, 2]) for na in (True, False) for rc in ("none", "array")],
            covers=["done"], functions=FUNCS,
            bounds="<= 3 (4) sequences of <= 3 (5) transitions sorted by length"),
]
