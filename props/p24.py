"""P24: environment wrappers."""
import gym
from gym import spaces

from .common import *

SHAPES = {"hwc": (1, 2, 1), "chw": (1, 1, 2)}


class Raw(gym.Env):
    """Environment whose observations, rewards, flags and lives are arbitrary; it
    checks that nobody steps it before a reset or after the end of an episode."""

    metadata = {}
    reward_range = (-float("inf"), float("inf"))

    def __init__(self, S, shape=(1, 2, 1), n_actions=4, flags=("done", "reset"), lives=False, box=None, real=False, protocol=True):
        self.S, self.shape, self.flags, self.real, self.protocol = S, shape, flags, real, protocol
        self.log = []
        self.k = 0
        self.over = True
        self.lives_ = None
        self.use_lives = lives
        self.last_info = None
        self.observation_space = spaces.Box(low=0, high=255, shape=shape, dtype=np.uint8)
        self.action_space = box if box is not None else spaces.Discrete(n_actions)
        self.spec = None
        self.np_random = Npr(S)
        self.ale = self
        self.closed = 0

    # ALE interface
    def lives(self):
        return self.lives_

    def get_action_meanings(self):
        return ["NOOP", "FIRE", "UP", "DOWN"]

    def _obs(self):
        S = self.S
        n = int(np.prod(self.shape))
        k = len(self.log)
        if self.real:
            v = [S.real("o%d_%d" % (k, i), -9, 9) for i in range(n)]
        else:
            v = [S.int("o%d_%d" % (k, i), 0, 255) for i in range(n)]
        a = (senv.obj_array(v).view(senv.OArr) if S.symbolic else np.array(v, dtype=np.float64 if self.real else np.uint8)).reshape(self.shape)
        a_vals = list(v)
        if self.use_lives:
            self.lives_ = S.int("lives%d" % k, 0, 3)
        return a, a_vals

    def reset(self, **kw):
        self.over = False
        o, v = self._obs()
        self.log.append(("reset", v, kw, o, self.lives_))
        return o

    def step(self, action):
        S = self.S
        if self.protocol:
            S.check(not self.over, "the environment is never stepped before a reset or after its episode has ended")
        k = self.k
        self.k += 1
        c = 0
        fl = [f for f in ("done", "reset") if f in self.flags]
        if fl:
            c = S.choice("end%d" % k, len(fl) + 1)
        done = bool(c) and fl[c - 1] == "done"
        need = bool(c) and fl[c - 1] == "reset"
        r = S.real("r%d" % k, -3, 3)
        info = {"k": k}
        if need:
            info["needs_reset"] = True
        o, v = self._obs()
        self.over = done or need
        self.log.append(("step", v, action, r, done, need, o, self.lives_))
        return o, r, done, info

    def render(self, *a, **k):
        self.log.append(("render", a, k))
        return "frame"

    def close(self):
        self.closed += 1


class Npr:
    """np_random of an env: arbitrary draws."""

    def __init__(self, S):
        self.S, self.draws = S, []

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        x = low + self.S.choice("npr_int%d" % len(self.draws), high - low)
        self.draws.append((low, high, x))
        return x

    def integers(self, low, high=None, **k):
        return self.randint(low, high)

    def rand(self, *a):
        x = self.S.real("npr_u%d" % len(self.draws), 0, 1, hi_strict=1)
        self.draws.append(x)
        return x

    random = random_sample = uniform = rand

    def seed(self, s=None):
        self.seeded = s


def _px(o):
    """Flat pixel values."""
    a = np.asarray(o)
    return list(a.reshape(-1))


def _same(S, o, vals, msg):
    xs = _px(o)
    S.check(len(xs) == len(vals), msg + " (size)")
    for x, y in zip(xs, vals):
        S.check_eq(x, y, msg)


def _ended(d, info):
    return d or info.get("needs_reset", False)


def _steps(raw, n0):
    return [l for l in raw.log[n0:] if l[0] != "render"]


def _passthrough(S, raw, l, r, d, info, what=("r", "d", "info")):
    if "r" in what:
        S.check_eq(r, l[3], "the reward passes through unchanged")
    if "d" in what:
        S.check(d == l[4], "the termination flag passes through unchanged")
    if "info" in what:
        S.check({k: v for k, v in info.items() if k != "needs_reset"} == {"k": raw.k - 1} and bool(info.get("needs_reset", False)) == l[5], "the info passes through unchanged")


def time_limit(S, steps, limit_max):
    from pfrl.wrappers import ContinuingTimeLimit

    with sym_env(S, use_torch=False):
        raw = Raw(S)
        lim = S.int("limit", 1, limit_max)
        env = ContinuingTimeLimit(raw, max_episode_steps=lim)
        o = env.reset()
        _same(S, o, raw.log[-1][1], "the observation passes through")
        el = 0
        for t in range(steps):
            o, r, d, info = env.step(10 + t)
            l = raw.log[-1]
            el += 1
            S.check(l[0] == "step" and l[2] == 10 + t and raw.k == t + 1, "one step per step, with the given action")
            _same(S, o, l[1], "the observation passes through")
            _passthrough(S, raw, l, r, d, info, ("r", "d"))
            at = S.le(lim, el)
            if at:
                S.cover("limit")
            else:
                S.cover("below")
            S.check(bool(info.get("needs_reset", False)) == (bool(at) or l[5]), "a reset is signalled exactly at the limit (or when the environment asks for it)")
            S.check({k: v for k, v in info.items() if k != "needs_reset"} == {"k": t}, "other information passes through")
            if _ended(d, info) or S.flag("early%d" % t):
                n0 = len(raw.log)
                o = env.reset()
                S.check(len(raw.log) == n0 + 1, "one reset")
                _same(S, o, raw.log[-1][1], "the observation passes through")
                el = 0


def frame_stack(S, steps, k, order, vec):
    from pfrl.wrappers.atari_wrappers import FrameStack
    from pfrl.wrappers import VectorFrameStack
    from pfrl.envs import SerialVectorEnv

    shape = {"hwc": (1, 1, 1), "chw": (1, 1, 1)}[order]
    with sym_env(S, use_torch=False):
        n = 2 if vec else 1
        raws = [Raw(S, shape) for _ in range(n)]
        for i, r in enumerate(raws):  # distinct variable names per env
            r.S = _Named(S, "e%d_" % i)
        if vec:
            env = VectorFrameStack(SerialVectorEnv(raws), k, stack_axis=2 if order == "hwc" else 0)
        else:
            env = FrameStack(raws[0], k, channel_order=order)
        old = []
        hist = [None] * n

        def look(obs):
            for i in range(n):
                a = np.asarray(obs[i])
                S.check(a.shape == ((1, 1, k) if order == "hwc" else (k, 1, 1)), "shape of the stack")
                want = [f for f in hist[i]]
                old.append((obs[i], want))
            for o, want in old[-4 * n :]:
                _same(S, o, want, "the stack holds the last k frames of the current episode, oldest first")

        o = env.reset()
        hist = [[r.log[-1][1][0]] * k for r in raws]
        look(o if vec else [o])
        for t in range(steps):
            if vec:
                o, r, d, info = env.step([10 + t] * n)
            else:
                o, r, d, info = env.step(10 + t)
                o, r, d, info = [o], [r], [d], [info]
            for i in range(n):
                l = raws[i].log[-1]
                S.check(l[0] == "step" and l[2] == 10 + t, "one step with the given action")
                hist[i] = hist[i][1:] + [l[1][0]]
                _passthrough(S, raws[i], l, r[i], d[i], info[i])
            look(o)
            ends = [bool(_ended(d[i], info[i])) for i in range(n)]
            if any(ends):
                S.cover("episode end")
                n0 = [len(r.log) for r in raws]
                if vec:
                    o = env.reset(mask=[not e for e in ends])
                else:
                    o = [env.reset()]
                for i in range(n):
                    S.check(len(raws[i].log) == n0[i] + ends[i], "exactly the ended environments are reset")
                    if ends[i]:
                        hist[i] = [raws[i].log[-1][1][0]] * k
                look(o)
        S.cover("done")


class _Named:
    """S with prefixed variable names (for several environments)."""

    def __init__(self, S, pre):
        self._S, self._p = S, pre

    def __getattr__(self, n):
        return getattr(self._S, n)

    def int(self, name, *a, **k):
        return self._S.int(self._p + name, *a, **k)

    def real(self, name, *a, **k):
        return self._S.real(self._p + name, *a, **k)

    def choice(self, name, *a):
        return self._S.choice(self._p + name, *a)


def max_skip(S, steps, skip):
    from pfrl.wrappers.atari_wrappers import MaxAndSkipEnv

    with sym_env(S, use_torch=False):
        raw = Raw(S, (1, 1, 1))
        env = MaxAndSkipEnv(raw, skip=skip)
        o = env.reset()
        _same(S, o, raw.log[-1][1], "the observation of a reset passes through")
        kept = []
        for t in range(steps):
            n0 = len(raw.log)
            o, r, d, info = env.step(10 + t)
            ls = raw.log[n0:]
            S.check(1 <= len(ls) <= skip and all(l[0] == "step" and l[2] == 10 + t for l in ls), "the action is repeated at most skip times")
            early = ls[-1][4] or ls[-1][5]
            S.check(early or len(ls) == skip, "the action is repeated skip times unless the episode ends")
            S.cover("ended after %d" % len(ls) if early else "full")
            S.check_eq(r, sum((l[3] for l in ls[1:]), ls[0][3]), "rewards are summed over the skipped frames")
            _passthrough(S, raw, ls[-1], r, d, info, ("d", "info"))
            two = ls[-2:]
            want = two[-1][1] if len(two) == 1 else [a if b <= a else b for a, b in zip(two[0][1], two[1][1])]
            kept.append((o, want))
            for oo, w in kept:
                _same(S, oo, w, "the observation is the maximum of the last two frames seen, and stays so")
            if _ended(d, info):
                o = env.reset()
                _same(S, o, raw.log[-1][1], "the observation of a reset passes through")


def episodic_life(S, steps):
    from pfrl.wrappers.atari_wrappers import EpisodicLifeEnv

    with sym_env(S, use_torch=False):
        raw = Raw(S, (1, 1, 1), lives=True)
        env = EpisodicLifeEnv(raw)
        real = True
        for t in range(steps + 1):
            if t > 0 and not need:
                n0 = len(raw.log)
                o, r, d, info = env.step(10 + t)
                S.check(len(raw.log) == n0 + 1 and raw.log[-1][0] == "step" and raw.log[-1][2] == 10 + t, "one step with the given action")
                l = raw.log[-1]
                _same(S, o, l[1], "the observation passes through")
                _passthrough(S, raw, l, r, d, info, ("r", "info"))
                lost = and_(S.lt(l[7], lives), S.lt(0, l[7]))
                real = l[4] or l[5]
                if lost:
                    S.cover("life lost")
                S.check(bool(d) == (bool(lost) or l[4]), "the episode ends on termination or on a lost life (while some are left)")
                lives = l[7]
                need = bool(_ended(d, info)) or S.flag("early%d" % t)
            else:
                n0 = len(raw.log)
                o = env.reset()
                ls = raw.log[n0:]
                if real:
                    S.cover("real reset")
                    S.check([l[0] for l in ls] == ["reset"], "a finished game is reset")
                else:
                    S.cover("continued game")
                    S.check(ls[0][0] == "step" and ls[0][2] == 0, "an unfinished game continues with a no-op")
                    S.check([l[0] for l in ls[1:]] == (["reset"] if ls[0][4] or ls[0][5] else []), "it is reset only if the no-op ends the game")
                    if len(ls) > 1:
                        S.cover("no-op ended the game")
                _same(S, o, ls[-1][1], "the observation is the current one")
                real = False
                lives = raw.lives_
                need = False


def reset_wrappers(S, kind, resets, noop_max):
    from pfrl.wrappers.atari_wrappers import NoopResetEnv, FireResetEnv

    with sym_env(S, use_torch=False):
        raw = Raw(S, (1, 1, 1))
        env = NoopResetEnv(raw, noop_max=noop_max) if kind == "noop" else FireResetEnv(raw)
        for i in range(resets):
            n0, nd = len(raw.log), len(raw.np_random.draws)
            o = env.reset()
            ls = raw.log[n0:]
            _same(S, o, ls[-1][1], "a reset returns the current observation of the environment")
            S.check(ls[0][0] == "reset" and not raw.over, "the environment is reset and its episode is running")
            acts = [l[2] for l in ls if l[0] == "step"]
            for a, b in zip(ls, ls[1:]):
                S.check((b[0] == "reset") == (a[0] == "step" and (a[4] or a[5])), "the environment is reset exactly when its episode ends meanwhile")
            if kind == "noop":
                (lo, hi, x), = raw.np_random.draws[nd:]
                S.check(lo == 1 and hi == noop_max + 1, "the number of no-ops is drawn from [1, noop_max]")
                S.check(acts == [0] * x, "exactly the drawn number of no-op actions is taken")
            else:
                S.check(acts == [1, 2], "the fire actions are taken")
            S.cover("ended meanwhile" if any(l[0] == "reset" for l in ls[1:]) else "normal")
            if S.flag("step%d" % i):
                o, r, d, info = env.step(3)
                l = raw.log[-1]
                S.check(l[2] == 3, "steps pass through")
                _same(S, o, l[1], "steps pass through")
                _passthrough(S, raw, l, r, d, info)


class RandomState(Npr):
    made = []

    def __init__(self, seed=None):
        Npr.__init__(self, RandomState.S)
        RandomState.made.append(self)


def simple(S, kind, steps):
    """Wrappers that transform one thing per step."""
    from pfrl import wrappers as W
    from pfrl.wrappers import atari_wrappers as A
    from pfrl.utils import env_modifiers as M

    with sym_env(S, use_torch=False) as P:
        RandomState.S, RandomState.made = S, []
        P.set(np.random, "RandomState", RandomState)
        RngStub(S, P)
        box = None
        if kind == "normalize_action":
            lo, hi = [S.real("lo%d" % i, -5, 5) for i in range(2)], [S.real("hi%d" % i, -5, 5) for i in range(2)]
            for a, b in zip(lo, hi):
                S.assume(S.le(a, b))
            box = spaces.Box(low=np.zeros(2, np.float32), high=np.ones(2, np.float32))
            box.low = senv.obj_array(lo).view(senv.OArr) if S.symbolic else np.array(lo, np.float32)
            box.high = senv.obj_array(hi).view(senv.OArr) if S.symbolic else np.array(hi, np.float32)
        raw = Raw(S, (1, 1, 1), box=box, real=kind == "cast")
        scale = frac = None
        what = {"obs", "r", "d", "info", "act"}
        if kind == "scale_reward":
            scale = S.real("scale", -5, 5)
            env = W.ScaleReward(raw, scale)
        elif kind == "clip_reward":
            env = A.ClipRewardEnv(raw)
        elif kind == "cast":
            env = W.CastObservationToFloat32(raw)
        elif kind == "scaled_float":
            env = A.ScaledFloatFrame(raw)
        elif kind == "flicker":
            env = A.FlickerFrame(raw)
        elif kind == "normalize_action":
            env = W.NormalizeActionSpace(raw)
            S.check(list(env.action_space.low) == [-1, -1] and list(env.action_space.high) == [1, 1], "the action space is normalized")
        elif kind == "randomize_action":
            frac = S.real("fraction", 0, 1)
            env = W.RandomizeAction(raw, frac)
        elif kind == "render":
            env = W.Render(raw, mode="human")
        else:
            env = raw
            if kind == "m_limit":
                lim = S.int("limit", 1, steps + 1)
                M.make_timestep_limited(env, lim)
            elif kind == "m_clip":
                clo, chi = S.real("clo", -2, 2), S.real("chi", -2, 2)
                S.assume(S.le(clo, chi))
                M.make_reward_clipped(env, clo, chi)
            elif kind == "m_act":
                M.make_action_filtered(env, lambda a: ("f", a))
            elif kind == "m_repeat":
                raw.flags = ("done",)
                M.make_action_repeated(env, 2)
            elif kind == "m_render":
                M.make_rendered(env)

        def obs_ok(o, v, draws):
            if kind == "scaled_float":
                for x, y in zip(_px(o), v):
                    S.check_eq(x * 255, y, "frames are divided by 255")
            elif kind == "flicker":
                u = draws[-1]
                zero = S.lt(u, 0.5)
                S.cover("flickered" if zero else "shown")
                _same(S, o, [0] * len(v) if zero else v, "a frame is blanked iff the draw says so")
            else:
                _same(S, o, v, "the observation passes through")
                if kind == "cast" and not S.symbolic:
                    S.check(o.dtype == np.float32, "cast to float32")
                if kind == "cast":
                    _same(S, env.original_observation, v, "the original observation is kept")

        need, el = True, 0
        for t in range(steps):
            if need:
                n0 = len(raw.log)
                o = env.reset()
                ls = raw.log[n0:]
                S.check([l[0] for l in ls] == (["reset", "render"] if kind == "render" else ["reset"]), "one reset")
                obs_ok(o, ls[0][1], raw.np_random.draws)
                need, el = False, 0
            n0 = len(raw.log)
            act = 10 + t
            if kind == "normalize_action":
                av = [S.real("a%d_%d" % (t, i), -1, 1) for i in range(2)]
                act = senv.obj_array(av).view(senv.OArr) if S.symbolic else np.array(av, np.float32)
            elif kind == "randomize_action":
                act = 2
                nd = len(RandomState.made[0].draws) if RandomState.made else 0
            o, r, d, info = env.step(act)
            ls = raw.log[n0:]
            el += 1
            l = ls[0]
            S.check(l[0] == "step", "stepped")
            if kind == "m_repeat":
                S.check(all(x[2] == act for x in ls) and (len(ls) == 2 or (len(ls) == 1 and l[4])), "the action is repeated until the end")
                S.check_eq(r, sum((x[3] for x in ls[1:]), l[3]), "rewards accumulate")
                _same(S, o, ls[-1][1], "the latest observation")
                S.check(d == ls[-1][4], "termination passes through")
                need = bool(d)
                S.cover("done")
                continue
            S.check([x[0] for x in ls] == (["step", "render"] if kind in ("render", "m_render") else ["step"]), "one step per step")
            obs_ok(o, l[1], raw.np_random.draws)
            # action
            if kind == "normalize_action":
                for i in range(2):
                    S.check_eq(l[2][i], lo[i] + (av[i] + 1) * (hi[i] - lo[i]) * 0.5, "the normalized box maps onto the original box")
                    S.check_eq(act[i], av[i], "the given action is not modified")
            elif kind == "randomize_action":
                ds = RandomState.made[0].draws[nd:]
                u = ds[0]
                if S.lt(u, frac):
                    S.cover("replaced")
                    S.check(len(ds) == 2 and ds[1][:2] == (0, 4) and l[2] == ds[1][2], "a random action replaces the given one iff the draw falls below the fraction")
                else:
                    S.cover("kept")
                    S.check(l[2] == act, "the given action is kept otherwise")
            elif kind == "m_act":
                S.check(l[2] == ("f", act), "the filtered action is used")
            else:
                S.check(l[2] == act, "the action passes through")
            # reward
            if kind == "scale_reward":
                S.check_eq(r, scale * l[3], "the reward is scaled")
                S.check_eq(env.original_reward, l[3], "the original reward is kept")
            elif kind == "clip_reward":
                S.check_eq(r, 0 if S.eq(l[3], 0) else (1 if l[3] > 0 else -1), "the reward is binned to its sign")
            elif kind == "m_clip":
                S.check_eq(r, clo if l[3] < clo else (chi if chi < l[3] else l[3]), "the reward is clipped")
            else:
                S.check_eq(r, l[3], "the reward passes through")
            if kind == "m_limit":
                S.check(bool(d) == (bool(S.le(lim, el)) or l[4]), "termination at the limit")
            else:
                S.check(d == l[4], "the termination flag passes through")
            S.check({k: v for k, v in info.items() if k != "needs_reset"} == {"k": t} and bool(info.get("needs_reset", False)) == l[5], "the info passes through")
            need = bool(_ended(d, info)) or S.flag("early%d" % t)
            S.cover("done")
        n = raw.closed
        env.close()
        S.check(raw.closed == n + 1, "closing closes the environment")


def stack_of_wrappers(S, steps, limit):
    """The Atari pipeline (without the pixel warping): protocol and time limit survive composition."""
    from pfrl import wrappers as W
    from pfrl.wrappers import atari_wrappers as A

    with sym_env(S, use_torch=False):
        raw = Raw(S, (1, 1, 1), flags=("done",), lives=True)
        env = W.ContinuingTimeLimit(raw, max_episode_steps=limit)
        env = A.NoopResetEnv(env, noop_max=1)
        env = A.MaxAndSkipEnv(env, skip=2)
        env = A.EpisodicLifeEnv(env)
        env = A.ClipRewardEnv(env)
        env = A.FrameStack(env, 2, channel_order="chw")
        need = True
        for t in range(steps):
            if need:
                o = env.reset()
                S.check(np.asarray(o).shape == (2, 1, 1), "stacked")
                _same(S, o, [_px(o)[0]] * 2, "a new episode starts without old frames")
                need = False
                continue
            n0 = len(raw.log)
            prev = _px(o)[1]
            o, r, d, info = env.step(3)
            ls = raw.log[n0:]
            S.check(1 <= len(ls) <= 2 and all(l[0] == "step" for l in ls), "a step is up to skip frames")
            S.check_eq(_px(o)[0], prev, "the previous frame stays in the stack")
            tot = sum((l[3] for l in ls[1:]), ls[0][3])
            S.check_eq(r, 0 if S.eq(tot, 0) else (1 if tot > 0 else -1), "the clipped sum of rewards")
            # frames since the last true reset
            el = 0
            for l in raw.log:
                el = 0 if l[0] == "reset" else el + 1
            S.check(bool(info.get("needs_reset", False)) == (el >= limit), "the time limit counts frames of the current game")
            need = bool(_ended(d, info))
            S.cover("ended" if need else "continues")


FN = ["ContinuingTimeLimit.step/reset", "FrameStack.step/reset/_get_ob", "LazyFrames.__array__", "VectorFrameStack.step/reset/_get_ob", "MaxAndSkipEnv.step/reset", "EpisodicLifeEnv.step/reset",
      "NoopResetEnv.reset/step", "FireResetEnv.reset/step", "ClipRewardEnv.reward", "ScaleReward.reward", "CastObservation.observation", "ScaledFloatFrame.observation", "FlickerFrame.observation",
      "NormalizeActionSpace.action", "RandomizeAction.action", "Render.step/reset", "make_timestep_limited", "make_reward_clipped", "make_action_filtered", "make_action_repeated", "make_rendered"]
ASSUMPTIONS = ["observations have 1 pixel (any value); WarpFrame is not encoded (its computation is native OpenCV code); gym.Wrapper base classes are executed as installed",
               "the driver resets after an episode ends and may also reset early; an environment step ends with at most one of done and needs_reset"]
KINDS = ["scale_reward", "clip_reward", "cast", "scaled_float", "flicker", "normalize_action", "randomize_action", "render", "m_limit", "m_clip", "m_act", "m_repeat", "m_render"]
HARNESSES = [
    Harness(time_limit, quick=[dict(steps=4, limit_max=5)], thorough=[dict(steps=5, limit_max=6)], covers=["limit", "below"], functions=FN, bounds="4 (5) steps, any limit"),
    Harness(frame_stack, quick=[dict(steps=3, k=3, order=o, vec=False) for o in ("hwc", "chw")] + [dict(steps=2, k=2, order="chw", vec=True)],
            thorough=[dict(steps=5, k=3, order=o, vec=False) for o in ("hwc", "chw")] + [dict(steps=3, k=2, order=o, vec=True) for o in ("hwc", "chw")],
            covers=["episode end", "done"], functions=FN, bounds="3 (5) steps, stacks of 2-3 frames, 1-2 environments"),
    Harness(max_skip, quick=[dict(steps=2, skip=s) for s in (1, 2, 3)], thorough=[dict(steps=3, skip=s) for s in (1, 2, 3)] + [dict(steps=2, skip=4)], covers=["full", "ended after 1", "ended after 2"], functions=FN, bounds="2 (3) steps of up to 3 (4) frames"),
    Harness(episodic_life, quick=[dict(steps=3)], thorough=[dict(steps=5)], covers=["life lost", "real reset", "continued game", "no-op ended the game"], functions=FN, bounds="3 (5) steps or resets, any lives"),
    Harness(reset_wrappers, quick=[dict(kind="noop", resets=2, noop_max=2), dict(kind="fire", resets=2, noop_max=1)], thorough=[dict(kind="noop", resets=2, noop_max=3), dict(kind="fire", resets=3, noop_max=1)],
            covers=["ended meanwhile", "normal"], functions=FN, bounds="2 (3) resets, 1 to 2 (3) no-ops"),
    Harness(simple, quick=[dict(kind=k, steps=2) for k in KINDS], thorough=[dict(kind=k, steps=3) for k in KINDS],
            covers=["done", "flickered", "shown", "replaced", "kept"], functions=FN, bounds="2 (3) steps"),
    Harness(stack_of_wrappers, quick=[dict(steps=3, limit=3)], thorough=[dict(steps=4, limit=4)], covers=["ended", "continues"], functions=FN, bounds="3 (4) steps or resets"),
]
