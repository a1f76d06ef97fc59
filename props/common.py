"""Shared stubs and helpers for the property harnesses."""
import contextlib
import os
import random as _random
import shutil
import sys
import tempfile

import numpy as np
import torch

from symex.runner import Harness, REPO  # noqa
from symex import core, symtorch, env as senv
from symex.env import sym_env, tensor, elems, scalar, real_tensor, smax, smin, ite, Patcher  # noqa
from symex.core import and_, or_, not_  # noqa


class scratch_dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif_symex_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def grid(**kw):
    """Cartesian product of config values."""
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


class RngStub:
    """Nondeterministic stand-ins for numpy.random / random, constrained only by
    their documented contracts.  Works in both modes via S."""

    def __init__(self, S, P, max_calls=6):
        """max_calls: bound on the number of np.random.choice calls (rejection
        loops may redraw forever); longer runs are cut and outside the claim."""
        self.S = S
        self.max_calls = max_calls
        self.n_choice = 0
        self.draws = []
        r = np.random
        P.set(r, "choice", self.choice)
        P.set(r, "randint", self.randint)
        P.set(r, "rand", self.rand)
        P.set(r, "random", self.rand)
        P.set(r, "random_sample", self.rand)
        P.set(r, "uniform", self.uniform)
        P.set(r, "normal", self.normal)
        P.set(r, "randn", self.randn)
        P.set(r, "standard_normal", self.randn)
        P.set(r, "binomial", self.binomial)
        P.set(r, "permutation", self.permutation)
        P.set(r, "shuffle", self.shuffle)
        P.set(_random, "random", lambda: self.rand())
        P.set(_random, "uniform", lambda a, b: self.uniform(a, b))
        P.set(_random, "randint", lambda a, b: self.S.int("rnd_randint", a, b))
        P.set(_random, "randrange", self.randrange)
        P.set(_random, "gauss", lambda mu, sigma: self.normal(mu, sigma))
        P.set(_random, "shuffle", self.shuffle)
        P.set(_random, "sample", self.sample)
        P.set(_random, "choice", lambda xs: xs[self.S.choice("rnd_choice1", len(xs))])

    # -- helpers
    def _arr(self, xs, dtype):
        if self.S.symbolic:
            return senv.obj_array(list(xs)).view(senv.OArr) if len(xs) else np.empty((0,), dtype=object)
        return np.array(list(xs), dtype=dtype)

    def choice(self, a, size=None, replace=True, p=None):
        pop = None
        self.n_choice += 1
        if self.n_choice > self.max_calls:
            self.S.assume(False)
        if not isinstance(a, (int, np.integer, core.SymNum)):
            pop = list(a)
            n = len(pop)
        else:
            n = int(a) if not isinstance(a, core.SymNum) else a.__index__()
        if n <= 0:
            raise ValueError("a must be greater than 0")
        k = 1 if size is None else int(np.prod(size))
        if not replace and k > n:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        xs = []
        for i in range(k):
            x = self.S.int("rng_choice", 0, n - 1)
            if not replace:
                for y in xs:
                    self.S.assume(not_(core.eq(x, y)))
            xs.append(x)
        if pop is not None:
            xs = [pop[x] for x in xs]
        self.draws.append(("choice", n, list(xs)))
        if size is None:
            return xs[0]
        return self._arr(xs, np.int64)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if not isinstance(low, core.SymNum) and not isinstance(high, core.SymNum) and low >= high:
            raise ValueError("low >= high")
        one = lambda: self.S.int("rng_int", low, high - 1)
        if size is None:
            x = one()
            self.draws.append(("randint", low, high, x))
            return x
        return self._arr([one() for _ in range(int(np.prod(size)))], np.int64)

    def randrange(self, a, b=None):
        return self.randint(a, b)

    def rand(self, *shape):
        if shape and isinstance(shape[0], tuple):
            shape = shape[0]
        if not shape or shape == (None,):
            x = self.S.real("rng_u", lo=0.0, hi_strict=1.0)
            self.draws.append(("rand", x))
            return x
        n = int(np.prod(shape))
        return self._arr([self.S.real("rng_u", lo=0.0, hi_strict=1.0) for _ in range(n)], float).reshape(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        def one():
            u = self.S.real("rng_unif")
            self.S.assume(u >= low)
            self.S.assume(or_(u < high, and_(core.eq(u, low), core.eq(low, high))))
            self.draws.append(("uniform", low, high, u))
            return u

        if size is None:
            return one()
        n = int(np.prod(size))
        return self._arr([one() for _ in range(n)], float).reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        one = lambda: self.S.real("rng_n") * scale + loc if False else self._n(loc, scale)
        if size is None and not isinstance(loc, np.ndarray):
            return one()
        shape = size if size is not None else loc.shape
        if isinstance(shape, int):
            shape = (shape,)
        n = int(np.prod(shape))
        zs = self._arr([self._z() for _ in range(n)], float).reshape(shape)
        return zs * scale + loc

    def _z(self):
        z = self.S.real("rng_z", lo=-8, hi=8)
        self.draws.append(("z", z))
        return z

    def _n(self, loc, scale):
        return self._z() * scale + loc

    def randn(self, *shape):
        if not shape:
            return self._z()
        n = int(np.prod(shape))
        return self._arr([self._z() for _ in range(n)], float).reshape(shape)

    def binomial(self, n, p, size=None):
        k = self.S.int("rng_binom", 0, n)
        return k.__index__() if isinstance(k, core.SymNum) else k

    def permutation(self, x):
        xs = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        self.shuffle(xs)
        return np.array(xs) if not senv._has_sym(xs) else senv.obj_array(xs)

    def shuffle(self, xs):
        """Arbitrary permutation, in place, by forking (Fisher-Yates)."""
        for i in range(len(xs) - 1, 0, -1):
            j = self.S.choice("rng_shuffle", i + 1)
            xs[i], xs[j] = xs[j], xs[i]

    def sample(self, population, k):
        xs = list(population)
        out = []
        for _ in range(k):
            out.append(xs.pop(self.S.choice("rng_sample", len(xs))))
        return out


class CountingLogger:
    def __getattr__(self, n):
        return lambda *a, **k: None


def is_plain_true(c):
    return c is True


def all_(xs):
    return and_(*list(xs))


class TorchRng:
    """Nondeterministic stand-ins for torch's random tensors, in both modes."""

    def __init__(self, S, P, z=3):
        self.S, self.log = S, []

        def size(a, kw):
            if "size" in kw:
                a = kw["size"]
            if len(a) == 1 and isinstance(a[0], (tuple, list, torch.Size)):
                a = a[0]
            return tuple(int(x) for x in a)

        def mk(kind, shape, dtype=None):
            n = int(np.prod(shape, dtype=int))
            if kind == "u":
                xs = [S.real("rng_u", lo=0.0, hi_strict=1.0) for _ in range(n)]
            else:
                xs = [S.real("rng_z", -z, z) for _ in range(n)]
            self.log.append((kind, tuple(shape), xs))
            dtype = dtype or torch.float32
            if S.symbolic:
                return symtorch.make(xs, shape, dtype)
            return torch.tensor(xs, dtype=dtype).reshape(tuple(shape))

        P.set(torch, "rand", lambda *a, **k: mk("u", size(a, k), k.get("dtype")))
        P.set(torch, "randn", lambda *a, **k: mk("z", size(a, k), k.get("dtype")))
        P.set(torch, "rand_like", lambda t, **k: mk("u", tuple(t.shape), t.dtype))
        P.set(torch, "randn_like", lambda t, **k: mk("z", tuple(t.shape), t.dtype))

        def normal(mean=0.0, std=1.0, size_=None, *, size=None, **k):
            sh = tuple(size or size_) if (size or size_) else tuple((mean if isinstance(mean, torch.Tensor) else std).shape)
            return mean + std * mk("z", sh)

        P.set(torch, "normal", normal)
        import torch.distributions.utils as tdu
        import torch.distributions.normal as tdn

        std = lambda shape, dtype=None, device=None: mk("z", tuple(shape), dtype)
        P.set(tdu, "_standard_normal", std)
        P.set(tdn, "_standard_normal", std)
        self.mk = mk
