"""Concrete twin of the harness context: runs the same harness on the real, compiled code."""

from __future__ import annotations

import importlib
import math
import random

import numpy as np


class Skip(Exception):
    """Point outside the harness' assumptions."""


class Violated(Exception):
    pass


class PyRng:
    """Replays recorded draws; extra draws are sampled."""

    def __init__(self, ctx, name):
        self.ctx, self.name, self.k = ctx, name, 0
        self.law = []  # (kind, parameters) of every draw

    def _n(self):
        self.k += 1
        return "%s.%d" % (self.name, self.k)

    def _fill(self, size, f):
        if size is None:
            return f()
        o = np.empty(size, dtype=float)
        if o.ndim == 0:
            return f()
        for i in np.ndindex(o.shape):
            o[i] = f()
        return o

    def _unit(self):
        self.law.append(("beta", 1, 1))
        return min(self.ctx.real(self._n(), lo=0, hi=1, hint=(0.0, 0.99)), 1 - 2**-53)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(size, lambda: low + (high - low) * self._unit())

    def random(self, size=None, *a, **k):
        return self._fill(size, self._unit)

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.law.append(("normal",))
        return self._fill(size, lambda: loc + scale * self.ctx.real(self._n(), hint=(-2.0, 2.0)))

    def standard_normal(self, size=None, *a, **k):
        self.law.append(("normal",))
        return self._fill(size, lambda: self.ctx.real(self._n(), hint=(-2.0, 2.0)))

    def beta(self, a, b, size=None):
        def f():
            self.law.append(("beta", a, b))
            return self.ctx.real(self._n(), lo=0, hi=1, hint=(0.05, 0.95))

        return self._fill(size, f)

    def exponential(self, scale=1.0, size=None):
        self.law.append(("exponential",))
        return self._fill(size, lambda: scale * self.ctx.real(self._n(), lo=0, hint=(0.05, 3.0)))

    standard_exponential = lambda self, size=None, **k: self.exponential(1.0, size)

    def dirichlet(self, alpha, size=None):
        n = len(alpha)
        self.law.append(("dirichlet", tuple(alpha)))
        x = [self.ctx.real(self._n(), lo=0, hi=1, hint=(0.02, 0.9 / n)) for _ in range(n - 1)]
        last = 1 - sum(x)
        self.ctx.assume(last >= 0)
        return np.array(x + [last])

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1

        def f():
            if low >= high:
                raise ValueError("low >= high")
            return self.ctx.integer(self._n(), low, high - 1)

        r = self._fill(size, f)
        return r if size is None else r.astype(int)

    def choice(self, a, size=None, **k):
        n = a if isinstance(a, (int, np.integer)) else len(a)
        i = self.integers(0, n)
        return i if isinstance(a, (int, np.integer)) else a[i]


class ConcCtx:
    sym = False

    def __init__(self, env=None, choices=None, rnd=None):
        import flory

        self.fl = flory
        self.np = np
        self.env = dict(env or {})
        self.choices = dict(choices or {})
        self.rnd = rnd or random.Random(0)
        self.used = {}
        self.used_choices = {}
        self.violated = []
        self.nclaims = 0
        self.covered = []
        self.vars = {}

    def mod(self, name):
        return importlib.import_module("flory." + name)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, hint=None, hi_open=False, lo_open=False):
        if name in self.used:
            return self.used[name]
        if name in self.env:
            v = float(self.env[name])
        else:
            h = hint or ((0.1, 2.0) if (pos or nonneg) else (-2.0, 2.0))
            v = self.rnd.uniform(*h)
            if (nonneg or (lo == 0 and not lo_open)) and not pos and self.rnd.random() < 0.1:
                v = 0.0
        self.used[name] = v
        if (pos and not v > 0) or (nonneg and v < 0):
            raise Skip(name)
        if lo is not None and (v < lo or (lo_open and v == lo)):
            raise Skip(name)
        if hi is not None and (v > hi or (hi_open and v == hi)):
            raise Skip(name)
        return v

    def integer(self, name, lo, hi):
        if name in self.used:
            return self.used[name]
        v = int(self.env[name]) if name in self.env else self.rnd.randint(int(lo), int(hi))
        self.used[name] = v
        if not lo <= v <= hi:
            raise Skip(name)
        return v

    def reals(self, name, shape, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(shape, dtype=float)
        for i in np.ndindex(*shape):
            o[i] = self.real(name + "_" + "_".join(map(str, i)), **kw)
        return o

    def integers(self, name, shape, lo, hi):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(shape, dtype=int)
        for i in np.ndindex(*shape):
            o[i] = self.integer(name + "_" + "_".join(map(str, i)), lo, hi)
        return o

    def choice(self, name, options):
        n = options if isinstance(options, int) else len(options)
        i = self.choices.get(name)
        if i is None:
            i = self.rnd.randrange(n)
        self.used_choices[name] = i
        return i if isinstance(options, int) else options[i]

    def rng(self, name="rng", jit=False, unit=(0, 1)):
        """Draws named name.1, name.2, ...; jit=True: usable inside compiled functions."""
        if not jit:
            return PyRng(self, name)
        from .jitrng import make

        vals, kinds = np.empty(4096), np.zeros(4096, dtype=np.int64)
        for k in range(4096):
            v = self.env.get("%s.%d" % (name, k + 1))
            if v is None:
                u = unit if isinstance(unit, tuple) else unit[k % len(unit)]
                vals[k] = u[0] + (u[1] - u[0]) * self.rnd.random()
            else:
                vals[k] = float(v)
                kinds[k] = 1
        return make(vals, kinds)

    def arr(self, x, dtype=None):
        return np.array(x, dtype=dtype or float)

    def iarr(self, x):
        return np.array(x, dtype=int)

    def zeros(self, shape):
        return np.zeros(shape)

    def assume(self, c):
        if not np.all(c):
            raise Skip("assume")

    def split_max(self, on=True):
        pass

    def apart(self, a, b, eps=1e-9):
        """a and b are not so close that rounding could swap them"""
        if not abs(a - b) > eps:
            raise Skip("apart")

    def robust(self, c):
        """Points where rounding could flip a comparison are left out on the concrete side."""
        if not np.all(c):
            raise Skip("rounding")

    def stable(self, *xs):
        """No x may be so close to zero that rounding decides a comparison with zero."""
        for x in xs:
            if 0 < abs(float(x)) < 1e-9:
                raise Skip("rounding")

    def exp(self, x):
        with np.errstate(all="ignore"):
            return np.exp(x)

    def log(self, x):
        with np.errstate(all="ignore"):
            return np.log(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def abs(self, x):
        return np.abs(x)

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def floor(self, x):
        return math.floor(x)

    def implies(self, a, b):
        return (not a) or bool(b)

    def both(self, *xs):
        return all(bool(x) for x in xs)

    def either(self, *xs):
        return any(bool(x) for x in xs)

    def neg(self, a):
        return not a

    def iff(self, a, b):
        return bool(a) == bool(b)

    def cut(self, x):
        return x

    def values(self, x):
        return np.asarray(x).tolist()

    def shape(self, x):
        return tuple(np.shape(x))

    def copy(self, x):
        return np.array(x)

    def grad(self, fun, x):
        x = np.array(x, dtype=float)
        r = np.empty_like(x)
        for i in np.ndindex(x.shape):
            v = x[i]
            h = 1e-5 * max(abs(v), 1e-3)
            xs = []
            for s in (-2, -1, 1, 2):
                y = x.copy()
                y[i] = v + s * h
                xs.append(float(fun(y)))
            r[i] = (xs[0] - 8 * xs[1] + 8 * xs[2] - xs[3]) / (12 * h)
        return r

    # ---- assertions
    def _bad(self, label, why):
        self.violated.append((label, why))

    def _tol(self, rtol, atol):
        """tolerances for rounding: tight when all inputs are of ordinary size"""
        tame = all(v == 0 or 1e-3 <= abs(v) <= 10.0 for v in self.used.values())
        return (
            (1e-9 if tame else 1e-7) if rtol is None else rtol,
            (1e-10 if tame else 1e-8) if atol is None else atol,
        )

    def eq(self, label, a, b, rtol=None, atol=None):
        self.nclaims += 1
        rtol, atol = self._tol(rtol, atol)
        A, C = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if A.shape != C.shape:
            return self._bad(label, "shape %s vs %s" % (A.shape, C.shape))
        with np.errstate(all="ignore"):
            ok = np.isclose(A, C, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            self._bad(label, "got %s expected %s" % (A.tolist(), C.tolist()))

    def le(self, label, a, b, rtol=None, atol=None):
        self.nclaims += 1
        rtol, atol = self._tol(rtol, atol)
        A, C = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if not np.all(A <= C + atol + rtol * np.abs(C)):
            self._bad(label, "%s > %s" % (A.tolist(), C.tolist()))

    def true(self, label, cond, **tol):
        self.nclaims += 1
        if not np.all(cond):
            self._bad(label, "false")

    def same(self, label, a, b):
        self.nclaims += 1
        if not a == b:
            self._bad(label, "%r != %r" % (a, b))

    def fail(self, label, why=""):
        self.nclaims += 1
        self._bad(label, why)

    def raises(self, label, exc, fn):
        self.nclaims += 1
        try:
            fn()
        except Skip:
            raise
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self._bad(label, "raised %s: %s" % (type(e).__name__, e))
            return False
        self._bad(label, "no exception")
        return False

    def returns(self, label, fn):
        self.nclaims += 1
        try:
            return fn()
        except Skip:
            raise
        except Exception as e:  # noqa: BLE001
            self._bad(label, "raised %s: %s" % (type(e).__name__, e))
            return None

    def outcome(self, fn):
        try:
            return fn(), None
        except Skip:
            raise
        except Exception as e:  # noqa: BLE001
            return None, e

    def cover(self, label):
        self.covered.append(label)


def run_concrete(harness, params, env=None, choices=None, seed=0):
    """One concrete evaluation: dict(status=ok|violated|skip, ...)."""
    ctx = ConcCtx(env, choices, random.Random(seed))
    saved = None
    try:
        with np.errstate(all="ignore"):
            harness(ctx, **params)
    except Skip as e:
        return dict(status="skip", why=str(e))
    except Exception as e:  # noqa: BLE001
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if "/flory/" in f.filename]
        if not own and isinstance(e, (AttributeError, TypeError, KeyError, NameError, ImportError, IndexError)):
            return dict(status="error", why="harness: %s: %s at %s:%d" % (
                type(e).__name__, str(e)[:300], tb[-1].filename, tb[-1].lineno))
        ctx.violated.append(("exception", "%s: %s [%s]" % (
            type(e).__name__, str(e)[:300], "; ".join("%s:%d" % (f.filename, f.lineno) for f in tb[-2:]))))
    return dict(
        status="violated" if ctx.violated else "ok", violated=ctx.violated[:5], inputs=ctx.used,
        choices=ctx.used_choices, claims=ctx.nclaims,
    )


_default_rng = np.random.default_rng


def _pass_through(seed=None):
    return seed if isinstance(seed, PyRng) else _default_rng(seed)


np.random.default_rng = _pass_through
