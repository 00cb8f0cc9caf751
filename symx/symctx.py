"""Harness context for symbolic runs (see conc.py for the concrete twin)."""

from __future__ import annotations

import importlib
import math
import random
import sys
import time
from fractions import Fraction

import numpy as np

np.seterr(all="ignore")
import z3

from . import core, shadow, snp
from .core import B, Budget, Control, Engine, Infeasible, Sym, Unsupported, as_b, conj, disj, special

EQ_MARGIN = Fraction(1, 10000)


class Claim:
    def __init__(self, label, ok, viol, desc="", pair=None, sides=None):
        self.sides = sides  # the two sides, where the claim is an inequality
        self.label = label  # which assertion of the harness
        self.pair = pair  # the two sides, where the claim is an equation
        self.ok = ok  # B that must hold
        self.viol = viol  # B: violated by more than the margin
        self.desc = desc


class Fake(Exception):
    """A claim that is false on the path whatever the inputs (shape, type, exception)."""


class RngModel:
    """numpy.random.Generator whose draws are arbitrary values of the documented ranges."""

    def __init__(self, ctx, name, unit=(0, 1)):
        self.ctx, self.name, self.k, self.unit = ctx, name, 0, unit
        self.law = []  # (kind, parameters) of every draw

    def _n(self):
        self.k += 1
        return "%s.%d" % (self.name, self.k)

    def _fill(self, size, f):
        if size is None:
            return f()
        shp = snp._shape(size)
        o = np.empty(shp, dtype=object)
        if o.ndim == 0:
            return f()
        for i in np.ndindex(o.shape):
            o[i] = f()
        return snp.wrap(o)

    def _unit(self):
        u = self.unit if isinstance(self.unit, tuple) else self.unit[self.k % len(self.unit)]
        lo, hi = u
        self.law.append(("beta", 1, 1))
        return self.ctx.real(self._n(), lo=lo, hi=hi, hi_open=True, hint=(lo, hi - 0.01 * (hi - lo)))

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(size, lambda: low + (high - low) * self._unit())

    def random(self, size=None, *a, **k):
        return self._fill(size, self._unit)

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.law.append(("normal",))
        return self._fill(size, lambda: loc + scale * self.ctx.real(self._n(), hint=(-2.0, 2.0)))

    def standard_normal(self, size=None, *a, **k):
        self.law.append(("normal",))
        return self._fill(size, lambda: self.ctx.real(self._n(), hint=(-2.0, 2.0)))

    def beta(self, a, b, size=None):
        def f():
            self.law.append(("beta", a, b))
            return self.ctx.real(self._n(), lo=0, hi=1, hint=(0.05, 0.95))

        return self._fill(size, f)

    def exponential(self, scale=1.0, size=None):
        self.law.append(("exponential",))
        return self._fill(size, lambda: scale * self.ctx.real(self._n(), lo=0, hint=(0.05, 3.0)))

    standard_exponential = lambda self, size=None, **k: self.exponential(1.0, size)

    def dirichlet(self, alpha, size=None):
        if size is not None:
            raise Unsupported("dirichlet draw with a size")
        n = len(alpha)
        self.law.append(("dirichlet", tuple(alpha)))
        x = [self.ctx.real(self._n(), lo=0, hi=1, hint=(0.02, 0.9 / n)) for _ in range(n - 1)]
        last = 1 - sum(x)
        self.ctx.assume(last >= 0)
        return self.ctx.arr(x + [last])

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1

        def f():
            if bool(Sym.of(low) >= high):
                raise ValueError("low >= high")
            return self.ctx.integer(self._n(), low, high - 1)

        return self._fill(size, f)

    def choice(self, a, size=None, replace=True, p=None, **k):
        if size is not None or p is not None:
            raise Unsupported("rng.choice with size/p")
        n = a if isinstance(a, (int, Sym)) else len(a)
        i = self.integers(0, n)
        return i if isinstance(a, (int, Sym)) else a[i.__index__() if isinstance(i, Sym) else i]

    def permutation(self, *a, **k):
        raise Unsupported("rng.permutation")

    shuffle = permutation

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("rng.%s" % name)


class SymCtx:
    sym = True

    def __init__(self, eng):
        self.eng = eng
        self.fl = shadow.load()
        self.np = snp.PROXY
        self.soft = []
        self.vars = {}  # name -> dict(hint, integer)
        self.choices = {}
        self.claims = []
        self.covered = []

    # ---- modules
    def mod(self, name):
        return importlib.import_module("flory." + name)

    # ---- inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, hint=None, hi_open=False, lo_open=False):
        if lo is not None and Sym.of(lo).const is not None:
            c = Sym.of(lo).const
            if c > 0 or (c == 0 and lo_open):
                pos = True
            elif c == 0:
                nonneg = True
        v = core.fresh(name, pos=pos, nonneg=nonneg or pos)
        if lo is not None:
            self.eng.assume(v > lo if lo_open else v >= lo)
        if hi is not None:
            self.eng.assume(v < hi if hi_open else v <= hi)
        self._declare(name, dict(hint=hint or ((0.1, 2.0) if (pos or nonneg) else (-2.0, 2.0)), integer=False, key=("var", name, pos, nonneg or pos, False)))
        return v

    def _declare(self, name, info):
        if name in self.vars and self.vars[name]["key"] != info["key"]:
            raise Unsupported("one input of two kinds: %s" % name)
        self.vars[name] = info

    def integer(self, name, lo, hi):
        nonneg, pos = isinstance(lo, int) and lo >= 0, isinstance(lo, int) and lo > 0
        v = core.fresh(name, integer=True, nonneg=nonneg, pos=pos)
        self.eng.assume(v >= lo)
        self.eng.assume(v <= hi)
        f = lambda x, d: d if Sym.of(x).const is None else int(Sym.of(x).const)
        self._declare(name, dict(hint=(f(lo, 0), f(hi, 8)), integer=True, key=("var", name, pos, nonneg, True)))
        return v

    def reals(self, name, shape, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self.real(name + "_" + "_".join(map(str, i)), **kw)
        return snp.wrap(o)

    def integers(self, name, shape, lo, hi):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self.integer(name + "_" + "_".join(map(str, i)), lo, hi)
        return snp.wrap(o, "i")

    def choice(self, name, options):
        n = options if isinstance(options, int) else len(options)
        i = self.eng.choose(n)
        self.choices[name] = i
        return i if isinstance(options, int) else options[i]

    def rng(self, name="rng", jit=False, unit=(0, 1)):
        return RngModel(self, name, unit)

    def arr(self, x, dtype=None):
        return snp.p_array(x, dtype=dtype or float)

    def iarr(self, x):
        return snp.PROXY.array(x, dtype=int)

    def zeros(self, shape):
        return snp.PROXY.zeros(shape)

    def assume(self, c):
        self.eng.assume(as_b(c))

    def split_max(self, on=True):
        """Explore both values of a maximum that is divided by (else: one defined value)."""
        self.eng.split_max = on

    def robust(self, c):
        """Left out on the concrete side; models of the solver keep away from there if they can."""
        if isinstance(c, B):
            self.soft.append(c)

    def apart(self, a, b, eps=1e-9):
        self.soft.append(as_b((a - b > Fraction(1, 1000)) | (b - a > Fraction(1, 1000))))

    def stable(self, *xs):
        pass

    # ---- maths
    def exp(self, x):
        return self._lift(core.exp, "exp", x)

    def log(self, x):
        return self._lift(core.log, "log", x)

    def sqrt(self, x):
        return self._lift(core.sqrt, "sqrt", x)

    def abs(self, x):
        return self._lift(core.sabs, "absolute", x)

    def _lift(self, f, name, x):
        if isinstance(x, np.ndarray):
            return snp.UF[name](x)
        return f(Sym.of(x))

    def max(self, xs):
        return core.smax([Sym.of(x) if special(x) is None else x for x in xs])

    def min(self, xs):
        return core.smin([Sym.of(x) if special(x) is None else x for x in xs])

    def floor(self, x):
        return core.floor(Sym.of(x))

    def implies(self, a, b):
        return (~as_b(a)) | as_b(b)

    def both(self, *xs):
        return conj(xs)

    def either(self, *xs):
        return disj(xs)

    def neg(self, a):
        return ~as_b(a)

    def iff(self, a, b):
        a, b = as_b(a), as_b(b)
        return (a & b) | (~a & ~b)

    def cut(self, x):
        """Name values by fresh defined symbols (keeps later terms small)."""
        if isinstance(x, np.ndarray):
            o = np.ndarray.view(x, np.ndarray)
            for i in np.ndindex(o.shape):
                if special(o[i]) is None:
                    o[i] = core.cut(o[i])
            return x
        return core.cut(x)

    def values(self, x):
        """Nested list of plain scalars."""
        if isinstance(x, snp.SArr):
            return x.tolist()
        return snp.to_obj(x).tolist()

    def shape(self, x):
        return tuple(np.shape(snp.to_obj(x)))

    def copy(self, x):
        return x.copy()

    def is_zero(self, x):
        """Vanishes identically (on the current path)."""
        return Sym.of(x).const == 0

    def grad(self, fun, x, wrt=None):
        """d fun(x) / d x[i] for a scalar function; x holds plain input variables."""
        y = Sym.of(fun(x))
        o = snp.to_obj(x)
        r = np.empty(o.shape, dtype=object)
        for i in np.ndindex(o.shape):
            r[i] = core.diff(y, o[i])
        return snp.wrap(r)

    # ---- assertions
    def _pairs(self, label, a, b):
        A, C = snp.to_obj(a), snp.to_obj(b)
        if A.shape != C.shape:
            self.claims.append(Claim(label, core.FALSE, core.TRUE, "shape %s vs %s" % (A.shape, C.shape)))
            return []
        return list(zip(A.ravel().tolist(), C.ravel().tolist())) if A.ndim else [(A[()], C[()])]

    def eq(self, label, a, b, **tol):
        for x, y in self._pairs(label, a, b):
            sx, sy = special(x), special(y)
            if sx is not None or sy is not None:
                ok = sx is not None and sy is not None and (sx == sy or (sx != sx and sy != sy))
                self.claims.append(Claim(label, B.const(ok), B.const(not ok), "%r vs %r" % (x, y)))
                continue
            x, y = Sym.of(x), Sym.of(y)
            d = x - y
            m = EQ_MARGIN
            self.claims.append(Claim(label, d == 0, (d > m) | (d < -m), pair=(x, y)))

    def le(self, label, a, b, **tol):
        for x, y in self._pairs(label, a, b):
            if special(x) is not None or special(y) is not None:
                ok = bool(snp._cmpf("<=")(x, y))
                self.claims.append(Claim(label, B.const(ok), B.const(not ok)))
                continue
            d = Sym.of(x) - Sym.of(y)
            self.claims.append(Claim(label, d <= 0, d > EQ_MARGIN, sides=(Sym.of(x), Sym.of(y))))

    def true(self, label, cond, **tol):
        if isinstance(cond, np.ndarray):
            cond = conj([as_b(c) for c in snp.to_obj(cond).ravel().tolist()])
        c = as_b(cond)
        self.claims.append(Claim(label, c, ~c))

    def same(self, label, a, b):
        """Exact equality of concrete or symbolic discrete values."""
        if isinstance(a, (Sym, B)) or isinstance(b, (Sym, B)):
            self.true(label, as_b(a == b))
        else:
            self.true(label, bool(a == b))

    def fail(self, label, why=""):
        self.claims.append(Claim(label, core.FALSE, core.TRUE, why))

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.claims.append(Claim(label, core.TRUE, core.FALSE))
            return True
        except Exception as e:  # noqa: BLE001
            self.claims.append(Claim(label, core.FALSE, core.TRUE, "raised %s" % type(e).__name__))
            return False
        self.claims.append(Claim(label, core.FALSE, core.TRUE, "no exception"))
        return False

    def returns(self, label, fn):
        """fn() must not raise; returns its value or None."""
        try:
            r = fn()
        except Exception as e:  # noqa: BLE001
            self.claims.append(Claim(label, core.FALSE, core.TRUE, "raised %s: %s" % (type(e).__name__, e)))
            return None
        self.claims.append(Claim(label, core.TRUE, core.FALSE))
        return r

    def outcome(self, fn):
        """(value, None) or (None, exception)."""
        try:
            return fn(), None
        except Exception as e:  # noqa: BLE001
            return None, e

    def cover(self, label):
        self.covered.append(label)


# ----------------------------------------------------------------------- running


class Result(dict):
    pass


def _num(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return float(Fraction(v.as_fraction() if z3.is_rational_value(v) else v.as_long()))
    return None


def model_env(eng, ctx, model, rnd):
    env = {}
    for n, info in ctx.vars.items():
        a = eng.reg.index[info["key"]]
        z = a.z
        v = None
        if z is not None:
            zz = z.arg(0) if a.integer else z
            if model.eval(zz, model_completion=False) is not zz:
                mv = model.eval(zz, model_completion=False)
                v = _num(mv)
        if v is None:
            v = sample_hint(info, rnd)
        env[n] = int(round(v)) if info["integer"] else v
    return env


def sample_hint(info, rnd):
    lo, hi = info["hint"]
    if info["integer"]:
        return rnd.randint(int(lo), int(hi))
    return rnd.uniform(lo, hi)


def transcendental(eng, bs, env, pairs=True):
    """True statements about the exponentials and logarithms in the formulas: signs, monotonicity, and
    bounds around the point env (tangent below, secant above for exp; the reverse for log)."""
    todo, seen = [k for b in bs for k in b.atoms()], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        todo.extend(core.atoms_of_facts(eng.reg.atoms[k]) - seen)
    pts = []
    for k in sorted(seen):
        a = eng.reg.atoms[k]
        if a.kind == "exp":
            pts.append((core.Sym(a.data), core.atom_sym(a), a))
        elif a.kind in ("expc", "expv"):
            pts.append((core.Sym.of(Fraction(1, a.data) if a.kind == "expc" else a.data), core.atom_sym(a), a))
        elif a.kind == "log":
            pts.append((core.atom_sym(a), core.Sym(a.data), a))
    if not any(a.kind in ("exp", "log") for _, _, a in pts) or len(pts) > 24:
        return []
    imp = lambda p, q: ~core.as_b(p) | core.as_b(q)
    out = []
    if pairs:
        for i, (x, e, _) in enumerate(pts):  # e = exp(x)
            out += [imp(x > 0, e > 1 + x), imp(x < 0, (e > 1 + x) & (e < 1)), imp(x == 0, e == 1)]
            for y, f, _ in pts[:i]:
                out += [imp(x < y, e < f), imp(y < x, f < e), imp(x == y, e == f)]
    for x, e, a in pts:
        if a.kind not in ("exp", "log"):
            continue
        try:
            v = float(core.evp(x.p, dict(env)))
            if not abs(v) < 200:
                continue
            q = Fraction(v).limit_denominator(1000)
            ex = lambda t: Fraction(math.exp(float(t)))
            lo, hi = ex(q) * (1 - Fraction(1, 10**9)), ex(q) * (1 + Fraction(1, 10**9))
            out += [imp(x >= q, e >= lo), imp(x <= q, e <= hi), imp(x > q - 1, e >= lo * (1 + x - q))]
            for h in (Fraction(1), Fraction(1, 20)):
                l, u = ex(q - h) * (1 + Fraction(1, 10**9)), ex(q + h) * (1 + Fraction(1, 10**9))
                out.append(imp((x >= q - h) & (x <= q + h), e <= l + (x - q + h) * ((u - l) / (2 * h))))
        except (OverflowError, ZeroDivisionError, ValueError, KeyError, TypeError):
            continue
    return [b for b in out if b.truth() is not True]


def box(ctx, wide=0):
    bs = []
    for n, info in ctx.vars.items():
        v = core.atom_sym(core.REG.index[info["key"]])
        lo, hi = info["hint"]
        if wide and not info["integer"]:
            lo, hi = (lo / wide, hi * wide) if lo > 0 else (min(lo * wide, lo), max(hi * wide, hi))
        bs.append((v >= Fraction(lo).limit_denominator(1000)) & (v <= Fraction(hi).limit_denominator(1000)))
    return bs


def numeric_violation(eng, ctx, claims, path, env):
    """Does env satisfy the path and break a claim, with exp/log evaluated numerically?"""

    def attempt():
        e = dict(env)
        if not all(core.evb(b, e) for b in path):
            return None
        for c in claims:
            if core.evb(c.viol, e):
                return c
        return None

    try:
        c = attempt()
        if c is None:
            return None
        with core.high_precision():
            return attempt()
    except (OverflowError, ZeroDivisionError, ValueError, KeyError, TypeError):
        return None


def find_numeric(eng, ctx, claims, path, rnd, n=400):
    out = []
    for k in range(n):
        env = {nm: sample_hint(i, rnd) for nm, i in ctx.vars.items()}
        c = numeric_violation(eng, ctx, claims, path, env)
        if c is not None:
            out.append((c.label, env))
            if len(out) >= 5:
                break
    return out


def climb(eng, ctx, claim, path, rnd, seconds=6.0):
    """Where the solver gives no verdict: search the inputs for a violation (CMA-ES on the margin)."""
    names = [n for n, i in ctx.vars.items() if not i["integer"]]
    ints = {n: i for n, i in ctx.vars.items() if i["integer"]}
    if not names or claim.viol.truth() is not None:
        return []
    t0 = time.time()
    d = len(names)
    lo = np.array([ctx.vars[n]["hint"][0] for n in names], float)
    w = np.array([ctx.vars[n]["hint"][1] for n in names], float) - lo
    w[w <= 0] = 1.0
    nr = np.random.default_rng(rnd.randint(0, 1 << 30))
    out = []

    def env_of(x):
        e = {n: float(v) for n, v in zip(names, lo + w * np.clip(x, 0.0, 1.0))}
        e.update(fixed)
        return e

    def score(x):
        e = env_of(x)
        try:
            pm = min([core.margin(b, e) for b in path] + [0.0])
            if not pm >= 0:
                return -1e6 + max(pm, -1e5) if pm == pm else -1e9
            if claim.sides is not None:  # stay away from states where both sides vanish
                a, b = (core.evp(x.p, e) for x in claim.sides)
                v = a - 100.0 if a < 0.02 else np.log(a / max(b, 1e-9))
            else:
                v = core.margin(claim.viol, e)
            return v - np.abs(x - np.clip(x, 0.0, 1.0)).sum() if v == v else -1e9
        except (OverflowError, ZeroDivisionError, ValueError, KeyError, TypeError):
            return -1e9

    while time.time() - t0 < seconds and len(out) < 2:
        fixed = {n: sample_hint(i, rnd) for n, i in ints.items()}
        best = max((nr.uniform(0, 1, d) for _ in range(40)), key=score)
        m, sg = best, 0.2
        lam = 8 + int(3 * np.log(d + 1))
        mu = lam // 2
        wt = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
        wt /= wt.sum()
        me = 1 / (wt**2).sum()
        cs, cc, c1 = (me + 2) / (d + me + 5), 4 / (d + 4), 2 / ((d + 1.3) ** 2 + me)
        cm = min(1 - c1, 2 * (me - 2 + 1 / me) / ((d + 2) ** 2 + me))
        ds = 1 + cs + 2 * max(0, np.sqrt((me - 1) / (d + 1)) - 1)
        C, pc, ps, chi = np.eye(d), np.zeros(d), np.zeros(d), np.sqrt(d) * (1 - 1 / (4 * d) + 1 / (21 * d * d))
        for g in range(100 + 30 * d):
            if time.time() - t0 > seconds:
                break
            vals, vecs = np.linalg.eigh(C)
            sd = np.sqrt(np.maximum(vals, 1e-20))
            zs = nr.normal(size=(lam, d))
            ys = (zs * sd) @ vecs.T
            sc = [score(m + sg * y) for y in ys]
            o = np.argsort(sc)[::-1][:mu]
            if sc[o[0]] > 0:
                e = env_of(m + sg * ys[o[0]])
                if numeric_violation(eng, ctx, [claim], path, e) is not None:
                    out.append((claim.label, e))
                    if sc[o[0]] > 50 * float(EQ_MARGIN) or len(out) > 3:
                        break
            yw = wt @ ys[o]
            m = m + sg * yw
            ps = (1 - cs) * ps + np.sqrt(cs * (2 - cs) * me) * (vecs @ ((vecs.T @ yw) / sd))
            h = np.linalg.norm(ps) / np.sqrt(1 - (1 - cs) ** (2 * (g + 1))) < (1.4 + 2 / (d + 1)) * chi
            pc = (1 - cc) * pc + h * np.sqrt(cc * (2 - cc) * me) * yw
            C = (1 - c1 - cm) * C + c1 * np.outer(pc, pc) + cm * (ys[o].T * wt) @ ys[o]
            sg *= np.exp((cs / ds) * (np.linalg.norm(ps) / chi - 1))
            if sg < 1e-9 or sg > 1e3 or not np.isfinite(sg):
                break
    return out[::-1]


def run_symbolic(harness, params, seed=1, budget=120.0, quick_ms=700, hard_ms=15000, max_paths=3000, patch=None):
    """Explore the harness; returns a Result with verdicts and candidate counterexamples."""
    t0 = time.time()
    eng = Engine(deadline=t0 + budget, quick_ms=quick_ms, hard_ms=hard_ms, max_paths=max_paths)
    rnd = random.Random(seed)
    climbs = [0]
    res = Result(
        candidates=[], undecided=[], unsupported=[], tolerance=[], labels={}, functions=set(),
        witness=None, status="ok", errors=[],
    )

    def prof(frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(shadow.REPO):
                res["functions"].add(fn[len(shadow.REPO) + 1:].replace("/", ".")[:-3] + ":" + frame.f_code.co_qualname)

    def closed(claims):
        """Claims whose two sides have one normal form: the solver confirms the equations."""
        eng.stats["closed_form"] += len(claims)
        zs = []
        for c in claims:
            if c.pair is not None:
                zs.append(eng.zpoly(core.clear_neg(c.pair[0].p)) != eng.zpoly(core.clear_neg(c.pair[1].p)))
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(z3.Or(*zs))
        t = time.time()
        r = str(s.check())
        eng.stats["queries"] += 1
        eng.stats[r] += 1
        eng.stats["solver_s"] += time.time() - t
        if r == "sat":
            raise RuntimeError("normal form disagrees with the solver")

    def decide(ctx, claims):
        path = list(eng.path)
        pend = [c for c in claims if c.ok.truth() is not True]
        for c in claims:
            res["labels"][c.label] = res["labels"].get(c.label, 0) + 1
            eng.stats["checks"] += 1
        if not pend:
            closed(claims)
            return
        closed([c for c in claims if c.ok.truth() is True])
        todo = [pend]
        while todo:
            grp = todo.pop()
            goal = disj([~c.ok for c in grp])
            r, m = eng.solve([goal], ms=eng.hard_ms if len(grp) == 1 else max(1500, eng.hard_ms // 3))
            if r == "unsat":
                continue
            if len(grp) > 1:
                h = len(grp) // 2
                todo += [grp[:h], grp[h:]]
                continue
            c = grp[0]
            handle(ctx, c, path, r, m)

    def handle(ctx, c, path, r, m):
        found = []
        certain = True
        if r == "sat":
            soft = [b for b in ctx.soft if b.truth() is None]
            tries = [box(ctx), box(ctx, 8), []]
            if soft:
                tries = [tries[0] + soft, soft] + tries
            for extra in tries:
                nv, lem, env = None, [], None
                for it in range(6):  # refine exp and log where the solver's values are not theirs
                    rr, mm = eng.solve([c.viol] + extra + lem, ms=eng.hard_ms if not lem else 4000)
                    if rr != "sat":
                        break
                    env = model_env(eng, ctx, mm, rnd)
                    nv = numeric_violation(eng, ctx, [c], path, env)
                    if nv is not None or time.time() - t0 > 0.7 * budget:
                        break
                    new = transcendental(eng, [c.viol] + path, env, pairs=not lem)
                    if not new:
                        break
                    lem += new
                if rr == "unknown":
                    certain = False
                if rr == "sat" or (rr == "unknown" and env is not None):
                    found.append((env, nv is not None))
                    if nv is not None:
                        break
            if not found and certain:
                res["tolerance"].append(c.label)
                return
            if m is not None and not found:
                env = model_env(eng, ctx, m, rnd)
                if numeric_violation(eng, ctx, [c], path, env) is not None:
                    found.append((env, True))
        more = find_numeric(eng, ctx, [c], path, rnd)
        found += [(e, True) for _, e in more]
        if not any(ok for _, ok in found) and climbs[0] < 5 and time.time() - t0 < budget:
            climbs[0] += 1
            found += [(e, True) for _, e in climb(eng, ctx, c, path, rnd)]
        if found:
            for env, consistent in found[:6]:
                res["candidates"].append(dict(
                    label=c.label, env=env, choices=dict(ctx.choices), consistent=consistent, desc=c.desc,
                ))
        else:
            res["undecided"].append(dict(label=c.label, why="solver: %s" % r))

    def one():
        ctx = SymCtx(eng)
        snp.Rand.factory = lambda seed: seed if isinstance(seed, RngModel) else RngModel(ctx, "rngd")
        shadow.ScipyStub.labels = None
        if res["functions"] is not None and eng.stats["paths"] <= 3:
            sys.setprofile(prof)
        try:
            try:
                harness(ctx, **params)
            finally:
                sys.setprofile(None)
        except Unsupported as e:
            r, m = eng.solve([], ms=3000)
            if r == "unsat":
                raise Infeasible()
            res["unsupported"].append(str(e))
            if ctx.claims:
                decide(ctx, ctx.claims)
            return
        except Control:
            if ctx.claims:
                pass
            raise
        except Exception as e:  # noqa: BLE001  raised by the code under test
            r, m = eng.solve([], ms=5000)
            if r == "unsat":
                raise Infeasible()
            env = model_env(eng, ctx, m, rnd) if m is not None else {
                n: sample_hint(i, rnd) for n, i in ctx.vars.items()
            }
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            if not any(f.filename.startswith(shadow.REPO) for f in tb):
                res["unsupported"].append("harness/encoder: %s: %s at %s:%d" % (
                    type(e).__name__, str(e)[:200], tb[-1].filename, tb[-1].lineno))
                return
            res["candidates"].append(dict(
                label="exception", env=env, choices=dict(ctx.choices), consistent=True,
                desc="%s: %s at %s" % (type(e).__name__, str(e)[:200], ["%s:%d" % (f.filename, f.lineno) for f in tb[-3:]]),
            ))
            if ctx.claims:
                decide(ctx, ctx.claims)
            return
        if res["witness"] is None:
            r, m = eng.solve([], ms=4000)
            if r == "unsat":
                raise Infeasible()
            if m is not None:
                res["witness"] = dict(env=model_env(eng, ctx, m, rnd), choices=dict(ctx.choices))
        for l in ctx.covered:
            res["labels"].setdefault("cover:" + l, 0)
            res["labels"]["cover:" + l] += 1
        decide(ctx, ctx.claims)
        if len(res["candidates"]) >= 40:
            raise Budget()

    try:
        eng.explore(one)
    except Budget:
        res["status"] = "budget"
    except Unsupported as e:
        res["unsupported"].append(str(e))
    except RecursionError:
        res["unsupported"].append("recursion limit")
    res["stats"] = dict(eng.stats)
    res["notes"] = dict(eng.notes)
    res["wall_s"] = time.time() - t0
    res["functions"] = sorted(res["functions"])
    return res
