"""Loads the flory package of the repository under test for symbolic execution.

The source files are the repository's own, executed by CPython.  Replaced are only the
libraries around them: numpy by the symbolic proxy, numba's decorators by identities
(jitclass additionally checks the declared field types), tqdm by a silent bar and the
clustering routines of scipy by stubs.
"""

from __future__ import annotations

import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import core, snp
from .core import B, Sym, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")

# ---------------------------------------------------------------------------- numba


class NbType:
    def __init__(self, name, ndim=0, contig=False):
        self.name, self.ndim, self.contig = name, ndim, contig

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        contig = any(isinstance(s, slice) and s.step == 1 for s in idx)
        return NbType(self.name, len(idx), contig)

    def __call__(self, *a):
        if len(a) == 1 and not isinstance(a[0], NbType):
            return a[0]
        return self  # signature such as float64(float64)


def _deco(*a, **kw):
    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], (list, NbType)) and not kw:
        return a[0]

    def d(f):
        return f

    return d


def _vectorize(*a, **kw):
    def d(f):
        def scalar(x, *r):
            return f(x, *r)

        def g(*xs):
            if not any(isinstance(x, (np.ndarray, list, tuple)) for x in xs):
                return f(*[snp.lift_scalar(x) for x in xs])
            objs = [snp.to_obj(x) for x in xs]
            u = np.frompyfunc(lambda *e: snp.lift_scalar(f(*e)), len(objs), 1)
            r = u(*objs)
            return snp.wrapr(r, "f")

        g.__name__ = getattr(f, "__name__", "f")
        g.py_func = f
        return g

    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], list):
        return d(a[0])
    return d


def _check_field(name, t, v):
    if t.ndim == 0:
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                v = v[()]
            else:
                raise TypeError("jitclass field %s: array assigned to scalar" % name)
        if t.name.startswith("int"):
            return int(v) if not isinstance(v, Sym) else (v if v.is_int() else core.trunc(v))
        return v
    if not isinstance(v, np.ndarray):
        raise TypeError("jitclass field %s: scalar assigned to array" % name)
    if v.ndim != t.ndim:
        raise TypeError("jitclass field %s: %dd array assigned to %dd" % (name, v.ndim, t.ndim))
    k = snp.kind(v)
    want = "i" if t.name.startswith(("int", "uint")) else ("b" if t.name.startswith("bool") else "f")
    if k != want:
        raise TypeError("jitclass field %s: %s array assigned to %s" % (name, k, t.name))
    if t.contig and not v.flags.c_contiguous:
        raise TypeError("jitclass field %s: array is not C-contiguous" % name)
    return v


def jitclass(cls_or_spec=None, spec=None):
    def mk(cls, spec):
        fields = dict(spec.items() if hasattr(spec, "items") else spec or [])

        def setat(self, name, v):
            if name in fields:
                v = _check_field(name, fields[name], v)
            elif not hasattr(type(self), name):
                raise AttributeError("jitclass has no field %s" % name)
            object.__setattr__(self, name, v)

        cls.__setattr__ = setat
        cls.__jitspec__ = fields
        return cls

    if isinstance(cls_or_spec, type):
        return mk(cls_or_spec, spec)
    return lambda cls: mk(cls, cls_or_spec if cls_or_spec is not None else spec)


def make_numba():
    nb = types.ModuleType("numba")
    nb.__path__ = []
    for n in ("float64", "float32", "int32", "int64", "int8", "uint8", "uint32", "uint64", "boolean", "bool_", "f8", "i4", "i8", "intp"):
        nm = {"f8": "float64", "i4": "int32", "i8": "int64", "intp": "int64"}.get(n, n)
        setattr(nb, n, NbType(nm))
    nb.njit = nb.jit = nb.generated_jit = _deco
    nb.vectorize = nb.guvectorize = _vectorize
    nb.prange = SymRange
    nb.literal_unroll = lambda t: t
    nb.literally = lambda t: t
    nb.objmode = None
    nb.__version__ = "0"
    ex = types.ModuleType("numba.experimental")
    ex.jitclass = jitclass
    nb.experimental = ex
    ty = types.ModuleType("numba.types")
    for n in ("float64", "int32", "int64", "boolean", "float32"):
        setattr(ty, n, getattr(nb, n))
    nb.types = ty
    core_ = types.ModuleType("numba.core")
    core_.types = ty
    ext = types.ModuleType("numba.extending")
    ext.register_jitable = _deco
    ext.overload = lambda *a, **k: (lambda f: f)
    nb.extending = ext
    nb.core = core_
    typed = types.ModuleType("numba.typed")
    typed.List = list
    typed.Dict = dict
    nb.typed = typed
    return {
        "numba": nb, "numba.experimental": ex, "numba.types": ty, "numba.core": core_,
        "numba.core.types": ty, "numba.extending": ext, "numba.typed": typed,
    }


# --------------------------------------------------------------------------- builtins


class SymRange:
    def __init__(self, *a):
        if len(a) == 1:
            self.a, self.b, self.s = 0, a[0], 1
        elif len(a) == 2:
            self.a, self.b, self.s = a[0], a[1], 1
        else:
            self.a, self.b, self.s = a

    def __iter__(self):
        i, b, s = self.a, self.b, self.s
        if not any(isinstance(x, Sym) for x in (i, b, s)):
            yield from range(i, b, s)
            return
        if isinstance(b, Sym) and not b.is_int():
            raise TypeError("'float' object cannot be interpreted as an integer")
        s = int(s)
        n = 0
        while bool(i < b) if s > 0 else bool(i > b):
            yield i
            i = i + s
            n += 1
            if n > 64:
                raise core.BoundReached("more than 64 loop iterations")

    def __len__(self):
        return len(range(int(self.a), int(self.b), int(self.s)))

    def __getitem__(self, i):
        return range(int(self.a), int(self.b), int(self.s))[i]

    def __reversed__(self):
        return reversed(range(int(self.a), int(self.b), int(self.s)))


def _range(*a):
    if any(isinstance(x, Sym) for x in a):
        return SymRange(*a)
    return range(*a)


def _extreme(which):
    real = builtins.max if which == "max" else builtins.min

    def f(*a, **kw):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if kw or not any(isinstance(x, (Sym, B)) for x in xs):
            if len(a) == 1:
                return real(xs, **kw)
            return real(*xs, **kw)
        if any(core.special(x) is not None for x in xs):
            # python semantics: left to right, keep the first unless strictly better
            m = xs[0]
            for x in xs[1:]:
                if bool(x > m) if which == "max" else bool(x < m):
                    m = x
            return m
        return core.smax(xs) if which == "max" else core.smin(xs)

    return f


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Sym) and not x.is_int())

    def __call__(cls, x=0.0):
        if isinstance(x, B):
            return x.to_sym()
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object:
            return Sym.of(x.item()) if core.special(x.item()) is None else x.item()
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SFloat(metaclass=_FloatMeta):
    dtype = np.dtype(builtins.float)
    fromhex = builtins.float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Sym) and x.is_int())

    def __call__(cls, x=0, *a):
        if isinstance(x, B):
            return x.to_sym()
        if isinstance(x, snp.SArr):
            x = x.item()
        if isinstance(x, Sym):
            return core.trunc(x)
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class SInt(metaclass=_IntMeta):
    dtype = np.dtype(builtins.int)


def _len(x):
    return builtins.len(x)


def _sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


def _sorted(xs, key=None, reverse=False):
    xs = list(xs)
    ks = [key(x) for x in xs] if key else xs
    if any(isinstance(k, (Sym, B)) for k in ks):
        if reverse:
            o = snp._order([-Sym.of(k) for k in ks])
        else:
            o = snp._order(ks)
        return [xs[i] for i in o]
    return builtins.sorted(xs, key=key, reverse=reverse)


def _math():
    import math

    m = types.ModuleType("math")
    m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith("__")})

    def lift(name, f):
        real = getattr(math, name)

        def g(x, *a):
            if isinstance(x, (Sym, B)):
                return f(Sym.of(x))
            return real(x, *a)

        setattr(m, name, g)

    def mlog(x):
        r = core.log(x)
        if core.special(r) is not None:
            raise ValueError("math domain error")
        return r

    lift("exp", core.exp)
    lift("log", mlog)
    lift("log10", lambda x: x.log10())
    lift("sqrt", core.sqrt)
    lift("floor", core.floor)
    lift("ceil", lambda x: -core.floor(-x))
    lift("fabs", core.sabs)
    lift("isnan", lambda x: False)
    lift("isinf", lambda x: False)
    lift("isfinite", lambda x: True)
    lift("trunc", core.trunc)
    real_isclose = math.isclose

    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, Sym) or isinstance(b, Sym):
            a, b = Sym.of(a), Sym.of(b)
            return core.sabs(a - b) <= core.smax([core.smax([core.sabs(a), core.sabs(b)]) * rel_tol, Sym.of(abs_tol)])
        return real_isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    m.isclose = isclose

    def fsum(xs):
        return _sum(xs)

    m.fsum = fsum
    m.prod = lambda xs, start=1: __import__("functools").reduce(lambda a, b: a * b, xs, start)
    return m


BUILTINS = {
    "range": _range, "max": _extreme("max"), "min": _extreme("min"),
    "float": SFloat, "int": SInt, "sum": _sum, "sorted": _sorted,
}

# ------------------------------------------------------------------------------ tqdm


class Bar:
    def __init__(self, *a, **kw):
        self.n = 0
        self.total = kw.get("total")
        self.it = a[0] if a else kw.get("iterable")

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        return lambda *a, **k: None


def make_tqdm():
    t = types.ModuleType("tqdm")
    t.__path__ = []
    t.tqdm = Bar
    t.trange = lambda *a, **k: Bar(SymRange(*a))
    a = types.ModuleType("tqdm.auto")
    a.tqdm = Bar
    a.trange = t.trange
    t.auto = a
    return {"tqdm": t, "tqdm.auto": a}


# ----------------------------------------------------------------------------- scipy


class ScipyStub:
    """Clustering model; `labels` is set by the harness."""

    labels = None


def pdist(X, metric="euclidean", *a, **k):
    o = snp.to_obj(X)
    if metric not in ("euclidean",):
        if metric in ("sqeuclidean", "cityblock", "chebyshev"):
            pass
        else:
            raise Unsupported("pdist metric %r" % (metric,))
    n = o.shape[0]
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            ds = [Sym.of(a) - b for a, b in zip(o[i].tolist(), o[j].tolist())]
            if metric == "cityblock":
                out.append(sum((core.sabs(d) for d in ds), Sym({})))
            elif metric == "chebyshev":
                out.append(core.smax([core.sabs(d) for d in ds]))
            else:
                s = sum((d * d for d in ds), Sym({}))
                out.append(s if metric == "sqeuclidean" else core.sqrt(s))
    r = np.empty(len(out), dtype=object)
    for i, e in enumerate(out):
        r[i] = e
    return snp.wrap(r)


class Links:
    def __init__(self, d, method):
        self.d, self.method = d, method
        self.n = int(round((1 + (1 + 8 * len(d)) ** 0.5) / 2))


def linkage(y, method="single", metric="euclidean", optimal_ordering=False):
    if isinstance(y, np.ndarray) and y.ndim == 2:
        y = pdist(y, metric)
    return Links(y, method)


def fcluster(Z, t, criterion="inconsistent", depth=2, R=None, monocrit=None):
    if not isinstance(Z, Links):
        raise Unsupported("fcluster on a hand-made linkage")
    if criterion not in ("distance", "maxclust", "inconsistent"):
        raise Unsupported("fcluster criterion %r" % (criterion,))
    if Z.n == 2 and criterion == "distance" and ScipyStub.labels is None:
        return np.array([1, 1], dtype=np.int32) if bool(Z.d[0] <= t) else np.array([1, 2], dtype=np.int32)
    if criterion == "distance" and ScipyStub.labels is None and Z.n == 3 and Z.method in ("centroid", "single", "complete", "average"):
        return _fcluster3(Z, t)
    if ScipyStub.labels is None:
        raise Unsupported("clustering of %d symbolic points" % Z.n)
    return np.array(ScipyStub.labels(Z.n), dtype=np.int32)


def _fcluster3(Z, t):
    d = [Z.d[0], Z.d[1], Z.d[2]]  # 01, 02, 12
    pairs = [(0, 1, 2), (0, 2, 1), (1, 2, 0)]
    # first merge: smallest distance (first one on ties)
    best = 0
    for k in (1, 2):
        if bool(d[k] < d[best]):
            best = k
    i, j, l = pairs[best]
    dij = d[best]
    rest = [d[k] for k in range(3) if k != best]
    if Z.method == "single":
        h = core.smin(rest)
    elif Z.method == "complete":
        h = core.smax(rest)
    elif Z.method == "average":
        h = (rest[0] + rest[1]) / 2
    else:
        h2 = (rest[0] * rest[0] + rest[1] * rest[1]) / 2 - dij * dij / 4
        h = core.sqrt(h2)
    # fcluster('distance') cuts at the maximal height in each subtree
    top = core.smax([dij, h])
    if bool(top <= t):
        return np.array([1, 1, 1], dtype=np.int32)
    lab = [0, 0, 0]
    if bool(dij <= t):
        lab[i] = lab[j] = 1
        lab[l] = 2
    else:
        lab = [1, 2, 3]
    return np.array(lab, dtype=np.int32)


def fclusterdata(X, t, criterion="inconsistent", metric="euclidean", depth=2, method="single", R=None):
    return fcluster(linkage(pdist(X, metric), method), t, criterion)


def squareform(v, *a, **k):
    o = snp.to_obj(v)
    n = int(round((1 + (1 + 8 * len(o)) ** 0.5) / 2))
    r = np.empty((n, n), dtype=object)
    r[...] = Sym({})
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            r[i, j] = r[j, i] = o[k]
            k += 1
    return snp.wrap(r)


def make_scipy():
    import scipy

    sp = types.ModuleType("scipy")
    sp.__path__ = []
    cl = types.ModuleType("scipy.cluster")
    cl.__path__ = []
    hi = types.ModuleType("scipy.cluster.hierarchy")
    hi.linkage, hi.fcluster, hi.fclusterdata = linkage, fcluster, fclusterdata
    hi.centroid = lambda y: linkage(y, "centroid")
    cl.hierarchy = hi
    spa = types.ModuleType("scipy.spatial")
    spa.__path__ = []
    di = types.ModuleType("scipy.spatial.distance")
    di.pdist, di.squareform = pdist, squareform
    spa.distance = di
    spc = types.ModuleType("scipy.special")

    def xlogy(x, y):
        def f(a, b):
            if bool(Sym.of(a) == 0):
                return Sym({})
            return Sym.of(a) * core.log(Sym.of(b))

        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            return snp.wrapr(np.frompyfunc(f, 2, 1)(snp.to_obj(x), snp.to_obj(y)))
        return f(x, y)

    spc.xlogy = xlogy
    spc.entr = lambda x: snp.UF["negative"](xlogy(x, x))
    sp.cluster, sp.spatial, sp.special = cl, spa, spc
    return {
        "scipy": sp, "scipy.cluster": cl, "scipy.cluster.hierarchy": hi, "scipy.spatial": spa,
        "scipy.spatial.distance": di, "scipy.special": spc,
    }


# ----------------------------------------------------------------------------- loader

_loaded = None


def load():
    """Import flory from the repository with the stubs; returns the package."""
    global _loaded
    if _loaded is not None:
        return _loaded
    sys.dont_write_bytecode = True
    stubs = {"numpy": snp.PROXY, "numpy.linalg": snp.PROXY.linalg, "numpy.random": snp.PROXY.random}
    stubs.update(make_numba())
    stubs.update(make_tqdm())
    stubs.update(make_scipy())
    mm = _math()
    stubs["math"] = mm
    saved = {k: sys.modules.get(k) for k in stubs}
    saved_keys = set(sys.modules)
    for k in [k for k in sys.modules if k == "flory" or k.startswith("flory.")]:
        del sys.modules[k]
    sys.modules.update(stubs)
    sys.path.insert(0, REPO)
    try:
        pkg = importlib.import_module("flory")
        for sub in ("common", "common.math", "common.phases", "common.utilities", "constraint", "ensemble", "entropy",
                    "free_energy", "interaction", "mcmp", "shortcut"):
            try:
                importlib.import_module("flory." + sub)
            except ModuleNotFoundError:
                pass
    finally:
        sys.path.remove(REPO)
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    mods = [m for k, m in list(sys.modules.items()) if (k == "flory" or k.startswith("flory.")) and m is not None]
    for m in mods:
        f = getattr(m, "__file__", "") or ""
        if not os.path.realpath(f).startswith(os.path.realpath(REPO)):
            raise RuntimeError("loaded %s from %s, not from %s" % (m.__name__, f, REPO))
        for n, v in BUILTINS.items():
            m.__dict__.setdefault(n, v)
    import logging

    logging.getLogger().addHandler(logging.NullHandler())
    logging.disable(logging.CRITICAL)
    _loaded = pkg
    return pkg
