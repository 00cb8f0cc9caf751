"""numpy for symbolic numbers: an object-array subclass and a proxy module.

`SArr` is a real numpy array (real shapes, views, broadcasting, aliasing) whose elements
are `Sym`/`B`/special floats.  `NumpyProxy` stands in for the module `numpy` in the code
under test: creation functions return `SArr`, everything else is numpy's own code working
on object arrays, with overrides where the result depends on element values.
"""

from __future__ import annotations

import functools
import math
import sys
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import B, DivZero, Sym, Unsupported, conj, disj, special


# ------------------------------------------------------------------------ dtype tags


def kind_of_dtype(dt):
    """'f', 'i', 'b', 'f4' or 'O' for a dtype-like; None if absent."""
    if dt is None:
        return None
    if dt in ("f", "i", "b", "f4"):
        return dt
    if isinstance(dt, FakeDtype):
        return dt.k
    d = np.dtype(dt)
    if d == np.dtype(object):
        return "O"
    if d.kind in "iu":
        return "i"
    if d.kind == "b":
        return "b"
    if d.kind == "f":
        return "f4" if d.itemsize < 8 else "f"
    raise Unsupported("dtype %s" % d)


class FakeDtype:
    """What `arr.dtype` reports for a symbolic array."""

    def __init__(self, k):
        self.k = k
        self.kind = k[0]
        self.name = {"f": "float64", "i": "int64", "b": "bool", "f4": "float32", "O": "object"}[k]
        self.type = {"f": np.float64, "i": np.int64, "b": np.bool_, "f4": np.float32, "O": object}[k]
        self.itemsize = 8

    def __eq__(self, o):
        try:
            return kind_of_dtype(o) == self.k
        except (TypeError, Unsupported):
            return False

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "dtype('%s')" % self.name


def scalar_kind(x):
    if isinstance(x, Sym):
        return "i" if x.is_int() else "f"
    if isinstance(x, B) or isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    return "f"


def kind(x):
    if isinstance(x, SArr):
        return x.lk
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return _elem_kind(x)
        return kind_of_dtype(x.dtype)
    return scalar_kind(x)


def _elem_kind(a):
    ks = {scalar_kind(e) for e in a.ravel().tolist()} if a.size else {"f"}
    if ks == {"b"}:
        return "b"
    if "f" in ks:
        return "f"
    return "i"


def promote(ks):
    ks = [k for k in ks if k]
    if "O" in ks:
        return "f"
    if "f" in ks or "f4" in ks:
        return "f"
    if "i" in ks:
        return "i"
    return "b"


def lift_scalar(x):
    """Python/numpy number -> Sym (or special float / B)."""
    if isinstance(x, (Sym, B)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return B.const(bool(x))
    s = special(x)
    if s is not None:
        return s
    if isinstance(x, (int, float, Fraction, np.integer, np.floating)):
        return Sym.of(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift_scalar(x[()])
    if x is None or isinstance(x, str):
        raise TypeError("not a number: %r" % (x,))
    raise Unsupported("array element of type %s" % type(x).__name__)


_lift_u = np.frompyfunc(lift_scalar, 1, 1)


def to_obj(x):
    """Anything array-like -> plain object ndarray of lifted scalars."""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        o = np.empty(x.shape, dtype=object)
        if x.size:
            o[...] = _lift_u(x)
        return o
    if isinstance(x, (list, tuple)):
        a = _nested(x)
        return a
    o = np.empty((), dtype=object)
    o[()] = lift_scalar(x)
    return o


def _nested(x):
    parts = [to_obj(e) for e in x]
    if not parts:
        return np.empty((0,), dtype=object)
    shp = parts[0].shape
    for p in parts:
        if p.shape != shp:
            raise ValueError("setting an array element with a sequence: inhomogeneous shape")
    o = np.empty((len(parts),) + shp, dtype=object)
    for i, p in enumerate(parts):
        o[i] = p if p.ndim else p[()]
    return o


def kind_of_any(x):
    if isinstance(x, (list, tuple)):
        return promote([kind_of_any(e) for e in x]) if len(x) else "f"
    if isinstance(x, range):
        return "i"
    return kind(x)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, B, SArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(e, depth + 1) for e in x)
    return False


# ------------------------------------------------------------------------- the array


class SArr(np.ndarray):
    def __new__(cls, a, k="f"):
        o = np.asarray(a, dtype=object).view(cls)
        o.lk = k
        return o

    def __array_finalize__(self, obj):
        if obj is None:
            self.lk = "f"
        else:
            self.lk = getattr(obj, "lk", "f")

    # numpy reads the C-level dtype; python code sees this
    def __getattribute__(self, name):
        if name == "dtype":
            return FakeDtype(object.__getattribute__(self, "__dict__").get("lk", "f"))
        return np.ndarray.__getattribute__(self, name)

    # ---- indexing
    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self.view(np.ndarray), fix_index(idx))
        if isinstance(r, np.ndarray):
            return wrap(r, self.lk)
        return r

    def __setitem__(self, idx, val):
        idx = fix_index(idx)
        k = kind_of_any(val)
        v = to_obj(val)
        if self.lk in ("i", "b", "f4"):
            v = cast(v, k, self.lk)
        elif k == "b":
            v = cast(v, "b", "f")
        base = self.view(np.ndarray)
        if v.ndim == 0:
            v = v[()]
        np.ndarray.__setitem__(base, idx, v)

    def fill(self, v):
        self[...] = v

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(self.view(np.ndarray).ravel()[0])

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.ndim == 0:
            return self.item().__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __contains__(self, v):
        return bool(disj([e == v for e in self.view(np.ndarray).ravel().tolist()]))

    def __repr__(self):
        return "SArr%s(%s)" % (self.shape, self.view(np.ndarray).ravel().tolist()[:3])

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbolic array>"

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def tobytes(self, *a, **k):
        raise Unsupported("tobytes of a symbolic array")

    def view(self, *a, **k):
        if not a and not k:
            return wrap(np.ndarray.view(self, np.ndarray), self.lk)
        return np.ndarray.view(self, *a, **k)

    # ---- conversions
    def astype(self, dt, *a, **kw):
        k = kind_of_dtype(dt)
        copy = kw.get("copy", True)
        if not copy and k == self.lk:
            return self
        if k == "O":
            return self.copy()
        o = cast(self.view(np.ndarray).copy(order="C" if kw.get("order", "K") != "F" else "F"), self.lk, k)
        return wrap(o, k)

    def copy(self, order="C"):
        return wrap(np.ndarray.copy(self.view(np.ndarray), order=order), self.lk)

    def __copy__(self):
        return self.copy("K")

    def __deepcopy__(self, memo):
        return self.copy("K")

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    # ---- reductions and methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _ret(np_sum(self, axis=axis, keepdims=keepdims), out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        r = np.multiply.reduce(nob(self), axis=axis, keepdims=keepdims)
        return _ret(wrapr(r, promote([self.lk, "i"])), out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _ret(np_mean(self, axis=axis, keepdims=keepdims), out)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        m = np_mean(self, axis=axis, keepdims=True)
        d = self - m
        n = self.size if axis is None else self.shape[axis]
        return np_sum(d * d, axis=axis, keepdims=keepdims) / (n - ddof)

    def std(self, *a, **kw):
        v = self.var(*a, **kw)
        return UF["sqrt"](v)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return _ret(np_max(self, axis=axis, keepdims=keepdims, **kw), out)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return _ret(np_min(self, axis=axis, keepdims=keepdims, **kw), out)

    def ptp(self, axis=None, **kw):
        return self.max(axis=axis) - self.min(axis=axis)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return np_any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return np_all(self, axis=axis, keepdims=keepdims)

    def clip(self, min=None, max=None, out=None, **kw):
        return np_clip(self, min, max, out=out)

    def argmax(self, axis=None, **kw):
        return np_argmax(self, axis=axis)

    def argmin(self, axis=None, **kw):
        return np_argmax(-self, axis=axis)

    def argsort(self, axis=-1, **kw):
        return np_argsort(self, axis=axis)

    def sort(self, axis=-1, **kw):
        self[...] = np_sort(self, axis=axis)

    def round(self, decimals=0, out=None):
        f = np.frompyfunc(lambda x: x if special(x) is not None else round(Sym.of(x), decimals), 1, 1)
        return wrap(f(self.view(np.ndarray)), self.lk)

    def nonzero(self):
        return np.nonzero(bools(self))

    def dot(self, o, out=None):
        return np_dot(self, o)

    def cumsum(self, axis=None, **kw):
        return wrap(np.cumsum(nob(self), axis=axis), promote([self.lk, "i"]))

    def cumprod(self, axis=None, **kw):
        return wrap(np.cumprod(nob(self), axis=axis), promote([self.lk, "i"]))

    def take(self, idx, axis=None, **kw):
        return wrapr(np.take(np.ndarray.view(self, np.ndarray), fix_index(idx), axis=axis), self.lk)

    def repeat(self, n, axis=None):
        return wrap(np.repeat(np.ndarray.view(self, np.ndarray), n, axis=axis), self.lk)

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    # ---- ufuncs
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc_call(uf, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return array_function(func, args, kwargs)

    # in-place operators keep views/aliasing
    def _inpl(self, o, name):
        r = UF[name](self, o)
        k = kind(r)
        if self.lk == "i" and k in ("f", "f4") or self.lk == "b" and k != "b":
            raise TypeError(
                "Cannot cast ufunc '%s' output from float64 to int64 with casting rule 'same_kind'" % name
            )
        if isinstance(r, np.ndarray) and r.shape != self.shape:
            raise ValueError("non-broadcastable output operand with shape %s" % (self.shape,))
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inpl(o, "add")

    def __isub__(self, o):
        return self._inpl(o, "subtract")

    def __imul__(self, o):
        return self._inpl(o, "multiply")

    def __itruediv__(self, o):
        return self._inpl(o, "true_divide")

    def __ipow__(self, o):
        return self._inpl(o, "power")

    def __ifloordiv__(self, o):
        return self._inpl(o, "floor_divide")

    def __imatmul__(self, o):
        self[...] = self @ o
        return self

    def _bin(name, refl=False):  # noqa: N805
        def f(self, o):
            if o is None or isinstance(o, (str, dict)):
                return NotImplemented
            return UF[name](o, self) if refl else UF[name](self, o)

        return f

    __add__ = _bin("add")
    __radd__ = _bin("add", True)
    __sub__ = _bin("subtract")
    __rsub__ = _bin("subtract", True)
    __mul__ = _bin("multiply")
    __rmul__ = _bin("multiply", True)
    __truediv__ = _bin("true_divide")
    __rtruediv__ = _bin("true_divide", True)
    __floordiv__ = _bin("floor_divide")
    __rfloordiv__ = _bin("floor_divide", True)
    __mod__ = _bin("remainder")
    __rmod__ = _bin("remainder", True)
    __pow__ = _bin("power")
    __rpow__ = _bin("power", True)
    __lt__ = _bin("less")
    __le__ = _bin("less_equal")
    __gt__ = _bin("greater")
    __ge__ = _bin("greater_equal")
    __and__ = _bin("logical_and")
    __rand__ = _bin("logical_and", True)
    __or__ = _bin("logical_or")
    __ror__ = _bin("logical_or", True)
    __xor__ = _bin("logical_xor")
    __matmul__ = _bin("matmul")
    __rmatmul__ = _bin("matmul", True)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, dict)):
            return np.zeros(self.shape, dtype=bool)
        return UF["equal"](self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, dict)):
            return np.ones(self.shape, dtype=bool)
        return UF["not_equal"](self, o)

    __hash__ = None

    def __neg__(self):
        return UF["negative"](self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return UF["absolute"](self)

    def __invert__(self):
        return UF["logical_not"](self)


class CArr(np.ndarray):
    """Concrete integer/boolean array; float results of operations become symbolic arrays."""

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        if any(has_sym(x) for x in inputs) or has_sym(list(kw.get("out") or ())):
            return ufunc_call(uf, method, inputs, kw)
        st = lambda x: np.ndarray.view(x, np.ndarray) if isinstance(x, CArr) else x
        if kw.get("out"):
            kw["out"] = tuple(st(x) for x in kw["out"])
            orig = inputs
            getattr(uf, method)(*[st(x) for x in orig], **kw)
            return carr(kw["out"][0])
        return carr(getattr(uf, method)(*[st(x) for x in inputs], **kw))

    def __getitem__(self, idx):
        # NumPy would swallow what evaluating a symbolic index raises
        return np.ndarray.__getitem__(self, fix_index(idx))

    def __setitem__(self, idx, val):
        if isinstance(val, Sym):
            val = int(val)
        np.ndarray.__setitem__(self, fix_index(idx), val)

    def __reduce__(self):
        return np.ndarray.view(self, np.ndarray).__reduce__()

    def astype(self, dt, *a, **kw):
        k = kind_of_dtype(dt)
        r = np.ndarray.view(self, np.ndarray).astype(dt, *a, **kw)
        return wrap(cast(to_obj(r), "f", k), k) if k in ("f", "f4") else carr(r)


def carr(r):
    """Concrete results: integers stay concrete, float arrays become symbolic constants."""
    if isinstance(r, tuple):
        return tuple(carr(x) for x in r)
    if isinstance(r, np.ndarray) and not isinstance(r, SArr):
        if r.dtype.kind == "f" and r.ndim:
            return wrap(to_obj(r), kind_of_dtype(r.dtype))
        if r.dtype.kind in "iub" and r.ndim and not isinstance(r, CArr):
            return np.ndarray.view(r, CArr)
    return r


def wrap(a, k="f"):
    r = np.asarray(a, dtype=object).view(SArr)
    r.lk = k
    return r


def wrapr(r, k="f"):
    return wrap(r, k) if isinstance(r, np.ndarray) else r


def _ret(r, out):
    if out is not None:
        out[...] = r
        return out
    return r


def nob(a):
    """Object array without booleans (forks)."""
    o = to_obj(a)
    if any(isinstance(e, B) for e in o.ravel().tolist()):
        f = np.frompyfunc(lambda e: e.to_sym() if isinstance(e, B) else e, 1, 1)
        r = np.empty(o.shape, dtype=object)
        r[...] = f(o)
        return r
    return o


def bools(a):
    """Concrete bool array (forks)."""
    o = to_obj(a)
    r = np.empty(o.shape, dtype=bool)
    rf = r.ravel() if r.ndim else r
    for i, e in enumerate(o.ravel().tolist()):
        v = bool(e) if special(e) is None else True
        if r.ndim:
            r.flat[i] = v
        else:
            r[()] = v
    return r


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(fix_index(i) for i in idx)
    if isinstance(idx, SArr):
        if idx.lk == "b" or (idx.size and isinstance(np.ndarray.view(idx, np.ndarray).ravel()[0], B)):
            return bools(idx)
        o = np.ndarray.view(idx, np.ndarray)
        r = np.empty(o.shape, dtype=int)
        for i, e in enumerate(o.ravel().tolist()):
            if o.ndim:
                r.flat[i] = Sym.of(e).__index__()
            else:
                r[()] = Sym.of(e).__index__()
        return r if o.ndim else int(r[()])
    if isinstance(idx, Sym):
        return idx.__index__()
    if isinstance(idx, B):
        return bool(idx)
    if isinstance(idx, slice):
        g = lambda v: v.__index__() if isinstance(v, Sym) else v
        return slice(g(idx.start), g(idx.stop), g(idx.step))
    if isinstance(idx, list) and has_sym(idx):
        return fix_index(wrap(to_obj(idx), kind_of_any(idx)))
    return idx


def scalar_index(s, idx):
    """numpy-scalar indexing: x[()], x[..., None]."""
    return wrapr(np.asarray(to_obj(s), dtype=object)[idx], "f")


def cast(o, k_from, k_to):
    """Elementwise conversion of an object array between logical kinds."""
    if k_to in ("f", "O", None):
        if k_from == "b" or any(isinstance(e, B) for e in o.ravel().tolist()):
            return nob(o)
        return o

    def one(e):
        if k_to == "b":
            if isinstance(e, B):
                return e
            return B.const(True) if special(e) is not None else (Sym.of(e) != 0)
        if k_to == "i":
            if isinstance(e, B):
                return e.to_sym()
            if special(e) is not None:
                raise Unsupported("nan/inf cast to int")
            return core.trunc(Sym.of(e))
        if k_to == "f4":
            if isinstance(e, B):
                e = e.to_sym()
            if special(e) is not None:
                return e
            return round32(Sym.of(e))
        raise Unsupported("cast to %s" % k_to)

    r = np.empty(o.shape, dtype=object)
    if o.ndim == 0:
        r[()] = one(o[()])
    else:
        r[...] = np.frompyfunc(one, 1, 1)(o)
    return r


def round32(x):
    c = x.const
    if c is not None:
        return Sym.of(float(np.float32(float(c))))
    eps = Fraction(1, 2**24)
    return core.defatom(
        ("f32", core.pkey(x.p)), "f32_%d" % len(core.REG.atoms),
        lambda s: [core.sabs(s - x) <= core.sabs(x) * eps],
        ev=lambda env: float(np.float32(float(core.evp(x.p, env)))),
    )


# ---------------------------------------------------------------- elementwise functions


def _div(a, b):
    try:
        if isinstance(a, B):
            a = a.to_sym()
        if isinstance(b, B):
            b = b.to_sym()
        sb = special(b)
        if sb is not None:
            if sb != sb or special(a) is not None:
                return float("nan")
            return Sym({})
        if special(a) is not None:
            if not isinstance(b, Sym):
                b = Sym.of(b)
            if bool(b == 0) or a != a:
                return a if a != a else float("inf") * (1 if a > 0 else -1)
            return a if bool(b > 0) else -a
        return Sym.of(a) / b
    except DivZero:
        if not isinstance(a, Sym):
            a = Sym.of(a)
        if bool(a > 0):
            return float("inf")
        if bool(a < 0):
            return float("-inf")
        return float("nan")


def _cmpf(op):
    import operator

    f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
         "==": operator.eq, "!=": operator.ne}[op]

    def g(a, b):
        if special(a) is not None and special(b) is not None:
            return B.const(f(a, b))
        if special(a) is not None:
            sw = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
            return (b.to_sym() if isinstance(b, B) else Sym.of(b))._cmp(a, sw)
        if isinstance(a, B) and isinstance(b, B) and op in ("==", "!="):
            return f(a, b)
        if isinstance(a, B):
            a = a.to_sym()
        return core.as_b(f(Sym.of(a), b.to_sym() if isinstance(b, B) else b))

    return g


def _un(f, spec):
    def g(a):
        s = special(a)
        if s is not None:
            with np.errstate(all="ignore"):
                return float(spec(np.float64(s)))
        return f(a.to_sym() if isinstance(a, B) else Sym.of(a))

    return g


def _pow(a, b):
    if special(a) is not None:
        with np.errstate(all="ignore"):
            return float(np.float64(a) ** float(b))
    b = Sym.of(b)
    a = Sym.of(a)
    try:
        return a ** b
    except DivZero:
        return float("inf")


def _truthy(x):
    if isinstance(x, B):
        return x
    if special(x) is not None:
        return B.const(True)
    return Sym.of(x) != 0


def _heaviside(a, b):
    a = Sym.of(a)
    if bool(a > 0):
        return Sym.of(1)
    if bool(a < 0):
        return Sym.of(0)
    return Sym.of(b)


ELEM = {
    "true_divide": (2, _div, "f"),
    "divide": (2, _div, "f"),
    "less": (2, _cmpf("<"), "b"),
    "less_equal": (2, _cmpf("<="), "b"),
    "greater": (2, _cmpf(">"), "b"),
    "greater_equal": (2, _cmpf(">="), "b"),
    "equal": (2, _cmpf("=="), "b"),
    "not_equal": (2, _cmpf("!="), "b"),
    "exp": (1, _un(core.exp, np.exp), "f"),
    "expm1": (1, _un(lambda x: core.exp(x) - 1, np.expm1), "f"),
    "exp2": (1, _un(lambda x: core.exp(x * core.logconst(Fraction(2))), np.exp2), "f"),
    "log": (1, _un(core.log, np.log), "f"),
    "log1p": (1, _un(lambda x: core.log(x + 1), np.log1p), "f"),
    "log10": (1, _un(lambda x: x.log10(), np.log10), "f"),
    "log2": (1, _un(lambda x: x.log2(), np.log2), "f"),
    "sqrt": (1, _un(core.sqrt, np.sqrt), "f"),
    "square": (1, _un(lambda x: x * x, np.square), None),
    "reciprocal": (1, lambda x: _div(Sym.of(1), x), "f"),
    "absolute": (1, _un(core.sabs, np.abs), None),
    "fabs": (1, _un(core.sabs, np.abs), "f"),
    "sign": (1, _un(core.sign, np.sign), None),
    "floor": (1, _un(core.floor, np.floor), "f"),
    "ceil": (1, _un(lambda x: -core.floor(-x), np.ceil), "f"),
    "trunc": (1, _un(core.trunc, np.trunc), "f"),
    "rint": (1, _un(lambda x: core.floor(x + Fraction(1, 2)), np.rint), "f"),
    "maximum": (2, lambda a, b: core.smax([_nb(a), _nb(b)]), None),
    "minimum": (2, lambda a, b: core.smin([_nb(a), _nb(b)]), None),
    "fmax": (2, lambda a, b: core.smax([x for x in (_nb(a), _nb(b)) if x == x or not special(x)]), None),
    "fmin": (2, lambda a, b: core.smin([x for x in (_nb(a), _nb(b)) if x == x or not special(x)]), None),
    "power": (2, _pow, None),
    "float_power": (2, _pow, "f"),
    "floor_divide": (2, lambda a, b: Sym.of(a) // b, None),
    "remainder": (2, lambda a, b: Sym.of(a) % b, None),
    "heaviside": (2, _heaviside, "f"),
    "logical_and": (2, lambda a, b: _truthy(a) & _truthy(b), "b"),
    "logical_or": (2, lambda a, b: _truthy(a) | _truthy(b), "b"),
    "logical_xor": (2, lambda a, b: _truthy(a) ^ _truthy(b), "b"),
    "logical_not": (1, lambda a: ~_truthy(a), "b"),
    "bitwise_and": (2, lambda a, b: _truthy(a) & _truthy(b), "b"),
    "bitwise_or": (2, lambda a, b: _truthy(a) | _truthy(b), "b"),
    "bitwise_xor": (2, lambda a, b: _truthy(a) ^ _truthy(b), "b"),
    "invert": (1, lambda a: ~_truthy(a), "b"),
    "isnan": (1, lambda a: B.const(special(a) is not None and a != a), "b"),
    "isinf": (1, lambda a: B.const(special(a) is not None and a == a), "b"),
    "isfinite": (1, lambda a: B.const(special(a) is None), "b"),
    "signbit": (1, lambda a: _cmpf("<")(a, Sym({})), "b"),
    "positive": (1, lambda a: a, None),
    "conjugate": (1, lambda a: a, None),
    "hypot": (2, lambda a, b: core.sqrt(Sym.of(a) * a + Sym.of(b) * b), "f"),
    "copysign": (2, lambda a, b: core.sabs(Sym.of(a)) if bool(Sym.of(b) >= 0) else -core.sabs(Sym.of(a)), "f"),
    "logaddexp": (2, lambda a, b: core.log(core.exp(Sym.of(a)) + core.exp(Sym.of(b))), "f"),
}
NATIVE = {"add", "subtract", "multiply", "negative"}
_frompy = {}


def _nb(x):
    return x.to_sym() if isinstance(x, B) else x


def elem(name, objs):
    n, f, _ = ELEM[name]
    u = _frompy.get(name)
    if u is None:
        u = _frompy[name] = np.frompyfunc(f, n, 1)
    if all(o.ndim == 0 for o in objs):
        return f(*[o[()] for o in objs])
    return u(*objs)


def ufunc_call(uf, method, inputs, kw):
    name = uf.__name__
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0]
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("subok", None)
    kw.pop("order", None)
    ks = [kind_of_any(x) for x in inputs]
    if method == "__call__":
        if name in ELEM:
            objs = [to_obj(x) for x in inputs]
            r = elem(name, objs)
            k = ELEM[name][2] or promote(ks)
            if name in ("sign", "absolute", "square", "power", "maximum", "minimum") and k == "b":
                k = "i"
            if k == "i" and name == "power":
                k = promote(ks)
        elif name in NATIVE:
            objs = [nob(x) for x in inputs]
            if all(o.ndim == 0 for o in objs):
                import operator

                f = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
                     "negative": operator.neg}[name]
                r = f(*[o[()] for o in objs])
            else:
                r = uf(*objs)
            k = promote(ks + ["i"])
        elif name in ("matmul", "vecdot", "matvec", "vecmat"):
            objs = [nob(x) for x in inputs]
            r = matmul(objs[0], objs[1]) if name == "matmul" else uf(*objs, **kw)
            k = promote(ks + ["i"])
        else:
            raise Unsupported("ufunc %s" % name)
        if where is not True:
            w = bools(where) if has_sym(where) else np.asarray(where)
            if out is None:
                raise Unsupported("ufunc where= without out=")
            r = np.broadcast_to(to_obj(r), out.shape)
            for i in np.ndindex(out.shape):
                if np.broadcast_to(w, out.shape)[i]:
                    out[i] = r[i]
            return out
        if dtype is not None and kind_of_dtype(dtype) not in (None, "O"):
            k = kind_of_dtype(dtype)
            r = wrapr(r, k)
        if out is not None:
            if isinstance(out, SArr):
                if out.lk == "i" and k == "f":
                    raise TypeError("Cannot cast ufunc output from float64 to int64")
                out[...] = wrapr(r, k)
                return out
            raise Unsupported("symbolic result written into a concrete array")
        return wrapr(r, k)
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        kd = kw.get("keepdims", False)
        if name == "add":
            r = np_sum(a, axis=axis, keepdims=kd)
        elif name == "multiply":
            r = wrapr(np.multiply.reduce(nob(a), axis=axis, keepdims=kd), promote(ks + ["i"]))
        elif name in ("maximum", "fmax"):
            r = np_max(a, axis=axis, keepdims=kd)
        elif name in ("minimum", "fmin"):
            r = np_min(a, axis=axis, keepdims=kd)
        elif name == "logical_or":
            r = np_any(a, axis=axis, keepdims=kd)
        elif name == "logical_and":
            r = np_all(a, axis=axis, keepdims=kd)
        else:
            raise Unsupported("%s.reduce" % name)
        return _ret(r, out)
    if method == "outer" and name in NATIVE | set(ELEM):
        A, C = to_obj(inputs[0]), to_obj(inputs[1])
        return ufunc_call(uf, "__call__", (wrap(A.reshape(A.shape + (1,) * C.ndim), ks[0]), wrap(C, ks[1])), {})
    if method == "accumulate" and name in ("add", "multiply"):
        return wrap(uf.accumulate(nob(inputs[0]), **kw), promote(ks))
    if method == "accumulate" and name in ("maximum", "minimum"):
        o = to_obj(inputs[0])
        if o.ndim != 1:
            raise Unsupported("accumulate on nd")
        r = np.empty(o.shape, dtype=object)
        f = core.smax if name == "maximum" else core.smin
        for i in range(len(o)):
            r[i] = f(list(o[: i + 1]))
        return wrap(r, ks[0])
    if method == "at" and name in ("add", "subtract", "multiply"):
        uf.at(np.ndarray.view(inputs[0], np.ndarray), fix_index(inputs[1]), *[nob(x) for x in inputs[2:]])
        return None
    raise Unsupported("ufunc %s.%s" % (name, method))


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.shape[-1] == 0:
        return np.matmul(a, b)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("matmul: mismatch in core dimension")
        return functools.reduce(lambda x, y: x + y, [x * y for x, y in zip(a.tolist(), b.tolist())])
    return np.matmul(a, b)


class UFProxy:
    """Stands for a numpy ufunc in the code under test."""

    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__
        self.nin = uf.nin
        self.nout = uf.nout

    def __call__(self, *a, **kw):
        if any(has_sym(x) for x in a) or has_sym(kw.get("out")):
            return ufunc_call(self.uf, "__call__", a, kw)
        return carr(self.uf(*a, **kw))

    def _m(self, method, a, kw):
        if any(has_sym(x) for x in a):
            return ufunc_call(self.uf, method, a, kw)
        return getattr(self.uf, method)(*a, **kw)

    def reduce(self, array, axis=0, dtype=None, out=None, keepdims=False, **kw):
        return self._m("reduce", (array,), dict(axis=axis, keepdims=keepdims, out=out, **kw))

    def accumulate(self, array, axis=0, **kw):
        return self._m("accumulate", (array,), dict(axis=axis, **kw))

    def outer(self, a, b, **kw):
        return self._m("outer", (a, b), kw)

    def at(self, a, *args):
        return self._m("at", (a,) + args, {})

    def reduceat(self, *a, **kw):
        raise Unsupported("reduceat")


UF = {}
for _n in list(ELEM) + sorted(NATIVE) + ["matmul"]:
    if hasattr(np, _n):
        UF[_n] = UFProxy(getattr(np, _n))


# -------------------------------------------------------------- reductions / functions


def _axes(a, axis):
    nd = a.ndim
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, tuple):
        return tuple(x % nd for x in axis)
    if not -nd <= axis < nd:
        raise np.exceptions.AxisError(axis, nd)
    return (axis % nd,)


def _reduce(a, axis, keepdims, f):
    o = to_obj(a)
    if o.ndim == 0:
        return f([o[()]])
    ax = _axes(o, axis)
    keep = [i for i in range(o.ndim) if i not in ax]
    t = np.transpose(o, keep + list(ax))
    shp = tuple(o.shape[i] for i in keep)
    t = t.reshape(shp + (-1,)) if o.size else t.reshape(shp + (0,))
    r = np.empty(shp, dtype=object)
    for i in np.ndindex(shp):
        r[i] = f(t[i].tolist())
    if keepdims:
        return r.reshape(tuple(1 if i in ax else o.shape[i] for i in range(o.ndim)))
    if r.ndim == 0:
        return r[()]
    return r


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **kw):
    if where is not True:
        a = np_where(where, a, 0)
    k = promote([kind_of_any(a), "i"])

    def f(xs):
        s = Sym({}) if initial is None else Sym.of(initial)
        for x in xs:
            s = s + (x.to_sym() if isinstance(x, B) else x)
        return s

    return _ret(wrapr(_reduce(a, axis, keepdims, f), k), out)


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    def f(xs):
        s = Sym({})
        for x in xs:
            s = s + (x.to_sym() if isinstance(x, B) else x)
        if not xs:
            return float("nan")
        return s / len(xs)

    return _ret(wrapr(_reduce(a, axis, keepdims, f), "f"), out)


def np_max(a, axis=None, out=None, keepdims=False, initial=None, where=True, **kw):
    def f(xs):
        xs = [_nb(x) for x in xs]
        if initial is not None:
            xs.append(initial)
        if not xs:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        return core.smax(xs)

    if where is not True:
        raise Unsupported("max where=")
    return _ret(wrapr(_reduce(a, axis, keepdims, f), kind_of_any(a)), out)


def np_min(a, axis=None, out=None, keepdims=False, initial=None, where=True, **kw):
    def f(xs):
        xs = [_nb(x) for x in xs]
        if initial is not None:
            xs.append(initial)
        if not xs:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        return core.smin(xs)

    if where is not True:
        raise Unsupported("min where=")
    return _ret(wrapr(_reduce(a, axis, keepdims, f), kind_of_any(a)), out)


def np_any(a, axis=None, out=None, keepdims=False, **kw):
    return wrapr(_reduce(a, axis, keepdims, lambda xs: disj([_truthy(x) for x in xs])), "b")


def np_all(a, axis=None, out=None, keepdims=False, **kw):
    return wrapr(_reduce(a, axis, keepdims, lambda xs: conj([_truthy(x) for x in xs])), "b")


def np_where(c, a=None, b=None):
    if a is None:
        return np.nonzero(bools(c) if has_sym(c) else np.asarray(c))
    cc = bools(c) if has_sym(c) else np.asarray(c, dtype=bool)
    A, Bb = to_obj(a), to_obj(b)
    k = promote([kind_of_any(a), kind_of_any(b)])
    r = np.where(cc, A, Bb)
    return wrap(r, k)


def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = a
    if a_min is not None:
        r = UF["maximum"](r, a_min)
    if a_max is not None:
        r = UF["minimum"](r, a_max)
    return _ret(r, out)


def _order(xs):
    """Stable ascending order of scalars; forks on comparisons; nan last."""
    def cmp(i, j):
        a, b = xs[i], xs[j]
        na = special(a) is not None and a != a
        nb_ = special(b) is not None and b != b
        if na or nb_:
            return (na > nb_) - (na < nb_)
        if bool(_cmpf("<")(a, b)):
            return -1
        if bool(_cmpf("<")(b, a)):
            return 1
        return 0

    return sorted(range(len(xs)), key=functools.cmp_to_key(cmp))


def _along(a, axis, f, dtype):
    o = to_obj(a)
    if axis is None:
        o = o.ravel()
        axis = 0
    if o.ndim == 0:
        o = o.reshape(1)
    m = np.moveaxis(o, axis, -1)
    r = np.empty(m.shape, dtype=dtype)
    for i in np.ndindex(m.shape[:-1]):
        r[i] = f(m[i].tolist())
    return np.moveaxis(r, -1, axis)


def np_argsort(a, axis=-1, **kw):
    return _along(a, axis, _order, int)


def np_sort(a, axis=-1, **kw):
    def f(xs):
        o = np.empty(len(xs), dtype=object)
        for i, j in enumerate(_order(xs)):
            o[i] = xs[j]
        return o

    return wrap(_along(a, axis, f, object), kind_of_any(a))


def np_lexsort(keys, axis=-1):
    o = to_obj(keys) if has_sym(keys) else np.asarray(keys)
    if not has_sym(keys):
        return np.lexsort(o)
    n = o.shape[-1]
    idx = list(range(n))
    for k in range(o.shape[0]):
        row = o[k].tolist()
        order = _order([row[i] for i in idx])
        idx = [idx[j] for j in order]
    return np.array(idx)


def np_argmax(a, axis=None, **kw):
    def f(xs):
        best = 0
        for i in range(1, len(xs)):
            if bool(_cmpf(">")(xs[i], xs[best])):
                best = i
        return best

    o = to_obj(a)
    if axis is None:
        return f(o.ravel().tolist())
    m = np.moveaxis(o, axis, -1)
    r = np.empty(m.shape[:-1], dtype=int)
    for i in np.ndindex(m.shape[:-1]):
        r[i] = f(m[i].tolist())
    return r if r.ndim else int(r[()])


def np_unique(a, **kw):
    if any(kw.values()):
        raise Unsupported("unique with options on symbolic values")
    xs = to_obj(a).ravel().tolist()
    out = []
    for i in _order(xs):
        if not out or not bool(_cmpf("==")(xs[i], out[-1])):
            out.append(xs[i])
    o = np.empty(len(out), dtype=object)
    o[:] = out
    return wrap(o, kind_of_any(a))


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if special(x) is not None or special(y) is not None:
            return B.const(special(x) is not None and special(y) is not None and (x == y or (equal_nan and x != x and y != y)))
        x, y = Sym.of(x), Sym.of(y)
        if x.p == y.p:
            return B.const(True)
        return core.sabs(x - y) <= core.sabs(y) * rtol + atol

    A, C = to_obj(a), to_obj(b)
    if A.ndim == 0 and C.ndim == 0:
        return f(A[()], C[()])
    return wrap(np.frompyfunc(f, 2, 1)(A, C), "b")


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = np_isclose(a, b, rtol, atol, equal_nan)
    return bool(r if isinstance(r, B) else r.all())


def np_array_equal(a, b, equal_nan=False):
    A, C = to_obj(a), to_obj(b)
    if A.shape != C.shape:
        return False
    return bool(conj([_cmpf("==")(x, y) for x, y in zip(A.ravel().tolist(), C.ravel().tolist())]))


def np_dot(a, b, out=None):
    A, C = nob(a), nob(b)
    k = promote([kind_of_any(a), kind_of_any(b), "i"])
    if A.ndim == 0 or C.ndim == 0:
        return _ret(wrapr(A * C if A.ndim or C.ndim else A[()] * C[()], k), out)
    if A.ndim == 1 and C.ndim == 1:
        return _ret(matmul(A, C), out)
    return _ret(wrapr(np.dot(A, C), k), out)


def np_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        r = np_mean(a, axis=axis, keepdims=keepdims)
        if returned:
            raise Unsupported("average returned=")
        return r
    A, W = nob(a), nob(weights)
    if A.shape != W.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if W.ndim != 1 or W.shape[0] != A.shape[axis]:
            raise ValueError("Length of weights not compatible with specified axis.")
        W = np.moveaxis(W.reshape((1,) * (A.ndim - 1) + W.shape), -1, axis)
        W = np.broadcast_to(W, A.shape)
    scl = np_sum(wrap(W), axis=axis, keepdims=keepdims)
    if bool(np_any(UF["equal"](scl, 0)) if isinstance(scl, np.ndarray) else scl == 0):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    num = np_sum(wrap(A * W), axis=axis, keepdims=keepdims)
    r = UF["true_divide"](num, scl)
    return (r, scl) if returned else r


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = float(np.finfo(float).max)

    def f(e):
        s = special(e)
        if s is None:
            return e
        if s != s:
            return Sym.of(nan)
        if s > 0:
            return Sym.of(big if posinf is None else posinf)
        return Sym.of(-big if neginf is None else neginf)

    o = to_obj(x)
    if o.ndim == 0:
        return f(o[()])
    r = wrap(np.frompyfunc(f, 1, 1)(o), kind_of_any(x))
    if not copy:
        x[...] = r
        return x
    return r


def np_norm(x, ord=None, axis=None, keepdims=False):
    if ord in (None, 2, "fro"):
        if ord == 2 and axis is None and to_obj(x).ndim > 1:
            raise Unsupported("matrix 2-norm")
        xx = UF["multiply"](x, x)
        return UF["sqrt"](np_sum(xx, axis=axis, keepdims=keepdims))
    if isinstance(axis, tuple) or (axis is None and to_obj(x).ndim > 1):
        if axis is not None or keepdims or to_obj(x).ndim != 2 or ord not in (1, np.inf):
            raise Unsupported("matrix norm ord=%r" % (ord,))
        return np_max(np_sum(UF["absolute"](x), axis=0 if ord == 1 else 1))
    if ord == np.inf:
        return np_max(UF["absolute"](x), axis=axis, keepdims=keepdims)
    if ord == 1 and (axis is not None or to_obj(x).ndim == 1):
        return np_sum(UF["absolute"](x), axis=axis, keepdims=keepdims)
    raise Unsupported("norm ord=%r" % (ord,))


def eigvalsh(a, UPLO="L"):
    """Eigenvalues (ascending) of symmetric matrices read from one triangle, size <= 3."""
    o = to_obj(a)
    n = o.shape[-1]
    if o.shape[-2] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    shp = o.shape[:-2]
    r = np.empty(shp + (n,), dtype=object)
    for i in np.ndindex(shp):
        m = o[i]
        g = [[Sym.of(m[max(p, q), min(p, q)] if UPLO == "L" else m[min(p, q), max(p, q)])
              for q in range(n)] for p in range(n)]
        r[i] = _eigs(g, n)
    return wrap(r)


def _eigs(g, n):
    out = np.empty(n, dtype=object)
    if n == 0:
        return out
    if n == 1:
        out[0] = g[0][0]
        return out
    if n > 3:
        raise Unsupported("eigenvalues of a %dx%d symbolic matrix" % (n, n))
    flat = tuple(core.pkey(g[p][q].p) for p in range(n) for q in range(p + 1))
    atoms = []
    for k in range(n):
        def ev(env, k=k):
            mat = [[float(core.evp(g[p][q].p, env)) for q in range(n)] for p in range(n)]
            return float(np.linalg.eigvalsh(np.array(mat))[k])

        atoms.append(core.defatom(("eig", flat, k), "eig%d_%d" % (k, len(core.REG.atoms)), lambda s: [], ev=ev))
    regs = [core.REG.index[("eig", flat, k)] for k in range(n)]
    if not regs[0].facts:
        tr = sum((g[k][k] for k in range(n)), Sym({}))
        e1 = sum(atoms, Sym({}))
        facts = [e1 == tr] + [atoms[k] <= atoms[k + 1] for k in range(n - 1)]
        if n == 2:
            facts.append(atoms[0] * atoms[1] == g[0][0] * g[1][1] - g[0][1] * g[1][0])
        else:
            e2 = atoms[0] * atoms[1] + atoms[0] * atoms[2] + atoms[1] * atoms[2]
            facts.append(e2 == sum((g[p][p] * g[q][q] - g[p][q] * g[q][p] for p in range(3) for q in range(p)), Sym({})))
            facts.append(atoms[0] * atoms[1] * atoms[2] == det(g))
        for rg in regs:
            rg.facts.extend(facts)
    for k in range(n):
        out[k] = atoms[k]
    return out


def det(g):
    n = len(g)
    if n == 1:
        return g[0][0]
    r = Sym({})
    for j in range(n):
        minor = [[g[p][q] for q in range(n) if q != j] for p in range(1, n)]
        r = r + (1 if j % 2 == 0 else -1) * g[0][j] * det(minor)
    return r


def np_det(a):
    o = to_obj(a)
    shp = o.shape[:-2]
    if not shp:
        return det([[Sym.of(x) for x in row] for row in o.tolist()])
    r = np.empty(shp, dtype=object)
    for i in np.ndindex(shp):
        r[i] = det([[Sym.of(x) for x in row] for row in o[i].tolist()])
    return wrap(r)


def _like(fill):
    def f(a, *args, dtype=None, shape=None, **kw):
        k = kind_of_dtype(dtype) or kind_of_any(a)
        if fill == "full":
            v = args[0] if args else kw["fill_value"]
        else:
            v = fill
        o = np.empty(np.shape(np.asarray(to_obj(a))) if shape is None else shape, dtype=object)
        v = cast(to_obj(v), kind_of_any(v), k)
        if v.ndim == 0:
            v = v[()]
        o[...] = v
        return wrap(o, k) if o.ndim else wrap(o, k)

    return f


def np_round(a, decimals=0, out=None):
    if isinstance(a, Sym):
        return round(a, decimals)
    return wrap(to_obj(a), kind_of_any(a)).round(decimals)


def np_count_nonzero(a, axis=None, **kw):
    return np.count_nonzero(bools(a), axis=axis)


def np_einsum(*args, **kw):
    a = [args[0]] + [nob(x) for x in args[1:]]
    kw.pop("optimize", None)
    r = np.einsum(*a, **kw)
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r[()]
    return wrapr(r, promote([kind_of_any(x) for x in args[1:]]))


def np_digitize(*a, **k):
    raise Unsupported("digitize")


FUNCS = {
    "sum": np_sum, "mean": np_mean, "max": np_max, "amax": np_max, "min": np_min, "amin": np_min,
    "any": np_any, "all": np_all, "where": np_where, "clip": np_clip, "argsort": np_argsort,
    "sort": np_sort, "lexsort": np_lexsort, "argmax": np_argmax,
    "argmin": lambda a, axis=None, **k: np_argmax(UF["negative"](a), axis=axis),
    "unique": np_unique, "isclose": np_isclose, "allclose": np_allclose,
    "array_equal": np_array_equal, "dot": np_dot, "average": np_average,
    "nan_to_num": np_nan_to_num, "zeros_like": _like(0), "ones_like": _like(1),
    "empty_like": _like(0), "full_like": _like("full"), "round": np_round, "around": np_round,
    "count_nonzero": np_count_nonzero, "einsum": np_einsum,
    "nonzero": lambda a: np.nonzero(bools(a)),
    "flatnonzero": lambda a: np.flatnonzero(bools(a)),
    "argwhere": lambda a: np.argwhere(bools(a)),
    "nanmax": lambda a, axis=None, **k: np_max(a, axis=axis),
    "nanmin": lambda a, axis=None, **k: np_min(a, axis=axis),
    "nansum": lambda a, axis=None, **k: np_sum(np_where(UF["isnan"](a), 0, a), axis=axis),
    "std": lambda a, **k: wrap(to_obj(a)).std(**k), "var": lambda a, **k: wrap(to_obj(a)).var(**k),
    "ptp": lambda a, axis=None, **k: np_max(a, axis=axis) - np_min(a, axis=axis),
    "shape": lambda a: np.ndarray.view(a, np.ndarray).shape if isinstance(a, SArr) else np.shape(a),
    "copy": lambda a, order="K", **k: a.copy(),
    "inner": lambda a, b: np_dot(a, np.swapaxes(to_obj(b), -1, -2) if to_obj(b).ndim > 1 else b),
    "isreal": lambda a: np.ones(np.shape(to_obj(a)), dtype=bool),
    "fill_diagonal": None,
}
LINALG = {"norm": np_norm, "eigvalsh": eigvalsh, "det": np_det}


def _fill_diagonal(a, v, wrap_=False):
    n = min(a.shape)
    idx = np.arange(n)
    a[idx, idx] = v


FUNCS["fill_diagonal"] = _fill_diagonal


def strip(x):
    if isinstance(x, SArr):
        o = np.ndarray.view(x, np.ndarray)
        return o
    if isinstance(x, (Sym, B)):
        return x
    if isinstance(x, tuple):
        return tuple(strip(e) for e in x)
    if isinstance(x, list):
        return [strip(e) for e in x]
    return x


def rewrap(r, k):
    if isinstance(r, np.ndarray) and not isinstance(r, SArr) and r.dtype == object:
        return wrap(r, k)
    if isinstance(r, tuple):
        return tuple(rewrap(e, k) for e in r)
    if isinstance(r, list):
        return [rewrap(e, k) for e in r]
    return r


def array_function(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, "__module__", "") or ""
    if "linalg" in mod:
        f = LINALG.get(name)
        if f is not None:
            return f(*args, **kwargs)
        if name not in ("multi_dot", "matrix_transpose", "diagonal", "outer", "matmul", "trace"):
            raise Unsupported("numpy.linalg.%s" % name)
    f = FUNCS.get(name)
    if f is not None:
        return f(*args, **kwargs)
    ks = []

    def coll(x):
        if isinstance(x, (SArr, Sym, B)):
            ks.append(kind_of_any(x))
        elif isinstance(x, np.ndarray) and x.dtype != object and name in (
            "concatenate", "stack", "hstack", "vstack", "outer", "append", "insert", "tensordot",
        ):
            ks.append(kind_of_any(x))
        elif isinstance(x, (list, tuple)):
            for e in x:
                coll(e)

    for a in args:
        coll(a)
    coll(list(kwargs.values()))
    k = promote(ks)
    if name in ("concatenate", "stack", "hstack", "vstack", "append", "insert", "outer", "tensordot", "kron", "column_stack"):
        st = lambda x: [st(e) for e in x] if isinstance(x, (list, tuple)) else (
            to_obj(x) if isinstance(x, np.ndarray) or isinstance(x, (Sym, B, float)) else x)
        args = tuple(st(a) for a in args)
    try:
        r = func(*strip(tuple(args)), **{kk: strip(v) for kk, v in kwargs.items()})
    except TypeError as e:
        if "ufunc" in str(e) or "loop" in str(e) or "cast" in str(e):
            raise Unsupported("numpy.%s on symbolic values: %s" % (name, str(e)[:80]))
        raise
    if isinstance(r, np.ndarray) and r.ndim == 0 and r.dtype == object:
        return r[()]
    return rewrap(r, k)


# ------------------------------------------------------------------------ the module


def _shape(shape):
    if isinstance(shape, (Sym,)):
        return int(shape.__index__())
    if isinstance(shape, (tuple, list)):
        return tuple(_shape(s) for s in shape)
    return shape


def _create(fill, default="f"):
    def f(shape, *args, dtype=None, order="C", **kw):
        if args:
            dtype = args[0]
        k = kind_of_dtype(dtype) or default
        shape = _shape(shape)
        if k in ("i", "b"):
            return carr(np.full(shape, fill, dtype=dtype, order=order))
        o = np.empty(shape, dtype=object, order=order)
        o[...] = Sym.of(fill)
        return wrap(o, k)

    return f


def p_full(shape, fill_value, dtype=None, order="C", **kw):
    k = kind_of_dtype(dtype) or kind_of_any(fill_value)
    shape = _shape(shape)
    if k in ("i", "b") and not has_sym(fill_value):
        return carr(np.full(shape, fill_value, dtype=dtype, order=order))
    o = np.empty(shape, dtype=object, order=order)
    v = cast(to_obj(fill_value), kind_of_any(fill_value), k)
    o[...] = v if v.ndim else v[()]
    return wrap(o, k)


def p_array(x, dtype=None, *args, copy=True, ndmin=0, order="K", subok=False, **kw):
    k0 = None
    if isinstance(x, SArr):
        k0 = x.lk
    k = kind_of_dtype(dtype)
    if k == "O":
        return np.array(x, dtype=object)
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype != object:
        # a concrete array: floats become symbolic constants, ints stay concrete
        kx = kind_of_dtype(x.dtype)
        if (k or kx) in ("i", "b"):
            return carr(np.array(x, dtype=dtype, copy=copy, ndmin=ndmin, order=order))
        if kx in ("i", "b") or copy:
            return wrap(cast(to_obj(np.array(x, ndmin=ndmin)), kx, k or kx), k or kx)
        return wrap(to_obj(np.array(x, ndmin=ndmin)), k or kx)
    if not has_sym(x):
        r = np.array(x, dtype=dtype, ndmin=ndmin)
        if r.dtype.kind == "f":
            return wrap(cast(to_obj(r), "f", k or "f"), k or "f")
        return carr(r)
    if isinstance(x, SArr):
        o = np.array(np.ndarray.view(x, np.ndarray), dtype=object, copy=(True if copy else None), ndmin=ndmin, order=order)
    else:
        o = to_obj(x)
        if isinstance(x, np.ndarray) and copy:
            o = o.copy()
        while o.ndim < ndmin:
            o = o[None]
        k0 = kind_of_any(x)
    if k is not None and k != k0:
        o = cast(o, k0, k)
        k0 = k
    return wrap(o, k0 or "f")


def p_asarray(x, dtype=None, order=None, **kw):
    if isinstance(x, SArr) and (dtype is None or kind_of_dtype(dtype) == x.lk):
        if order == "F":
            return wrap(np.asfortranarray(np.ndarray.view(x, np.ndarray)), x.lk)
        return x
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype != object:
        if x.dtype.kind in "iub" and (dtype is None or kind_of_dtype(dtype) in ("i", "b")):
            return carr(np.asarray(x, dtype=dtype))
    return p_array(x, dtype=dtype)


def p_ascontiguousarray(x, dtype=None):
    a = p_asarray(x, dtype)
    if isinstance(a, SArr):
        o = np.ndarray.view(a, np.ndarray)
        if o.flags.c_contiguous and o.ndim:
            return a
        return wrap(np.ascontiguousarray(o), a.lk)
    return np.ascontiguousarray(a)


def p_atleast(n):
    def f(*xs):
        out = []
        for x in xs:
            a = p_asarray(x)
            while a.ndim < n:
                a = a[None]
            out.append(a)
        return out[0] if len(out) == 1 else out

    return f


def p_eye(n, M=None, k=0, dtype=float, **kw):
    kk = kind_of_dtype(dtype)
    a = np.eye(n, M, k)
    if kk in ("i", "b"):
        return a.astype(dtype)
    return wrap(to_obj(a), kk)


def p_float_out(fn):
    """Creation function whose float result becomes a symbolic array."""

    def f(*a, **kw):
        if has_sym(list(a)):
            return array_function(fn, a, kw)
        r = fn(*a, **kw)
        if isinstance(r, np.ndarray) and r.dtype.kind == "f":
            return wrap(to_obj(r))
        return r

    return f


def p_diag(v, k=0):
    a = p_asarray(v)
    if isinstance(a, SArr):
        o = np.ndarray.view(a, np.ndarray)
        if o.ndim == 1:
            n = len(o) + abs(k)
            r = np.empty((n, n), dtype=object)
            r[...] = Sym({})
            for i in range(len(o)):
                r[i + max(0, -k), i + max(0, k)] = o[i]
            return wrap(r, a.lk)
        return wrap(np.diagonal(o, k).copy(), a.lk)
    return np.diag(a, k)


def p_tri(name):
    def f(m, k=0):
        a = p_asarray(m)
        if not isinstance(a, SArr):
            return getattr(np, name)(a, k)
        o = np.ndarray.view(a, np.ndarray).copy()
        msk = getattr(np, name)(np.ones(o.shape[-2:]), k) != 0
        z = Sym({})
        for i in np.ndindex(o.shape):
            if not msk[i[-2:]]:
                o[i] = z
        return wrap(o, a.lk)

    return f


class Rand(types.ModuleType):
    """numpy.random: generators come from the harness."""

    Generator = np.random.Generator
    BitGenerator = np.random.BitGenerator
    SeedSequence = np.random.SeedSequence
    PCG64 = np.random.PCG64
    factory = None  # set by the harness

    @staticmethod
    def default_rng(seed=None):
        if Rand.factory is None:
            raise Unsupported("random generator without a harness stub")
        return Rand.factory(seed)

    def __getattr__(self, name):
        raise Unsupported("numpy.random.%s" % name)


class LinalgProxy(types.ModuleType):
    def __getattr__(self, name):
        real = getattr(np.linalg, name)
        if not callable(real) or isinstance(real, type):
            return real
        f = LINALG.get(name)

        def g(*a, **kw):
            if has_sym(list(a)):
                if f is None:
                    return array_function(real, a, kw)
                return f(*a, **kw)
            return real(*a, **kw)

        g.__name__ = name
        return g


def _wrap_generic(real):
    def g(*a, **kw):
        if has_sym(list(a)) or has_sym(list(kw.values())):
            return array_function(real, a, kw)
        return carr(real(*a, **kw))

    g.__name__ = getattr(real, "__name__", "f")
    return g


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        d["__version__"] = np.__version__
        d["linalg"] = LinalgProxy("numpy.linalg")
        d["random"] = Rand("numpy.random")
        d.update(UF)
        d["abs"] = UF["absolute"]
        d["divide"] = UF["true_divide"]
        d["mod"] = UF["remainder"]
        d["pow"] = UF["power"]
        d["bitwise_not"] = UF["invert"]
        d.update(
            zeros=_create(0), ones=_create(1), empty=_create(0), full=p_full, array=p_array,
            asarray=p_asarray, asanyarray=p_asarray, ascontiguousarray=p_ascontiguousarray,
            asfortranarray=lambda x, dtype=None: p_asarray(x, dtype, order="F"),
            atleast_1d=p_atleast(1), atleast_2d=p_atleast(2), eye=p_eye,
            identity=lambda n, dtype=float, **k: p_eye(n, dtype=dtype),
            linspace=p_float_out(np.linspace), arange=p_float_out(np.arange),
            diag=p_diag, tril=p_tri("tril"), triu=p_tri("triu"),
            asarray_chkfinite=p_asarray, require=p_asarray,
        )
        for n, f in FUNCS.items():
            if hasattr(np, n) and n not in d:
                d[n] = self._func(n, f)

    @staticmethod
    def _func(name, f):
        real = getattr(np, name)

        def g(*a, **kw):
            if has_sym(list(a)) or has_sym(list(kw.values())):
                return f(*a, **kw)
            r = real(*a, **kw)
            if isinstance(r, np.ndarray) and r.dtype.kind == "f":
                return wrap(to_obj(r))
            return r

        g.__name__ = name
        return g

    def __getattr__(self, name):
        real = getattr(np, name)
        if isinstance(real, types.ModuleType) or isinstance(real, type) or not callable(real):
            return real
        if isinstance(real, np.ufunc):
            r = UFProxy(real)
        else:
            r = _wrap_generic(real)
        self.__dict__[name] = r
        return r


PROXY = NumpyProxy()
