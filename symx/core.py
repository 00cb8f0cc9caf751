"""Symbolic numbers and booleans, path exploration and SMT queries.

A symbolic number (`Sym`) is a Laurent polynomial with rational coefficients over
*atoms*.  An atom is an input variable or a term the polynomial ring cannot express:
`exp(m)`, `log(P)`, `1/P`, `max`, `|.|`, `floor`, if-then-else, square roots and
explicit cuts; the latter carry defining facts which are handed to the solver.
A symbolic condition (`B`) used as a Python truth value forks the execution.

Arithmetic is exact (rationals/reals): rounding is outside every claim made here.
"""

from __future__ import annotations

import math
import os
import time
from fractions import Fraction

import mpmath
import z3

# --------------------------------------------------------------------- control flow


class Control(BaseException):
    """Path steering; deliberately not an Exception so code under test cannot eat it."""


class Unsupported(Control):
    """The encoder cannot express what the code does."""


class Infeasible(Control):
    """The current path is infeasible or outside the stated assumptions."""


class BoundReached(Control):
    """A stated bound was reached; the path is outside the claim."""


class Budget(Control):
    """The time budget of the configuration ran out."""


# --------------------------------------------------------------------------- atoms

EMPTY = ()


class Atom:
    __slots__ = (
        "id", "kind", "name", "pos", "nonneg", "integer", "data", "facts", "z", "logdef",
    )

    def __init__(self, id, kind, name, pos=False, nonneg=False, integer=False, data=None):
        self.id = id
        self.kind = kind
        self.name = name
        self.pos = pos
        self.nonneg = nonneg or pos
        self.integer = integer
        self.data = data
        self.facts = []
        self.z = None
        self.logdef = None


class Registry:
    """Interned atoms of one harness run."""

    def __init__(self):
        self.atoms: list[Atom] = []
        self.index: dict = {}
        self.maxargs: dict = {}

    def get(self, key, kind, name, **kw):
        a = self.index.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, name, **kw)
            self.atoms.append(a)
            self.index[key] = a
        return a


REG = Registry()
ENG = None  # current Engine


def set_engine(eng):
    global ENG, REG
    ENG = eng
    REG = eng.reg


# --------------------------------------------------------------------- polynomials


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    return {m: k * c for m, k in p.items()}


MAXTERMS = 60000


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if not p:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        if m == EMPTY:
            return pscale(q, c)
        out = {_mono_mul(m, n): c * k for n, k in q.items()}
        return _fix_inv(out)
    r = {}
    for m, c in p.items():
        for n, k in q.items():
            mn = _mono_mul(m, n)
            v = r.get(mn, 0) + c * k
            if v:
                r[mn] = v
            else:
                r.pop(mn, None)
        if len(r) > MAXTERMS:
            raise Unsupported("polynomial too large")
        if ENG is not None and len(r) > 2000:
            ENG.tick()
    return _fix_inv(r)


def _fix_inv(p):
    """Replace negative powers of reciprocal atoms by powers of their denominators."""
    bad = False
    atoms = REG.atoms
    for m in p:
        for k, e in m:
            if e < 0 and atoms[k].kind == "inv":
                bad = True
                break
        if bad:
            break
    if not bad:
        return p
    r = {}
    for m, c in p.items():
        t = {tuple((k, e) for k, e in m if not (e < 0 and atoms[k].kind == "inv")): c}
        for k, e in m:
            if e < 0 and atoms[k].kind == "inv":
                for _ in range(-e):
                    t = pmul(t, atoms[k].data)
        r = padd(r, t)
    return r


def ppow(p, n):
    r = {EMPTY: Fraction(1)}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def pkey(p):
    return frozenset(p.items())


def psign(p):
    """Syntactic sign: '+' (>0), '0+' (>=0), '-', '0-', '0' or None."""
    if not p:
        return "0"
    atoms = REG.atoms
    sg = None
    strict = False
    for m, c in p.items():
        ok = True
        st = True
        for k, e in m:
            a = atoms[k]
            if a.pos:
                continue
            st = False
            if a.nonneg or e % 2 == 0:
                continue
            ok = False
            break
        if not ok:
            return None
        s = 1 if c > 0 else -1
        if sg is None:
            sg = s
        elif sg != s:
            return None
        strict = strict or st
    if sg > 0:
        return "+" if strict else "0+"
    return "-" if strict else "0-"


def clear_neg(p):
    """Multiply by a positive monomial so that no negative exponents remain."""
    low = {}
    for m in p:
        for k, e in m:
            if e < 0 and e < low.get(k, 0):
                low[k] = e
    if not low:
        return p
    mono = tuple(sorted((k, -e) for k, e in low.items()))
    return {_mono_mul(m, mono): c for m, c in p.items()}


def clear_inv(p, keep_sign=True):
    """Multiply by denominators until no reciprocal atoms remain.

    With keep_sign the multiplier is positive, so the relation to zero is preserved.
    """
    atoms = REG.atoms
    while True:
        tgt = None
        deg = 0
        for m in p:
            for k, e in m:
                if atoms[k].kind == "inv" and (tgt is None or k > tgt):
                    tgt = k
        if tgt is None:
            return clear_neg(p)
        for m in p:
            for k, e in m:
                if k == tgt and e > deg:
                    deg = e
        a = atoms[tgt]
        k_mul = deg
        if keep_sign and not a.pos and deg % 2:
            k_mul = deg + 1
        P = a.data
        pows = [{EMPTY: Fraction(1)}]
        for _ in range(k_mul):
            pows.append(pmul(pows[-1], P))
        groups = {}
        for m, c in p.items():
            e = 0
            rest = m
            for k, ee in m:
                if k == tgt:
                    e = ee
                    rest = tuple(x for x in m if x[0] != tgt)
                    break
            groups.setdefault(e, {})[rest] = c
        r = {}
        for e, g in groups.items():
            r = padd(r, pmul(g, pows[k_mul - e]))
        p = r


def primitive(p):
    """Split p = c * mono * q with q primitive (positive-atom content removed)."""
    atoms = REG.atoms
    if not p:
        return Fraction(0), EMPTY, p
    common = None
    for m in p:
        d = {k: e for k, e in m if atoms[k].pos}
        if common is None:
            common = d
        else:
            nc = {}
            for k in set(common) | set(d):
                e = min(common.get(k, 0), d.get(k, 0))
                if e:
                    nc[k] = e
            common = nc
    mono = tuple(sorted(common.items()))
    if mono:
        inv = tuple((k, -e) for k, e in mono)
        q = {_mono_mul(m, inv): c for m, c in p.items()}
    else:
        q = p
    lead = min(q)
    c = abs(q[lead])
    if c != 1:
        q = {m: k / c for m, k in q.items()}
    return c, mono, q


# ---------------------------------------------------------------------------- Sym

_INFLIKE = (float("inf"), float("-inf"))


_SIMPLE = {}


def simplest(x):
    """A float literal denotes the simple rational it was rounded from, if there is one."""
    r = _SIMPLE.get(x)
    if r is None:
        r = Fraction(x)
        if r.denominator > 10**6:
            g = r.limit_denominator(10**6)
            if float(g) == x:
                r = g
            else:
                h = 1 / (1 / r).limit_denominator(10**6) if r else r
                if r and float(h) == x:
                    r = h
        if len(_SIMPLE) < 10**5:
            _SIMPLE[x] = r
    return r


def to_frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        return simplest(x)
    t = type(x).__module__
    if t == "numpy":
        import numpy as np

        if isinstance(x, np.bool_):
            return Fraction(int(x))
        if isinstance(x, np.integer):
            return Fraction(int(x))
        if isinstance(x, np.floating):
            return simplest(float(x))
    raise TypeError(type(x))


def special(x):
    """x if it is a float nan/inf (python or numpy), else None."""
    if isinstance(x, float) or type(x).__module__ == "numpy":
        try:
            f = float(x)
        except Exception:
            return None
        except Control:
            return None
        if f != f or f in _INFLIKE:
            return f
    return None


def _has_arr(x):
    return hasattr(x, "__array_ufunc__") and getattr(x, "ndim", None) not in (None, 0) or (
        hasattr(x, "dtype") and getattr(x, "ndim", 0) != 0
    )


class Sym:
    __slots__ = ("p",)
    __array_priority__ = 5

    def __init__(self, p):
        self.p = p

    # construction helpers
    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, B):
            return x.to_sym()
        if hasattr(x, "dtype") and getattr(x, "ndim", None) == 0 and hasattr(x, "item"):
            y = x.item() if x.dtype != object else x[()]
            if isinstance(y, (Sym, B)):
                return Sym.of(y)
            x = y
        f = to_frac(x)
        return Sym({EMPTY: f} if f else {})

    @property
    def const(self):
        p = self.p
        if not p:
            return Fraction(0)
        if len(p) == 1 and EMPTY in p:
            return p[EMPTY]
        return None

    def is_int(self):
        atoms = REG.atoms
        for m, c in self.p.items():
            if c.denominator != 1:
                return False
            for k, e in m:
                if e < 0 or not atoms[k].integer:
                    return False
        return True

    # arithmetic -----------------------------------------------------------------
    def _bin(self, o, f, name):
        if _has_arr(o):
            return NotImplemented
        s = special(o)
        if s is not None:
            return _special_op(self, s, name)
        try:
            o = Sym.of(o)
        except TypeError:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: Sym(padd(a.p, b.p)), "add")

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: Sym(padd(a.p, pscale(b.p, -1))), "sub")

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: Sym(padd(b.p, pscale(a.p, -1))), "rsub")

    def __mul__(self, o):
        return self._bin(o, lambda a, b: Sym(pmul(a.p, b.p)), "mul")

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a * recip(b), "div")

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b * recip(a), "rdiv")

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: floor(a / b), "fdiv")

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: floor(b / a), "rfdiv")

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a - b * floor(a / b), "mod")

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: b - a * floor(b / a), "rmod")

    def __neg__(self):
        return Sym(pscale(self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __pow__(self, n):
        if _has_arr(n):
            return NotImplemented
        n = Sym.of(n).const
        if n is None:
            raise Unsupported("symbolic exponent")
        if n.denominator == 1:
            n = int(n)
            if n >= 0:
                return Sym(ppow(self.p, n))
            return recip(Sym(ppow(self.p, -n)))
        if n == Fraction(1, 2):
            return sqrt(self)
        if n == Fraction(-1, 2):
            return recip(sqrt(self))
        if psign(self.p) == "+":
            return exp(n * log(self))
        raise Unsupported("power %s" % n)

    def __rpow__(self, o):
        if _has_arr(o):
            return NotImplemented
        b = Sym.of(o)
        if psign(b.p) == "+":
            return exp(self * log(b))
        raise Unsupported("power with symbolic exponent")

    # numpy object-array hooks ------------------------------------------------------
    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sqrt(self):
        return sqrt(self)

    def log10(self):
        return log(self) / logconst(Fraction(10))

    def log2(self):
        return log(self) / logconst(Fraction(2))

    def log1p(self):
        return log(self + 1)

    def expm1(self):
        return exp(self) - 1

    def square(self):
        return self * self

    def floor(self):
        return floor(self)

    def ceil(self):
        return -floor(-self)

    def trunc(self):
        return trunc(self)

    def rint(self):
        return floor(self + Fraction(1, 2))

    def sign(self):
        return sign(self)

    def any(self, *a, **k):
        return self != 0

    all = any

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt):
        return self

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    min = max
    mean = max

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def __getitem__(self, idx):
        from . import snp

        return snp.scalar_index(self, idx)

    # comparisons --------------------------------------------------------------------
    def _cmp(self, o, op):
        if _has_arr(o):
            return NotImplemented
        s = special(o)
        if s is not None:
            if s != s:
                return B.const(op == "!=")
            big = s > 0
            return B.const(
                {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[op]
            )
        if o is None or isinstance(o, str):
            return B.const(op == "!=")
        try:
            o = Sym.of(o)
        except TypeError:
            return NotImplemented
        d = padd(self.p, pscale(o.p, -1))
        if op == "<":
            return B.cmp("<", d)
        if op == "<=":
            return B.cmp("<=", d)
        if op == ">":
            return B.cmp("<", pscale(d, -1))
        if op == ">=":
            return B.cmp("<=", pscale(d, -1))
        if op == "==":
            return B.cmp("==", d)
        return ~B.cmp("==", d)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    __hash__ = object.__hash__

    # conversions --------------------------------------------------------------------
    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        c = self.const
        if c is None:
            raise Unsupported("float() of a symbolic value")
        return float(c)

    def __int__(self):
        c = self.const
        if c is not None:
            return int(c)
        return ENG.concretize(trunc(self))

    def __index__(self):
        c = self.const
        if c is not None:
            if c.denominator != 1:
                raise TypeError("not an integer")
            return int(c)
        if self.is_int():
            return ENG.concretize(self)
        raise TypeError("symbolic real used as an index")

    def __round__(self, n=None):
        c = self.const
        if c is not None:
            return round(c, n) if n is not None else round(c)
        f = Fraction(10) ** (n or 0)
        return floor(self * f + Fraction(1, 2)) / f

    def __ceil__(self):
        return -floor(-self)

    def __floor__(self):
        return floor(self)

    def __trunc__(self):
        return trunc(self)

    def __repr__(self):
        return pstr(self.p)

    def __format__(self, spec):
        return "<sym>"


def pstr(p, limit=12):
    atoms = REG.atoms
    if not p:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(p.items(), key=lambda t: str(t[0]))):
        if i >= limit:
            out.append("...(%d terms)" % len(p))
            break
        ms = "*".join(
            atoms[k].name + ("" if e == 1 else "^%d" % e) for k, e in m
        )
        cs = str(c) if len(str(c)) < 12 else "%.6g" % float(c)
        out.append(cs if not ms else (ms if c == 1 else cs + "*" + ms))
    return " + ".join(out)


def _special_op(a, s, name):
    if s != s:
        return float("nan")
    if name in ("add",):
        return s
    if name == "sub":
        return -s
    if name == "rsub":
        return s
    if name in ("mul",):
        sg = psign(a.p)
        if sg is None or sg in ("0+", "0-"):
            if bool(a > 0):
                return s
            if bool(a < 0):
                return -s
            return float("nan")
        return s if sg == "+" else (-s if sg == "-" else float("nan"))
    if name == "div":
        return Sym({})
    if name == "rdiv":
        if bool(a >= 0):
            return s
        return -s
    raise Unsupported("operation %s with %r" % (name, s))


# -------------------------------------------------------------- derived operations


def atom_sym(a):
    return Sym({((a.id, 1),): Fraction(1)})


def recip(x):
    c = x.const
    if c is not None:
        if c == 0:
            raise DivZero()
        return Sym({EMPTY: 1 / c})
    atoms = REG.atoms
    p = x.p
    if len(p) == 1:
        (m, c), = p.items()
        if ENG is not None and ENG.split_max and len(m) == 1 and m[0][1] == 1:
            args = ENG.reg.maxargs.get(m[0][0])
            if args is not None and len(args) == 2:
                # one path for each of the two values the denominator can have
                return recip(c * (args[1] if bool(args[0] <= args[1]) else args[0]))
        if all(atoms[k].pos for k, e in m):
            return Sym(_fix_inv({tuple((k, -e) for k, e in m): 1 / c}))
        # split into positive and other factors
        if len(m) > 1:
            r = Sym({EMPTY: 1 / c})
            for k, e in m:
                r = r * recip_poly({((k, 1),): Fraction(1)}) ** e if not atoms[
                    k
                ].pos else r * Sym(_fix_inv({((k, -e),): Fraction(1)}))
            return r
    return recip_poly(p)


class DivZero(ZeroDivisionError):
    """Division of a symbolic number by exact zero (numpy would give inf or nan)."""


def recip_poly(p):
    c, mono, q = primitive(p)
    sg = psign(q)
    if sg not in ("+", "-") and ENG is not None:
        sg = ENG.sign_of_denominator(q)
    if sg == "-":
        q = pscale(q, -1)
        c = -c
        sg = "+"
    kind = "pos" if sg == "+" else "any"
    key = ("inv", pkey(q), kind)
    a = REG.index.get(key)
    if a is None:
        a = REG.get(key, "inv", "inv%d" % len(REG.atoms), pos=(kind == "pos"), data=q)
        a.facts.append(B.raw("==", padd(pmul_raw(q, a), {EMPTY: Fraction(-1)})))
        if not a.pos:
            a.facts.append(~B.raw("==", q))
    inv_m = tuple((k, -e) for k, e in mono)
    return Sym(_fix_inv({_mono_mul(((a.id, 1),), inv_m): 1 / Fraction(c)}))


def pmul_raw(p, a):
    return {_mono_mul(m, ((a.id, 1),)): c for m, c in p.items()}


def exp(x):
    if not isinstance(x, Sym):
        x = Sym.of(x)
    r = Sym({EMPTY: Fraction(1)})
    atoms = REG.atoms
    for m, c in sorted(x.p.items(), key=lambda t: str(t)):
        # exp(k*log P) = P**k
        if len(m) == 1 and m[0][1] == 1 and atoms[m[0][0]].kind == "log" and c.denominator == 1:
            r = r * Sym(atoms[m[0][0]].data) ** int(c)
            continue
        if m != EMPTY and (abs(c.numerator) > 12 or c.denominator > 12):
            sg = 1 if c > 0 else -1
            key = ("exp", m, abs(c))
            a = REG.get(key, "exp", "exp(%s)" % pstr({m: abs(c)}), pos=True, data={m: abs(c)})
            r = r * Sym({((a.id, sg),): Fraction(1)})
            continue
        if m == EMPTY and (abs(c.numerator) > 12 or c.denominator > 12):
            v = math.exp(float(c))
            key = ("expv", c)
            a = REG.get(key, "expv", "exp(%.6g)" % float(c), pos=True, data=c)
            if not a.facts:
                e = Fraction(v) * Fraction(1, 10**12)
                a.facts.append(B.raw("<", {((a.id, 1),): Fraction(-1), EMPTY: Fraction(v) - e}))
                a.facts.append(B.raw("<", {((a.id, 1),): Fraction(1), EMPTY: -Fraction(v) - e}))
            r = r * Sym({((a.id, 1),): Fraction(1)})
            continue
        if m == EMPTY:
            key = ("expc", c.denominator)
            a = REG.get(key, "expc", "exp(1/%d)" % c.denominator, pos=True, data=c.denominator)
            if not a.facts:
                v = math.exp(1.0 / c.denominator)
                a.facts.append(B.raw("<", {((a.id, 1),): Fraction(-1), EMPTY: Fraction(v) - Fraction(1, 10**9)}))
                a.facts.append(B.raw("<", {((a.id, 1),): Fraction(1), EMPTY: -Fraction(v) - Fraction(1, 10**9)}))
        else:
            key = ("exp", m, c.denominator)
            nm = "exp(%s)" % pstr({m: Fraction(1, c.denominator)})
            a = REG.get(key, "exp", nm, pos=True, data={m: Fraction(1, c.denominator)})
        n = c.numerator
        r = r * Sym({((a.id, n),): Fraction(1)})
    return r


def log(x):
    if not isinstance(x, Sym):
        x = Sym.of(x)
    c = x.const
    if c is not None:
        if c == 0:
            return float("-inf")
        if c < 0:
            return float("nan")
        return logconst(c)
    sg = psign(x.p)
    if sg not in ("+",):
        if not bool(x > 0):
            if bool(x < 0):
                return float("nan")
            return float("-inf")
    c, mono, q = primitive(x.p)
    r = logconst(c)
    atoms = REG.atoms
    for k, e in mono:
        a = atoms[k]
        if a.kind in ("exp", "expc", "expv"):
            t = Sym(a.data) if a.kind == "exp" else Sym.of(Fraction(1, a.data) if a.kind == "expc" else a.data)
        elif a.kind == "inv":
            t = -log(Sym(a.data))
        elif a.logdef is not None:
            t = a.logdef
        else:
            t = _logatom({((k, 1),): Fraction(1)}, a.name)
        r = r + t * e
    if not (len(q) == 1 and EMPTY in q):
        if len(q) == 1:
            (m, cc), = q.items()
            r = r + _logatom(q, pstr(q))
        else:
            r = r + _logatom(q, pstr(q, 4))
    elif q[EMPTY] != 1:
        r = r + logconst(q[EMPTY])
    return r


def _logatom(p, name):
    a = REG.get(("log", pkey(p)), "log", "log(%s)" % name, data=p)
    return atom_sym(a)


def logconst(c):
    if c == 1:
        return Sym({})
    r = Sym({})
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n == 1:
            continue
        f = _smallfactors(n)
        for b, e in f.items():
            a = REG.get(("logc", b), "logc", "log(%d)" % b if b < 10**6 else "log(big)", data=b, pos=True)
            if not a.facts:
                v = math.log(b)
                a.facts.append(B.raw("<", {((a.id, 1),): Fraction(-1), EMPTY: Fraction(v) - Fraction(1, 10**9)}))
                a.facts.append(B.raw("<", {((a.id, 1),): Fraction(1), EMPTY: -Fraction(v) - Fraction(1, 10**9)}))
            r = r + atom_sym(a) * (s * e)
    return r


def _smallfactors(n):
    out = {}
    for b in (2, 3, 5, 7, 11, 13):
        while n % b == 0:
            out[b] = out.get(b, 0) + 1
            n //= b
    if n != 1:
        out[n] = out.get(n, 0) + 1
    return out


def defatom(key, name, mk, pos=False, nonneg=False, integer=False, kind="def", ev=None):
    """Atom with defining facts: mk(sym) -> list of B; ev(env) evaluates it numerically."""
    a = REG.index.get(key)
    if a is None:
        a = REG.get(key, kind, name, pos=pos, nonneg=nonneg, integer=integer)
        a.facts.extend(mk(atom_sym(a)))
        a.data = ev
    return atom_sym(a)


class _Num:
    """Number format of the numeric evaluation: floats, or 50 digits."""

    hp = False

    @staticmethod
    def of(c):
        if not _Num.hp:
            return float(c)
        c = Fraction(c) if not isinstance(c, Fraction) else c
        return mpmath.mpf(c.numerator) / c.denominator

    @staticmethod
    def fun(name, x):
        return getattr(mpmath if _Num.hp else math, name)(x)


class high_precision:
    def __enter__(self):
        self.old, _Num.hp = _Num.hp, True
        mpmath.mp.dps = 50

    def __exit__(self, *a):
        _Num.hp = self.old


def evp(p, env):
    """Numeric value of a polynomial; env maps input-variable names to floats."""
    t = _Num.of(0)
    for m, c in p.items():
        v = _Num.of(c)
        for k, e in m:
            v *= eva(k, env) ** e
        t += v
    return t


def eva(k, env):
    cache = env.setdefault("", {})
    if k in cache:
        return cache[k]
    a = REG.atoms[k]
    if a.kind == "var":
        v = _Num.of(env[a.name])
    elif a.kind == "exp":
        v = _Num.fun("exp", evp(a.data, env))
    elif a.kind == "expc":
        v = _Num.fun("exp", 1 / _Num.of(a.data))
    elif a.kind == "expv":
        v = _Num.fun("exp", _Num.of(a.data))
    elif a.kind == "log":
        x = evp(a.data, env)
        v = _Num.fun("log", x) if x > 0 else float("nan")
    elif a.kind == "logc":
        v = _Num.fun("log", _Num.of(a.data))
    elif a.kind == "inv":
        v = 1 / evp(a.data, env)
    elif a.data is not None:
        v = a.data(env)
    else:
        v = _Num.of(env[a.name])
    cache[k] = v
    return v


def evb(b, env):
    if b.k == "true":
        return True
    if b.k == "false":
        return False
    if b.k == "not":
        return not evb(b.a, env)
    if b.k == "and":
        return all(evb(x, env) for x in b.a)
    if b.k == "or":
        return any(evb(x, env) for x in b.a)
    if b.k == "bvar":
        return bool(env[b.a])
    op, p = b.a
    v = evp(p, env)
    return v < 0 if op == "<" else (v <= 0 if op == "<=" else abs(v) < 1e-9)


def margin(b, env):
    """By how much a condition holds (positive) or fails (negative)."""
    if b.k == "true":
        return 1.0
    if b.k == "false":
        return -1.0
    if b.k == "not":
        return -margin(b.a, env)
    if b.k == "and":
        return min(margin(x, env) for x in b.a)
    if b.k == "or":
        return max(margin(x, env) for x in b.a)
    if b.k == "bvar":
        return 1.0 if env[b.a] else -1.0
    op, p = b.a
    v = evp(p, env)
    return -abs(v) + 1e-9 if op == "==" else -v


def cut(x, name=None, pos=None):
    """Name a value: a fresh atom with the fact atom == x."""
    x = Sym.of(x)
    if x.const is not None or (len(x.p) == 1 and len(next(iter(x.p))) == 1 and next(iter(x.p.values())) == 1 and next(iter(x.p))[0][1] == 1):
        return x
    if pos is None:
        pos = psign(x.p) == "+"
    ld = None
    if pos:
        # keep the logarithm transparent if it splits
        c, mono, q = primitive(x.p)
        if len(q) == 1 and EMPTY in q:
            ld = log(x)
    key = ("cut", pkey(x.p))
    s = defatom(key, name or "cut%d" % len(REG.atoms), lambda s: [s == x], pos=pos, ev=lambda env: evp(x.p, env))
    a = REG.index[key]
    a.logdef = ld
    return s


def ite(c, a, b):
    if not isinstance(c, B):
        return a if c else b
    t = c.truth()
    if t is not None:
        return a if t else b
    if special(a) is not None or special(b) is not None:
        return a if bool(c) else b
    a, b = Sym.of(a), Sym.of(b)
    if a.p == b.p:
        return a
    if ENG is not None:
        t = ENG.known(c)
        if t is not None:
            return a if t else b
    key = ("ite", c.key(), pkey(a.p), pkey(b.p))
    nn = all(psign(q.p) in ("+", "0+", "0") for q in (a, b))
    ps = all(psign(q.p) == "+" for q in (a, b))
    return defatom(
        key, "ite%d" % len(REG.atoms),
        lambda s: [(~c) | (s == a), c | (s == b)],
        nonneg=nn, pos=ps, integer=a.is_int() and b.is_int(),
        ev=lambda env: evp(a.p, env) if evb(c, env) else evp(b.p, env),
    )


def sabs(x):
    if not isinstance(x, Sym):
        s = special(x)
        if s is not None:
            return abs(s)
        x = Sym.of(x)
    sg = psign(x.p)
    if sg in ("+", "0+", "0"):
        return x
    if sg in ("-", "0-"):
        return -x
    # canonical sign
    y = x
    lead = min(x.p)
    if x.p[lead] < 0:
        y = -x
    return defatom(
        ("abs", pkey(y.p)), "abs%d" % len(REG.atoms),
        lambda s: [s >= y, s >= -y, (s == y) | (s == -y)],
        nonneg=True, integer=x.is_int(), ev=lambda env: abs(evp(y.p, env)),
    )


def smax(xs):
    flat = []
    for x in xs:
        s = special(x)
        if s is not None:
            if s != s:
                return float("nan")
            if s > 0:
                return s
            continue
        flat.append(Sym.of(x))
    if not flat:
        return float("-inf")
    uniq = {}
    for s in flat:
        uniq.setdefault(pkey(s.p), s)
    flat = list(uniq.values())
    # drop syntactically dominated entries
    keep = []
    for i, s in enumerate(flat):
        dom = False
        for j, t in enumerate(flat):
            if i != j:
                sg = psign(padd(t.p, pscale(s.p, -1)))
                if sg in ("+", "0+") and not (sg == "0" and j > i):
                    dom = True
                    break
        if not dom:
            keep.append(s)
    if len(keep) == 1:
        return keep[0]
    key = ("max", frozenset(pkey(s.p) for s in keep))

    def mk(m):
        f = [m >= s for s in keep]
        o = B.const(False)
        for s in keep:
            o = o | (m == s)
        return f + [o]

    r = defatom(
        key, "max%d" % len(REG.atoms), mk,
        pos=any(psign(s.p) == "+" for s in keep),
        nonneg=any(psign(s.p) in ("+", "0+", "0") for s in keep),
        integer=all(s.is_int() for s in keep),
        ev=lambda env: max(evp(s.p, env) for s in keep),
    )
    REG.maxargs[next(iter(r.p))[0][0]] = keep
    return r


def smin(xs):
    for x in xs:
        s = special(x)
        if s is not None and s != s:
            return s
    neg = []
    for x in xs:
        s = special(x)
        neg.append(-s if s is not None else -Sym.of(x))
    m = smax(neg)
    if special(m) is not None:
        return -m
    return -m


def floor(x):
    x = Sym.of(x)
    c = x.const
    if c is not None:
        return Sym.of(math.floor(c))
    if x.is_int():
        return x
    return defatom(
        ("floor", pkey(x.p)), "floor%d" % len(REG.atoms),
        lambda s: [s <= x, x < s + 1],
        nonneg=psign(x.p) in ("+", "0+"), integer=True,
        ev=lambda env: _Num.fun("floor", evp(x.p, env)),
    )


def trunc(x):
    x = Sym.of(x)
    if x.const is not None:
        return Sym.of(math.trunc(x.const))
    if x.is_int():
        return x
    if psign(x.p) in ("+", "0+") or bool(x >= 0):
        return floor(x)
    return -floor(-x)


def sqrt(x):
    if not isinstance(x, Sym):
        s = special(x)
        if s is not None:
            return math.sqrt(s) if s == s and s > 0 else float("nan")
        x = Sym.of(x)
    c = x.const
    if c is not None:
        if c < 0:
            return float("nan")
        r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
        if r * r == c:
            return Sym.of(r)
    sg = psign(x.p)
    if sg == "0":
        return x
    return defatom(
        ("sqrt", pkey(x.p)), "sqrt%d" % len(REG.atoms),
        lambda s: [s >= 0, s * s == x],
        pos=sg == "+", nonneg=True, ev=lambda env: _Num.fun("sqrt", max(_Num.of(0), evp(x.p, env))),
    )


def sign(x):
    s = special(x)
    if s is not None:
        return s if s != s else (1.0 if s > 0 else -1.0)
    x = Sym.of(x)
    if bool(x > 0):
        return Sym.of(1)
    if bool(x < 0):
        return Sym.of(-1)
    return Sym.of(0)


def fresh(name, pos=False, nonneg=False, integer=False):
    """A new input variable (interned by name and kind: a draw may be of another kind on another path)."""
    a = REG.get(("var", name, pos, nonneg, integer), "var", name, pos=pos, nonneg=nonneg, integer=integer)
    return atom_sym(a)


def diff(x, v):
    """Partial derivative of a Sym w.r.t. an input variable Sym."""
    x = Sym.of(x)
    (m, _), = v.p.items()
    vid = m[0][0]
    return Sym(_pdiff(x.p, vid))


def _pdiff(p, vid):
    r = {}
    for m, c in p.items():
        for k, e in m:
            da = _adiff(k, vid)
            if not da:
                continue
            rest = _mono_mul(m, ((k, -1),))
            if any(REG.atoms[i].kind == "inv" and ee < 0 for i, ee in rest):
                raise Unsupported("derivative through reciprocal power")
            r = padd(r, pmul({rest: c * e}, da))
    return r


def _adiff(k, vid):
    a = REG.atoms[k]
    if k == vid:
        return {EMPTY: Fraction(1)}
    if a.kind in ("var", "logc", "expc", "expv"):
        return {}
    if a.kind == "exp":
        return pmul({((k, 1),): Fraction(1)}, _pdiff(a.data, vid))
    if a.kind == "log":
        d = _pdiff(a.data, vid)
        if not d:
            return {}
        return (Sym(d) * recip(Sym(a.data))).p
    if a.kind == "inv":
        d = _pdiff(a.data, vid)
        if not d:
            return {}
        return pmul({((k, 2),): Fraction(-1)}, d)
    # a piecewise definition: differentiable only if independent of the variable
    if vid in atoms_of_facts(a):
        raise Unsupported("derivative through a piecewise term")
    return {}


def atoms_of_facts(a, seen=None):
    seen = seen if seen is not None else set()
    todo = [a.id]
    out = set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        at = REG.atoms[k]
        out.add(k)
        if at.kind in ("exp", "log", "inv"):
            for m in at.data:
                todo.extend(i for i, _ in m)
        for f in at.facts:
            todo.extend(f.atoms())
    return out


# ------------------------------------------------------------------------- booleans


class B:
    """Symbolic condition."""

    __slots__ = ("k", "a", "_key")
    __array_priority__ = 5

    def __init__(self, k, a):
        self.k = k
        self.a = a
        self._key = None

    @staticmethod
    def const(v):
        return TRUE if v else FALSE

    @staticmethod
    def raw(op, p):
        return B("cmp", (op, p))

    @staticmethod
    def cmp(op, p):
        if not p:
            return B.const(op in ("<=", "=="))
        if len(p) == 1 and EMPTY in p:
            c = p[EMPTY]
            return B.const({"<": c < 0, "<=": c <= 0, "==": c == 0}[op])
        sg = psign(p)
        if sg is not None:
            if sg == "+":
                return FALSE
            if sg == "-":
                return B.const(op != "==")
            if sg == "0+":
                if op == "<":
                    return FALSE
                if op == "<=":
                    op = "=="
            if sg == "0-" and op == "<=":
                return TRUE
        # canonical scale
        c, mono, q = primitive(p)
        if op == "==":
            lead = min(q)
            if q[lead] < 0:
                q = pscale(q, -1)
        return B("cmp", (op, q))

    def truth(self):
        if self.k == "true":
            return True
        if self.k == "false":
            return False
        return None

    def key(self):
        if self._key is None:
            if self.k == "cmp":
                self._key = ("cmp", self.a[0], pkey(self.a[1]))
            elif self.k in ("true", "false"):
                self._key = (self.k,)
            elif self.k == "bvar":
                self._key = ("bvar", self.a)
            elif self.k == "not":
                self._key = ("not", self.a.key())
            else:
                self._key = (self.k, tuple(x.key() for x in self.a))
        return self._key

    def atoms(self):
        if self.k == "cmp":
            return {k for m in self.a[1] for k, _ in m}
        if self.k in ("true", "false", "bvar"):
            return set()
        if self.k == "not":
            return self.a.atoms()
        out = set()
        for x in self.a:
            out |= x.atoms()
        return out

    def __invert__(self):
        if self.k == "true":
            return FALSE
        if self.k == "false":
            return TRUE
        if self.k == "not":
            return self.a
        if self.k == "cmp":
            op, p = self.a
            if op == "<":
                return B("cmp", ("<=", pscale(p, -1)))
            if op == "<=":
                return B("cmp", ("<", pscale(p, -1)))
        return B("not", self)

    def __and__(self, o):
        if _has_arr(o):
            return NotImplemented
        o = as_b(o)
        if self.k == "false" or o.k == "false":
            return FALSE
        if self.k == "true":
            return o
        if o.k == "true":
            return self
        xs = (list(self.a) if self.k == "and" else [self]) + (
            list(o.a) if o.k == "and" else [o]
        )
        return B("and", tuple(xs))

    __rand__ = __and__

    def __or__(self, o):
        if _has_arr(o):
            return NotImplemented
        o = as_b(o)
        if self.k == "true" or o.k == "true":
            return TRUE
        if self.k == "false":
            return o
        if o.k == "false":
            return self
        xs = (list(self.a) if self.k == "or" else [self]) + (
            list(o.a) if o.k == "or" else [o]
        )
        return B("or", tuple(xs))

    __ror__ = __or__

    def __xor__(self, o):
        o = as_b(o)
        return (self & ~o) | (~self & o)

    __rxor__ = __xor__

    def __bool__(self):
        t = self.truth()
        if t is not None:
            return t
        if ENG is None:
            raise Unsupported("symbolic truth value outside an engine")
        return ENG.decide(self)

    def to_sym(self):
        """0/1 value; forks on small conditions, keeps large ones as a defined value."""
        if self.size() > 24 and (ENG is None or ENG.known(self) is None):
            return ite(self, Sym.of(1), Sym.of(0))
        return Sym.of(1 if bool(self) else 0)

    def size(self):
        if self.k == "cmp":
            return len(self.a[1])
        if self.k in ("and", "or"):
            return sum(x.size() for x in self.a)
        if self.k == "not":
            return self.a.size()
        return 1

    # arithmetic on booleans
    def __add__(self, o):
        if _has_arr(o):
            return NotImplemented
        return self.to_sym() + o

    __radd__ = __add__

    def __mul__(self, o):
        if _has_arr(o):
            return NotImplemented
        return self.to_sym() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        if _has_arr(o):
            return NotImplemented
        return self.to_sym() - o

    def __rsub__(self, o):
        if _has_arr(o):
            return NotImplemented
        return o - self.to_sym()

    def __eq__(self, o):
        if isinstance(o, B):
            return ~(self ^ o)
        if isinstance(o, bool):
            return self if o else ~self
        if _has_arr(o):
            return NotImplemented
        if o is None or isinstance(o, str):
            return FALSE
        return self.to_sym() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~as_b(r)

    __hash__ = object.__hash__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    all = any

    def astype(self, dt):
        import numpy as np

        if np.dtype(dt) == np.dtype(bool):
            return self
        return self.to_sym()

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def __repr__(self):
        if self.k == "cmp":
            return "(%s %s 0)" % (pstr(self.a[1]), self.a[0])
        if self.k in ("true", "false"):
            return self.k
        if self.k == "not":
            return "not %r" % (self.a,)
        if self.k == "bvar":
            return str(self.a)
        return "(" + (" %s " % self.k).join(repr(x) for x in self.a) + ")"


TRUE = B("true", None)
FALSE = B("false", None)


def as_b(x):
    if isinstance(x, B):
        return x
    if isinstance(x, Sym):
        return x != 0
    return B.const(bool(x))


def conj(xs):
    r = TRUE
    for x in xs:
        r = r & as_b(x)
    return r


def disj(xs):
    r = FALSE
    for x in xs:
        r = r | as_b(x)
    return r


# --------------------------------------------------------------------------- engine


class Engine:
    """Explores all paths of a harness and discharges its assertions."""

    def __init__(self, deadline=None, quick_ms=1500, hard_ms=20000, max_paths=4000):
        self.reg = Registry()
        self.deadline = deadline
        self.quick_ms = quick_ms
        self.hard_ms = hard_ms
        self.max_paths = max_paths
        self.stats = dict(
            queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, branch_queries=0,
            branch_unknown=0, paths=0, infeasible_paths=0, bound_paths=0, excluded_paths=0,
            closed_form=0, checks=0,
        )
        self.zcache = {}
        self.monos = {}
        self.split_max = False
        self.path = []  # list of B (path condition incl. assumptions)
        self.decisions = []
        self.prefix = []
        self.pos = 0
        self.known_keys = {}
        self.solver = None
        self.asserted = set()
        self.notes = {}

    # -- z3 translation --
    def zatom(self, k):
        a = self.reg.atoms[k]
        if a.z is None:
            if a.integer:
                a.z = z3.ToReal(z3.Int("i!%s!%d" % (a.name[:24], k)))
            else:
                a.z = z3.Real("a!%s!%d" % (a.name[:24], k))
        return a.z

    def zpoly(self, p):
        terms = []
        for m, c in p.items():
            fs = []
            for k, e in m:
                z = self.zatom(k)
                for _ in range(e):
                    fs.append(z)
            if not fs:
                terms.append(z3.RealVal(str(c)))
            else:
                t = fs[0] if len(fs) == 1 else z3.Product(*fs)
                if c != 1:
                    t = z3.RealVal(str(c)) * t
                terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def zlin(self, p):
        """Linear abstraction: every nonlinear monomial is a variable of its own."""
        terms = []
        for m, c in p.items():
            if not m:
                terms.append(z3.RealVal(str(c)))
                continue
            if len(m) == 1 and m[0][1] == 1:
                z = self.zatom(m[0][0])
            else:
                z = self.monos.get(m)
                if z is None:
                    z = self.monos[m] = z3.Real("mono!%d" % len(self.monos))
            terms.append(z if c == 1 else z3.RealVal(str(c)) * z)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def zbl(self, b):
        if b.k == "not":
            return z3.Not(self.zbl(b.a))
        if b.k == "and":
            return z3.And(*[self.zbl(x) for x in b.a])
        if b.k == "or":
            return z3.Or(*[self.zbl(x) for x in b.a])
        if b.k != "cmp":
            return self.zb(b)
        op, p = b.a
        key = (op, pkey(p), "lin")
        r = self.zcache.get(key)
        if r is None:
            e = self.zlin(self.normalised(clear_neg(p)))
            r = e < 0 if op == "<" else (e <= 0 if op == "<=" else e == 0)
            self.zcache[key] = r
        return r

    def normalised(self, p):
        """p divided by the positive factor of its defined values (absolute values, maxima)."""
        best = None
        for m in p:
            d = [(k, e) for k, e in m if self.reg.atoms[k].kind == "def"]
            if len(d) != 1 or d[0][1] != 1:
                continue
            rest = tuple((k, e) for k, e in m if k != d[0][0])
            if not all(self.reg.atoms[k].pos for k, _ in rest):
                continue
            if best is None or d[0][0] > best[0]:
                best = (d[0][0], rest)
        if best is None or not best[1]:
            return p
        f = dict(best[1])
        out = {}
        for m, c in p.items():
            g = dict(m)
            for k, e in f.items():
                g[k] = g.get(k, 0) - e
                if g[k] == 0:
                    del g[k]
            m2 = tuple(sorted(g.items()))
            out[m2] = out.get(m2, 0) + c
        return out

    def linear_unsat(self, core_b, ms):
        """Is the linear abstraction of the query already unsatisfiable?  (sound)"""
        seen, todo, zs, used = set(), [], [], set()
        for b in core_b:
            todo.extend(b.atoms())
            zs.append(self.zbl(b))
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            a = self.reg.atoms[k]
            if a.pos:
                zs.append(self.zatom(k) > 0)
            elif a.nonneg:
                zs.append(self.zatom(k) >= 0)
            for f in a.facts:
                zs.append(self.zbl(f))
                todo.extend(f.atoms())
        for m, z in self.monos.items():
            if all(self.reg.atoms[k].pos for k, e in m):
                zs.append(z > 0)
            elif all(self.reg.atoms[k].pos or self.reg.atoms[k].nonneg or e % 2 == 0 for k, e in m):
                zs.append(z >= 0)
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", int(ms))
        s.add(*zs)
        return str(s.check()) == "unsat"

    def zb(self, b, raw=False):
        if b.k == "true":
            return z3.BoolVal(True)
        if b.k == "false":
            return z3.BoolVal(False)
        if b.k == "bvar":
            return z3.Bool(b.a)
        if b.k == "not":
            return z3.Not(self.zb(b.a, raw))
        if b.k == "and":
            return z3.And(*[self.zb(x, raw) for x in b.a])
        if b.k == "or":
            return z3.Or(*[self.zb(x, raw) for x in b.a])
        op, p = b.a
        key = (op, pkey(p), raw)
        r = self.zcache.get(key)
        if r is None:
            q = clear_neg(p) if raw else self.cleared(p)
            e = self.zpoly(q)
            r = e < 0 if op == "<" else (e <= 0 if op == "<=" else e == 0)
            self.zcache[key] = r
        return r

    def cleared(self, p):
        """Denominator-free form with the same relation to zero (if it stays small)."""
        if any(self.reg.atoms[k].kind == "inv" for m in p for k, _ in m):
            try:
                q = clear_inv(p)
                if len(q) <= max(600, 4 * len(p)):
                    return q
            except Unsupported:
                pass
        return clear_neg(p)

    def facts_for(self, bs):
        """Defining facts (and positivity) of every atom reachable from the formulas."""
        seen = set()
        todo = []
        for b in bs:
            todo.extend(b.atoms())
        out = []
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            a = self.reg.atoms[k]
            if a.pos:
                out.append(self.zatom(k) > 0)
            elif a.nonneg:
                out.append(self.zatom(k) >= 0)
            for f in a.facts:
                out.append(self.zb(f, raw=True))
                todo.extend(f.atoms())
        return out, seen

    # -- path handling --
    def _reset_path(self):
        self.path = []
        self.known_keys = {}
        self.decisions = []
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.quick_ms)
        self.asserted = set()

    def _sync(self, bs):
        facts, seen = self.facts_for(bs)
        for k in seen:
            pass
        for f in facts:
            h = f.get_id()
            if h not in self.asserted:
                self.asserted.add(h)
                self.solver.add(f)
                self._keep = getattr(self, "_keep", [])
                self._keep.append(f)

    def add_path(self, b):
        if b.k == "and":
            for x in b.a:
                self.add_path(x)
            return
        if b.k == "true":
            return
        self.path.append(b)
        self.known_keys[b.key()] = True
        self.known_keys[(~b).key()] = False
        if b.k == "cmp" and b.a[0] == "<":
            # strict implies non-strict
            self.known_keys[("cmp", "<=", pkey(b.a[1]))] = True
            self.known_keys[(~B("cmp", ("<=", b.a[1]))).key()] = False
            z = B.cmp("==", b.a[1])
            self.known_keys[z.key()] = False
        self._sync([b])
        self.solver.add(self.zb(b))

    def known(self, b):
        return self.known_keys.get(b.key())

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()

    def _quick(self, b):
        """Feasibility of path & b: 'sat' / 'unsat' / 'unknown'."""
        self.tick()
        self._sync([b])
        t = time.time()
        self.solver.push()
        self.solver.add(self.zb(b))
        r = str(self.solver.check())
        self.solver.pop()
        self.stats["branch_queries"] += 1
        self.stats["solver_s"] += time.time() - t
        if r == "unknown":
            self.stats["branch_unknown"] += 1
        return r

    def decide(self, b):
        k = self.known(b)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
        else:
            rt = self._quick(b)
            if rt == "unsat":
                v, forced = False, True
            else:
                rf = self._quick(~b)
                if rf == "unsat":
                    v, forced = True, True
                else:
                    v, forced = True, False
        self.pos += 1
        self.decisions.append((v, forced))
        if len(self.decisions) > 400:
            raise BoundReached("more than 400 branch decisions on one path")
        self.add_path(b if v else ~b)
        return v

    def choose(self, n):
        """Nondeterministic choice among n alternatives (no constraint)."""
        # encoded as unforced binary decisions
        lo, hi = 0, n
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.pos < len(self.prefix):
                v, forced = self.prefix[self.pos]
            else:
                v, forced = True, False
            self.pos += 1
            self.decisions.append((v, forced))
            if v:
                hi = mid
            else:
                lo = mid
        return lo

    def concretize(self, s):
        """Enumerate the feasible integer values of s by forking."""
        for _ in range(64):
            # deterministic candidate: smallest feasible non-negative first
            m = self._model_value(s)
            if m is None:
                raise Infeasible()
            if bool(s == m):
                return int(m)
        raise BoundReached("more than 64 values for a symbolic integer")

    def _model_value(self, s):
        key = ("cv", len(self.decisions), pkey(s.p))
        if self.pos < len(self.prefix):
            v = self.cvals.get(tuple(d for d, _ in self.decisions) + (pkey(s.p),))
            if v is not None:
                return v
        self._sync([s == 0])
        r = self.solver.check()
        self.stats["branch_queries"] += 1
        if str(r) != "sat":
            if str(r) == "unsat":
                return None
            raise Unsupported("cannot enumerate the values of a symbolic integer")
        mv = self.solver.model().eval(self.zpoly(clear_neg(s.p)), model_completion=True)
        v = int(str(mv.as_fraction())) if hasattr(mv, "as_fraction") else int(str(mv))
        self.cvals[tuple(d for d, _ in self.decisions) + (pkey(s.p),)] = v
        return v

    cvals: dict = {}

    def sign_of_denominator(self, q):
        """'+', '-' or None for a denominator; excludes q == 0 from the path."""
        for b, s in ((B.cmp("<=", q), "+"), (B.cmp("<=", pscale(q, -1)), "-")):
            if b.truth() is False:
                return s
            if self.known(b) is False:
                return s
        if self._quick(B.cmp("<=", q)) == "unsat":
            return "+"
        if self._quick(B.cmp("<=", pscale(q, -1))) == "unsat":
            return "-"
        z = B.cmp("==", q)
        if self._quick(z) != "unsat":
            if self.decide(z):
                raise DivZero()
        if self.decide(B.cmp("<", pscale(q, -1))):
            return "+"
        return "-"

    def assume(self, b):
        b = as_b(b)
        if b.k == "true":
            return
        if b.k == "false":
            raise Infeasible()
        k = self.known(b)
        if k is True:
            return
        if k is False:
            raise Infeasible()
        self.add_path(b)
        self.pending_assume = True

    def path_feasible(self):
        self.tick()
        t = time.time()
        r = str(self.solver.check())
        self.stats["branch_queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r

    # -- queries --
    def solve(self, bs, ms=None, extra=()):
        """Check satisfiability of path & bs.  Returns ('sat', model)|('unsat',None)|('unknown',None)."""
        ms = ms or self.hard_ms
        self.tick()
        if self.deadline is not None:
            ms = int(max(200, min(ms, (self.deadline - time.time()) * 1000)))
        self.stats["queries"] += 1
        t0 = time.time()
        forms = list(bs)
        core_b = self.path + forms
        if self.linear_unsat(core_b, min(ms // 3, 3000)):
            self.stats["unsat"] += 1
            self.stats["linear"] = self.stats.get("linear", 0) + 1
            self.stats["solver_s"] += time.time() - t0
            return "unsat", None
        facts, _ = self.facts_for(core_b)
        zs = [self.zb(b) for b in core_b] + facts + list(extra)
        res, model = "unknown", None
        for strat in ("default", "nlsat", "default2"):
            left = ms - (time.time() - t0) * 1000
            if left < 50:
                break
            if strat == "default":
                s = z3.Solver()
                s.set("timeout", int(min(left, max(500, ms // 4))))
            elif strat == "nlsat":
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
                s.set("timeout", int(max(200, left * 0.6)))
            else:
                s = z3.SolverFor("QF_NRA")
                s.set("timeout", int(left))
            try:
                s.add(*zs)
                r = str(s.check())
            except z3.Z3Exception:
                continue
            if r == "sat":
                try:
                    model = s.model()
                except z3.Z3Exception:
                    continue
                res = "sat"
                break
            if r == "unsat":
                res = "unsat"
                break
        self.stats[res] += 1
        self.stats["solver_s"] += time.time() - t0
        return res, model

    # -- exploration --
    def explore(self, fn):
        """Run fn() on every feasible path.  fn must be deterministic given decisions."""
        set_engine(self)
        self.cvals = {}
        stack = [[]]
        while stack:
            self.tick()
            if self.stats["paths"] >= self.max_paths:
                raise Budget()
            self.prefix = stack.pop()
            self._reset_path()
            n0 = len(self.prefix)
            self.stats["paths"] += 1
            try:
                fn()
            except Infeasible:
                self.stats["infeasible_paths"] += 1
            except BoundReached as e:
                self.stats["bound_paths"] += 1
                self.notes.setdefault("bound: " + str(e), 0)
                self.notes["bound: " + str(e)] += 1
            # schedule siblings of decisions beyond the prefix
            d = self.decisions
            for i in range(n0, len(d)):
                v, forced = d[i]
                if not forced:
                    stack.append(d[:i] + [(not v, False)])
