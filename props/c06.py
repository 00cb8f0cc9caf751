"""C06: invalid compositions are rejected, valid ones are accepted unchanged."""
from symx.cfg import Config

from .common import system, rows

ID = "C06"
BOUNDS = "1-3 components; arrays of 1-3 dimensions; any real entries, one or several of them negative, any wrong length up to 4; every public analysis function"
OUTSIDE = "NaN entries; longer arrays"

METHODS = ("free_energy_density", "jacobian", "hessian", "chemical_potentials", "exchange_chemical_potentials", "pressure", "num_unstable_modes", "is_stable", "equilibration_error")

VARIANTS = ("jacobian:0", "jacobian:1", "hessian:0", "hessian:1", "exchange_chemical_potentials:1", "pressure:1", "num_unstable_modes:free", "is_stable:free", "equilibration_error:axis0", "equilibration_error:axisall")


def call(fe, m, arr):
    m, _, v = m.partition(":")
    f = getattr(fe, m)
    if v == "free":
        return f(arr, False)
    if v.startswith("axis"):
        return f(arr, axis={"axis0": 0, "axisall": None}[v])
    if v:
        return f(arr, int(v))
    return f(arr, 0) if m in ("exchange_chemical_potentials", "pressure") else f(arr)


def negative(ctx, method="jacobian", n=2, shape=(), kind="fh", per=None):
    """Some entry is negative, all others are arbitrary: the call raises the dedicated error."""
    fe, _, sizes = system(ctx, kind, n, per, symmetric=True)
    n = len(sizes)
    cnt = 1
    for s in shape:
        cnt *= s
    x = [ctx.real("x_%d" % i, hint=(-0.5, 1.0)) for i in range(cnt * n)]
    ctx.assume(ctx.either(*[v < 0 for v in x]))
    arr = ctx.arr(x).reshape(tuple(shape) + (n,))
    err = ctx.mod("common.exceptions").VolumeFractionError
    ctx.raises("negative fraction is rejected", err, lambda: call(fe, method, arr))


def wrong_size(ctx, method="jacobian", n=2, m=3, shape=()):
    fe, _, _ = system(ctx, "fh", n, None, symmetric=True)
    cnt = 1
    for s in shape:
        cnt *= s
    x = [ctx.real("x_%d" % i, pos=True, hint=(0.05, 1.0)) for i in range(cnt * m)]
    err = ctx.mod("common.exceptions").VolumeFractionError
    ctx.raises("wrong number of components is rejected", err, lambda: call(fe, method, ctx.arr(x).reshape(tuple(shape) + (m,))))
    ctx.true("error is a ValueError", issubclass(err, ValueError))


def accepted(ctx, n=2, shape=()):
    """Non-negative fractions of the right length pass unchanged, also beyond one."""
    fe, _, _ = system(ctx, "fh", n, None, symmetric=True)
    cnt = 1
    for s in shape:
        cnt *= s
    x = ctx.arr([ctx.real("x_%d" % i, nonneg=True, hint=(0.0, 3.0)) for i in range(cnt * n)]).reshape(tuple(shape) + (n,))
    got = ctx.returns("valid fractions are accepted", lambda: fe.check_volume_fractions(x))
    if got is not None:
        ctx.eq("valid fractions are returned", got, x, rtol=0, atol=0)
    ctx.returns("valid fractions are accepted", lambda: fe.free_energy_density(x))


def axis0(ctx, n=2, m=3):
    """The component axis can be chosen."""
    fe, _, _ = system(ctx, "fh", n, None, symmetric=True)
    err = ctx.mod("common.exceptions").VolumeFractionError
    x = ctx.arr([[ctx.real("x_%d_%d" % (i, j), nonneg=True, hint=(0.0, 1.0)) for j in range(m)] for i in range(n)])
    got = ctx.returns("valid fractions are accepted", lambda: fe.check_volume_fractions(x, axis=0))
    if got is not None:
        ctx.eq("valid fractions are returned", got, x, rtol=0, atol=0)
    if n != m:
        ctx.raises("wrong axis is rejected", err, lambda: fe.check_volume_fractions(x, axis=1))


def mismatch(ctx, a=2, b=3):
    """Interaction and entropy of different size do not combine."""
    fl = ctx.fl
    err = ctx.mod("common.exceptions").ComponentNumberError
    chi, l = ctx.real("chi"), ctx.real("l", pos=True)
    ctx.raises("size mismatch", err, lambda: fl.FreeEnergyBase(fl.FloryHugginsInteraction(a, chi), fl.IdealGasEntropy(b, l)))
    ctx.raises("size mismatch", err, lambda: fl.FreeEnergyBase(
        fl.FloryHugginsBlockInteraction(a, chi, 2), fl.IdealGasEntropy(a, l)))


CONFIGS = (
    [Config("negative-%s" % m, negative, dict(method=m, n=2, shape=(2,) if m == "equilibration_error" else ()), points=8) for m in METHODS]
    + [Config("negative-n%d-%s" % (n, "x".join(map(str, s))), negative, dict(n=n, shape=s, method=m), points=8)
       for n, s, m in ((1, (), "free_energy_density"), (3, (), "hessian"), (2, (2,), "free_energy_density"), (2, (2, 2), "free_energy_density"), (3, (2,), "chemical_potentials"))]
    + [Config("negative-%s" % m.replace(":", "-"), negative, dict(method=m, n=2, shape=(2,) if m.startswith("equ") else ()), points=8) for m in VARIANTS]
    + [Config("size-%s" % m.replace(":", "-"), wrong_size, dict(method=m, n=2, m=3, shape=(2,) if m.startswith("equ") else ())) for m in VARIANTS]
    + [Config("negative-stack-%s" % m.replace(":", "-"), negative, dict(method=m, n=2, shape=(2,)), points=8) for m in METHODS[1:-1] + VARIANTS[:-2]]
    + [Config("negative-block", negative, dict(kind="block", per=[2, 1], method="free_energy_density"), points=8)]
    + [Config("size-%s" % m, wrong_size, dict(method=m, n=2, m=3, shape=(2,) if m == "equilibration_error" else ())) for m in METHODS]
    + [Config("size-n%d-m%d-%s" % (n, m, "x".join(map(str, s))), wrong_size, dict(n=n, m=m, shape=s, method="free_energy_density"))
       for n, m, s in ((2, 1, ()), (3, 2, ()), (3, 4, ()), (2, 3, (2,)), (3, 2, (3,)), (3, 1, ()), (2, 4, (2, 2)))]
    + [Config("accepted-n%d-%s" % (n, "x".join(map(str, s))), accepted, dict(n=n, shape=s), points=8) for n, s in ((1, ()), (2, ()), (3, ()), (2, (2,)))]
    + [Config("axis0-%d%d" % (n, m), axis0, dict(n=n, m=m)) for n, m in ((2, 3), (3, 2), (2, 2))]
    + [Config("mismatch", mismatch), Config("mismatch-31", mismatch, dict(a=3, b=1))]
    + [Config("large-negative", negative, dict(n=2, shape=(6,), method="free_energy_density"), points=8), Config("large-negative-n7", negative, dict(n=7, method="free_energy_density"), points=8)]
)
