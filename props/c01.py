"""C01: free-energy density is the documented Flory-Huggins expression."""
from symx.cfg import Config

from .common import block_chis, energy_spec, make_fe, matrix, rows, sizes_of, sym_chis, system, vec

ID = "C01"
BOUNDS = "1-6 components (features up to 3 with up to 3 components each); compositions as 1D, 2D (<=3 phases) and 3D (2x2) arrays; all real chi, all positive sizes, all fractions >= 0 including exact zeros"
OUTSIDE = "more components/phases than listed; rounding; NaN and infinite inputs"


def energy(ctx, kind="fh", n=2, shape=(), per=None, symmetric=False, pos=False, used=False):
    fe, chis, sizes = system(ctx, kind, n, per, symmetric, used)
    n = len(sizes)
    cnt = 1
    for s in shape:
        cnt *= s
    phis = rows(ctx, "phi", cnt, n, nonneg=True, pos=pos, hint=(0.01 if pos else 0.0, 1.0))
    got = fe.free_energy_density(ctx.arr(phis).reshape(tuple(shape) + (n,)))
    ctx.same("shape", ctx.shape(got), tuple(shape))
    want = [energy_spec(ctx, p, chis, sizes) for p in phis]
    ctx.eq("energy", ctx.np.reshape(got, (cnt,)), ctx.arr(want))


def scalars(ctx, n=2, how=0):
    """Scalar chi / sizes are broadcast; sizes default to one; lists are accepted."""
    chi = ctx.real("chi", hint=(-2.0, 4.0))
    l = ctx.real("l", pos=True, hint=(0.5, 3.0))
    phi = vec(ctx, "phi", n, nonneg=True, hint=(0.0, 1.0))
    if how == 0:
        fe, sizes = ctx.fl.FloryHuggins(n, chi), [1] * n
    elif how == 1:
        fe, sizes = ctx.fl.FloryHuggins(n, chi, l), [l] * n
    else:
        fe, sizes = ctx.fl.FloryHuggins.from_uniform(n, chi, sizes=ctx.arr([l] * n), vanishing_diagonal=False), [l] * n
    got = fe.free_energy_density(ctx.arr(phi) if how else phi)
    ctx.eq("energy", got, energy_spec(ctx, phi, [[chi] * n] * n, sizes))


def whole(ctx, n=2, block=False, which="all"):
    """Numbers that are whole and given as integers mean the same as real ones."""
    per = [2] + [1] * (n - 1) if block else None
    N = sum(per) if block else n
    if which in ("all", "chi"):
        chis = [[ctx.integer("k_%d_%d" % (i, j), -3, 3) for j in range(n)] for i in range(n)]
    else:
        chis = matrix(ctx, "chi", n)
    sizes = [ctx.integer("s_%d" % i, 1, 4) for i in range(N)] if which in ("all", "size") else sizes_of(ctx, N)
    phi = [ctx.integer("p_%d" % i, 0, 2) for i in range(N)] if which in ("all", "phi") else vec(ctx, "phi", N, pos=True, hint=(0.05, 1.0))
    ci = ctx.iarr(chis) if which in ("all", "chi") else chis
    si = ctx.iarr(sizes) if which in ("all", "size") else sizes
    fe = make_fe(ctx, "block" if block else "fh", n, ci, si, per)
    c = sym_chis(chis)
    ctx.eq("energy", fe.free_energy_density(ctx.iarr(phi) if which in ("all", "phi") else ctx.arr(phi)), energy_spec(ctx, phi, block_chis(c, per) if block else c, sizes))


def after_setters(ctx, n=2, block=False, ints=False):
    """Parameters assigned later replace the old ones completely."""
    per = [2] + [1] * (n - 1) if block else None
    if ints:
        N = sum(per) if block else n
        fe = make_fe(ctx, "block" if block else "fh", n, ctx.iarr([[0 if i == j else 1 for j in range(n)] for i in range(n)]), ctx.iarr([1 + i for i in range(N)]), per)
    else:
        fe, _, _ = system(ctx, "block" if block else "fh", n, per)
    chis = matrix(ctx, "chinew", n)
    sizes = sizes_of(ctx, sum(per) if block else n, "lnew")
    if block:
        fe.entropy.sizes = ctx.arr(sizes)
        fe.interaction.chis_feat = ctx.arr(chis)
        c = block_chis(sym_chis(chis), per)
    else:
        a, b = ctx.arr(sizes), ctx.arr(chis)
        fe.sizes = a
        fe.chis = b
        a[0], b[0, 0] = 7.0, 9.0  # the caller's arrays are not shared
        c = sym_chis(chis)
    phi = vec(ctx, "phi", len(sizes), nonneg=True, hint=(0.0, 1.0))
    ctx.eq("energy", fe.free_energy_density(ctx.arr(phi)), energy_spec(ctx, phi, c, sizes))


CONFIGS = (
    [Config("fh-n%d-%s" % (n, "x".join(map(str, s)) or "single"), energy, dict(n=n, shape=s))
     for n, s in ((1, ()), (2, ()), (3, ()), (4, ()), (2, (2,)), (3, (2,)), (1, (2, 2)), (2, (1,)), (1, (3,)), (5, ()))]
    + [Config("fh-pos-n%d-%s" % (n, "x".join(map(str, s))), energy, dict(n=n, shape=s, pos=True, symmetric=True))
       for n, s in ((3, (3,)), (2, (2, 2)), (7, ()), (2, (2, 1, 2)), (3, (5,)), (10, ()))]
    + [Config("block-%s" % "".join(map(str, p)), energy, dict(kind="block", per=p, shape=s))
       for p, s in (([2, 1], ()), ([1, 2], (2,)), ([2, 2], ()), ([1, 1, 1], ()), ([3, 1], ()), ([1, 1, 2], ()))]
    + [Config("used-%s" % "".join(map(str, p or [n])), energy, dict(kind="block" if p else "fh", per=p, n=n, shape=s, used=True, pos=True))
       for n, p, s in ((2, None, ()), (3, None, (2,)), (0, [2, 1], ()))]
    + [Config("scalars-%d" % h, scalars, dict(n=2 + h % 2, how=h)) for h in range(3)]
    + [Config("setters-fh", after_setters, dict(n=2)), Config("setters-block", after_setters, dict(n=2, block=True)),
       Config("setters-int-fh", after_setters, dict(n=3, ints=True)), Config("setters-int-block", after_setters, dict(n=2, block=True, ints=True))]
    + [Config("whole-%s-%s" % (w, "block" if b else "fh"), whole, dict(which=w, block=b)) for w in ("all", "chi", "size", "phi") for b in (False, True)]
    + [Config("fh-n6", energy, dict(n=6), thorough=True, budget=100), Config("fh-n3-2x2", energy, dict(n=3, shape=(2, 2)), thorough=True, budget=100),
       Config("block-322", energy, dict(kind="block", per=[3, 2, 2]), thorough=True, budget=100)]
    + [Config("large-fh-n9-6", energy, dict(n=9, shape=(6,), pos=True, symmetric=True)), Config("large-block-543", energy, dict(kind="block", per=[5, 4, 3], pos=True, symmetric=True)),
       Config("large-fh-n2-17", energy, dict(n=2, shape=(17,), pos=True, symmetric=True))]
)
