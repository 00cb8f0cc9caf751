"""C03: chemical potentials, exchange chemical potentials and pressure are consistent with the free energy."""
from symx.cfg import Config

from . import ownfe
from .common import energy_spec, grad_spec, make_fe, rows, system, xlx

ID = "C03"
BOUNDS = "1-4 components, single compositions and stacks of 2-3, each solvent index; positive fractions, plus single absent components for the finite entries; own interactions and entropies (arbitrary cubic interaction, quadratic entropy) combined with each other and with the package's, 2-3 components"
OUTSIDE = "larger systems; rounding; the diverging entries of absent components beyond their sign"


def potentials(ctx, kind="fh", n=2, per=None, shape=(), used=False):
    fe, chis, sizes = system(ctx, kind, n, per, symmetric=True, used=used)
    n = len(sizes)
    cnt = 1
    for s in shape:
        cnt *= s
    phis = rows(ctx, "phi", cnt, n, pos=True, hint=(0.05, 1.0))
    arr = ctx.arr(phis).reshape(tuple(shape) + (n,))
    keep = ctx.copy(arr)
    G = [grad_spec(ctx, p, chis, sizes) for p in phis]
    M = []
    for p, g in zip(phis, G):
        f = energy_spec(ctx, p, chis, sizes)
        pg = sum(a * b for a, b in zip(p, g))
        M.append([f - pg + gi for gi in g])
    mu = fe.chemical_potentials(arr)
    ctx.eq("chemical potentials", ctx.np.reshape(mu, (cnt, n)), ctx.arr(M))
    for k in range(n):
        ex = ctx.np.reshape(fe.exchange_chemical_potentials(arr, k), (cnt, n))
        ctx.eq("exchange potentials", ex, ctx.arr([[g[i] - g[k] for i in range(n)] for g in G]))
        ctx.eq("solvent exchange potential is zero", ex[:, k], ctx.arr([0.0] * cnt))
        if n > 1:
            jac = ctx.np.reshape(fe.jacobian(arr, k), (cnt, n - 1))
            for q, i in enumerate([i for i in range(n) if i != k]):
                ctx.eq("exchange potential equals conserved jacobian", ex[:, i], jac[:, q])
        pr = ctx.np.reshape(fe.pressure(arr, k), (cnt,))
        ctx.eq("pressure", pr, ctx.arr([-m[k] for m in M]))
    ctx.eq("input unchanged", arr, keep)


def absent(ctx, n=2, who=0):
    """One component is absent: the others keep finite, correct chemical potentials."""
    fe, chis, sizes = system(ctx, "fh", n, None, symmetric=True)
    phi = [0.0 if i == who else ctx.real("phi_%d" % i, pos=True, hint=(0.05, 1.0)) for i in range(n)]
    f = energy_spec(ctx, phi, chis, sizes)
    pg = 0
    for i in range(n):
        pg = pg + (xlx(ctx, phi[i]) + phi[i]) / sizes[i] + sum(chis[i][j] * phi[j] for j in range(n)) * phi[i]
    mu = ctx.np.reshape(fe.chemical_potentials(ctx.arr([phi])), (n,))
    for i in range(n):
        if i == who:
            ctx.same("absent component has potential minus infinity", ctx.values(mu)[i] == float("-inf"), True)
        else:
            g = (ctx.log(phi[i]) + 1) / sizes[i] + sum(chis[i][j] * phi[j] for j in range(n))
            ctx.eq("present component", mu[i], f - pg + g)


def absent_stack(ctx, n=2, gone=((0, 0),), phases=2):
    """Absent components in some phases only: every entry of every phase, pressure with each solvent."""
    fe, chis, sizes = system(ctx, "fh", n, None, symmetric=True)
    phis = [[0.0 if (p, i) in gone else ctx.real("phi_%d_%d" % (p, i), pos=True, hint=(0.05, 1.0)) for i in range(n)] for p in range(phases)]
    inf = float("inf")
    M, G = [], []
    for phi in phis:
        f = energy_spec(ctx, phi, chis, sizes)
        pg = 0
        for i in range(n):
            pg = pg + (xlx(ctx, phi[i]) + phi[i]) / sizes[i] + sum(chis[i][j] * phi[j] for j in range(n)) * phi[i]
        g = [None if isinstance(phi[i], float) and phi[i] == 0.0 and (len(M), i) in gone else (ctx.log(phi[i]) + 1) / sizes[i] + sum(chis[i][j] * phi[j] for j in range(n)) for i in range(n)]
        G.append(g)
        M.append([None if x is None else f - pg + x for x in g])
    arr = ctx.arr(phis)
    mu = fe.chemical_potentials(arr)
    ctx.same("shape", ctx.shape(mu), (phases, n))
    for k in range(n):
        pr = ctx.np.reshape(fe.pressure(arr, k), (phases,))
        ex = ctx.np.reshape(fe.exchange_chemical_potentials(arr, k), (phases, n))
        for p in range(phases):
            for i in range(n):
                if i == k and M[p][i] is None:
                    ctx.same("absent component has potential minus infinity", ctx.values(mu[p])[i] == -inf, True)
                    ctx.same("absent solvent has infinite pressure", ctx.values(pr)[p] == inf, True)
                elif i == k:
                    ctx.eq("present component", mu[p, i], M[p][i])
                    ctx.eq("pressure", pr[p], -M[p][i])
                elif G[p][i] is None and G[p][k] is not None:
                    ctx.same("exchange against an absent component", ctx.values(ex[p])[i] == -inf, True)
                elif G[p][k] is None and G[p][i] is not None:
                    ctx.same("exchange of an absent solvent", ctx.values(ex[p])[i] == inf, True)
                elif G[p][k] is not None:
                    ctx.eq("exchange potential", ex[p, i], G[p][i] - G[p][k])


def whole(ctx, n=2, phases=2):
    """Whole numbers given as integers mean the same as real ones."""
    up = {(i, j): ctx.integer("k_%d_%d" % (i, j), -2, 3) for i in range(n) for j in range(i + 1)}
    chis = [[up[max(i, j), min(i, j)] for j in range(n)] for i in range(n)]
    sizes = [ctx.integer("s_%d" % i, 1, 3) for i in range(n)]
    fe = make_fe(ctx, "fh", n, ctx.iarr(chis), ctx.iarr(sizes))
    phis = [[ctx.integer("p_%d_%d" % (q, i), 1, 3) for i in range(n)] for q in range(phases)]
    arr = ctx.iarr(phis)
    G = [grad_spec(ctx, p, chis, sizes) for p in phis]
    M = []
    for p, g in zip(phis, G):
        f = energy_spec(ctx, p, chis, sizes)
        pg = sum(a * b for a, b in zip(p, g))
        M.append([f - pg + gi for gi in g])
    ctx.eq("chemical potentials", fe.chemical_potentials(arr), ctx.arr(M))
    for k in range(n):
        ctx.eq("exchange potentials", fe.exchange_chemical_potentials(arr, k), ctx.arr([[g[i] - g[k] for i in range(n)] for g in G]))
        ctx.eq("pressure", fe.pressure(arr, k), ctx.arr([-m[k] for m in M]))


CONFIGS = (
    [Config("fh-n%d-%s" % (n, "x".join(map(str, s)) or "single"), potentials, dict(n=n, shape=s))
     for n, s in ((1, ()), (2, ()), (3, ()), (4, ()), (2, (2,)), (3, (2,)), (2, (3,)), (2, (2, 2)), (3, (3,)), (5, ()))]
    + [Config("block-%s" % "".join(map(str, p)), potentials, dict(kind="block", per=p, shape=s)) for p, s in (([2, 1], ()), ([1, 2], (2,)))]
    + [Config("used-%s" % "".join(map(str, p or [n])), potentials, dict(kind="block" if p else "fh", per=p, n=n, shape=s, used=True))
       for n, p, s in ((2, None, ()), (3, None, (2,)), (0, [2, 1], ()))]
    + [Config("absent-n%d-%d" % (n, w), absent, dict(n=n, who=w)) for n, w in ((2, 0), (2, 1), (3, 1))]
    + [Config("absent-stack-n%d-p%d-%d" % (n, p, q), absent_stack, dict(n=n, phases=p, gone=g))
       for q, (n, p, g) in enumerate(((2, 1, ((0, 0),)), (2, 1, ((0, 1),)), (2, 2, ((0, 0),)), (2, 2, ((1, 1),)), (3, 2, ((0, 1),)), (2, 3, ((0, 0), (1, 1)))))]
    + [Config("whole-n2", whole, dict()), Config("whole-n3", whole, dict(n=3, phases=1))]
    + ownfe.CONFIGS
    + [Config("large-fh-n6-3", potentials, dict(n=6, shape=(3,))), Config("large-block-43", potentials, dict(kind="block", per=[4, 3])), Config("large-fh-n2-9", potentials, dict(n=2, shape=(9,)))]
)
