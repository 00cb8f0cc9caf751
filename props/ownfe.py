"""Free energies of user-defined interactions and entropies (used by several properties)."""
from symx.cfg import Config

from .common import energy_spec, grad_spec, matrix, sizes_of, vec


def own(ctx, n=2, inter="own", ent="own", stack=0):
    """Free energies of user-defined interactions and entropies."""
    np = ctx.np
    base_i, base_e = ctx.mod("interaction.base").InteractionBase, ctx.mod("entropy.base").EntropyBase
    a, b = vec(ctx, "a", n, hint=(-1.0, 1.0)), vec(ctx, "b", n, hint=(-1.0, 1.0))
    A, Bv = ctx.arr(a), ctx.arr(b)

    class Cubic(base_i):
        def _energy_impl(self, phis):
            return (A * phis**3).sum(-1)

        def _jacobian_impl(self, phis):
            return 3 * A * phis**2

        def _hessian_impl(self, phis):
            return (6 * A * phis)[..., None] * np.eye(n)

    class Quadratic(base_e):
        def _energy_impl(self, phis):
            return (Bv * phis**2).sum(-1)

        def _jacobian_impl(self, phis):
            return 2 * Bv * phis

        def _hessian_impl(self, phis):
            return (0 * phis + 2 * Bv)[..., None] * np.eye(n)

    chis = matrix(ctx, "chi", n, symmetric=True)
    sizes = sizes_of(ctx, n)
    I = Cubic(n) if inter == "own" else ctx.fl.FloryHugginsInteraction(n, ctx.arr(chis))
    S = Quadratic(n) if ent == "own" else ctx.fl.IdealGasEntropy(n, ctx.arr(sizes))
    fe = ctx.mod("free_energy.base").FreeEnergyBase(I, S)
    k = stack or 1
    phis = [vec(ctx, "phi%d" % q, n, pos=True, hint=(0.05, 1.0)) for q in range(k)]
    f, g, h = [], [], []
    zero = [[0.0] * n for _ in range(n)]
    for p in phis:
        e1 = sum(a[i] * p[i] ** 3 for i in range(n)) if inter == "own" else energy_spec(ctx, p, chis, sizes) - energy_spec(ctx, p, zero, sizes)
        e2 = sum(b[i] * p[i] ** 2 for i in range(n)) if ent == "own" else energy_spec(ctx, p, zero, sizes)
        g1 = [3 * a[i] * p[i] ** 2 if inter == "own" else sum(chis[i][j] * p[j] for j in range(n)) for i in range(n)]
        g2 = [2 * b[i] * p[i] for i in range(n)] if ent == "own" else grad_spec(ctx, p, zero, sizes)
        f.append(e1 + e2)
        g.append([x + y for x, y in zip(g1, g2)])
        h.append([[(6 * a[i] * p[i] if i == j else 0) if inter == "own" else chis[i][j] for j in range(n)] for i in range(n)])
        for i in range(n):
            h[-1][i][i] = h[-1][i][i] + (2 * b[i] if ent == "own" else 1 / (sizes[i] * p[i]))

    def sh(x, *shape):
        return ctx.arr(x) if stack else ctx.arr(x[0])

    x = sh(phis)
    ctx.eq("energy", fe.free_energy_density(x), sh(f))
    ctx.eq("jacobian", fe.jacobian(x), sh(g))
    ctx.eq("hessian", fe.hessian(x), sh(h))
    mu = [[f[q] - sum(phis[q][j] * g[q][j] for j in range(n)) + g[q][i] for i in range(n)] for q in range(k)]
    got = fe.chemical_potentials(x).reshape((k, n))
    ctx.eq("chemical potentials", got, ctx.arr(mu))
    for s in range(n):
        ctx.eq("pressure", fe.pressure(x, s).reshape((k,)), ctx.arr([-m[s] for m in mu]))
        ctx.eq("exchange", fe.exchange_chemical_potentials(x, s), sh([[v - y[s] for v in y] for y in g]))
        keep = [i for i in range(n) if i != s]
        ctx.eq("dependent", fe.jacobian(x, s), sh([[y[i] - y[s] for i in keep] for y in g]))


CONFIGS = [Config("own-%s-%s-n%d%s" % (i, e, n, "-stack" if st else ""), own, dict(n=n, inter=i, ent=e, stack=st))
           for i, e, n, st in (("own", "own", 2, 0), ("own", "fh", 2, 0), ("fh", "own", 3, 0), ("own", "own", 3, 2), ("own", "fh", 3, 2), ("fh", "own", 2, 2))]
