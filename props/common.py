"""Specifications and helpers shared by the harnesses (used on both sides)."""


def xlx(ctx, x):
    """x ln x with the limit 0 at x = 0."""
    if x == 0:
        return 0
    return x * ctx.log(x)


def sym_chis(chis):
    n = len(chis)
    return [[(chis[i][j] + chis[j][i]) / 2 for j in range(n)] for i in range(n)]


def energy_spec(ctx, phi, chis, sizes):
    """sum phi ln phi / l + 1/2 sum chi phi phi (chis symmetric)."""
    n = len(phi)
    f = 0
    for i in range(n):
        f = f + xlx(ctx, phi[i]) / sizes[i]
        for j in range(n):
            f = f + chis[i][j] * phi[i] * phi[j] / 2
    return f


def grad_spec(ctx, phi, chis, sizes):
    n = len(phi)
    return [
        (ctx.log(phi[i]) + 1) / sizes[i] + sum(chis[i][j] * phi[j] for j in range(n)) for i in range(n)
    ]


def rows(ctx, name, p, n, **kw):
    return [[ctx.real("%s_%d_%d" % (name, a, b), **kw) for b in range(n)] for a in range(p)]


def vec(ctx, name, n, **kw):
    return [ctx.real("%s_%d" % (name, a), **kw) for a in range(n)]


def matrix(ctx, name, n, symmetric=False, **kw):
    m = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if symmetric and j < i:
                m[i][j] = m[j][i]
            else:
                m[i][j] = ctx.real("%s_%d_%d" % (name, i, j), hint=(-2.0, 4.0), **kw)
    return m


def sizes_of(ctx, n, name="l"):
    return vec(ctx, name, n, pos=True, hint=(0.5, 3.0))


def expand(per):
    """feature index of every component"""
    return [r for r, k in enumerate(per) for _ in range(k)]


def block_chis(chis_feat, per):
    f = expand(per)
    return [[chis_feat[a][b] for b in f] for a in f]


def make_fe(ctx, kind, n, chis, sizes, per=None):
    """Free energy object of the requested kind (chis/sizes as nested lists)."""
    fl = ctx.fl
    chis = chis if hasattr(chis, "shape") else ctx.arr(chis)
    if sizes is not None and not hasattr(sizes, "shape"):
        sizes = ctx.arr(sizes)
    if kind == "fh":
        return fl.FloryHuggins(n, chis, sizes)
    inter = fl.FloryHugginsBlockInteraction(len(per), chis, ctx.np.array(per))
    ent = fl.IdealGasPolydispersedEntropy(len(per), sizes, ctx.np.array(per))
    return fl.FreeEnergyBase(inter, ent)


def use(ctx, fe, n, modes=True):
    """Calls everything once, with some composition (results must not influence later ones)."""
    for k in (1, 2):
        x = ctx.arr([[0.1 + 0.25 * ((i + j) % 3) for i in range(n)] for j in range(k)])
        fe.free_energy_density(x)
        fe.jacobian(x)
        fe.jacobian(x, 0)
        fe.hessian(x)
        fe.hessian(x, 0)
        fe.chemical_potentials(x)
        fe.exchange_chemical_potentials(x, 0)
        fe.pressure(x, 0)
        fe.equilibration_error(x)
        if modes and n <= 2:
            fe.num_unstable_modes(x)
            fe.is_stable(x, False)


def system(ctx, kind, n, per=None, symmetric=True, used=False):
    """(free energy object, component chis, component sizes) of a symbolic system.

    With used, the object (and another one) had other parameters and was evaluated before.
    """
    m, N = (n, n) if kind == "fh" else (len(per), sum(per))
    chis = matrix(ctx, "chi", m, symmetric=symmetric)
    sizes = sizes_of(ctx, N)
    if used:
        old = [[0.5 + 0.25 * (i + j) if i != j else 0.0 for j in range(m)] for i in range(m)]
        fe = make_fe(ctx, kind, n, old, [1.5 + 0.5 * i for i in range(N)], per)
        use(ctx, fe, N)
        other = make_fe(ctx, kind, n, [[2.0] * m] * m, [0.75] * N, per)
        use(ctx, other, N)
        if kind == "fh":
            fe.chis = ctx.arr(chis)
            fe.sizes = ctx.arr(sizes)
        else:
            fe.entropy.sizes = ctx.arr(sizes)
            fe.interaction.chis_feat = ctx.arr(chis)
        use(ctx, fe, N, modes=False)
        use(ctx, other, N)
    else:
        fe = make_fe(ctx, kind, n, chis, sizes, per)
    chis = sym_chis(chis)
    return fe, (chis if kind == "fh" else block_chis(chis, per)), sizes


class unseeded:
    """Generators created without a seed hand out the draws "fresh", those with a fixed number "fixed"."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = 0

    def make(self, seed=None):
        self.calls += 1
        if seed is not None and not isinstance(seed, int):
            return seed if hasattr(seed, "k") else self.old(seed)
        return self.ctx.rng("fresh" if seed is None else "fixed")

    def __enter__(self):
        if self.ctx.sym:
            from symx import snp

            self.where, self.name = snp.Rand, "factory"
        else:
            import numpy

            self.where, self.name = numpy.random, "default_rng"
        self.old = getattr(self.where, self.name)
        setattr(self.where, self.name, self.make)
        return self

    def __exit__(self, *a):
        setattr(self.where, self.name, self.old)
