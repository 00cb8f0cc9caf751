"""C08: grouped (block / polydispersed) descriptions equal the explicit description of every component."""
from symx.cfg import Config

from . import mstep
from .common import block_chis, expand, matrix, rows, sizes_of, vec

ID = "C08"
BOUNDS = "1-3 features with 0-3 components each (up to 6 components); group sizes as array, list or one integer; all chi, sizes, fractions, fields, volumes; 1-3 compartments"
OUTSIDE = "larger systems"
REPLAY_PROCS = 3


def analysis(ctx, per=(2, 1), arg="array", shape=()):
    """energy, derivatives and potentials equal those of the expanded Flory-Huggins mixture"""
    fl = ctx.fl
    per = list(per)
    chis = matrix(ctx, "chi", len(per))
    n = sum(per)
    sizes = sizes_of(ctx, n)
    a = per[0] if arg == "int" else (per if arg == "list" else ctx.np.array(per))
    fe = fl.FreeEnergyBase(
        fl.FloryHugginsBlockInteraction(len(per), ctx.arr(chis), a),
        fl.IdealGasPolydispersedEntropy(len(per), ctx.arr(sizes), a))
    ref = fl.FloryHuggins(n, ctx.arr(block_chis(chis, per)), ctx.arr(sizes))
    ctx.same("number of components", int(fe.num_comp), n)
    cnt = 1
    for s in shape:
        cnt *= s
    phis = ctx.arr(rows(ctx, "phi", cnt, n, pos=True, hint=(0.05, 1.0))).reshape(tuple(shape) + (n,))
    ctx.eq("interaction matrix", fe.interaction.chis, ref.interaction.chis)
    ctx.eq("energy", fe.free_energy_density(phis), ref.free_energy_density(phis))
    ctx.eq("jacobian", fe.jacobian(phis), ref.jacobian(phis))
    ctx.eq("hessian", fe.hessian(phis), ref.hessian(phis))
    ctx.eq("chemical potentials", fe.chemical_potentials(phis), ref.chemical_potentials(phis))


def after_set(ctx, per=(1, 2)):
    """changing the feature matrix changes the component matrix"""
    fl = ctx.fl
    per = list(per)
    o = fl.FloryHugginsBlockInteraction(len(per), 0.0, ctx.np.array(per))
    chis = matrix(ctx, "chi", len(per))
    o.chis_feat = ctx.arr(chis)
    ref = fl.FloryHugginsInteraction(sum(per), ctx.arr(block_chis(chis, per)))
    ctx.eq("interaction matrix", o.chis, ref.chis)
    phi = ctx.arr(vec(ctx, "phi", sum(per), nonneg=True, hint=(0.0, 1.0)))
    pf = ctx.arr([[sum(phi[i] for i in range(sum(per)) if expand(per)[i] == r)] for r in range(len(per))])
    full = ref.compiled().potential(ctx.arr([[phi[i]] for i in range(sum(per))]))
    got = o.compiled().potential(pf)
    for i, r in enumerate(expand(per)):
        ctx.eq("potential", got[r, 0], full[i, 0])


def weights(ctx, per=(2, 1), M=2):
    """Boltzmann weights, averages and feature fractions of the grouped entropy"""
    fl = ctx.fl
    per = list(per)
    n, f = sum(per), expand(per)
    sizes = sizes_of(ctx, n)
    g = fl.IdealGasPolydispersedEntropy(len(per), ctx.arr(sizes), ctx.np.array(per)).compiled()
    e = fl.IdealGasEntropy(n, ctx.arr(sizes)).compiled()
    w = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.0, 1.0)) for m in range(M)] for r in range(len(per))]
    J = ctx.arr([ctx.real("J_%d" % m, pos=True) for m in range(M)])
    p1, p2 = ctx.zeros((n, M)), ctx.zeros((n, M))
    q1 = g.partition(p1, ctx.arr(w), J)
    q2 = e.partition(p2, ctx.arr([w[r] for r in f]), J)
    ctx.eq("weights", p1, p2)
    ctx.eq("averages", q1, q2)
    ctx.same("counts", (int(g.num_comp), int(g.num_feat)), (n, len(per)))
    phi = ctx.arr(rows(ctx, "phi", n, M, nonneg=True, hint=(0.0, 1.0)))
    keep = ctx.copy(phi)
    pf = ctx.arr(rows(ctx, "junk", len(per), M))
    g.comp_to_feat(pf, phi)
    for r in range(len(per)):
        for m in range(M):
            ctx.eq("feature fraction", pf[r, m], sum(phi[i, m] for i in range(n) if f[i] == r))
    ctx.eq("volume derivative", g.volume_derivative(phi), e.volume_derivative(phi))
    ctx.eq("argument unchanged", phi, keep)


def step_equal(ctx, n=2, M=2, ens="can", group=None):
    """With one component per feature both descriptions give the same step."""
    s = mstep.System(ctx, n=n, ens=ens)
    t = mstep.System(ctx, per=[1] * n, ens=ens)
    om, J = mstep.fields(ctx, s, M)
    aJ, aw = ctx.real("aJ", pos=True, hint=(1e-3, 0.2)), ctx.real("aw", pos=True, hint=(1e-3, 0.2))
    a = mstep.run(ctx, s, om, J, aJ=aJ, aw=aw)
    b = mstep.run(ctx, t, om, J, aJ=aJ, aw=aw)
    ctx.eq("fractions", b.phis_comp, a.phis_comp)
    ctx.eq("feature fractions", b.phis_feat, a.phis_feat)
    ctx.eq("fields", b.omegas, a.omegas)
    ctx.eq("volumes", b.Js, a.Js)
    ctx.eq("errors", ctx.arr([b.incomp, b.werr, b.jerr]), ctx.arr([a.incomp, a.werr, a.jerr]))


CONFIGS = (
    [Config("analysis-%s-%s-%s" % ("".join(map(str, p)), a, "x".join(map(str, s))), analysis, dict(per=p, arg=a, shape=s))
     for p, a, s in (((2, 1), "array", ()), ((1, 2), "list", ()), ((1, 1), "array", ()), ((3,), "int", ()), ((2, 2), "int", ()), ((1, 3, 2), "array", ()), ((2, 1), "array", (2,)), ((1, 2, 1), "list", (2,)), ((1,), "array", (2,)), ((3, 3), "int", ()), ((3, 3), "array", ()), ((2, 0), "array", ()), ((0, 1, 2), "list", (2,)))]
    + [Config("set-%s" % "".join(map(str, p)), after_set, dict(per=p)) for p in ((1, 2), (2, 1), (2, 1, 1), (1, 3), (3, 3), (1, 0, 2))]
    + [Config("weights-%s-m%d" % ("".join(map(str, p)), M), weights, dict(per=p, M=M)) for p, M in (((2, 1), 2), ((1, 2), 2), ((1, 1), 1), ((3,), 2), ((1, 3, 2), 2), ((2, 2, 1), 3), ((1, 1, 1), 2), ((3, 3), 2), ((1, 0, 2), 2), ((0, 2), 2), ((2, 0), 1))]
    + [Config("step-n%d-m%d-%s" % (n, M, e), step_equal, dict(n=n, M=M, ens=e, group="step")) for n, M, e in ((2, 2, "can"), (3, 2, "can"), (2, 1, "can"))]
    + [Config("large-analysis", analysis, dict(per=(5, 4), arg="array", shape=(3,))), Config("large-weights", weights, dict(per=(4, 3), M=6))]
)
