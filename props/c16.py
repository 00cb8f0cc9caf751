"""C16: what the solver iterates with (compiled components) is the thermodynamics the user sees."""
from symx.cfg import Config

from .common import block_chis, expand, matrix, sizes_of, sym_chis

ID = "C16"
BOUNDS = "1-4 components (groups up to 2+2), 1-3 compartments; all chi (any real matrix handed in), sizes, fractions, fields, volumes; matrices and sizes as scalars, integers, lists, transposed or strided arrays, and after reassignment"
OUTSIDE = "larger systems; rounding; overflow of exponentials"
REPLAY_PROCS = 3


def field_interaction(ctx, per=None, n=2, M=2, shift=None, how="array", group=None):
    """potential and volume derivative are the derivatives of the energy the same object reports"""
    fl = ctx.fl
    F = len(per) if per else n
    chis = matrix(ctx, "chi", F)
    mapping = expand(per) if per else list(range(n))
    N = len(mapping)
    inter = fl.FloryHugginsBlockInteraction(F, ctx.arr(chis), ctx.np.array(per)) if per else fl.FloryHugginsInteraction(n, ctx.arr(chis))
    if how == "set":
        inter = (lambda c: fl.FloryHugginsBlockInteraction(F, c, ctx.np.array(per)) if per else fl.FloryHugginsInteraction(n, c))(0 if shift is None else 1.5)
        inter.compiled()  # what was compiled before the change does not matter
        if per:
            inter.chis_feat = ctx.arr(chis)
        else:
            inter.chis = ctx.arr(chis)
    ent = fl.IdealGasEntropy(N)
    fe = fl.FreeEnergyBase(inter, ent)
    sh = None if shift is None else ctx.real("shift", pos=True, hint=(0.1, 3.0))
    c = inter.compiled() if sh is None else inter.compiled(additional_chis_shift=sh, unrelated=1)
    ctx.same("number of features", int(c.num_feat), F)
    phi = [[ctx.real("phi_%d_%d" % (i, m), pos=True, hint=(0.05, 0.9)) for m in range(M)] for i in range(N)]
    pf = [[sum(phi[i][m] for i in range(N) if mapping[i] == r) for m in range(M)] for r in range(F)]
    p = c.potential(ctx.arr(pf))
    v = c.volume_derivative(p, ctx.arr(pf))
    k = c.incomp_coef(ctx.arr(pf))
    k = ctx.np.broadcast_to(k, (M,))
    for m in range(M):
        col = ctx.arr([phi[i][m] for i in range(N)])
        jac, f = fe.jacobian(col), fe.free_energy_density(col)
        s = 0
        for i in range(N):
            # the ideal part is the documented one
            ctx.eq("potential", p[mapping[i], m], jac[i] - ctx.log(phi[i][m]) - 1)
            s = s + phi[i][m] * ctx.log(phi[i][m])
        ctx.eq("volume derivative", v[m], f - s)
        ctx.true("incompressibility is enforced", k[m] > 0)


def field_entropy(ctx, per=None, n=2, M=2, how="array", alive=None, group=None):
    fl = ctx.fl
    F = len(per) if per else n
    mapping = expand(per) if per else list(range(n))
    N = len(mapping)
    alive = alive or (1,) * M
    cls = (lambda s: fl.IdealGasPolydispersedEntropy(F, s, ctx.np.array(per))) if per else (lambda s: fl.IdealGasEntropy(n, s))
    l = sizes_of(ctx, N)
    if how == "none":
        ent, l = cls(None), [1.0] * N
    elif how == "scalar":
        ent, l = cls(l[0]), [l[0]] * N
    elif how == "int":
        l = [1 + i for i in range(N)]
        ent = cls(l)
    elif how == "list":
        ent = cls(l)
    elif how == "strided":
        ent = cls(ctx.arr([x for v in l for x in (v, 1.0)])[::2])
    elif how == "set":
        ent = cls([1] * N)
        ent.compiled(unrelated=1)
        given = ctx.arr(l)
        ent.sizes = given
        given[0] = 9.0  # the caller's array is not shared
    else:
        given = ctx.arr(l)
        ent = cls(given)
        given[0] = 9.0
    ctx.eq("sizes", ent.sizes, ctx.arr(l))
    c = ent.compiled(unrelated=1)
    ctx.same("number of features", int(c.num_feat), F)
    ctx.same("number of components", int(c.num_comp), N)
    w = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.5, 1.5)) for m in range(M)] for r in range(F)]
    J = [ctx.real("J_%d" % m, pos=True, hint=(0.2, 1.8)) if alive[m] else 0.0 for m in range(M)]
    om, Js = ctx.arr(w), ctx.arr(J)
    p = ctx.zeros((N, M))
    q = c.partition(p, om, Js)
    ctx.eq("fields unchanged", om, ctx.arr(w))
    ctx.eq("volumes unchanged", Js, ctx.arr(J))
    for i in range(N):
        b = [ctx.exp(-l[i] * w[mapping[i]][m]) for m in range(M)]
        ctx.eq("Boltzmann weights", p[i], ctx.arr(b))
        ctx.eq("averages", q[i], sum(b[m] * J[m] for m in range(M)) / sum(J))
    phi = [[ctx.real("phi_%d_%d" % (i, m), nonneg=True, hint=(0.0, 0.9)) for m in range(M)] for i in range(N)]
    pc, pf = ctx.arr(phi), ctx.arr([[ctx.real("old_%d_%d" % (r, m)) for m in range(M)] for r in range(F)])
    c.comp_to_feat(pf, pc)
    ctx.eq("fractions unchanged", pc, ctx.arr(phi))
    v = c.volume_derivative(pc)
    for m in range(M):
        for r in range(F):
            ctx.eq("feature fractions", pf[r, m], sum(phi[i][m] for i in range(N) if mapping[i] == r))
        ctx.eq("volume derivative", v[m], -sum(phi[i][m] / l[i] for i in range(N)))


def inputs(ctx, n=2, how="list", group=None):
    """the way the interaction matrix is handed over does not matter"""
    fl = ctx.fl
    chis = matrix(ctx, "chi", n)
    if how == "list":
        o, want = fl.FloryHugginsInteraction(n, chis), chis
    elif how == "transposed":
        o, want = fl.FloryHugginsInteraction(n, ctx.arr(chis).T), chis
    elif how == "strided":
        o, want = fl.FloryHugginsInteraction(n, ctx.arr([[x for v in r for x in (v, 0.0)] for r in chis])[:, ::2]), chis
    elif how == "int":
        want = [[i * j - i - j for j in range(n)] for i in range(n)]
        o = fl.FloryHugginsInteraction(n, want)
    elif how == "scalar":
        o, want = fl.FloryHugginsInteraction(n, chis[0][0]), [[chis[0][0]] * n] * n
    elif how == "set":
        o, want = fl.FloryHugginsInteraction(n, 0), chis
        before = o.compiled()
        o.chis = ctx.arr(chis)
        ctx.eq("compiled before the change", before.potential(ctx.arr([[1.0, 2.0]] * n)), ctx.zeros((n, 2)))
    else:
        x = ctx.real("u", hint=(-2.0, 4.0))
        diag = how == "uniform-vanishing"
        o = fl.FloryHugginsInteraction.from_uniform(n, x, vanishing_diagonal=diag)
        want = [[0 if i == j and diag else x for j in range(n)] for i in range(n)]
    want = sym_chis([[w * (1 if ctx.sym else 1.0) for w in r] for r in want])
    phi = [[ctx.real("phi_%d_%d" % (i, m), nonneg=True, hint=(0.0, 0.9)) for m in range(2)] for i in range(n)]
    p = o.compiled().potential(ctx.arr(phi))
    for m in range(2):
        for i in range(n):
            ctx.eq("potential", p[i, m], sum(want[i][j] * phi[j][m] for j in range(n)))


def facade(ctx, n=2, how="array", group=None):
    """the same through the free energy object, whose matrix and sizes are assigned in all forms"""
    chis, l = matrix(ctx, "chi", n), sizes_of(ctx, n)
    fe = ctx.fl.FloryHuggins(n, 1.0, [1 + i for i in range(n)])
    fe.interaction_compiled(), fe.entropy_compiled()
    if how == "scalar":
        chis, l = [[chis[0][0]] * n] * n, [l[0]] * n
        fe.chis, fe.sizes = chis[0][0], l[0]
    elif how == "list":
        fe.chis, fe.sizes = chis, l
    elif how == "int":
        chis, l = [[i * j - i - j for j in range(n)] for i in range(n)], [2 + i for i in range(n)]
        fe.chis, fe.sizes = chis, l
    else:
        a, b = ctx.arr(chis), ctx.arr(l)
        fe.chis, fe.sizes = a, b
        a[0, 0], b[0] = 7.0, 9.0
    chis = sym_chis([[w * (1 if ctx.sym else 1.0) for w in r] for r in chis])
    ctx.eq("interaction matrix", fe.chis, ctx.arr(chis))
    ctx.eq("sizes", ctx.np.asarray(fe.sizes) * 1.0, ctx.arr([v * 1.0 for v in l]))
    phi = [[ctx.real("phi_%d_%d" % (i, m), nonneg=True, hint=(0.0, 0.9)) for m in range(2)] for i in range(n)]
    p = fe.interaction_compiled(additional_chis_shift=2.0, unrelated=1).potential(ctx.arr(phi))
    ent = fe.entropy_compiled(unrelated=1)
    w = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.5, 1.5)) for m in range(2)] for r in range(n)]
    b = ctx.zeros((n, 2))
    ent.partition(b, ctx.arr(w), ctx.np.ones(2))
    v = ent.volume_derivative(ctx.arr(phi))
    for m in range(2):
        for i in range(n):
            ctx.eq("potential", p[i, m], sum(chis[i][j] * phi[j][m] for j in range(n)))
            ctx.eq("Boltzmann weights", b[i, m], ctx.exp(-l[i] * w[i][m]))
        ctx.eq("volume derivative", v[m], -sum(phi[i][m] / l[i] for i in range(n)))


CONFIGS = (
    [Config("interaction-n%d-m%d" % (n, M), field_interaction, dict(n=n, M=M, group="i")) for n, M in ((1, 1), (2, 2), (3, 2), (2, 3), (4, 1))]
    + [Config("interaction-shift-n%d" % n, field_interaction, dict(n=n, M=2, shift=1, group="i")) for n in (1, 2, 3)]
    + [Config("interaction-block-%s" % "".join(map(str, p)), field_interaction, dict(per=p, M=2, shift=s, group="b")) for p, s in (([2, 1], None), ([1, 2], 1), ([2, 2], None), ([3], None), ([1, 1, 2], None))]
    + [Config("interaction-block-%s-set" % "".join(map(str, p)), field_interaction, dict(per=p, M=M, shift=s, how="set", group="b")) for p, s, M in (([2, 1], None, 2), ([1, 2], 1, 2), ([2, 2], None, 1), ([1, 1, 2], None, 1))]
    + [Config("interaction-n%d-set" % n, field_interaction, dict(n=n, M=2, how="set", group="i")) for n in (2, 3)]
    + [Config("entropy-n%d-m%d%s" % (n, M, "".join(map(str, a or ""))), field_entropy, dict(n=n, M=M, alive=a, group="e")) for n, M, a in ((1, 1, None), (2, 2, None), (3, 2, None), (2, 3, (1, 0, 1)), (4, 3, None))]
    + [Config("entropy-%s" % h, field_entropy, dict(n=2, M=2, how=h, group="e")) for h in ("none", "scalar", "int", "list", "strided", "set")]
    + [Config("entropy-block-%s-%s" % ("".join(map(str, p)), h), field_entropy, dict(per=p, M=2, how=h, group="p")) for p, h in (([2, 1], "array"), ([1, 2], "array"), ([2, 2], "none"), ([3], "scalar"), ([1, 2], "int"), ([2, 1], "set"), ([1, 1, 2], "list"), ([1, 3], "strided"))]
    + [Config("matrix-%s-n%d" % (h, n), inputs, dict(how=h, n=n, group="i")) for h in ("list", "transposed", "strided", "int", "scalar", "set", "uniform", "uniform-vanishing") for n in (2, 3)]
    + [Config("facade-%s-n%d" % (h, n), facade, dict(how=h, n=n, group="f")) for h, n in (("array", 2), ("array", 3), ("list", 2), ("scalar", 2), ("scalar", 3), ("int", 3))]
    + [Config("large-interaction", field_interaction, dict(n=7, M=6, group="i")), Config("large-entropy", field_entropy, dict(n=7, M=6, group="e")),
       Config("large-interaction-block", field_interaction, dict(per=[4, 3, 2], M=5, group="b")), Config("large-entropy-block", field_entropy, dict(per=[4, 3, 2], M=5, group="p"))]
)
