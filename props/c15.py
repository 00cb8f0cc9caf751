"""C15: constraints act as the derivatives of their documented energy, and multipliers follow the residue."""
from symx.cfg import Config

from . import mstep
from .c11 import together

ID = "C15"
BOUNDS = "1-3 features, 1-2 conditions, 1-3 compartments with listed dead ones, up to 3 iterations of the multipliers from the initial state, alone and within an iteration of the finder; all coefficients, targets, fractions, volumes, elasticities, acceptances; coefficients as 1D/2D arrays, integers, scalars, transposed and strided arrays, and after reassignment"
OUTSIDE = "larger systems; rounding"
REPLAY_PROCS = 3


def state(ctx, k, F, M, alive):
    phi = [[ctx.real("phi%d_%d_%d" % (k, r, m), nonneg=True, hint=(0.05, 0.9)) if alive[m] else 0.0 for m in range(M)] for r in range(F)]
    J = [ctx.real("J%d_%d" % (k, m), pos=True, hint=(0.2, 1.8)) if alive[m] else 0.0 for m in range(M)]
    return phi, J


def build(ctx, kind, F, A, how):
    """(constraint, C, T)"""
    fl = ctx.fl
    cls = fl.LinearLocalConstraint if kind == "local" else fl.LinearGlobalConstraint
    C = [[ctx.real("C_%d_%d" % (a, r), hint=(-1.5, 1.5)) for r in range(F)] for a in range(A)]
    T = [ctx.real("T_%d" % a, hint=(-0.5, 1.0)) for a in range(A)]
    if how == "row":
        return cls(F, ctx.arr(C[0]), T[0]), C[:1], T[:1]
    if how == "scalar-target":
        return cls(F, ctx.arr(C), T[0]), C, [T[0]] * A
    if how == "scalar":
        return cls(F, C[0][0], T[0]), [[C[0][0]] * F], T[:1]
    if how == "int":
        C = [[(a + 2 * r) % 3 - 1 for r in range(F)] for a in range(A)]
        return cls(F, C, [a for a in range(A)]), C, list(range(A))
    if how == "transposed":
        return cls(F, ctx.arr([[C[a][r] for a in range(A)] for r in range(F)]).T, ctx.arr(T)), C, T
    if how == "strided":
        t = ctx.arr([v for x in T for v in (x, 0.0)])[::2]
        c = ctx.arr([[v for x in row for v in (x, 0.0)] for row in C])[:, ::2]
        return cls(F, c, t), C, T
    if how == "set":
        o = cls(F, ctx.arr([[0.0] * F] * A), ctx.arr([0.0] * A))
        o.compiled()
        c, t = ctx.arr(C), ctx.arr(T)
        o.Cs, o.Ts = c, t
        c[0, 0], t[0] = 9.0, 9.0  # the caller's arrays are not shared
        return o, C, T
    if how == "set-int":
        o = cls(F, [[0] * F] * A, [0] * A)
        o.Cs, o.Ts = ctx.arr(C), ctx.arr(T)
        return o, C, T
    if how == "set-transposed":
        o = cls(F, ctx.arr([[0.0] * F] * A), ctx.arr([0.0] * A))
        o.Cs, o.Ts = ctx.arr([[C[a][r] for a in range(A)] for r in range(F)]).T, T[0]
        return o, C, [T[0]] * A
    return cls(F, ctx.arr(C), ctx.arr(T)), C, T


def residues(C, T, phi, A, F, M):
    return [[sum(C[a][r] * phi[r][m] for r in range(F)) - T[a] for m in range(M)] for a in range(A)]


def energy(ctx, kind="local", F=2, A=1, M=2, alive=None, how="array", steps=1, again=False, lives=None, group=None):
    lives = lives or [alive or (1,) * M] * (steps + 1)  # in every step
    o, C, T = build(ctx, kind, F, A, how)
    A = len(T)
    ctx.eq("coefficients", o.Cs, ctx.arr(C))
    ctx.eq("targets", o.Ts, ctx.arr(T))
    kap = ctx.real("kappa", nonneg=True, hint=(0.0, 2.0))
    ar = ctx.real("ar", nonneg=True, hint=(0.0, 2.0))
    c = o.compiled(constraint_acceptance_ratio=ar, constraint_elasticity=kap, something_else=3)
    c.initialize(M)
    xi = [[0] * M for _ in range(A)] if kind == "local" else [0] * A
    for k in range(steps + 1):
        alive = lives[k]
        live = [m for m in range(M) if alive[m]]
        mask = ctx.arr([float(a) for a in alive])
        phi, J = state(ctx, k, F, M, alive)
        J = J if kind == "global" or k == steps else [1.0 if a else 0.0 for a in alive]
        c.prepare(ctx.arr(phi), ctx.arr(J), mask)
        res = residues(C, T, phi, A, F, M)
        R = [sum(J[m] * res[a][m] for m in live) for a in range(A)]
        for m in range(M):
            if kind == "local":
                lam = [xi[a][m] + 2 * kap * res[a][m] for a in range(A)]
                vol = sum(xi[a][m] * res[a][m] + kap * res[a][m] * res[a][m] for a in range(A))
            else:
                lam = [xi[a] + 2 * kap * R[a] for a in range(A)]
                vol = sum((xi[a] + 2 * kap * R[a]) * res[a][m] for a in range(A))
            for r in range(F):
                ctx.eq("potential", c.potential[r, m], sum(C[a][r] * lam[a] for a in range(A)) if alive[m] else 0)
            ctx.eq("volume derivative", c.volume_derivative[m], vol if alive[m] else 0)
        if again and k == steps - 1:
            # a new initialisation forgets the multipliers
            c.evolve(ctx.real("step%d" % k, pos=True, hint=(0.01, 0.5)), mask)
            c.initialize(M)
            continue
        st = ctx.real("step%d" % k, pos=True, hint=(0.01, 0.5))
        got = c.evolve(st, mask)
        if kind == "local":
            ctx.eq("residue", got, ctx.max([ctx.abs(res[a][m]) for a in range(A) for m in live]))
            xi = [[xi[a][m] + st * ar * res[a][m] if alive[m] else 0 for m in range(M)] for a in range(A)]
        else:
            tot = sum(J[m] for m in live)
            ctx.eq("residue", got, ctx.max([ctx.abs(R[a] / tot) for a in range(A)]))
            xi = [xi[a] + st * ar * R[a] / tot for a in range(A)]


def iteration(ctx, kind="local", M=2, alive=None, ens="can", A=1, group=None):
    """within an iteration the multipliers move by the acceptance of the fields times their own ratio times the residue (volumes kept, so that nothing limits the step)"""
    s = mstep.System(ctx, n=2, ens=ens, cons=[(kind, A)], unit_sizes=True)
    alive = alive or (1,) * M
    kill = ctx.real("kill", nonneg=True, hint=(0.05, 0.25)) if not all(alive) else 0.0
    om, J = mstep.fields(ctx, s, M, alive, kill, norm=True)
    aw = ctx.real("aw", pos=True, hint=(1e-2, 0.2))
    o = mstep.run(ctx, s, om, J, kill=kill, aJ=0.0, aw=aw, bound=1.0)
    _, C, T, kap, ar, _ = s.cons[0]
    phi = o.phis_feat
    live = [m for m in range(M) if alive[m]]
    res = [[sum(C[a][r] * phi[r, m] for r in range(2)) - T[a] for m in range(M)] for a in range(A)]
    c, = s.c_cons
    ref, one = ctx.zeros((2, M)), ctx.arr([float(a) for a in alive])
    c.prepare(ref, one, one)
    after = ctx.copy(c.potential)
    c.initialize(M)
    c.prepare(ref, one, one)
    tot = sum(J[m] for m in live)
    for m in live:
        for r in range(2):
            r_ = [res[a][m] if kind == "local" else sum(J[q] * res[a][q] for q in live) / tot for a in range(A)]
            ctx.eq("multipliers follow the residue", after[r, m] - c.potential[r, m], aw * ar * sum(C[a][r] * r_[a] for a in range(A)), rtol=1e-6, atol=1e-12)
    worst = [res[a][m] for a in range(A) for m in live] if kind == "local" else [sum(J[q] * res[a][q] for q in live) / tot for a in range(A)]
    ctx.eq("reported residue", o.cres, ctx.max([ctx.abs(x) for x in worst]))


def rejected(ctx, kind="local"):
    fl = ctx.fl
    cls = fl.LinearLocalConstraint if kind == "local" else fl.LinearGlobalConstraint
    z = ctx.np.zeros
    ctx.raises("3D coefficients", ValueError, lambda: cls(2, z((1, 1, 2)), 0.0))
    ctx.raises("wrong number of features", ValueError, lambda: cls(2, z((1, 3)), 0.0))
    ctx.raises("wrong number of targets", ValueError, lambda: cls(2, z((1, 2)), z(2)))


def none(ctx, F=2, M=2):
    c = ctx.mod("constraint").NoConstraintCompiled(F)
    c.initialize(M)
    phi, J = state(ctx, 0, F, M, (1,) * M)
    mask = ctx.arr([1.0] * M)
    c.prepare(ctx.arr(phi), ctx.arr(J), mask)
    ctx.eq("potential", c.potential, ctx.zeros((F, M)))
    ctx.eq("volume derivative", c.volume_derivative, ctx.zeros(M))
    ctx.eq("residue", c.evolve(ctx.real("st", pos=True), mask), 0)


def name(k, F, A, M, al):
    return "%s-f%d-a%d-m%d%s" % (k, F, A, M, "".join(map(str, al or "")))


CONFIGS = (
    [Config(name(k, F, A, M, al), energy, dict(kind=k, F=F, A=A, M=M, alive=al, group=k))
     for k in ("local", "global") for F, A, M, al in ((1, 1, 1, None), (2, 1, 2, None), (3, 1, 2, None), (2, 2, 2, None), (2, 1, 3, (1, 0, 1)), (2, 1, 2, (0, 1)), (3, 2, 3, None))]
    + [Config("%s-%s" % (k, h), energy, dict(kind=k, F=2, A=2, M=2, how=h, steps=0, group=k))
       for k in ("local", "global") for h in ("row", "scalar-target", "scalar", "int", "transposed", "strided", "set", "set-int", "set-transposed")]
    + [Config("%s-two-steps" % k, energy, dict(kind=k, F=2, A=1, M=2, steps=2, group=k)) for k in ("local", "global")]
    + [Config("%s-dead-steps" % k, energy, dict(kind=k, F=2, A=1, M=2, alive=(1, 0), steps=2, group=k)) for k in ("local", "global")]
    + [Config("%s-die-revive-%d" % (k, q), energy, dict(kind=k, F=2, A=1, M=2, steps=len(v) - 1, lives=v, group=k))
       for k in ("local", "global") for q, v in enumerate((((1, 1), (1, 0), (1, 1)), ((0, 1), (1, 1)), ((1, 1), (0, 1), (1, 0), (1, 1))))]
    + [Config("%s-initialize" % k, energy, dict(kind=k, F=2, A=1, M=2, steps=1, again=True, group=k)) for k in ("local", "global")]
    + [Config("iteration-%s-m%d%s-%s" % (k, M, "".join(map(str, al or "")), e), iteration, dict(kind=k, M=M, alive=al, ens=e, A=A, group=k), points=8)
       for k, M, al, e, A in (("local", 2, None, "can", 1), ("local", 2, (0, 1), "gc", 2), ("global", 2, None, "gc", 1), ("global", 3, (1, 0, 1), "can", 1))]
    + [Config("together-%s" % k, together, dict(ens=e, cons=[(k, 1)], group=k), points=12) for k, e in (("local", "gc"), ("global", "can"))]
    + [Config("rejected-%s" % k, rejected, dict(kind=k)) for k in ("local", "global")]
    + [Config("none", none, dict())]
    + [Config(name(k, 4, 2, 4, (1, 1, 0, 1)), energy, dict(kind=k, F=4, A=2, M=4, alive=(1, 1, 0, 1), steps=2, group=k), thorough=True) for k in ("local", "global")]
)
