"""C14: thermodynamic equilibria are fixed points of the iteration, whatever the iteration parameters."""
from symx.cfg import Config

from . import mstep

ID = "C14"
BOUNDS = "1-3 components (groups 2+1), 1-3 compartments with listed dead ones; homogeneous states of any composition, symmetric binary coexistence with any volumes, and every binary/ternary coexistence satisfying the balance equations; all parameters of the iteration; constraints that the state satisfies"
OUTSIDE = "larger systems; rounding"
REPLAY_PROCS = 4


def params(ctx):
    return dict(aJ=ctx.real("aJ", pos=True, hint=(1e-3, 0.5)), aw=ctx.real("aw", pos=True, hint=(1e-3, 0.5)),
                bound=ctx.real("b", pos=True, hint=(1e-4, 0.1)), scaler=ctx.real("sc", pos=True))


def volumes(ctx, M, alive, total):
    """living volumes with the given total, dead ones exactly zero"""
    live = [m for m in range(M) if alive[m]]
    J = [0.0] * M
    for m in live[:-1]:
        J[m] = ctx.real("J_%d" % m, pos=True, hint=(0.3, 0.9))
    J[live[-1]] = total - sum(J[m] for m in live[:-1]) if len(live) > 1 else float(total)
    ctx.assume(J[live[-1]] > 0)
    return J, live


def same(ctx, o, om, J, live, phi):
    M = len(J)
    for m in range(M):
        if m in live:
            ctx.eq("volume", o.Js[m], J[m])
            for r in range(len(om)):
                ctx.eq("field", o.omegas[r, m], om[r][m])
            for i in range(len(phi)):
                ctx.eq("fraction", o.phis_comp[i, m], phi[i][m])
        else:
            ctx.eq("volume", o.Js[m], 0)
    for nm in ("incomp", "werr", "jerr", "cres"):
        ctx.eq("error " + nm, getattr(o, nm), 0, atol=1e-9)
    ctx.true("nothing was killed", o.safe)
    ctx.same("nothing was revived", int(o.revived), 0)


def homogeneous(ctx, n=2, per=None, M=2, alive=None, ens="can", cons=(), steps=1, loaded=False, group=None):
    alive = alive or (1,) * M
    s = mstep.System(ctx, n=n, per=per, ens=ens, phi_sum_one=ens == "can")
    if ens == "can":
        phi = list(s.means)
    else:
        phi = [ctx.real("p_%d" % i, pos=True, hint=(0.1, 0.8)) for i in range(s.comp)]
        phi[-1] = 1 - sum(phi[:-1])
        ctx.assume(phi[-1] > 0)
    pf = [sum(phi[i] for i in range(s.comp) if s.map[i] == r) for r in range(s.feat)]
    xi = ctx.real("xi", hint=(-1.0, 1.0))
    w = [sum(s.chis[r][q] * pf[q] for q in range(s.feat)) + xi for r in range(s.feat)]
    cc = None
    if cons:
        cc = []
        mask = ctx.arr([float(a) for a in alive])
        for q, kind in enumerate(cons):
            C = [ctx.real("C%d_%d" % (q, r), hint=(-1.0, 1.0)) for r in range(s.feat)]
            cls = ctx.fl.LinearLocalConstraint if kind == "local" else ctx.fl.LinearGlobalConstraint
            ar = ctx.real("ar%d" % q, pos=True, hint=(0.1, 2.0))
            c = cls(s.feat, ctx.arr(C), sum(C[r] * pf[r] for r in range(s.feat))).compiled(
                constraint_elasticity=ctx.real("kap%d" % q, nonneg=True, hint=(0.0, 2.0)), constraint_acceptance_ratio=ar)
            c.initialize(M)
            if loaded:
                # multipliers left by an earlier state, the same in every compartment
                old = [ctx.real("old%d_%d" % (q, r), nonneg=True, hint=(0.0, 1.0)) for r in range(s.feat)]
                st = ctx.real("st%d" % q, pos=True, hint=(0.1, 1.0))
                c.prepare(ctx.arr([[old[r] * a for a in alive] for r in range(s.feat)]), ctx.arr([1.0 * a for a in alive]), mask)
                c.evolve(st, mask)
                mult = st * ar * sum(C[r] * (old[r] - pf[r]) for r in range(s.feat))
                w = [w[r] + C[r] * mult for r in range(s.feat)]
            cc.append(c)
    ensemble = None
    if ens == "gc":
        act = [phi[i] * ctx.exp(s.sizes[i] * w[s.map[i]]) for i in range(s.comp)]
        ensemble = ctx.fl.GrandCanonicalEnsemble(s.comp, ctx.arr(act)).compiled()
    J, live = volumes(ctx, M, alive, sum(alive))
    for c in s.c_cons:
        c.initialize(M)
    om = [[w[r] if alive[m] else 0.0 for m in range(M)] for r in range(s.feat)]
    o = mstep.run(ctx, s, om, J, steps=steps, ens=ensemble, cons=cc, **params(ctx))
    same(ctx, o, om, J, live, [[p] * M for p in phi])


def balanced(ctx, n=2, M=2, unit=False, ens="can", alive=None, group=None):
    """Any phases in balance: mu_i equal in all of them, fractions sum to one."""
    alive = alive or (1,) * M
    s = mstep.System(ctx, n=n, ens="gc", unit_sizes=unit)
    live = [m for m in range(M) if alive[m]]
    phi = [[0.0] * M for _ in range(n)]
    for m in live:
        for i in range(n - 1):
            phi[i][m] = ctx.real("p_%d_%d" % (i, m), pos=True, hint=(0.05, 0.9))
        phi[n - 1][m] = 1 - sum(phi[i][m] for i in range(n - 1))
        ctx.assume(phi[n - 1][m] > 0)
    # choose chi so that the phases are in balance (linear in chi): binary symmetric matrix with
    # chi_00, chi_11, chi_01; the fields are the logarithms of the fractions up to constants
    c = [ctx.real("c_%d" % i, hint=(-1.0, 1.0)) for i in range(n)]
    J, live = volumes(ctx, M, alive, sum(alive))
    om = [[(c[i] - ctx.log(phi[i][m])) / s.sizes[i] if alive[m] else 0.0 for m in range(M)] for i in range(n)]
    e = []
    for m in live:
        pot = [sum(s.chis[i][j] * phi[j][m] for j in range(n)) for i in range(n)]
        for i in range(n - 1):
            # equal exchange potentials: w_i - pot_i is the same for all i
            ctx.assume(om[i][m] - pot[i] == om[n - 1][m] - pot[n - 1])
        xi = om[n - 1][m] - pot[n - 1]
        e.append(-sum(pot[i] * phi[i][m] for i in range(n)) / 2 - sum(phi[i][m] / s.sizes[i] for i in range(n)) - xi)
    for x in e[1:]:
        ctx.assume(x == e[0])
    if ens == "can":
        tot = sum(J[m] for m in live)
        means = [sum(J[m] * phi[i][m] for m in live) / tot for i in range(n)]
        en = ctx.fl.CanonicalEnsemble(n, ctx.arr(means)).compiled()
    else:
        en = ctx.fl.GrandCanonicalEnsemble(n, ctx.arr([ctx.exp(x) for x in c])).compiled()
    for k in s.c_cons:
        k.initialize(M)
    o = mstep.run(ctx, s, om, J, ens=en, **params(ctx))
    same(ctx, o, om, J, live, phi)


def symmetric(ctx, M=2, alive=None, ens="can", shuffle=0, off=True, group=None):
    """Two mirror phases of a symmetric binary mixture with chi = ln(a/(1-a))/(2a-1)."""
    alive = alive or (1,) * M
    fl = ctx.fl
    a = ctx.real("a", lo=0.5, hi=1, lo_open=True, hi_open=True, hint=(0.55, 0.97))
    if not ctx.sym:
        ctx.assume(a > 0.51)
    chi = (ctx.log(a) - ctx.log(1 - a)) / (2 * a - 1)
    d = ctx.real("d", hint=(-1.0, 1.0)) if off else 0.0  # equal self-interactions do not matter
    k = ctx.real("k", hint=(-1.0, 1.0))
    J, live = volumes(ctx, M, alive, sum(alive))
    phi = [[0.0] * M for _ in range(2)]
    for t, m in enumerate(live):
        phi[0][m], phi[1][m] = (a, 1 - a) if (t + shuffle) % 2 == 0 else (1 - a, a)
    om = [[k - ctx.log(phi[i][m]) if alive[m] else 0.0 for m in range(M)] for i in range(2)]
    inter = fl.FloryHugginsInteraction(2, ctx.arr([[d, chi + d], [chi + d, d]]))
    if ens == "can":
        tot = sum(J[m] for m in live)
        means = [sum(J[m] * phi[i][m] for m in live) / tot for i in range(2)]
        en = fl.CanonicalEnsemble(2, ctx.arr(means))
    else:
        en = fl.GrandCanonicalEnsemble(2, ctx.arr([ctx.exp(k)] * 2))

    class S:
        feat, comp, per = 2, 2, None
        c_int, c_ent, c_ens = inter.compiled(), fl.IdealGasEntropy(2).compiled(), en.compiled()
        c_cons = [ctx.mod("constraint").NoConstraintCompiled(2)]

    S.c_cons[0].initialize(M)
    o = mstep.run(ctx, S, om, J, **params(ctx))
    same(ctx, o, om, J, live, phi)


def nm(a):
    return "".join(map(str, a or ""))


CONFIGS = (
    [Config("homogeneous-%s-n%d-m%d%s" % (e, n, M, nm(a)), homogeneous, dict(n=n, M=M, alive=a, ens=e, group=e))
     for e, n, M, a in (("can", 1, 2, None), ("can", 2, 1, None), ("can", 2, 2, None), ("can", 3, 2, None), ("can", 2, 3, (1, 0, 1)), ("gc", 2, 2, None), ("gc", 3, 2, None), ("gc", 2, 2, (0, 1)))]
    + [Config("homogeneous-two-steps-%s" % e, homogeneous, dict(n=2, M=2, ens=e, steps=2, group=e)) for e in ("can", "gc")]
    + [Config("homogeneous-block-%s" % e, homogeneous, dict(per=[2, 1], M=2, ens=e, group="poly" + e)) for e in ("can", "gc")]
    + [Config("homogeneous-%s-%s" % (k, e), homogeneous, dict(n=2, M=2, ens=e, cons=[k], group=k + e)) for k, e in (("local", "can"), ("global", "gc"))]
    + [Config("multipliers-%s-%s-m%d%s" % ("-".join(k), e, M, nm(a)), homogeneous, dict(n=n, M=M, ens=e, cons=list(k), loaded=True, alive=a, group="-".join(k) + e))
       for k, e, n, M, a in ((("local",), "can", 2, 2, None), (("global",), "gc", 2, 2, None), (("local",), "gc", 2, 3, (1, 0, 1)), (("global",), "can", 3, 2, None), (("local", "global"), "can", 2, 2, None))]
    + [Config("symmetric-%s-m%d%s" % (e, M, nm(a)), symmetric, dict(M=M, alive=a, ens=e, shuffle=sh, off=off, group=e)) for e, M, a, sh, off in (("can", 2, None, 0, True), ("gc", 2, None, 1, True), ("can", 3, None, 0, False), ("can", 3, (1, 0, 1), 1, True), ("gc", 3, None, 0, False))]
    + [Config("balanced-%s-n%d-m%d%s" % (e, n, M, "-unit" if u else ""), balanced, dict(n=n, M=M, ens=e, unit=u, group=e), points=0, fallback=0) for e, n, M, u in (("gc", 2, 2, True), ("gc", 2, 2, False), ("can", 2, 2, True), ("gc", 3, 2, True))]
)
