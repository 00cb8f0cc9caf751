"""C12: states reported as converged are in thermodynamic equilibrium up to the reported errors."""
from symx.cfg import Config

from . import mstep
from .common import energy_spec, grad_spec

ID = "C12"
BOUNDS = "1-3 components (and groups 2+1), 1-3 compartments, dead compartments, canonical and grand-canonical, none/local/global constraints with 1-2 conditions; any state whatsoever, all parameters"
OUTSIDE = "larger systems; rounding"
REPLAY_PROCS = 4


def balance(ctx, n=2, per=None, M=2, alive=None, ens="can", cons=(), pressure=True, unit=False, group=None):
    s = mstep.System(ctx, n=n, per=per, ens=ens, cons=cons, unit_sizes=unit)
    alive = alive or (1,) * M
    kill = ctx.real("kill", nonneg=True, hint=(0.05, 0.25)) if not all(alive) else 0.0
    om, J = mstep.fields(ctx, s, M, alive, kill)
    aJ, aw = ctx.real("aJ", pos=True, hint=(1e-3, 0.2)), ctx.real("aw", pos=True, hint=(1e-3, 0.2))
    o = mstep.run(ctx, s, om, J, kill=kill, aJ=aJ, aw=aw)
    live = [m for m in range(M) if alive[m]]
    E, V, I = o.werr, o.jerr, o.incomp
    chis = s.full_chis()
    phi = {m: [o.phis_comp[i, m] for i in range(s.comp)] for m in live}
    for m in live:
        ctx.le("incompressible", ctx.abs(sum(phi[m]) - 1), I)
    G = {m: grad_spec(ctx, phi[m], chis, s.sizes) for m in live}
    local = any(c[0] == "local" for c in cons)
    if not local:
        for a, b in zip(live, live[1:]):
            for i in range(s.comp - 1):
                d = (G[a][i] - G[a][i + 1]) - (G[b][i] - G[b][i + 1])
                ctx.le("exchange potentials balance", d, 4 * E)
                ctx.le("exchange potentials balance", -d, 4 * E)
    if ens == "gc" and not cons:
        for m in live:
            k = [G[m][i] - (ctx.log(s.act[i]) + 1) / s.sizes[i] for i in range(s.comp)]
            for i in range(s.comp - 1):
                ctx.le("exchange potentials are the imposed ones", k[i] - k[i + 1], 2 * E)
                ctx.le("exchange potentials are the imposed ones", k[i + 1] - k[i], 2 * E)
    if pressure and not cons:
        mu = {}
        for m in live:
            f = energy_spec(ctx, phi[m], chis, s.sizes)
            pg = sum(x * y for x, y in zip(phi[m], G[m]))
            mu[m] = [f - pg + g for g in G[m]]
        for a, b in zip(live, live[1:]):
            for i in range(s.comp):
                d = mu[a][i] - mu[b][i]
                ctx.le("chemical potentials balance", d, 2 * E + 2 * V)
                ctx.le("chemical potentials balance", -d, 2 * E + 2 * V)
    for kind, C, T, el, ar, obj in s.cons:
        for x in range(len(T)):
            res = {m: sum(C[x][r] * o.phis_feat[r, m] for r in range(s.feat)) - T[x] for m in live}
            if kind == "local":
                for m in live:
                    ctx.le("local condition holds", ctx.abs(res[m]), o.cres)
            else:
                t = sum(J[m] * res[m] for m in live) / sum(J[m] for m in live)
                ctx.le("global condition holds", ctx.abs(t), o.cres)


def drive(ctx, n=2, per=None, M=2, alive=None, ens="can", cons=(), unit=False, group=None):
    """A step moves fields and volumes in proportion to the imbalance, so only balanced states stand still.

    With acceptances aw, aJ and no limit on the step, for any two living compartments a, b
    mu_i(a) - mu_i(b) = [dw_r(a) - dw_r(b)] / aw - [dJ(a) - dJ(b)] / aJ   (i belongs to feature r),
    where mu includes the energy of the constraints.
    """
    s = mstep.System(ctx, n=n, per=per, ens=ens, cons=cons, unit_sizes=unit)
    alive = alive or (1,) * M
    kill = ctx.real("kill", nonneg=True, hint=(0.05, 0.25)) if not all(alive) else 0.0
    om, J = mstep.fields(ctx, s, M, alive, kill)
    aJ, aw = ctx.real("aJ", pos=True, hint=(1e-3, 0.2)), ctx.real("aw", pos=True, hint=(1e-3, 0.2))
    ctx.split_max(True)
    bound = ctx.real("bound", pos=True, hint=(5.0, 9.0))
    o = mstep.run(ctx, s, om, J, kill=kill, aJ=aJ, aw=aw, bound=bound)
    live = [m for m in range(M) if alive[m]]
    shift = sum(o.Js[m] - J[m] for m in live) / len(live)
    for m in live:  # the limit is not reached
        ctx.assume(ctx.abs(o.Js[m] - J[m] - shift) < bound)
        ctx.robust(ctx.abs(o.Js[m] - J[m] - shift) < bound * 0.999 if not ctx.sym else True)
    chis = s.full_chis()
    tot = sum(J[m] for m in live)
    mu = {}
    for m in live:
        phi = [o.phis_comp[i, m] for i in range(s.comp)]
        feat = [sum(phi[i] for i in range(s.comp) if s.map[i] == r) for r in range(s.feat)]
        g = grad_spec(ctx, phi, chis, s.sizes)
        f = energy_spec(ctx, phi, chis, s.sizes)
        mu[m] = [f - sum(x * y for x, y in zip(phi, g)) + v for v in g]
        for kind, C, T, el, ar, obj in s.cons:
            for x in range(len(T)):
                res = sum(C[x][r] * feat[r] for r in range(s.feat)) - T[x]
                if kind == "local":  # J * kappa * res**2
                    e, de = el * res * res, 2 * el * res
                else:  # kappa * (sum J res)**2
                    t = sum(J[k] * (sum(C[x][r] * o.phis_feat[r, k] for r in range(s.feat)) - T[x]) for k in live)
                    e, de = 2 * el * t * res, 2 * el * t
                dot = sum(de * C[x][r] * feat[r] for r in range(s.feat))
                mu[m] = [v + e - dot + de * C[x][s.map[i]] for i, v in enumerate(mu[m])]
    for a, b in zip(live, live[1:]):
        for i in range(s.comp):
            r = s.map[i]
            dw = (o.omegas[r, a] - om[r][a]) - (o.omegas[r, b] - om[r][b])
            dJ = (o.Js[a] - J[a]) - (o.Js[b] - J[b])
            ctx.eq("imbalance drives the step", (mu[a][i] - mu[b][i]) * aw * aJ, dw * aJ - dJ * aw, rtol=1e-6, atol=1e-10)


CONFIGS = (
    [Config("%s-n%d-m%d%s" % (e, n, M, "".join(map(str, a or ""))), balance, dict(n=n, M=M, alive=a, ens=e, group=e), points=6)
     for e, n, M, a in (("can", 2, 1, None), ("can", 2, 2, None), ("gc", 2, 1, None), ("gc", 2, 2, None), ("can", 2, 2, (0, 1)), ("gc", 3, 1, None), ("can", 3, 2, None), ("gc", 3, 2, None), ("gc", 2, 3, None))]
    + [Config("can-n2-m3-101", balance, dict(n=2, M=3, alive=(1, 0, 1), group="can"), points=6)]
    + [Config("block-%s-%s" % ("".join(map(str, p)), e), balance, dict(per=p, M=2, ens=e, group="poly" + e), points=6) for p, e in (([2, 1], "can"), ([1, 2], "gc"))]
    + [Config("cons-%s%d-%s" % (k, a, e), balance, dict(n=2, M=2, cons=[(k, a)], ens=e, group="c" + k + e), points=6) for k, a, e in (("local", 1, "gc"), ("global", 1, "can"), ("local", 2, "gc"), ("global", 2, "can"))]
    + [Config("cons-both", balance, dict(n=2, M=2, cons=[("local", 1), ("global", 1)], ens="gc", group="both"), points=6)]
    + [Config("drive-%s-n%d-m%d%s" % (e, n, M, "".join(map(str, a or ""))), drive, dict(n=n, M=M, alive=a, ens=e, group=e), points=6)
       for e, n, M, a in (("can", 2, 2, None), ("gc", 2, 2, None), ("can", 3, 2, None), ("gc", 3, 2, None), ("can", 2, 3, (1, 0, 1)), ("gc", 2, 3, None))]
    + [Config("drive-block-%s-%s" % ("".join(map(str, p)), e), drive, dict(per=p, M=2, ens=e, group="poly" + e), points=6) for p, e in (([2, 1], "can"), ([1, 2], "gc"), ([2, 2], "gc"))]
    + [Config("drive-%s%d-%s" % (k, a, e), drive, dict(n=2, M=2, cons=[(k, a)], ens=e, group="c" + k + e), points=6) for k, a, e in (("local", 1, "gc"), ("global", 1, "can"), ("local", 2, "gc"), ("global", 2, "can"))]
    + [Config("drive-both", drive, dict(n=2, M=2, cons=[("local", 1), ("global", 1)], ens="gc", group="both"), points=6)]
    + [Config("large-%s-n%d-m%d" % (e, n, M), balance, dict(n=n, M=M, ens=e, group=e), points=6) for e, n, M in (("gc", 5, 2), ("gc", 2, 6), ("can", 4, 2))]
    + [Config("large-drive-%s-n%d-m%d" % (e, n, M), drive, dict(n=n, M=M, ens=e, group=e), points=6) for e, n, M in (("gc", 5, 2),)]
)
