"""C28: the iteration is the documented scheme for any components that follow the interfaces."""
from symx.cfg import Config

from . import mstep, ownfe, plug, probe

ID = "C28"
BOUNDS = "components returning arbitrary values: 1-4 components, 1-3 features, 1-4 compartments (up to 2 dead), 0-3 constraints, one step from any normalised state and up to 3 steps, limited and unlimited; the finder with 1-3 constraints and 1-16 compartments, 2 steps; own interactions and entropies (arbitrary cubic interaction, quadratic entropy) combined with each other and the package's in a free energy of 2-3 components"
OUTSIDE = "larger systems; components whose methods fail or change what they are handed; rounding"
REPLAY_PROCS = 4


def state(ctx, s, M, alive):
    kill = 0.0
    if not all(alive):
        kill = ctx.real("kill", nonneg=True, hint=(0.05, 0.25))
    live = [m for m in range(M) if alive[m]]
    om = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.0, 1.0)) for m in range(M)] for r in range(s.feat)]
    J = [ctx.real("J_%d" % m, nonneg=True, hint=(0.4, 1.6) if alive[m] else (0.0, 0.04)) for m in range(M)]
    J[live[-1]] = len(live) - sum(J[m] for m in live[:-1]) if len(live) > 1 else 1.0
    for m in range(M):
        ctx.assume(J[m] > kill if alive[m] else J[m] <= kill)
        ctx.apart(J[m], kill)
    return kill, live, om, J


def scheme(s, live, om, J):
    """unlimited changes of volumes and fields of the living compartments"""
    n = len(live)
    phi = {m: [sum(s.mix[r][i] * s.phis[i][m] for i in range(s.comp)) for r in range(s.feat)] for m in live}
    target, force = {}, {}
    for m in live:
        pot = [s.pot[r][m] + sum(c[0][r][m] for c in s.cons) for r in range(s.feat)]
        xi = (s.coef[m] * s.inc[m] + sum(om[r][m] - pot[r] for r in range(s.feat))) / s.feat
        target[m] = [p + xi for p in pot]
        force[m] = s.vol[m] + s.energy[m] + xi * s.inc[m] + sum(c[1][m] for c in s.cons) - sum(t * p for t, p in zip(target[m], phi[m]))
    mean = sum(J[m] * force[m] for m in live) / n
    d = {m: mean - force[m] for m in live}
    av = sum(d.values()) / n
    change = {m: d[m] - av for m in live}
    dw = {m: [target[m][r] - om[r][m] for r in range(s.feat)] for m in live}
    return phi, d, change, dw


def step(ctx, nc=2, nf=2, M=2, k=0, alive=None, limited=False, steps=1, group=None):
    s = plug.Plugged(ctx, nc, nf, M, k)
    alive = alive or (1,) * M
    kill, live, om, J = state(ctx, s, M, alive)
    aJ, aw, b = (ctx.real(x, pos=True, hint=h) for x, h in (("aJ", (0.05, 0.2)), ("aw", (0.05, 0.5)), ("b", (0.02, 0.1) if limited else (5.0, 9.0))))
    if limited and len(live) > 2:
        aJ = 0.125
    w, v = [list(x) for x in om], list(J)
    ctx.split_max(True)
    for q in range(steps):
        phi, d, change, dw = scheme(s, live, w, v)
        w0, v0 = [list(x) for x in w], list(v)
        f = 1
        if limited:
            big = ctx.abs(change[live[0]]) * aJ
            ctx.assume(big > b)
            for m in live[1:]:
                ctx.assume(ctx.abs(change[m]) <= ctx.abs(change[live[0]]))
            f = b / big
        else:
            for m in live:
                ctx.assume(ctx.abs(change[m]) * aJ <= b)
        for m in range(M):
            v[m] = v[m] + f * aJ * change[m] if alive[m] else 0
            if q < steps - 1 and alive[m]:
                ctx.assume(v[m] > kill)
                ctx.apart(v[m], kill)
            for r in range(nf):
                w[r][m] = w[r][m] + f * aw * dw[m][r] if alive[m] else 0
    o = mstep.run(ctx, s, om, J, kill=kill, aJ=aJ, aw=aw, bound=b, steps=steps)
    tol = dict(rtol=1e-6, atol=1e-9)
    ctx.eq("volumes", o.Js, ctx.arr(v), **tol)
    ctx.eq("fields", o.omegas, ctx.arr(w), **tol)
    mask = ctx.arr([float(a) for a in alive])
    phis = ctx.arr([[s.phis[i][m] if alive[m] else 0.0 for m in range(M)] for i in range(nc)])
    feat = ctx.arr([[phi[m][r] if alive[m] else 0.0 for m in range(M)] for r in range(nf)])
    Jnow = ctx.arr([v0[m] if alive[m] else 0.0 for m in range(M)])
    ctx.eq("fractions", o.phis_comp, phis)
    ctx.eq("feature fractions", o.phis_feat, feat)
    # what the components were handed
    e, n, i = s.c_ent, s.c_ens, s.c_int
    for m in live:
        for r in range(nf):
            ctx.eq("partition is given the fields", e.got_w[r, m], w0[r][m], **tol)
    ctx.eq("partition is given the volumes", e.got_J, Jnow, **tol)
    ctx.eq("ensemble is given the weights", n.got_weights, ctx.arr(s.weights))
    ctx.eq("ensemble is given the partition sums", n.got_Q, ctx.arr(s.Qs))
    ctx.eq("ensemble is given the living", n.got_mask, mask)
    ctx.eq("entropy is given the fractions", e.got_phi, phis)
    for x in (i.got_phi, i.got_phi_coef, i.got_phi_vol):
        ctx.eq("interaction is given the feature fractions", x, feat)
    ctx.eq("interaction is given its potential", i.got_pot, ctx.arr(s.pot))
    if k:
        for c in s.c_cons:
            ctx.eq("constraint is given the feature fractions", c.got_phi, feat)
            ctx.eq("constraint is given the volumes", c.got_J, Jnow, **tol)
            ctx.eq("constraint is given the living", c.got_mask, mask)
            ctx.eq("constraint is given the living", c.got_mask2, mask)
            ctx.eq("constraints evolve with the fields", c.got_step[0], f * aw, **tol)
            ctx.same("one evolution per step", int(c.got_step[1]), steps)
    # reported errors
    ctx.eq("incompressibility", o.incomp, ctx.max([ctx.abs(s.inc[m]) for m in live]))
    ctx.eq("field error", o.werr, ctx.max([ctx.abs(x) for m in live for x in dw[m]]), **tol)
    ctx.eq("volume error", o.jerr, ctx.max([ctx.abs(d[m]) for m in live]), **tol)
    ctx.eq("constraint residue", o.cres, ctx.max([c[2] for c in s.cons]) if k else 0)


def driven(ctx, n=2, per=None, ens="gc", cons=(), M=2, how="ctor", group=None):
    """the finder makes the step with all components it was given, in as many compartments as asked for"""
    s = mstep.System(ctx, n=n, per=per, ens=ens, cons=cons)
    number = M or 8 * s.comp
    w = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.0, 1.0)) for m in range(number)] for r in range(s.feat)]
    aw = ctx.real("aw", pos=True, hint=(0.05, 0.5))
    objs = [c[-1] for c in s.cons]
    kws = [dict(constraint_acceptance_ratio=c[4], constraint_elasticity=c[3]) for c in s.cons]
    kw = dict(progress=False, rng=probe.Draws(ctx), acceptance_Js=0.0, acceptance_omega=aw, Js_step_upper_bound=1.0, kill_threshold=0.0, max_revive_per_compartment=0, interval=20, tolerance=0.0)
    if M:
        kw["num_part"] = M
    if how == "ctor":
        if objs:
            kw.update(kws[0])
            kws = [kws[0]] * len(objs)
        if len(objs) == 1:
            objs = objs[0]
        f = ctx.fl.CoexistingPhasesFinder(s.interaction, s.entropy, s.ensemble, objs or None, **kw)
    else:
        f = ctx.fl.CoexistingPhasesFinder(s.interaction, s.entropy, s.ensemble, **kw)
        f.set_constraints(tuple(objs) if how == "tuple" else objs, kwargs_individual=kws)
    f.reinitialize_from_omegas(ctx.arr(w))
    p = f.run(max_steps=2)
    hand = [c[-1].compiled(**k) for c, k in zip(s.cons, kws)] or s.c_cons
    for c in hand:
        c.initialize(number)
    o = mstep.run(ctx, s, w, [1.0] * number, steps=2, aJ=0.0, aw=aw, bound=1.0, cons=hand)
    ctx.same("number of compartments", ctx.shape(p.fractions), (number, s.comp))
    if tuple(ctx.shape(p.fractions)) != (number, s.comp):
        return
    ctx.eq("finder: fields", f.omegas, o.omegas)
    ctx.eq("finder: fractions", p.fractions, o.phis_comp.T)
    ctx.eq("finder: volumes", p.volumes, o.Js)
    ctx.eq("finder: residue", f.diagnostics["max_constraint_residue"], o.cres)


def name(nc, nf, M, k, al, lim, st):
    return "step-c%d-f%d-m%d-k%d%s%s%s" % (nc, nf, M, k, "-" + "".join(map(str, al)) if al else "", "-limited" if lim else "", "-x%d" % st if st > 1 else "")


STEPS = [(2, 2, 2, 0, None, 0, 1), (2, 2, 2, 1, None, 0, 1), (3, 2, 2, 2, None, 0, 1), (1, 1, 2, 1, None, 0, 1), (2, 2, 1, 1, None, 0, 1), (3, 3, 3, 1, None, 0, 1),
         (2, 2, 3, 2, (1, 0, 1), 0, 1), (2, 2, 3, 0, (0, 1, 1), 0, 1), (3, 2, 3, 1, (1, 1, 0), 0, 1), (2, 2, 2, 1, (0, 1), 0, 1), (2, 2, 4, 1, (0, 1, 0, 1), 0, 1),
         (2, 2, 2, 3, None, 0, 1), (4, 3, 4, 2, None, 0, 1),
         (2, 2, 2, 0, None, 1, 1), (2, 2, 2, 1, None, 1, 1), (1, 1, 3, 1, None, 1, 1), (3, 2, 3, 2, (1, 0, 1), 1, 1),
         (2, 2, 2, 0, None, 0, 2), (2, 2, 2, 1, None, 0, 2), (2, 2, 3, 1, (1, 0, 1), 0, 2), (1, 1, 2, 0, None, 0, 3),
         (6, 5, 6, 1, None, 0, 1), (2, 2, 8, 1, (1, 1, 0, 1, 1, 1, 0, 1), 0, 1), (7, 2, 3, 5, None, 0, 1)]
CONFIGS = (
    [Config(name(*x), step, dict(nc=x[0], nf=x[1], M=x[2], k=x[3], alive=x[4], limited=bool(x[5]), steps=x[6], group="k%d" % x[3]), points=24 if x[5] else 6) for x in STEPS]
    + [Config("finder-%s%d-m%s-%s%s" % (e, n, M or "default", how, "".join("-" + c[0] + str(c[1]) for c in cs)), driven, dict(n=n, ens=e, cons=cs, M=M, how=how, group="f" + e + "".join(c[0] for c in cs)), points=3)
       for n, e, M, how, cs in ((2, "gc", 1, "ctor", ()), (2, "can", 3, "ctor", ()), (1, "gc", None, "ctor", ()), (2, "can", None, "ctor", ()),
                                (2, "gc", 2, "ctor", [("local", 1), ("local", 1), ("local", 1)]), (2, "gc", 2, "list", [("local", 1), ("local", 1), ("local", 1)]), (2, "gc", 1, "list", [("local", 1), ("global", 1), ("local", 2)]), (2, "can", 2, "ctor", [("local", 2)]))]
    + ownfe.CONFIGS
)
