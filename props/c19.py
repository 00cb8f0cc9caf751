"""C19: a compartment is dead exactly if its volume does not exceed the threshold, in every part of the algorithm."""
from symx.cfg import Config

from . import mstep, probe

ID = "C19"
BOUNDS = "1-4 compartments with any real volumes, any threshold >= 0, including volumes exactly at the threshold (every pattern is explored); one iteration, both ensembles, with and without constraints; 2-3 iterations with scripted volume forces"
OUTSIDE = "more compartments; NaN volumes; all compartments dead in an iteration"
REPLAY_PROCS = 4


def masks(ctx, M=3, at=False, group=None):
    impl = ctx.mod("mcmp._finder_impl")
    thr = ctx.real("thr", hint=(-0.2, 0.8))
    J = [ctx.real("J_%d" % m, hint=(-0.5, 1.5)) for m in range(M)]
    if at:
        J[0] = thr
    else:
        for j in J:
            ctx.apart(j, thr)
    Js = ctx.arr(J)
    k = impl.make_valid_compartment_masks(Js, thr)
    c = impl.count_valid_compartments(Js, thr)
    n = 0
    for m in range(M):
        if J[m] > thr:
            n += 1
            ctx.eq("living compartments are marked", k[m] * 1.0, 1)
        else:
            ctx.eq("dead compartments are not marked", k[m] * 1.0, 0)
    ctx.true("number of living compartments", c == n)
    ctx.eq("volumes unchanged", Js, ctx.arr(J))


def step(ctx, M=2, ens="can", cons=(), at=False, tries=0, group=None):
    s = mstep.System(ctx, n=2, ens=ens, cons=cons)
    for c in s.c_cons:
        c.initialize(M)
    kill = ctx.real("kill", nonneg=True, hint=(0.0, 0.8))
    ctx.assume(kill < 1)
    om = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.5, 1.5)) for m in range(M)] for r in range(2)]
    J = [ctx.real("J_%d" % m, hint=(-0.3, 1.5)) for m in range(M)]
    if at:
        J[0] = kill
    else:
        for j in J:
            ctx.apart(j, kill)
    alive = [bool(J[m] > kill) for m in range(M)]
    if not any(alive):
        ctx.assume(False)
    o = mstep.run(ctx, s, om, J, kill=kill, tries=tries, aJ=0.0, aw=0.0, bound=1.0)
    dead = alive.count(False)
    ctx.same("revived", int(o.revived), dead if tries else 0)
    for m in range(M):
        if alive[m] or tries:
            ctx.true("living compartments take part", ctx.both(*[o.phis_comp[i, m] > 0 for i in range(2)]))
        else:
            ctx.eq("dead compartments have no volume", o.Js[m], 0)
            for i in range(2):
                ctx.eq("dead compartments are empty", o.phis_comp[i, m], 0)
                ctx.eq("dead compartments have no field", o.omegas[i, m], 0)
    ctx.eq("total volume", sum(o.Js[m] for m in range(M)), M if tries else M - dead)


def last(ctx, M=2, ens="can", cons=(), tries=0, group=None):
    """the iteration reports whether a compartment of the last step did not survive that step"""
    s = mstep.System(ctx, n=1 if M > 2 else 2, ens=ens, cons=cons)
    for c in s.c_cons:
        c.initialize(M)
    kill = ctx.real("kill", nonneg=True, hint=(0.0, 0.9))
    ctx.assume(kill < 1)
    om = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.5, 1.5)) for m in range(M)] for r in range(s.feat)]
    J = [ctx.real("J_%d" % m, nonneg=True, hint=(0.0, 1.5)) for m in range(M)]
    for j in J:
        ctx.apart(j, kill)
    alive = [bool(J[m] > kill) for m in range(M)]
    if not any(alive):
        ctx.assume(False)
    aJ = ctx.real("aJ", pos=True, hint=(0.05, 1.0))
    o = mstep.run(ctx, s, om, J, kill=kill, aJ=aJ, aw=0.0, bound=1e9, tries=tries)
    if tries:
        ctx.same("revived", int(o.revived), alive.count(False))
        alive = [True] * M
    for m in range(M):
        if alive[m]:
            ctx.apart(o.Js[m], kill)
    survive = all([bool(o.Js[m] > kill) for m in range(M) if alive[m]])
    ctx.same("last step reported as safe", bool(o.safe), survive)


def last_of(ctx, M=2, steps=2, tries=0, group=None):
    """several steps at once report what the last of them did"""
    kill = 0.3
    impl = ctx.mod("mcmp._finder_impl")
    x = [ctx.real("x_%d" % k, lo=-0.95, hi=0.95, hint=(-0.95, 0.95)) for k in range(steps)]

    def go(rig, Js, n, budget, name):
        om, pc, pf = ctx.zeros((2, M)), ctx.zeros((2, M)), ctx.zeros((2, M))
        return impl.multicomponent_self_consistent_metastep(
            rig.int, rig.ent, rig.ens, (rig.con,), omegas=om, Js=Js, phis_comp=pc, phis_feat=pf, steps_inner=n,
            acceptance_Js=1.0, Js_step_upper_bound=1e9, acceptance_omega=0.0, kill_threshold=kill,
            revive_tries=budget, revive_scaler=1.0, rng=ctx.rng(name, jit=True))

    rigs = []
    for _ in range(2):
        r = probe.Rig(ctx, M=M, K=8)
        r.con.initialize(M)
        for k in range(steps):
            r.energy[k, 0] = -x[k]
            r.energy[k, 1] = x[k]
        rigs.append(r)
    Ja, Jb = ctx.np.ones(M), ctx.np.ones(M)
    whole = go(rigs[0], Ja, steps, tries, "whole")
    used = 0
    for k in range(steps):
        for m in range(M):
            ctx.apart(Jb[m], kill, 1e-6)
        part = tries - used
        alive = [bool(Jb[m] > kill) or part > 0 for m in range(M)]
        r = go(rigs[1], Jb, 1, part, "part%d" % k)
        used += int(r[4])
        for m in range(M):
            ctx.apart(Jb[m], kill, 1e-6)
        ok = all([bool(Jb[m] > kill) for m in range(M) if alive[m]])
        ctx.same("every step reports deaths", bool(r[5]), ok)
    ctx.eq("volumes", Ja, Jb)
    ctx.same("revived", int(whole[4]), used)
    ctx.same("the last step counts", bool(whole[5]), ok)


CONFIGS = (
    [Config("masks-m%d" % M, masks, dict(M=M, group="m"), points=20) for M in (1, 2, 3, 4)]
    + [Config("masks-at-m%d" % M, masks, dict(M=M, at=True, group="m"), points=20) for M in (1, 2, 3)]
    + [Config("step-%s-m%d%s%s" % (e, M, "-at" if at else "", "-revive" if t else ""), step, dict(M=M, ens=e, at=at, tries=t, group=e), points=8)
       for e, M, at, t in (("can", 2, False, 0), ("gc", 3, False, 0), ("can", 2, True, 0), ("gc", 2, True, 1), ("gc", 2, False, 1), ("can", 3, True, 0))]
    + [Config("step-%s" % k, step, dict(M=2, ens="can", cons=[(k, 1)], group=k), points=8) for k in ("local", "global")]
    + [Config("last-%s-m%d" % (e, M), last, dict(M=M, ens=e, group=e), points=20, thorough=M == 3 and e == "can", budget=60 if M < 3 else 400) for e in ("can", "gc") for M in (1, 2, 3)]
    + [Config("last-revive-%s-m%d" % (e, M), last, dict(M=M, ens=e, tries=5, group=e), points=20, thorough=M > 2, budget=60 if M < 3 else 300) for e, M in (("can", 2), ("gc", 2), ("gc", 3))]
    + [Config("last-of-%d-m%d-%d" % (n, M, t), last_of, dict(M=M, steps=n, tries=t, group="q"), points=16) for n, M, t in ((2, 2, 0), (2, 2, 5), (3, 2, 0), (3, 2, 5), (2, 3, 0), (2, 3, 5), (3, 2, 1))]
    + [Config("last-global", last, dict(M=2, cons=[("global", 1)], group="global"), points=20)]
)
