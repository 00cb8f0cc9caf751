"""C23: re-initialisation forgets the past, the finder owns its data, and settings follow their precedence."""
from symx.cfg import Config

from . import mstep, probe
from .common import matrix, vec

ID = "C23"
BOUNDS = "2 features (groups 2+1), 2 compartments, both ensembles, local/global constraints; histories of one run with other components, replacement of every component and re-initialisation in each way, then one iteration; any earlier and later parameters, any later change of the caller's arrays; scripted components for settings and budgets"
OUTSIDE = "longer histories; larger systems"
REPLAY_PROCS = 4
ARGS = dict(num_part=2, progress=False, kill_threshold=0.0, max_revive_per_compartment=3, acceptance_Js=0.0, Js_step_upper_bound=1.0, interval=20, tolerance=0.0)


def finder(ctx, s, aw, interaction=None, entropy=None, ensemble=None, constraints=None, **kw):
    c = constraints if constraints is not None else [c[-1] for c in s.cons] or None
    a = dict(ARGS)
    a.update(kw)
    return ctx.fl.CoexistingPhasesFinder(interaction or s.interaction, entropy or s.entropy, ensemble or s.ensemble, c, acceptance_omega=aw, rng=probe.Draws(ctx), **a)


def compare(ctx, label, f, g, steps=1):
    a, b = f.run(max_steps=steps), g.run(max_steps=steps)
    ctx.eq(label + ": fields", f.omegas, g.omegas)
    ctx.eq(label + ": fractions", a.fractions, b.fractions)
    ctx.eq(label + ": volumes", a.volumes, b.volumes)
    for k in ("max_abs_omega_diff", "max_abs_js_diff", "max_abs_incomp", "max_constraint_residue", "revive_count_left"):
        ctx.eq(label + ": diagnostics", f.diagnostics[k], g.diagnostics[k])


def fields(ctx, name, s, pos=False):
    return [[ctx.real("%s_%d_%d" % (name, r, m), pos=pos, hint=(0.05, 1.0) if pos else (-1.0, 1.0)) for m in range(2)] for r in range(s.feat)]


def others(ctx, s):
    """components of the same kinds with other parameters"""
    fl = ctx.fl
    if s.per:
        i = fl.FloryHugginsBlockInteraction(s.feat, 1.5, ctx.np.array(s.per))
        e = fl.IdealGasPolydispersedEntropy(s.feat, 1.25, ctx.np.array(s.per))
    else:
        i = fl.FloryHugginsInteraction(s.feat, 1.5)
        e = fl.IdealGasEntropy(s.feat, 1.25)
    n = fl.CanonicalEnsemble(s.comp, 0.125) if s.ens == "can" else fl.GrandCanonicalEnsemble(s.comp, 0.125)
    c = []
    for kind, C, T, el, ar, o in s.cons:
        cls = fl.LinearLocalConstraint if kind == "local" else fl.LinearGlobalConstraint
        c.append(cls(s.feat, ctx.np.ones((len(T), s.feat)) * 0.75, ctx.np.ones(len(T)) * 0.25))
    return i, e, n, c


def history(ctx, per=None, ens="can", cons=(), how="omegas", replace="all", form="array", group=None):
    s = mstep.System(ctx, n=2, per=per, ens=ens, cons=cons)
    aw = ctx.real("aw", pos=True, hint=(0.05, 0.3))
    old = fields(ctx, "old", s)
    new = fields(ctx, "new", s, pos=how == "phis")
    if form == "int":
        new = [[ctx.integer("whole_%d_%d" % (r, m), 0, 2) for m in range(2)] for r in range(s.feat)]
    i, e, n, c = others(ctx, s)
    if replace == "none":
        f = finder(ctx, s, aw)
    else:
        f = finder(ctx, s, aw, i, e, n, c or None)
    f.reinitialize_from_omegas(ctx.arr(old))
    f.run(max_steps=1)
    if replace != "none":
        f.set_interaction(s.interaction)
        f.set_entropy(s.entropy)
        f.set_ensemble(s.ensemble)
        f.set_constraints([x[-1] for x in s.cons] or None)
    g = finder(ctx, s, aw)
    if form == "int":
        arr = ctx.iarr(new)
    elif form == "transposed":
        arr = ctx.arr([[new[r][m] for r in range(s.feat)] for m in range(2)]).T
    elif form == "list":
        arr = [list(r) for r in new]
    else:
        arr = ctx.arr(new)
    for x, a in ((f, arr), (g, ctx.arr(new))):
        if how == "omegas":
            x.reinitialize_from_omegas(a)
        else:
            x.reinitialize_from_phis(a)
    if how == "omegas":
        ctx.eq("fields as given", f.omegas, ctx.arr(new))
    else:
        phi = [ctx.arr([new[r][m] for r in range(s.feat)]) for m in range(2)]
        chi = s.chis
        for m in range(2):
            for a in range(s.feat - 1):
                # fields are those of the interaction up to a common shift
                d = sum((chi[a][b] - chi[a + 1][b]) * new[b][m] for b in range(s.feat))
                ctx.eq("fields of the given fractions", f.omegas[a, m] - f.omegas[a + 1, m], d)
    # changing the array afterwards has no effect
    for r in range(s.feat):
        for m in range(2):
            if form == "list":
                arr[r][m] = 5.0
            else:
                arr[r, m] = 5 if form == "int" else 5.0
    compare(ctx, "after re-initialisation", f, g)
    ctx.eq("given array is not changed by the run", ctx.arr(arr) if form == "list" else arr, ctx.np.ones((s.feat, 2)) * 5.0)


def replaced(ctx, ens="can", cons=(), what="interaction", group=None):
    """a replaced component acts as if it had been there from the start (fields go on)"""
    s = mstep.System(ctx, n=2, ens=ens, cons=cons)
    aw = ctx.real("aw", pos=True, hint=(0.05, 0.3))
    i, e, n, c = others(ctx, s)
    kw = dict(interaction=i, entropy=e, ensemble=n, constraints=c)
    f = finder(ctx, s, aw, **{what: kw[what]})
    f.reinitialize_from_omegas(ctx.arr(fields(ctx, "old", s)))
    f.run(max_steps=1)
    now = ctx.copy(f.omegas)
    if what == "constraints":
        f.set_constraints([x[-1] for x in s.cons])
    else:
        getattr(f, "set_" + what)(getattr(s, what))
    ctx.eq("replacing keeps the fields", f.omegas, now)
    g = finder(ctx, s, aw)
    g.reinitialize_from_omegas(now)
    compare(ctx, "after replacement", f, g)


def dropped(ctx, kind="local", group=None):
    """constraints can be taken away again"""
    s = mstep.System(ctx, n=2, ens="gc", cons=[(kind, 1)])
    w = fields(ctx, "w", s)
    f = finder(ctx, s, 0.25)
    g = finder(ctx, s, 0.25, constraints=())
    which = ctx.choice("none", 3)
    f.reinitialize_from_omegas(ctx.arr(fields(ctx, "old", s)))
    f.run(max_steps=1)
    if which == 0:
        f.set_constraints(None)
    elif which == 1:
        f.set_constraints([])
    else:
        f.set_constraints()
    for x in (f, g):
        x.reinitialize_from_omegas(ctx.arr(w))
    compare(ctx, "without constraints", f, g)
    ctx.eq("no residue without constraints", f.diagnostics["max_constraint_residue"], 0)


def owns(ctx, per=None, ens="can", cons=(), later=False, group=None):
    """later changes of the user's objects do not reach the finder, and the run does not change them"""
    s = mstep.System(ctx, n=2, per=per, ens=ens, cons=cons)
    aw = ctx.real("aw", pos=True, hint=(0.05, 0.3))
    w = fields(ctx, "w", s)
    g = finder(ctx, s, aw)
    g.reinitialize_from_omegas(ctx.arr(w))
    pg = g.run(max_steps=1)
    chis = s.interaction.chis_feat if per else s.interaction.chis
    ctx.eq("user's matrix is not changed by a run", chis, ctx.arr(s.chis))
    ctx.eq("user's sizes are not changed by a run", s.entropy.sizes, ctx.arr(s.sizes))
    if ens == "can":
        ctx.eq("user's fractions are not changed by a run", s.ensemble.phi_means, ctx.arr(s.means))
    else:
        ctx.eq("user's activities are not changed by a run", s.ensemble.scaled_activity, ctx.arr(s.act))
    if later:
        i, e, n, c = others(ctx, s)
        f = finder(ctx, s, aw, i, e, n, c or None)
        f.set_interaction(s.interaction)
        f.set_entropy(s.entropy)
        f.set_ensemble(s.ensemble)
        if c:
            f.set_constraints([x[-1] for x in s.cons])
    else:
        f = finder(ctx, s, aw)
    f.reinitialize_from_omegas(ctx.arr(w))
    t = ctx.real("late", hint=(0.2, 2.0))

    def spoil(a):
        try:
            if a.ndim == 2:
                for r in range(a.shape[0]):
                    for q in range(a.shape[1]):
                        a[r, q] = t
            else:
                for r in range(a.shape[0]):
                    a[r] = t
        except ValueError:
            pass  # read-only: nobody can change it

    for a in s.given:
        spoil(a)
    spoil(chis)
    spoil(s.interaction.chis)
    spoil(s.entropy.sizes)
    spoil(s.ensemble.phi_means if ens == "can" else s.ensemble.scaled_activity)
    for x in s.cons:
        spoil(x[-1].Cs)
        spoil(x[-1].Ts)
    if per:
        s.interaction.chis_feat = t
    else:
        s.interaction.chis = t
    if ens == "can":
        s.ensemble.phi_means = t
    else:
        s.ensemble.scaled_activity = t
    for x in s.cons:
        x[-1].Cs = t * ctx.np.ones((1, s.feat))
        x[-1].Ts = t * ctx.np.ones(1)
    pf = f.run(max_steps=1)
    ctx.eq("later changes have no effect: fields", f.omegas, g.omegas)
    ctx.eq("later changes have no effect: fractions", pf.fractions, pg.fractions)
    for k in ("max_abs_omega_diff", "max_abs_js_diff", "max_abs_incomp", "max_constraint_residue"):
        ctx.eq("later changes have no effect: diagnostics", f.diagnostics[k], g.diagnostics[k])


def budget(ctx, how="omegas", group=None):
    """re-initialisation refills volumes and the revive budget"""
    r = probe.Rig(ctx, M=2, K=8, max_steps=3, interval=20, tolerance=0.0, acceptance_Js=1.0, Js_step_upper_bound=100.0, kill_threshold=0.5, max_revive_per_compartment=1)
    for k in range(8):
        x = ctx.real("x_%d" % k, lo=0.6, hi=0.9, hint=(0.6, 0.9))
        r.energy[k, 0], r.energy[k, 1] = x, -x
        r.res[k] = 1.0
    r.zero()
    r.finder.run(max_steps=4)
    ctx.same("budget was used", int(r.finder.diagnostics["revive_count_left"]), 0)
    if how == "omegas":
        r.zero()
    elif how == "random":
        r.finder.reinitialize_random()
    else:
        r.finder.reinitialize_from_phis(ctx.zeros((2, 2)))
    r.finder.run(max_steps=2)
    ctx.true("all compartments live after re-initialisation", r.seen[4] == 2)
    ctx.true("dead compartments are revived after re-initialisation", r.seen[5] == 2)
    ctx.same("budget was refilled", int(r.finder.diagnostics["revive_count_left"]), 1)


def volumes(ctx, how="omegas", M=3, group=None):
    """volumes of earlier runs are forgotten"""
    r = probe.Rig(ctx, M=M, K=6, max_steps=3, interval=20, tolerance=0.0, acceptance_Js=1.0, Js_step_upper_bound=100.0, kill_threshold=0.1, max_revive_per_compartment=1)
    e = [[ctx.real("e_%d_%d" % (k, m), lo=-0.2, hi=0.2, hint=(-0.2, 0.2)) for m in range(M)] for k in range(2)]
    for m in range(M):
        r.energy[0, m], r.energy[1, m] = e[0][m], e[1][m]
    r.res[0] = r.res[1] = 1.0
    r.zero()
    r.finder.run(max_steps=1)
    if how == "omegas":
        r.zero()
    elif how == "random":
        r.finder.reinitialize_random()
    else:
        r.finder.reinitialize_from_phis(ctx.zeros((2, M)))
    p = r.finder.run(max_steps=1)
    for m in range(M):
        ctx.eq("volumes start anew", p.volumes[m], 1 + sum(e[1]) / M - e[1][m])


def felt(ctx, kind="local", how="ctor", group=None):
    """settings of the package's own components act as documented"""
    s = mstep.System(ctx, n=2, ens="gc", cons=[(kind, 1)])
    w = fields(ctx, "w", s)
    _, C, T, el, ar, obj = s.cons[0]
    sh = ctx.real("shift", pos=True, hint=(0.5, 3.0))
    kw = dict(constraint_acceptance_ratio=ar, constraint_elasticity=el)
    if how == "ctor":
        f = finder(ctx, s, 0.25, additional_chis_shift=sh, **kw)
    elif how == "set":
        f = finder(ctx, s, 0.25, additional_chis_shift=0.5, constraint_acceptance_ratio=7.0, constraint_elasticity=5.0)
        f.set_interaction(s.interaction, additional_chis_shift=sh)
        f.set_constraints(obj, **kw)
    else:
        f = finder(ctx, s, 0.25, additional_chis_shift=sh, constraint_acceptance_ratio=7.0, constraint_elasticity=5.0)
        f.set_constraints([obj], kwargs_individual=[kw], constraint_acceptance_ratio=3.0)
    f.reinitialize_from_omegas(ctx.arr(w))
    mult = [0.0, 0.0]
    for k in range(2):
        before = ctx.copy(f.omegas)
        p = f.run(max_steps=1)
        phi = [[p.fractions[m, r] for m in range(2)] for r in range(2)]
        res = [sum(C[0][r] * phi[r][m] for r in range(2)) - T[0] for m in range(2)]
        total = [sum(res)] * 2 if kind == "global" else res
        d = []
        for m in range(2):
            h = [sum(s.chis[r][q] * phi[q][m] for q in range(2)) + C[0][r] * (mult[m] + 2 * el * total[m]) for r in range(2)]
            d.append([(f.omegas[r, m] - before[r, m]) - 0.25 * (h[r] - before[r, m]) for r in range(2)])
            ctx.eq("settings act on the fields", d[m][0], d[m][1])
            if k == 0:
                # the common part is the multiplier of incompressibility with the requested shift
                inc = phi[0][m] + phi[1][m] - 1
                low = ctx.min([s.chis[a][b] for a in range(2) for b in range(2)])
                coef = sum(s.chis[a][b] for a in range(2) for b in range(2)) + 4 * (sh - low)
                ctx.eq("shift acts on the fields", 2 * d[m][0], 0.25 * (coef * inc + sum(before[r, m] - h[r] for r in range(2))))
        for m in range(2):
            mult[m] = mult[m] + 0.25 * ar * (total[m] / 2 if kind == "global" else res[m])


def random_fields(ctx, n=2, M=2, group=None):
    """independent draws of the requested spread, at construction and later"""
    std = ctx.real("std", pos=True, hint=(0.5, 3.0))
    P = probe.get(ctx)
    rng = ctx.rng("rng")
    r = probe.Rig(ctx, M=M, random_std=std, rng=rng)
    for k in range(2):
        if k:
            r.finder.reinitialize_random()
        ctx.same("one draw per field", rng.k, 2 * M * (k + 1))
        d = [std * ctx.real("rng.%d" % (2 * M * k + q + 1)) for q in range(2 * M)]
        e = [r.finder.omegas[i, m] for i in range(2) for m in range(M)]
        for q in range(1, 2 * M + 1):
            ctx.eq("fields are the draws", sum(x**q for x in e) + 0, sum(x**q for x in d) + 0, rtol=1e-6)


def settings(ctx, group=None):
    """defaults < call < individual, redundant ones allowed, defaults untouched"""
    fl = ctx.fl
    got = []

    class Cons(fl.ConstraintBase):
        def __init__(self, inst):
            self.inst = inst

        def compiled(self, **kw):
            got.append(kw)
            return self.inst

        def _compiled_impl(self, **kw):
            return self.inst

    v = [ctx.real("v_%d" % k, hint=(-2.0, 2.0)) for k in range(4)]
    r = probe.Rig(ctx, K=4, alpha=v[0], beta=v[1])
    f = r.finder

    def check(label, kw, **want):
        ctx.same(label + ": names", sorted(kw), sorted(want))
        for k in want:
            if k in kw:
                ctx.eq(label + ": " + k, kw[k], want[k])

    w = [probe.Wrap(x) for x in (r.int, r.ent, r.ens, r.con)]
    f.set_interaction(w[0], beta=v[2], gamma=v[3])
    f.set_entropy(w[1], alpha=v[2])
    f.set_ensemble(w[2], gamma=v[3])
    f.set_constraints([w[3]], beta=v[3])
    check("interaction", w[0].kwargs[0], alpha=v[0], beta=v[2], gamma=v[3])
    check("entropy", w[1].kwargs[0], alpha=v[2], beta=v[1])
    check("ensemble", w[2].kwargs[0], alpha=v[0], beta=v[1], gamma=v[3])
    check("constraint", w[3].kwargs[0], alpha=v[0], beta=v[3])
    # defaults are untouched
    f.set_interaction(w[0])
    f.set_entropy(w[1])
    f.set_ensemble(w[2])
    f.set_constraints([w[3]])
    for k in range(4):
        check("defaults", w[k].kwargs[1], alpha=v[0], beta=v[1])
    # individual settings win
    other = probe.Wrap(r.con)
    f.set_constraints([w[3], other], kwargs_individual=[dict(alpha=v[3], delta=v[2]), dict(beta=v[2])], beta=v[3], gamma=v[1])
    check("first constraint", w[3].kwargs[2], alpha=v[3], beta=v[3], gamma=v[1], delta=v[2])
    check("second constraint", other.kwargs[0], alpha=v[0], beta=v[2], gamma=v[1])
    c = Cons(r.con)
    f.set_constraints(c, kwargs_individual=dict(alpha=v[3]), alpha=v[2], beta=v[2])
    check("single constraint", got[-1], alpha=v[3], beta=v[2])
    f.set_constraints(c)
    check("single constraint", got[-1], alpha=v[0], beta=v[1])
    got.clear()
    f.set_constraints([w[3], c])
    ctx.same("every constraint is used once", (len(w[3].kwargs), len(got)), (4, 1))
    check("defaults", w[3].kwargs[3], alpha=v[0], beta=v[1])
    check("defaults", got[-1], alpha=v[0], beta=v[1])


def forwarded(ctx, kind="local", how="ctor", group=None):
    """settings of the package's own components reach them"""
    s = mstep.System(ctx, n=2, ens="gc", cons=[(kind, 1)])
    w = fields(ctx, "w", s)
    ar, el = s.cons[0][4], s.cons[0][3]
    sh = ctx.real("shift", pos=True, hint=(0.5, 3.0))
    kw = dict(constraint_acceptance_ratio=ar, constraint_elasticity=el)
    if how == "ctor":
        f = finder(ctx, s, 0.25, additional_chis_shift=sh, **kw)
    elif how == "set":
        f = finder(ctx, s, 0.25, additional_chis_shift=0.5, constraint_acceptance_ratio=7.0, constraint_elasticity=5.0)
        f.set_interaction(s.interaction, additional_chis_shift=sh)
        f.set_constraints(s.cons[0][-1], **kw)
    else:
        f = finder(ctx, s, 0.25, additional_chis_shift=sh, constraint_acceptance_ratio=7.0, constraint_elasticity=5.0)
        f.set_constraints([s.cons[0][-1]], kwargs_individual=[kw], constraint_acceptance_ratio=3.0)
    f.reinitialize_from_omegas(ctx.arr(w))
    p = f.run(max_steps=2)
    # the same by hand
    i = s.interaction.compiled(additional_chis_shift=sh)
    o = mstep.run(ctx, s, w, [1.0, 1.0], steps=2, aJ=0.0, aw=0.25, bound=1.0, inter=i, cons=[c_init(s.c_cons[0], 2)])
    ctx.eq("settings arrive: fields", f.omegas, o.omegas)
    ctx.eq("settings arrive: residue", f.diagnostics["max_constraint_residue"], o.cres)


def c_init(c, M):
    c.initialize(M)
    return c


CONFIGS = (
    [Config("history-%s-%s-%s-%s" % (e, "-".join(c[0] for c in cs) or "none", h, rp), history, dict(ens=e, cons=cs, how=h, replace=rp, group="h" + e + "".join(c[0] for c in cs)))
     for e, cs, h, rp in (("can", (), "omegas", "all"), ("can", (), "phis", "all"), ("gc", (), "omegas", "none"), ("gc", (), "phis", "none"), ("gc", [("local", 1)], "omegas", "none"), ("gc", [("local", 1)], "phis", "all"),
                          ("can", [("global", 1)], "omegas", "all"), ("can", [("global", 1)], "phis", "none"))]
    + [Config("history-form-%s-%s" % (h, fm), history, dict(ens="gc", how=h, replace="none", form=fm, group="hform")) for h in ("omegas", "phis") for fm in ("int", "transposed", "list")]
    + [Config("history-block-%s" % h, history, dict(per=[2, 1], how=h, group="hpoly")) for h in ("omegas", "phis")]
    + [Config("replaced-%s-%s" % (e, w), replaced, dict(ens=e, what=w, group="h" + e)) for e in ("can", "gc") for w in ("interaction", "entropy", "ensemble")]
    + [Config("replaced-constraints-%s" % k, replaced, dict(ens=e, cons=[(k, 1)], what="constraints", group="h" + e + k)) for k, e in (("local", "gc"), ("global", "can"))]
    + [Config("replaced-constraints-both", replaced, dict(ens="gc", cons=[("local", 1), ("global", 1)], what="constraints", group="hgcb"))]
    + [Config("dropped-constraints-%s" % k, dropped, dict(kind=k, group="hgc" + k)) for k in ("local", "global")]
    + [Config("owns-%s-%s-%s" % (e, "-".join(c[0] for c in cs) or "none", l), owns, dict(ens=e, cons=cs, later=l, group="h" + e + "".join(c[0] for c in cs)))
       for e, cs in (("can", ()), ("gc", ()), ("gc", [("local", 1)]), ("can", [("global", 1)])) for l in (False, True)]
    + [Config("owns-block-%s" % l, owns, dict(per=[2, 1], later=l, group="hpoly")) for l in (False, True)]
    + [Config("budget-%s" % h, budget, dict(how=h, group="p"), points=2) for h in ("omegas", "phis", "random")]
    + [Config("volumes-%s" % h, volumes, dict(how=h, group="p"), points=2) for h in ("omegas", "phis", "random")]
    + [Config("felt-%s-%s" % (k, h), felt, dict(kind=k, how=h, group="hgc" + k)) for k in ("local", "global") for h in ("ctor", "set", "individual")]
    + [Config("random", random_fields, dict(group="p")), Config("settings", settings, dict(group="p"))]
    + [Config("forwarded-%s-%s" % (k, h), forwarded, dict(kind=k, how=h, group="hgc" + k)) for k in ("local", "global") for h in ("ctor", "set", "individual")]
)
