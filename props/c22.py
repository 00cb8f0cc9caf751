"""C22: components that do not fit are refused, and the finder goes on with what it had."""
from symx.cfg import Config

from . import mstep, probe

ID = "C22"
BOUNDS = "finders with 2 or 3 features (also groups 2+1), 2 compartments, both ensembles; replacements with 1-4 components/features of every kind, at construction and later, alone and in lists of constraints; one iteration afterwards, all parameters"
OUTSIDE = "larger sizes"
REPLAY_PROCS = 4


def errors(ctx):
    ex = ctx.mod("common.exceptions")
    return (ex.ComponentNumberError, ex.FeatureNumberError)


def candidate(ctx, kind, sz):
    """a component of the given size: number of features, or list of components per feature"""
    fl = ctx.fl
    if kind == "interaction":
        return fl.FloryHugginsInteraction(sz, 1.0) if isinstance(sz, int) else fl.FloryHugginsBlockInteraction(len(sz), 1.0, ctx.np.array(sz))
    if kind == "entropy":
        return fl.IdealGasEntropy(sz) if isinstance(sz, int) else fl.IdealGasPolydispersedEntropy(len(sz), None, ctx.np.array(sz))
    if kind == "canonical":
        return fl.CanonicalEnsemble(sz if isinstance(sz, int) else sum(sz))
    if kind == "grand":
        return fl.GrandCanonicalEnsemble(sz if isinstance(sz, int) else sum(sz), 0.5)
    n = sz if isinstance(sz, int) else len(sz)
    cls = fl.LinearLocalConstraint if kind == "local" else fl.LinearGlobalConstraint
    return cls(n, ctx.np.ones(n), 0.5)


def hand_over(f, kind, c, **kw):
    if kind == "interaction":
        f.set_interaction(c, **kw)
    elif kind == "entropy":
        f.set_entropy(c, **kw)
    elif kind in ("canonical", "grand"):
        f.set_ensemble(c, **kw)
    else:
        f.set_constraints(c, **kw)


ARGS = dict(num_part=2, progress=False, kill_threshold=0.0, max_revive_per_compartment=3, acceptance_Js=0.0, Js_step_upper_bound=1.0, interval=20, tolerance=0.0)


def finder(ctx, s, w, aw):
    f = ctx.fl.CoexistingPhasesFinder(s.interaction, s.entropy, s.ensemble, [c[-1] for c in s.cons] or None, acceptance_omega=aw, rng=probe.Draws(ctx), **ARGS)
    f.reinitialize_from_omegas(ctx.arr(w))
    return f


def refused(ctx, n=2, per=None, ens="can", cons=(), kind="interaction", sizes=(3,), how="alone", group=None):
    s = mstep.System(ctx, n=n, per=per, ens=ens, cons=cons)
    w = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.0, 1.0)) for m in range(2)] for r in range(s.feat)]
    aw = ctx.real("aw", pos=True, hint=(0.05, 0.3))
    f, g = finder(ctx, s, w, aw), finder(ctx, s, w, aw)
    if cons:
        # constraints carry a state that has to survive
        f.run(max_steps=1)
        g.run(max_steps=1)
    for sz in sizes:
        c = candidate(ctx, kind, sz)
        if how == "second":
            c = [candidate(ctx, kind, s.feat), c]
        elif how == "list":
            c = [c]
        ctx.raises("component of another size is refused", errors(ctx), lambda: hand_over(f, kind, c))
    a, b = f.run(max_steps=1), g.run(max_steps=1)
    ctx.eq("unchanged after a refused component: fields", f.omegas, g.omegas)
    ctx.eq("unchanged after a refused component: fractions", a.fractions, b.fractions)
    for k in ("max_abs_omega_diff", "max_abs_js_diff", "max_abs_incomp", "max_constraint_residue", "revive_count_left"):
        ctx.eq("unchanged after a refused component: diagnostics", f.diagnostics[k], g.diagnostics[k])


def construct(ctx, n=2, kind="interaction", sz=3, group=None):
    """constructor"""
    k = dict(interaction=candidate(ctx, "interaction", n), entropy=candidate(ctx, "entropy", n), ensemble=candidate(ctx, "canonical", n), constraints=None)
    key = {"canonical": "ensemble", "grand": "ensemble", "local": "constraints", "global": "constraints"}.get(kind, kind)
    k[key] = candidate(ctx, kind, sz)
    ctx.raises("component of another size is refused", errors(ctx), lambda: ctx.fl.CoexistingPhasesFinder(**k, rng=probe.Draws(ctx), **ARGS))
    if key == "constraints":
        k[key] = [candidate(ctx, kind, n), candidate(ctx, kind, sz)]
        ctx.raises("component of another size is refused", errors(ctx), lambda: ctx.fl.CoexistingPhasesFinder(**k, rng=probe.Draws(ctx), **ARGS))


def fields(ctx, n=2, shape=(2, 3), how="omegas", group=None):
    """fields of another shape are refused"""
    s = mstep.System(ctx, n=n)
    w = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.0, 1.0)) for m in range(2)] for r in range(n)]
    aw = ctx.real("aw", pos=True, hint=(0.05, 0.3))
    f = finder(ctx, s, w, aw)
    cnt = 1
    for x in shape:
        cnt *= x
    x = ctx.arr([ctx.real("x_%d" % k, pos=True) for k in range(cnt)]).reshape(shape)
    call = f.reinitialize_from_omegas if how == "omegas" else f.reinitialize_from_phis
    ctx.raises("fields of another shape are refused", ValueError, lambda: call(x))
    ctx.eq("fields are kept", f.omegas, ctx.arr(w))


def budget(ctx, kind="interaction", sz=3, again=1, group=None):
    """a refused component leaves the count of remaining revives"""
    rig = probe.Rig(ctx, M=2, K=8, max_steps=5, interval=20, tolerance=1e-9, acceptance_Js=1.0, Js_step_upper_bound=100.0, kill_threshold=0.5, max_revive_per_compartment=1)
    for k in range(8):
        # one compartment dies in every step, never converged
        rig.energy[k, 0] = 0.8
        rig.energy[k, 1] = -0.8
        rig.res[k] = ctx.real("res_%d" % k, lo=0.5, hint=(0.5, 2.0))
    rig.zero()
    rig.finder.run(max_steps=2)
    ctx.same("revives left", int(rig.finder.diagnostics["revive_count_left"]), 1)
    for _ in range(again):
        c = candidate(ctx, kind, sz)
        ctx.raises("component of another size is refused", errors(ctx), lambda: hand_over(rig.finder, kind, [c] if again > 1 else c))
    rig.finder.run(max_steps=3)
    for k, w in enumerate((2, 2, 2, 1, 1)):
        ctx.true("compartments alive in each step", rig.seen[k] == w)
    ctx.same("revives left", int(rig.finder.diagnostics["revive_count_left"]), 0)


CONFIGS = (
    [Config("set-%s-%s" % (e, k), refused, dict(ens=e, kind=k, sizes=z, how=h, group=e))
     for e in ("can", "gc") for k, z, h in (("interaction", (1, 3, (3,), (1, 1, 1)), "alone"), ("entropy", (1, 3, (2, 1), (2,)), "alone"), ("canonical", (1, 3, 4), "alone"), ("grand", (1, 3, 4), "alone"),
                                             ("local", (1, 3), "alone"), ("global", (1, 3), "list"))]
    + [Config("set-second-%s" % k, refused, dict(kind=k, sizes=(1, 3), how="second", group="can")) for k in ("local", "global")]
    + [Config("set-n3-%s" % k, refused, dict(n=3, kind=k, sizes=(2, 4), group="can")) for k in ("interaction", "entropy", "canonical", "local")]
    + [Config("set-block-%s" % k, refused, dict(per=[2, 1], kind=k, sizes=z, group="poly"))
       for k, z in (("interaction", (3, 1)), ("entropy", (2, 3, (1, 1), (1, 1, 1))), ("canonical", (2, 4)), ("global", (3, 1)))]
    + [Config("set-constrained-%s" % k, refused, dict(cons=[("local", 1)], ens="gc", kind=k, sizes=(1, 3), group="gclocal")) for k in ("local", "global", "interaction")]
    + [Config("new-%s-%s" % (k, str(z).replace(" ", "")), construct, dict(kind=k, sz=z, group="x"))
       for k, z in (("interaction", 1), ("interaction", 3), ("entropy", 3), ("entropy", 1), ("canonical", 3), ("canonical", 1), ("grand", 4), ("local", 3), ("local", 1), ("global", 3), ("entropy", (2, 1)), ("interaction", (1, 1, 1)))]
    + [Config("fields-%s-%s" % (h, "x".join(map(str, z))), fields, dict(shape=z, how=h, group="can")) for h in ("omegas", "phis") for z in ((2, 3), (3, 2), (2,), (2, 1), (1, 2), (4,), (1, 4), (4, 1), (2, 2, 1), (1, 2, 2))]
    + [Config("budget-%s" % k, budget, dict(kind=k, group="p"), points=2) for k in ("interaction", "entropy", "canonical", "grand", "local", "global")]
    + [Config("budget-list-%s" % k, budget, dict(kind=k, again=2, group="p"), points=2) for k in ("local", "global")]
)
