"""C20: the run loop stops exactly when all errors of the last step are below the tolerance, or the steps are used up."""
import math

from symx.cfg import Config

from . import probe

ID = "C20"
BOUNDS = "listed combinations of maximum steps (1-12, also fractional; 130-1100 with errors arbitrary in 3-4 listed steps) and check intervals (1-100), every sequence of errors in up to 12 steps, any tolerance; revive budgets 0-2 per compartment over up to 8 steps, 9 over 24 steps"
OUTSIDE = "longer runs; NaN errors; max_steps < 1; wall-clock diagnostics; what the progress bars show"
REPLAY_PROCS = 2
CH = ("inc", "pot", "en", "res")
KEYS = dict(inc="max_abs_incomp", pot="max_abs_omega_diff", en="max_abs_js_diff", res="max_constraint_residue")


def script(ctx, rig, active, nan=None, free=None):
    """arbitrary errors in the active channels; returns them by step"""
    out = {}
    for c in CH:
        vals = []
        for k in range(rig.K):
            v = 0.0
            if c in active and free is not None and k not in free:
                v = 1e3  # far from converged
            elif c in active:
                v = ctx.real("%s_%d" % (c, k), nonneg=c == "res", hint=(0.0, 1.0) if c == "res" else (-1.0, 1.0))
            if nan == c:
                v = float("nan")
            vals.append(v)
            if c == "en":
                rig.energy[k, 0] = v
                for m in range(1, rig.M):
                    rig.energy[k, m] = -v if m == 1 else 0.0
            else:
                getattr(rig, c)[k] = v
        out[c] = vals
    return out


def error(ctx, v):
    return ctx.abs(v) if v == v else v


def follow(ctx, rig, s, start, max_steps, interval, tol, label="", nan=None):
    """what happened in the run that began after `start` steps is what the errors demand"""
    d = rig.finder.diagnostics
    n = rig.steps - start
    ctx.same("reported steps" + label, int(d["steps"]), n)
    max_steps = math.ceil(max_steps)
    ctx.true("at most the maximum number of steps" + label, n <= max_steps)
    last = rig.steps - 1
    for c in CH if not nan else ():
        ctx.eq("reported error %s%s" % (c, label), d[KEYS[c]], error(ctx, s[c][last]))
    ok = [ctx.both(*[s[c][k] == s[c][k] and ctx.abs(s[c][k]) < tol for c in CH]) for k in range(start, rig.steps)]
    # steps at which convergence was not noticed are at most interval - 1 in a row
    for a in range(0, n - 1):
        if a + interval <= n - 1:
            ctx.true("checked at least once per interval" + label, ctx.neg(ctx.both(*ok[a:a + interval])))
    if 2 * n <= max_steps:
        ctx.true("stops early only when converged" + label, ok[-1])
    return ok


def loop(ctx, max_steps=4, interval=2, active=CH, how="ctor", nan=None, M=2, progress=False, zero_tol=False, free=None, group=None):
    tol = 0.0 if zero_tol else ctx.real("tol", pos=True, hint=(0.2, 1.2))
    K = max(8, math.ceil(max_steps))
    if how == "ctor":
        rig = probe.Rig(ctx, M=M, K=K, max_steps=max_steps, interval=interval, tolerance=tol)
        kw = dict(progress=True) if progress else {}
    else:
        rig = probe.Rig(ctx, M=M, K=K, max_steps=1, interval=7, tolerance=1e3 if zero_tol else 1e-12)
        kw = dict(max_steps=max_steps, interval=interval, tolerance=tol, progress=progress)
    s = script(ctx, rig, active, nan, free)
    if free is not None:
        ctx.assume(tol < 100)
    rig.zero()
    rig.finder.run(**kw)
    ok = follow(ctx, rig, s, 0, max_steps, interval, tol, nan=nan)
    n = rig.steps
    ctx.stable(n)
    if nan:
        ctx.true("NaN is not converged", 2 * n > max_steps)
    if interval == 1:
        for k in range(n - 1):
            ctx.true("stops at the first converged check", ctx.neg(ok[k]))
        ctx.true("stops only when converged", ctx.either(n == math.ceil(max_steps), ok[-1]))


def limited(ctx, M=2, group=None):
    """errors count in full also where the step was limited or the acceptances are small"""
    tol = ctx.real("tol", pos=True, hint=(0.05, 1.2))
    b, aJ, aw = ctx.real("bound", pos=True, hi=0.1, hint=(1e-4, 0.01)), ctx.real("aJ", pos=True, hint=(1e-3, 1.0)), ctx.real("aw", pos=True, hint=(1e-3, 0.1))
    rig = probe.Rig(ctx, M=M, K=4, max_steps=2, interval=1, tolerance=tol, acceptance_Js=aJ, acceptance_omega=aw, Js_step_upper_bound=b, max_revive_per_compartment=0)
    v = dict((c, ctx.real(c, nonneg=c == "res", hint=(0.0, 1.0) if c == "res" else (-1.0, 1.0))) for c in ("en", "pot", "res"))
    for k in range(4):
        rig.energy[k, 0], rig.energy[k, 1] = v["en"], -v["en"]
        rig.pot[k], rig.res[k] = v["pot"], v["res"]
    rig.zero()
    rig.finder.run(max_steps=1)
    for c in v:
        ctx.eq("reported error " + c, rig.finder.diagnostics[KEYS[c]], ctx.abs(v[c]))
    rig.finder.reinitialize_from_omegas(ctx.zeros((2, M)))
    for c in v:
        ctx.apart(ctx.abs(v[c]), tol, 1e-6)
    rig.finder.run()
    n = rig.steps - 1
    ctx.true("stops after one step exactly when all errors are small", ctx.iff(n == 1, ctx.both(*[ctx.abs(v[c]) < tol for c in v])))


def defaults(ctx, group=None):
    """arguments of one run do not change the next one; every default is used where nothing is given"""
    tol = ctx.real("tol", pos=True, hint=(0.5, 1.0))
    rig = probe.Rig(ctx, K=8, max_steps=3, interval=1, tolerance=tol)
    s = script(ctx, rig, ("pot",))
    rig.zero()
    t2 = ctx.real("tol2", pos=True, hint=(0.2, 0.6))
    which = ctx.choice("which", ["tolerance", "max_steps", "interval", "none"])
    rig.finder.run(**{"tolerance": dict(tolerance=t2), "max_steps": dict(max_steps=2), "interval": dict(interval=5), "none": {}}[which])
    a = rig.steps
    follow(ctx, rig, s, 0, 2 if which == "max_steps" else 3, 5 if which == "interval" else 1, t2 if which == "tolerance" else tol)
    rig.finder.run()
    ok = follow(ctx, rig, s, a, 3, 1, tol, " in the next run")
    n = rig.steps - a
    for k in range(n - 1):
        ctx.true("stops at the first converged check", ctx.neg(ok[k]))
    ctx.true("stops only when converged", ctx.either(n == 3, ok[-1]))


def unsafe(ctx, M=2, steps=4, group=None):
    """a step that kills a compartment does not count as converged, although all errors are small"""
    rig = probe.Rig(ctx, M=M, K=6, max_steps=steps, interval=1, tolerance=1e3, acceptance_Js=1.0, Js_step_upper_bound=100.0, kill_threshold=0.5, max_revive_per_compartment=0)
    x = [ctx.real("x%d" % k, lo=-0.9, hi=0.9, hint=(-0.9, 0.9)) for k in range(2)]
    for v in x:
        ctx.apart(v, 0.5, 1e-6)
        ctx.apart(v, -0.5, 1e-6)
    for k in range(2):
        # the first two volumes move by x in opposite directions
        rig.energy[k, 0] = -x[k]
        rig.energy[k, 1] = x[k]
    rig.zero()
    rig.finder.run()
    if ctx.abs(x[0]) >= 0.5:
        ctx.true("the killing step is not the last one", rig.steps >= 2)
        # compartments that died earlier do not keep the run from ending
        ctx.true("stops after a step in which nothing died", rig.steps == 2 if M == 2 else rig.steps <= 3)
    else:
        ctx.same("stops after the first step", rig.steps, 1)


def revived(ctx, M=2, group=None):
    """a step after a revive counts like any other: the run ends at the first check with small errors and nothing dying"""
    rig = probe.Rig(ctx, M=M, K=8, max_steps=8, interval=2, tolerance=1e3, acceptance_Js=1.0, Js_step_upper_bound=100.0, kill_threshold=0.5, max_revive_per_compartment=2)
    x = [ctx.real("x0", lo=-0.9, hi=0.9, hint=(-0.9, 0.9)), ctx.real("x1", hint=(-0.03, 0.03))]
    for v in (0.5, -0.5):
        ctx.apart(x[0], v, 1e-6)
    ctx.assume(ctx.abs(x[0]) > 0.5)  # one compartment dies in the first step
    ctx.assume(ctx.abs(x[1]) < 0.03)
    for k in range(2):
        rig.energy[k, 0] = -x[k]
        rig.energy[k, 1] = x[k]
    rig.zero()
    rig.finder.run()
    ctx.same("stops after the second step", rig.steps, 2)
    ctx.same("steps", int(rig.finder.diagnostics["steps"]), 2)
    ctx.same("revives left", int(rig.finder.diagnostics["revive_count_left"]), 2 * M - 1)


def dies_again(ctx, M=2, interval=2, group=None):
    """a run that ends early ends with a step that killed nothing, also where something was revived just before"""
    steps = 6
    rig = probe.Rig(ctx, M=M, K=8, max_steps=steps, interval=interval, tolerance=1e3, acceptance_Js=1.0, Js_step_upper_bound=100.0, kill_threshold=0.3, max_revive_per_compartment=8)
    x = [ctx.real("x%d" % k, lo=-0.9, hi=0.9, hint=(-0.9, 0.9)) for k in range(max(2, interval))]
    for k, v in enumerate(x):
        rig.energy[k, 0] = -v
        rig.energy[k, 1] = v
    rig.zero()
    rig.finder.run()
    if rig.steps < steps:
        left = int(rig.finder.diagnostics["revive_count_left"])
        rig.finder.run(max_steps=1)  # would revive what is dead
        ctx.same("the last step killed nothing", int(rig.finder.diagnostics["revive_count_left"]), left)


def budget(ctx, R=1, steps=5, split=0, reset=None, group=None):
    """a compartment that dies in every step is revived until the budget is used up, then stays dead"""
    M = 2
    K = max(8, steps)
    rig = probe.Rig(ctx, M=M, K=K, max_steps=steps, interval=20, tolerance=1e-9, acceptance_Js=1.0, Js_step_upper_bound=100.0, kill_threshold=0.5, max_revive_per_compartment=R)
    for k in range(K):
        rig.energy[k, 0] = 0.8
        rig.energy[k, 1] = -0.8
        rig.res[k] = 1.0  # never converged
    rig.zero()
    b = R * M
    left = b
    want = []
    dead = False
    for k in range(steps):
        if dead and left > 0:
            left -= 1
            want.append(2)
        else:
            want.append(1 if dead else 2)
        dead = True
        if split and k == split - 1 and reset:
            left = b
    if split:
        rig.finder.run(max_steps=split)
        if reset == "interaction":
            rig.finder.set_interaction(probe.Wrap(rig.int))
        elif reset == "entropy":
            rig.finder.set_entropy(probe.Wrap(rig.ent))
        elif reset == "ensemble":
            rig.finder.set_ensemble(probe.Wrap(rig.ens))
        elif reset == "constraints":
            rig.finder.set_constraints([probe.Wrap(rig.con)])
        elif reset == "reset":
            rig.finder.reset_revive()
        elif reset is None:
            k = ctx.choice("set", 4)
            w = dict(if_reset_revive=False)
            if k == 0:
                rig.finder.set_interaction(probe.Wrap(rig.int), **w)
            elif k == 1:
                rig.finder.set_entropy(probe.Wrap(rig.ent), **w)
            elif k == 2:
                rig.finder.set_ensemble(probe.Wrap(rig.ens), **w)
            else:
                rig.finder.set_constraints([probe.Wrap(rig.con)], **w)
        rig.finder.run(max_steps=steps - split)
    else:
        rig.finder.run()
    for k in range(steps):
        ctx.true("compartments alive in each step", rig.seen[k] == want[k])
    ctx.same("revives left", int(rig.finder.diagnostics["revive_count_left"]), left)


def criterion(ctx, group=None):
    rig = probe.Rig(ctx, K=4, max_steps=2, interval=1, convergence_criterion="something")
    rig.zero()
    ctx.raises("unknown convergence criterion", ValueError, lambda: rig.finder.run())


CONFIGS = (
    [Config("loop-%s-%s" % (str(m).replace(".", "_"), i), loop, dict(max_steps=m, interval=i, group="p"), budget=50) for m, i in ((3, 1), (4, 2), (6, 3), (5, 2), (4, 20), (1, 1), (7, 3), (2.5, 1))]
    + [Config("loop-long-%s-%s" % (m, i), loop, dict(max_steps=m, interval=i, active=("pot",), group="p")) for m, i in ((8, 1), (12, 4), (11, 2), (9, 5))]
    + [Config("override-%s-%s" % (m, i), loop, dict(max_steps=m, interval=i, how="run", active=("pot", "res"), group="p")) for m, i in ((4, 1), (6, 2), (8, 4))]
    + [Config("zero-tolerance-%s" % h, loop, dict(max_steps=4, interval=2, how=h, zero_tol=True, active=("pot", "en"), group="p")) for h in ("ctor", "run")]
    + [Config("progress-%s-%s" % (h, c), loop, dict(max_steps=3, interval=1, how=h, progress=True, active=(c,), group="p")) for h, c in (("ctor", "pot"), ("run", "en"), ("run", "inc"), ("ctor", "res"))]
    + [Config("one-channel-%s" % c, loop, dict(max_steps=4, interval=1, active=(c,), M=3, group="p")) for c in CH]
    + [Config("defaults", defaults, dict(group="p"), points=8), Config("criterion", criterion, dict(group="p"), points=1)]
    + [Config("unsafe-m%d" % M, unsafe, dict(M=M, group="p"), points=8) for M in (2, 3)]
    + [Config("revived-m%d" % M, revived, dict(M=M, group="p"), points=8) for M in (2, 3)]
    + [Config("dies-again-m%d-%d" % (M, i), dies_again, dict(M=M, interval=i, group="p"), points=12) for M, i in ((2, 2), (2, 1), (2, 3), (3, 2))]
    + [Config("limited-m%d" % M, limited, dict(M=M, group="p"), points=12) for M in (2, 3)]
    + [Config("budget-%d-%d" % (R, n), budget, dict(R=R, steps=n, group="p"), points=1) for R, n in ((0, 3), (1, 3), (1, 5), (2, 7), (9, 24))]
    + [Config("budget-split-%d-%s" % (n, r), budget, dict(R=1, steps=n, split=3, reset=r, group="p"), points=4 if r is None else 1) for n, r in ((6, None), (7, "interaction"), (7, "entropy"), (7, "ensemble"), (7, "constraints"), (7, "reset"))]
    + [Config("very-long-%d-%d" % (m, i), loop, dict(max_steps=m, interval=i, active=("pot", "res"), free=f, group="p")) for m, i, f in ((240, 60, (59, 119, 179)), (300, 100, (0, 99, 198, 199)), (130, 1, (64, 65, 128)), (1100, 1, (400, 1050)))]
)
