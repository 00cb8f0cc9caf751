"""C26: the shortcut gives what the explicit pipeline gives, as normalised, clustered, sorted phases."""
from symx.cfg import Config

from . import phasesets as ps
from . import probe
from .common import matrix

ID = "C26"
BOUNDS = "2-3 components, 1-2 compartments, 1-2 iterations; matrices as arrays or scalars, sizes omitted, scalar or arrays, mean fractions as arrays or lists; any values; each option of the finder with a value that matters"
OUTSIDE = "longer runs; larger systems"
REPLAY_PROCS = 4
KEYS = ("steps", "max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue", "revive_count_left")


def explicit(ctx, n, chis, means, sizes, kw):
    fl = ctx.fl
    i = fl.FloryHugginsInteraction(n, chis)
    e = fl.IdealGasEntropy(n) if sizes is None else fl.IdealGasEntropy(n, sizes)
    f = fl.CoexistingPhasesFinder(i, e, fl.CanonicalEnsemble(n, means), **kw)
    return f, f.run()


def options(ctx, M, steps, **more):
    kw = dict(num_part=M, progress=False, max_steps=steps, interval=20, tolerance=0.0, kill_threshold=0.0, max_revive_per_compartment=0, acceptance_Js=0.0, acceptance_omega=0.25, Js_step_upper_bound=1.0, random_std=2.0)
    kw.update(more)
    return kw


def arguments(ctx, n, form):
    if "scalar" in form:
        chis = ctx.real("chi", hint=(0.5, 4.0))
    else:
        chis = ctx.arr(matrix(ctx, "chi", n, symmetric="sym" in form))
    means = [ctx.real("mean_%d" % i, pos=True, hint=(0.1, 0.9)) for i in range(n)]
    if "list" not in form:
        means = ctx.arr(means)
    if "nosize" in form:
        sizes = None
    elif "onesize" in form:
        sizes = ctx.real("l", pos=True, hint=(0.5, 2.0))
    else:
        sizes = ctx.arr([ctx.real("l_%d" % i, pos=True, hint=(0.5, 2.0)) for i in range(n)])
    return chis, means, sizes


def pipeline(ctx, n=2, M=1, steps=1, form=(), more=None, single=True, group=None):
    chis, means, sizes = arguments(ctx, n, form)
    kw = options(ctx, M, steps, **(more or {}))
    r = ctx.fl.find_coexisting_phases(n, chis, means, **({} if sizes is None else dict(sizes=sizes)), rng=probe.Draws(ctx), **kw)
    f, p = explicit(ctx, n, chis, means, sizes, dict(kw, rng=probe.Draws(ctx)))
    q = p.get_clusters().sort().normalize()
    ctx.same("shapes", (ctx.shape(r.volumes), ctx.shape(r.fractions)), (ctx.shape(q.volumes), ctx.shape(q.fractions)))
    ctx.eq("volumes", r.volumes, q.volumes)
    ctx.eq("fractions", r.fractions, q.fractions)
    ctx.eq("total volume", r.total_volume, 1)
    ctx.eq("mean fractions", r.mean_fractions, p.mean_fractions)
    for k in KEYS:
        ctx.eq("information: " + k, r.info[k], f.diagnostics[k])
    ctx.true("result is a collection of phases", isinstance(r, ctx.fl.Phases))


def option(ctx, name="acceptance_omega", value=0.5, form=("scalar", "nosize"), steps=2, M=1, group=None):
    """an option reaches the finder: same as explicit, whatever the value"""
    pipeline(ctx, n=2, M=M, steps=steps, form=form, more={name: value})


CONFIGS = (
    [Config("n%d-m%d-%s" % (n, M, "-".join(fm) or "full"), pipeline, dict(n=n, M=M, form=fm, group="c"))
     for n, M, fm in ((2, 1, ()), (2, 1, ("scalar", "nosize")), (3, 1, ("list",)), (2, 1, ("onesize", "list")), (3, 1, ("sym", "nosize")), (2, 2, ("scalar", "nosize")), (2, 2, ("scalar", "onesize")), (2, 2, ("sym", "list")))]
    + [Config("n%d-m%d-%s" % (n, M, "-".join(fm) or "full"), pipeline, dict(n=n, M=M, form=fm, group="c"), thorough=True, budget=400) for n, M, fm in ((2, 2, ()), (3, 2, ("scalar", "nosize")))]
    + [Config("two-steps", pipeline, dict(n=2, M=1, steps=2, group="c"))]
    + [Config("option-%s" % k, option, dict(name=k, value=v, group="c"))
       for k, v in (("acceptance_omega", 0.125), ("max_steps", 1), ("random_std", 0.5), ("additional_chis_shift", 3.0), ("interval", 1), ("tolerance", 0.5))]
    + [Config("option-m2-%s" % k, option, dict(name=k, value=v, M=2, steps=1, group="c"), budget=120) for k, v in (("tolerance", 0.75), ("random_std", 0.125), ("kill_threshold", 0.25))]
)
