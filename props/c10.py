"""C10: grand-canonical ensemble - fractions are fixed by the chemical potentials alone."""
from symx.cfg import Config

from . import mstep

ID = "C10"
BOUNDS = "1-4 components, 1-3 compartments, patterns of dead compartments; all activities/chemical potentials, sizes, fields, volumes"
OUTSIDE = "larger systems; overflow of exponentials"
REPLAY_PROCS = 3


def from_mu(ctx, n=2, M=2, sizes="array", how="array", alive=None, group=None):
    """phi = l exp(l mu) exp(-l w) in living compartments, independent of the volumes."""
    fl = ctx.fl
    alive = alive or (1,) * M
    if how == "scalar":
        x = ctx.real("mu", hint=(-1.0, 1.0))
        mu, arg = [x] * n, x
    else:
        mu = [ctx.real("mu_%d" % i, hint=(-1.0, 1.0)) for i in range(n)]
        arg = ctx.arr(mu) if how == "array" else mu
    if how == "int":
        mu = [ctx.integer("k_%d" % i, -2, 2) for i in range(n)]
        arg = ctx.iarr(mu)
    if sizes == "none":
        l, sarg = [1.0] * n, None
    elif sizes == "scalar":
        x = ctx.real("l", pos=True, hint=(0.5, 2.0))
        l, sarg = [x] * n, x
    elif sizes == "int":
        l = [ctx.integer("s_%d" % i, 1, 3) for i in range(n)]
        sarg = ctx.iarr(l)
    else:
        l = [ctx.real("l_%d" % i, pos=True, hint=(0.5, 2.0)) for i in range(n)]
        sarg = list(l) if sizes == "list" else ctx.arr(l)
    e = fl.GrandCanonicalEnsemble.from_chemical_potential(n, arg, sarg)
    ent = fl.IdealGasEntropy(n, sarg) if sarg is not None else fl.IdealGasEntropy(n)
    J = [ctx.real("J_%d" % m, pos=True, hint=(0.2, 1.8)) if alive[m] else 0.0 for m in range(M)]
    w = [[ctx.real("w_%d_%d" % (i, m), hint=(-1.0, 1.0)) for m in range(M)] for i in range(n)]
    phis = ctx.zeros((n, M))
    ce, cs = e.compiled(), ent.compiled()
    q = cs.partition(phis, ctx.arr(w), ctx.arr(J))
    inc = ce.normalize(phis, q, ctx.arr([float(a) for a in alive]))
    for m in range(M):
        tot = 0
        for i in range(n):
            want = l[i] * ctx.exp(l[i] * (mu[i] - w[i][m])) if alive[m] else 0
            ctx.eq("fraction", phis[i, m], want)
            tot = tot + want
        ctx.eq("deviation from incompressibility", inc[m], tot - 1 if alive[m] else 0)
    ctx.eq("activity", e.scaled_activity, ctx.arr([l[i] * ctx.exp(l[i] * mu[i]) for i in range(n)]))


def step(ctx, n=2, per=None, M=2, alive=None, cons=(), group=None):
    s = mstep.System(ctx, n=n, per=per, ens="gc", cons=cons)
    alive = alive or (1,) * M
    kill = ctx.real("kill", nonneg=True, hint=(0.05, 0.25)) if not all(alive) else 0.0
    om, J = mstep.fields(ctx, s, M, alive, kill)
    o = mstep.run(ctx, s, om, J, kill=kill)
    for m in range(M):
        for i in range(s.comp):
            ctx.eq("fraction", o.phis_comp[i, m], s.act[i] * ctx.exp(-s.sizes[i] * om[s.map[i]][m]) if alive[m] else 0)
    ctx.eq("reported incompressibility", o.incomp, ctx.max([ctx.abs(sum(o.phis_comp[i, m] for i in range(s.comp)) - 1) for m in range(M) if alive[m]]))


def activity(ctx, n=2, how="array"):
    """Directly given activities, also as scalar, list or integers, and after assignment."""
    fl = ctx.fl
    if how == "int":
        a, e = [1] * n, fl.GrandCanonicalEnsemble(n, 1)
    elif how == "set-int":
        a, e = [2] + [1] * (n - 1), fl.GrandCanonicalEnsemble(n, ctx.real("first", pos=True))
        e.compiled()
        e.scaled_activity = a
    elif how == "set-scalar":
        x = ctx.real("a", pos=True)
        a, e = [x] * n, fl.GrandCanonicalEnsemble(n, [1] * n)
        e.compiled()
        e.scaled_activity = x
    elif how == "scalar":
        x = ctx.real("a", pos=True)
        a, e = [x] * n, fl.GrandCanonicalEnsemble(n, x)
    else:
        a = [ctx.real("a_%d" % i, nonneg=True) for i in range(n)]
        if how == "array":
            given = ctx.arr(a)
            e = fl.GrandCanonicalEnsemble(n, given)
            given[0] = 9.0
        elif how == "list":
            e = fl.GrandCanonicalEnsemble(n, a)
        elif how == "strided":
            e = fl.GrandCanonicalEnsemble(n, ctx.arr([v for x in a for v in (x, 7.0)])[::2])
        else:
            e = fl.GrandCanonicalEnsemble(n, [1] * n)
            e.compiled()
            given = ctx.arr([v for x in a for v in (x, 7.0)])[::2] if how == "set-strided" else ctx.arr(a)
            e.scaled_activity = a if how == "setlist" else given
            given[0] = 9.0  # the caller's array is not shared
    ctx.eq("activity", e.scaled_activity, ctx.arr(a))
    p = [[ctx.real("p_%d_%d" % (i, m), pos=True) for m in range(2)] for i in range(n)]
    phis = ctx.arr(p)
    inc = e.compiled().normalize(phis, ctx.arr([1.0] * n), ctx.arr([1.0, 0.0]))
    for i in range(n):
        ctx.eq("fraction", phis[i, 0], a[i] * p[i][0])
        ctx.eq("dead compartments are empty", phis[i, 1], 0)
    ctx.eq("deviation", inc, ctx.arr([sum(a[i] * p[i][0] for i in range(n)) - 1, 0.0]))


CONFIGS = (
    [Config("mu-n%d-m%d-%s-%s%s" % (n, M, z, h, "".join(map(str, a or ""))), from_mu, dict(n=n, M=M, sizes=z, how=h, alive=a))
     for n, M, z, h, a in ((1, 1, "array", "array", None), (2, 2, "array", "array", None), (3, 2, "array", "list", None), (2, 3, "none", "array", (1, 0, 1)),
                           (3, 1, "scalar", "scalar", None), (2, 2, "none", "scalar", (0, 1)), (4, 2, "array", "array", None), (2, 1, "array", "scalar", None), (3, 3, "scalar", "array", (1, 1, 0)),
                           (2, 1, "array", "int", None), (2, 1, "scalar", "int", None), (2, 1, "int", "array", None), (2, 1, "int", "int", None), (2, 2, "none", "int", None), (2, 2, "list", "scalar", None), (3, 1, "list", "list", None))]
    + [Config("step-n%d-m%d%s" % (n, M, "".join(map(str, a or ""))), step, dict(n=n, M=M, alive=a, group="gc")) for n, M, a in ((2, 1, None), (2, 2, None), (3, 2, None), (2, 3, (1, 0, 1)), (2, 2, (0, 1)), (1, 2, None))]
    + [Config("step-block-%s" % "".join(map(str, p)), step, dict(per=p, M=2, group="gcpoly")) for p in ([2, 1], [1, 2])]
    + [Config("step-%s%s" % (k, "".join(map(str, a))), step, dict(n=2, M=len(a), alive=a, cons=[(k, 1)], group="gc" + k)) for k in ("local", "global") for a in ((1, 1), (1, 0, 1))]
    + [Config("activity-%s-n%d" % (h, n), activity, dict(n=n, how=h)) for h, n in (("int", 2), ("scalar", 3), ("array", 2), ("list", 2), ("strided", 3), ("set", 2), ("setlist", 3), ("set-int", 2), ("set-int", 1), ("set-scalar", 3), ("set-strided", 3))]
    + [Config("large-mu", from_mu, dict(n=7, M=6, sizes="array", how="array", alive=(1, 1, 0, 1, 1, 1))), Config("large-step", step, dict(n=6, M=7, alive=(1, 1, 1, 0, 1, 1, 1), group="gc"))]
)
