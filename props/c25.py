"""C25: collections of phases are validated, averaged, sorted and normalised without loss."""
from symx.cfg import Config

from . import phasesets as ps

ID = "C25"
BOUNDS = "1-4 phases with 1-3 components, any positive volumes (zero volumes for averages), any fractions >= 0 (ties between components left out where the order is concerned); plain collections and results with additional information; arrays, lists and integers"
OUTSIDE = "more phases or components; NaN; the order of phases with tied components"
REPLAY_PROCS = 2


def sort(ctx, P=2, n=2, cls="Phases", twice=False, group=None):
    info = dict(a=1.5) if cls != "Phases" else None
    o, v, f, V, F = ps.make(ctx, P, n, cls, distinct=True, info=info)
    r = o.sort()
    ps.permuted(ctx, "sorting permutes phases", r, v, f)
    if ctx.shape(r.fractions) == (P, n):
        ps.ordered(ctx, "sorted by the most concentrated components", r)
    ps.unchanged(ctx, "original is kept", o, v, f)
    ctx.eq("caller's arrays are kept", V, ctx.arr(v))
    ctx.eq("caller's arrays are kept", F, ctx.arr(f))
    if twice:
        q = r.sort()
        ctx.eq("sorting is idempotent", q.volumes, r.volumes)
        ctx.eq("sorting is idempotent", q.fractions, r.fractions)
    keeps(ctx, o, r, info)


def keeps(ctx, o, r, info):
    ctx.same("kind of collection", type(r).__name__, type(o).__name__)
    if info is not None:
        ctx.same("information is kept", dict(r.info), info)
        r.info["b"] = 2
        ctx.same("information of the original is kept", dict(o.info), info)


def ties(ctx, P=3, n=2, group=None):
    """with ties the order is free, but nothing gets lost"""
    o, v, f, V, F = ps.make(ctx, P, n)
    k = ctx.choice("tie", 3)
    for p in range(P):
        if k in (0, 2) and p < 2 and n > 1:
            ctx.assume(f[p][0] == f[p][1])
    if ctx.sym or (k == 1):
        r = o.sort()
        ps.permuted(ctx, "sorting permutes phases", r, v, f)


def averages(ctx, P=2, n=2, cls="Phases", zero=False, group=None):
    o, v, f, V, F = ps.make(ctx, P, n, cls, pos=not zero)
    if zero:
        for x in v:
            ctx.assume(x >= 0)
        ctx.assume(sum(v) > 0)
        ctx.apart(sum(v), 0.0, 1e-6)
    ctx.same("number of phases", int(o.num_phases), P)
    ctx.same("number of components", int(o.num_components), n)
    ctx.eq("total volume", o.total_volume, sum(v))
    m = o.mean_fractions
    ctx.same("mean fractions shape", ctx.shape(m), (n,))
    for i in range(n):
        ctx.eq("mean fractions", m[i] * sum(v), sum(v[p] * f[p][i] for p in range(P)))
    r = o.normalize()
    ctx.eq("normalised volume", r.total_volume, 1)
    for p in range(P):
        ctx.eq("ratios of volumes", r.volumes[p] * sum(v), v[p])
    ctx.eq("fractions are kept", r.fractions, ctx.arr(f))
    ctx.eq("mean fractions are kept", r.mean_fractions, m)
    ps.unchanged(ctx, "original is kept", o, v, f)
    keeps(ctx, o, r, None)


def info(ctx, P=2, n=2, group=None):
    fl = ctx.fl
    PR = ctx.mod("common").PhasesResult
    o, v, f, V, F = ps.make(ctx, P, n)
    x = ctx.real("x")
    d = dict(x=x, y="text")
    r = PR.from_phases(o, info=d)
    ps.unchanged(ctx, "phases of the result", r, v, f)
    ctx.true("is a collection of phases", isinstance(r, fl.Phases))
    ctx.same("information", sorted(r.info), ["x", "y"])
    ctx.eq("information", r.info["x"], x)
    for q in (r.normalize(), r.sort() if n == 1 else r.normalize().normalize()):
        ctx.same("information is kept", sorted(q.info), ["x", "y"])
        ctx.eq("information is kept", q.info["x"], x)
        ctx.true("information is a copy", q.info is not r.info)
    e1, e2 = PR(V, F), PR(V, F)
    ctx.same("no information by default", dict(e1.info), {})
    e1.info["z"] = 1
    ctx.same("no information by default", dict(e2.info), {})
    ctx.same("no information by default", dict(PR.from_phases(o).info), {})


def refused(ctx, vs=(2,), fs=(3, 2), cls="Phases", group=None):
    def block(name, shape):
        k = 1
        for s in shape:
            k *= s
        return ctx.arr([ctx.real("%s_%d" % (name, i), pos=True) for i in range(k)]).reshape(shape)

    C = ctx.fl.Phases if cls == "Phases" else ctx.mod("common").PhasesResult
    v, f = block("v", vs), block("f", fs)
    ctx.raises("arrays that do not fit are refused", ValueError, lambda: C(v, f))


def accepted(ctx, how="list", group=None):
    v = [ctx.real("v_%d" % p, pos=True) for p in range(2)]
    f = [[ctx.real("f_%d_%d" % (p, i), nonneg=True) for i in range(3)] for p in range(2)]
    if how == "int":
        v, f = [1, 3], [[1, 0, 0], [0, 0, 1]]
    o = ctx.fl.Phases(v, f)
    ps.unchanged(ctx, "lists are accepted", o, [1.0 * x for x in v], [[1.0 * x for x in r] for r in f])
    ctx.eq("mean fractions", o.mean_fractions * sum(v), ctx.arr([1.0 * sum(v[p] * f[p][i] for p in range(2)) for i in range(3)]))
    r = o.normalize()
    ctx.eq("normalised volumes", r.volumes, ctx.arr([x / sum(v) for x in v]))


CONFIGS = (
    [Config("sort-p%d-n%d-%s" % (P, n, c), sort, dict(P=P, n=n, cls=c, twice=P < 4, group="p"), points=12)
     for P, n, c in ((1, 2, "Phases"), (2, 1, "Phases"), (2, 2, "Phases"), (3, 2, "Phases"), (2, 3, "Phases"), (3, 3, "Phases"), (3, 2, "PhasesResult"), (4, 2, "Phases"), (1, 3, "PhasesResult"))]
    + [Config("sort-p2-n4", sort, dict(P=2, n=4, group="p"), thorough=True, budget=400)]
    + [Config("ties-n%d" % n, ties, dict(P=3, n=n, group="p")) for n in (1, 2)]
    + [Config("averages-p%d-n%d-%s%s" % (P, n, c, "-zero" if z else ""), averages, dict(P=P, n=n, cls=c, zero=z, group="p"))
       for P, n, c, z in ((1, 1, "Phases", False), (1, 3, "Phases", False), (2, 2, "Phases", False), (3, 2, "Phases", True), (2, 3, "PhasesResult", False), (4, 3, "Phases", False), (2, 1, "Phases", True))]
    + [Config("info-n%d" % n, info, dict(n=n, group="p")) for n in (1, 2)]
    + [Config("refused-%s-%s-%s" % ("x".join(map(str, v)), "x".join(map(str, f)), c), refused, dict(vs=v, fs=f, cls=c, group="p"))
       for v, f, c in (((2,), (3, 2), "Phases"), ((3,), (2, 3), "Phases"), ((2,), (2,), "Phases"), ((2, 1), (2, 2), "Phases"), ((1, 2), (2, 2), "Phases"), ((2,), (2, 2, 1), "Phases"), ((), (1, 2), "Phases"), ((1,), (2, 1), "PhasesResult"), ((2, 2), (2, 2), "PhasesResult"), ((3,), (1, 3), "Phases"), ((1,), (1,), "Phases"))]
    + [Config("accepted-%s" % h, accepted, dict(how=h, group="p")) for h in ("list", "int")]
    + [Config("large-averages", averages, dict(P=9, n=6, group="p"))]
)
