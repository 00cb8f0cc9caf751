"""C09: canonical ensemble - amounts are conserved exactly, whatever the fields."""
from symx.cfg import Config

from . import mstep

ID = "C09"
BOUNDS = "2-4 components (also blocks of 2+1, 1+2 components), 1-4 compartments, any pattern of living and dead compartments listed, one step (from any state, so by induction every step); all fields, volumes, sizes, chi, acceptances, thresholds and mean fractions"
OUTSIDE = "larger systems; underflow of Boltzmann factors; all compartments dead"
REPLAY_PROCS = 4


def amounts(ctx, s, o, J, alive, label=""):
    """mean fractions, dead compartments empty, reported incompressibility"""
    M = len(J)
    tot = sum(J[m] for m in range(M) if alive[m])
    for i in range(s.comp):
        ctx.eq("conserved amount" + label, sum(J[m] * o.phis_comp[i, m] for m in range(M) if alive[m]), s.means[i] * tot)
        for m in range(M):
            if alive[m]:
                ctx.true("fractions are positive", o.phis_comp[i, m] > 0)
            else:
                ctx.eq("dead compartments are empty", o.phis_comp[i, m], 0)


def one(ctx, n=2, per=None, M=2, alive=None, cons=(), group=None):
    s = mstep.System(ctx, n=n, per=per, cons=cons)
    alive = alive or (1,) * M
    kill = ctx.real("kill", nonneg=True, hint=(0.05, 0.25)) if not all(alive) else 0.0
    om, J = mstep.fields(ctx, s, M, alive, kill)
    aJ, aw = ctx.real("aJ", pos=True, hint=(1e-3, 0.2)), ctx.real("aw", pos=True, hint=(1e-3, 0.2))
    o = mstep.run(ctx, s, om, J, aJ=aJ, aw=aw, kill=kill)
    amounts(ctx, s, o, J, alive)
    for m in range(M):
        for r in range(s.feat):
            ctx.eq("feature fractions", o.phis_feat[r, m], sum(o.phis_comp[i, m] for i in range(s.comp) if s.map[i] == r))
    # Boltzmann weights: ratios between compartments follow the fields
    liv = [m for m in range(M) if alive[m]]
    for a, b in zip(liv, liv[1:]):
        for i in range(s.comp):
            ctx.eq("Boltzmann ratio", o.phis_comp[i, a] * ctx.exp(s.sizes[i] * om[s.map[i]][a]), o.phis_comp[i, b] * ctx.exp(s.sizes[i] * om[s.map[i]][b]))


def normalise(ctx, n=2, M=2, alive=None):
    """The ensemble alone: any positive weights with their own average are scaled to the target amounts."""
    fl = ctx.fl
    alive = alive or (1,) * M
    mean = [ctx.real("mean_%d" % i, nonneg=True, hint=(0.0, 0.9)) for i in range(n)]
    p = [[ctx.real("p_%d_%d" % (i, m), pos=True, hint=(0.1, 2.0)) for m in range(M)] for i in range(n)]
    J = [ctx.real("J_%d" % m, pos=True, hint=(0.2, 1.5)) if alive[m] else 0.0 for m in range(M)]
    Q = [sum(p[i][m] * J[m] for m in range(M)) / sum(J) for i in range(n)]
    c = fl.CanonicalEnsemble(n, ctx.arr(mean)).compiled()
    phis = ctx.arr(p)
    inc = c.normalize(phis, ctx.arr(Q), ctx.arr([float(a) for a in alive]))
    for i in range(n):
        ctx.eq("conserved amount", sum(J[m] * phis[i, m] for m in range(M)), mean[i] * sum(J))
    for m in range(M):
        ctx.eq("deviation from incompressibility", inc[m], sum(phis[i, m] for i in range(n)) - 1 if alive[m] else 0)
        if not alive[m]:
            ctx.eq("dead compartments are empty", phis[:, m], ctx.arr([0.0] * n))


def inputs(ctx, n=2, how="int"):
    """Mean fractions given as scalar, list, integers or non-contiguous arrays mean the same amounts."""
    fl = ctx.fl
    if how == "default":
        e, mean = fl.CanonicalEnsemble(n), [1 / n if not ctx.sym else ctx.real("one", lo=1, hi=1, hint=(1, 1)) / n] * n
    elif how == "scalar":
        x = ctx.real("x", pos=True, hint=(0.1, 1.0))
        e, mean = fl.CanonicalEnsemble(n, x), [x] * n
    elif how == "int":
        e, mean = fl.CanonicalEnsemble(n, [1] + [0] * (n - 1)), [1] + [0] * (n - 1)
    elif how == "set":
        e = fl.CanonicalEnsemble(n, [1] + [0] * (n - 1))
        mean = [ctx.real("m_%d" % i, pos=True, hint=(0.1, 0.9)) for i in range(n)]
        e.compiled()
        given = ctx.arr(mean)
        e.phi_means = given
        given[0] = 9.0  # the caller's array is not shared
    elif how.startswith("set-"):
        e = fl.CanonicalEnsemble(n, ctx.real("first", pos=True, hint=(0.1, 0.9)) if how == "set-after-scalar" else None)
        e.compiled()
        if how == "set-int":
            mean = [1] + [0] * (n - 1)
            e.phi_means = mean
        elif how == "set-scalar":
            x = ctx.real("x", pos=True, hint=(0.1, 1.0))
            mean = [x] * n
            e.phi_means = x
        else:
            mean = [ctx.real("m_%d" % i, pos=True, hint=(0.1, 0.9)) for i in range(n)]
            if how == "set-strided":
                big = ctx.arr([v for m in mean for v in (m, 0.0)])
                e.phi_means = big[::2]
                big[0] = 9.0
            else:
                e.phi_means = mean
    elif how == "list":
        mean = [ctx.real("m_%d" % i, pos=True, hint=(0.1, 0.9)) for i in range(n)]
        e = fl.CanonicalEnsemble(n, mean)
    else:
        mean = [ctx.real("m_%d" % i, pos=True, hint=(0.1, 0.9)) for i in range(n)]
        big = ctx.arr([v for m in mean for v in (m, 0.0)])
        e = fl.CanonicalEnsemble(n, big[::2])
        big[0] = 9.0
    ctx.eq("stored mean fractions", e.phi_means, ctx.arr(mean), rtol=1e-12)
    c = e.compiled()
    phis = ctx.arr([[ctx.real("p_%d" % i, pos=True, hint=(0.1, 2.0))] for i in range(n)])
    q = ctx.arr([phis[i, 0] for i in range(n)])
    c.normalize(phis, q, ctx.arr([1.0]))
    for i in range(n):
        ctx.eq("conserved amount", phis[i, 0], mean[i])


G = dict(group="can")
CONFIGS = (
    [Config("step-n%d-m%d" % (n, M), one, dict(n=n, M=M, **G)) for n, M in ((2, 1), (2, 2), (3, 2), (2, 3), (1, 2), (3, 3), (2, 4))]
    + [Config("step-dead-%s" % "".join(map(str, a)), one, dict(n=2, M=len(a), alive=a, **G)) for a in ((1, 0), (0, 1), (1, 0, 1), (0, 1, 1), (0, 1, 0), (1, 1, 0))]
    + [Config("step-block-%s" % "".join(map(str, p)), one, dict(per=p, M=2, group="poly")) for p in ([2, 1], [1, 2], [3], [2, 2])]
    + [Config("step-block-dead", one, dict(per=[2, 1], M=3, alive=(1, 0, 1), group="poly"))]
    + [Config("step-%s" % k, one, dict(n=2, M=2, cons=[(k, 1)], group=k)) for k in ("local", "global")]
    + [Config("normalise-n%d-m%d-%s" % (n, M, "".join(map(str, a or ""))), normalise, dict(n=n, M=M, alive=a))
       for n, M, a in ((1, 1, None), (2, 2, None), (3, 3, None), (4, 2, None), (2, 3, (1, 0, 1)), (3, 2, (0, 1)), (5, 4, (1, 1, 0, 1)))]
    + [Config("inputs-%s-n%d" % (h, n), inputs, dict(n=n, how=h)) for h, n in (("int", 2), ("int", 3), ("scalar", 3), ("list", 3), ("strided", 2), ("default", 2), ("default", 4), ("default", 1), ("default", 3), ("set", 2), ("set", 3), ("set-int", 3), ("set-scalar", 2), ("set-list", 3), ("set-strided", 3), ("set-after-scalar", 2), ("int", 1), ("scalar", 1))]
    + [Config("large-n%d-m%d" % (n, M), one, dict(n=n, M=M, **G)) for n, M in ((5, 3), (2, 7))]
    + [Config("large-normalise", normalise, dict(n=7, M=9, alive=(1, 1, 0, 1, 1, 0, 0, 1, 1))), Config("large-block", one, dict(per=[4, 3], M=3, group="poly"))]
)
