"""C11: the total volume is conserved, dead compartments stay out, volumes move by bounded steps."""
from symx.cfg import Config

from . import mstep

ID = "C11"
BOUNDS = "1-3 components, 1-4 compartments, listed patterns of dead compartments, one step from any state (also not normalised), canonical and grand-canonical, with and without constraints; all parameters"
OUTSIDE = "all compartments dead; larger systems"
REPLAY_PROCS = 4


def one(ctx, n=2, per=None, M=2, alive=None, ens="can", cons=(), norm=False, bound=None, kills=False, tries=0, group=None):
    s = mstep.System(ctx, n=n, per=per, ens=ens, cons=cons)
    alive = alive or (1,) * M
    kill = ctx.real("kill", nonneg=True, hint=(0.05, 0.25)) if not all(alive) else 0.0
    if tries:
        ctx.assume(kill < 1)  # revived compartments have unit volume
    om, J = mstep.fields(ctx, s, M, alive, kill, norm=norm)
    aJ, aw = ctx.real("aJ", pos=True, hint=(1e-3, 0.5)), ctx.real("aw", pos=True, hint=(1e-3, 0.2))
    b = ctx.real("bound", pos=True, hint=(1e-4, 0.1)) if bound is None else bound
    o = mstep.run(ctx, s, om, J, kill=kill, aJ=aJ, aw=aw, bound=b, tries=tries)
    dead = alive.count(0)
    if tries:
        alive = (1,) * M
    live = [m for m in range(M) if alive[m]]
    ctx.eq("total volume", sum(o.Js[m] for m in range(M)), len(live))
    for m in range(M):
        if not alive[m]:
            ctx.eq("dead compartments have no volume", o.Js[m], 0)
            for r in range(s.feat):
                ctx.eq("dead compartments have no field", o.omegas[r, m], 0)
        elif norm:
            ctx.le("volume change", ctx.abs(o.Js[m] - J[m]), b)
    ctx.same("revived", int(o.revived), dead if tries else 0)
    if kills:
        ctx.true("kills of the last step are reported", ctx.iff(o.safe, ctx.both(*[o.Js[m] > kill for m in live])))


def together(ctx, n=2, M=2, ens="can", cons=(), group=None):
    """a step limited by the bound is the unlimited step scaled down, alike for volumes, fields and multipliers"""
    s = mstep.System(ctx, n=n, ens=ens, cons=cons)
    om, J = mstep.fields(ctx, s, M, norm=True)
    aJ, aw = ctx.real("aJ", pos=True, hint=(1e-2, 0.5)), ctx.real("aw", pos=True, hint=(1e-2, 0.2))
    outs = []
    for k in range(2):
        b = ctx.real("bound%d" % k, pos=True, hint=(1e-4, 0.1))
        for c in s.c_cons:
            c.initialize(M)
        o = mstep.run(ctx, s, om, J, aJ=aJ, aw=aw, bound=b)
        d = [o.Js[m] - J[m] for m in range(M)]
        w = [(o.omegas[r, m] - om[r][m]) for r in range(s.feat) for m in range(M)]
        if cons:
            for c in s.c_cons:
                # multipliers as seen through the field they exert
                ref = ctx.zeros((s.feat, M))
                one = ctx.np.ones(M)
                c.prepare(ref, one, one)
                a = ctx.copy(c.potential)
                c.initialize(M)
                c.prepare(ref, one, one)
                w += [a[r, m] - c.potential[r, m] for r in range(s.feat) for m in range(M)]
        outs.append((d, w))
    for m in range(M):
        for q in range(len(outs[0][1])):
            ctx.eq("volumes and fields are slowed down alike", outs[0][0][m] * outs[1][1][q], outs[1][0][m] * outs[0][1][q], rtol=1e-6, atol=1e-13)


CONFIGS = (
    [Config("total-n%d-m%d%s-%s" % (n, M, "".join(map(str, a or "")), e), one, dict(n=n, M=M, alive=a, ens=e, kills=e == "gc", group=e), points=8)
     for n, M, a, e in ((2, 1, None, "can"), (2, 2, None, "can"), (1, 3, None, "gc"), (2, 3, (1, 0, 1), "can"), (2, 2, (0, 1), "can"), (3, 2, None, "can"), (2, 2, None, "gc"), (2, 4, (1, 1, 0, 1), "gc"))]
    + [Config("change-n%d-m%d%s-%s" % (n, M, "".join(map(str, a or "")), e), one, dict(n=n, M=M, alive=a, ens=e, norm=True, group=e), points=12)
       for n, M, a, e in ((1, 2, None, "gc"), (2, 2, None, "can"), (1, 3, None, "gc"), (1, 3, (1, 0, 1), "gc"), (2, 3, None, "gc"))]
    + [Config("total-%s" % k, one, dict(n=2, M=2, cons=[(k, 1)], group=k), points=8) for k in ("local", "global")]
    + [Config("together-%s-n%d-m%d%s" % (e, n, M, "-" + k if k else ""), together, dict(ens=e, n=n, M=M, cons=[(k, 1)] if k else (), group=k or e), points=12)
       for e, n, M, k in (("can", 2, 2, None), ("gc", 1, 2, None), ("gc", 2, 3, None), ("gc", 2, 2, "local"), ("can", 2, 2, "global"))]
    + [Config("revived-n%d-m%d%s-%s" % (n, M, "".join(map(str, a)), e), one, dict(n=n, M=M, alive=a, ens=e, kills=True, tries=9, group=e), points=16) for n, M, a, e in ((1, 2, (1, 0), "gc"), (2, 3, (0, 1, 1), "gc"), (1, 3, (0, 1, 0), "gc"), (2, 2, (1, 0), "can"))]
    + [Config("total-block", one, dict(per=[2, 1], M=2, group="poly"))]
    + [Config("large-total-%s" % e, one, dict(n=n, M=M, alive=a, ens=e, group=e), points=8) for e, n, M, a in (("gc", 2, 7, None), ("can", 4, 5, (1, 1, 0, 1, 1)))]
)
