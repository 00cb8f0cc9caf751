"""C17: dead compartments are revived inside the (scaled) range of the fields, living ones are untouched."""
from symx.cfg import Config

from . import mstep
from .c20 import budget

ID = "C17"
BOUNDS = "1-3 fields, 1-4 compartments, any real volumes and threshold (every pattern of dead compartments), any fields, any non-negative scale, any random draws"
OUTSIDE = "more compartments; the distribution of the draws beyond the range it covers"
REPLAY_PROCS = 3


def setup(ctx, n, M):
    t = [[ctx.real("t_%d_%d" % (r, m), hint=(-2.0, 2.0)) for m in range(M)] for r in range(n)]
    J = [ctx.real("J_%d" % m, hint=(-0.3, 1.5)) for m in range(M)]
    thr = ctx.real("thr", nonneg=True, hint=(0.0, 0.8))
    for j in J:
        ctx.apart(j, thr)
    return t, J, thr


def revive(ctx, n=2, M=2, group=None):
    impl = ctx.mod("mcmp._finder_impl")
    t, J, thr = setup(ctx, n, M)
    sc = ctx.real("sc", nonneg=True, hint=(0.0, 12.0))
    Js, T = ctx.arr(J), ctx.arr(t)
    cnt = impl.revive_compartments_by_random(Js, T, thr, ctx.rng("rng", jit=True), sc)
    dead = 0
    for m in range(M):
        if J[m] <= thr:
            dead += 1
            ctx.eq("revived volume", Js[m], 1)
            for r in range(n):
                hi, lo = ctx.max(t[r]), ctx.min(t[r])
                # centre (hi + lo) / 2, half width (hi - lo) / 2
                ctx.le("range", T[r, m] - (hi + lo) / 2, sc * (hi - lo) / 2)
                ctx.le("range", (hi + lo) / 2 - T[r, m], sc * (hi - lo) / 2)
        else:
            ctx.eq("living volume", Js[m], J[m])
            for r in range(n):
                ctx.eq("living field", T[r, m], t[r][m])
    ctx.same("number of revived compartments", int(cnt), dead)


def ends(ctx, n=1, M=2, group=None):
    """the draws cover the range up to both ends, independently for every value"""
    impl = ctx.mod("mcmp._finder_impl")
    t, J, thr = setup(ctx, n, M)
    sc = ctx.real("sc", nonneg=True, hint=(0.1, 12.0))
    val = []
    for k, unit in enumerate(((0.0, 1e-9), (1 - 1e-9, 1.0))):
        Js, T = ctx.arr(J), ctx.arr(t)
        impl.revive_compartments_by_random(Js, T, thr, ctx.rng("rng%d" % k, jit=True, unit=unit), sc)
        val.append(T)
    for m in range(M):
        if J[m] <= thr:
            for r in range(n):
                w = ctx.max(t[r]) - ctx.min(t[r])
                d = ctx.abs(val[1][r, m] - val[0][r, m])
                ctx.le("draws reach both ends", sc * w * 0.9999, d)


def corners(ctx, dead=(0, 1), group=None):
    """the values are drawn independently: every combination of the two ends occurs"""
    impl = ctx.mod("mcmp._finder_impl")
    n, M = 2, len(dead)
    t, J, thr = setup(ctx, n, M)
    for m in range(M):
        ctx.assume(J[m] <= thr if dead[m] else J[m] > thr)
    lo, hi = (0.0, 1e-9), (1 - 1e-9, 1.0)
    got = []
    for k in range(16):
        Js, T = ctx.arr(J), ctx.arr(t)
        rng = ctx.rng("rng%d" % k, jit=True, unit=[hi if k >> b & 1 else lo for b in range(4)])
        impl.revive_compartments_by_random(Js, T, thr, rng, 1.0)
        got.append(T)
    m = dead.index(1)
    far = lambda a, r: ctx.abs(a - ctx.min(t[r])) * 2 > ctx.max(t[r]) - ctx.min(t[r])
    for r in range(n):
        ctx.assume(ctx.max(t[r]) - ctx.min(t[r]) > 0.01)
    for u in (0, 1):
        for v in (0, 1):
            c = [ctx.both(far(g[0, m], 0) if u else ctx.neg(far(g[0, m], 0)), far(g[1, m], 1) if v else ctx.neg(far(g[1, m], 1))) for g in got]
            ctx.true("values are drawn independently", ctx.either(*c))


def step(ctx, n=2, M=2, alive=(1, 0), group=None):
    """within an iteration: every dead compartment is revived before the step, none with an empty budget"""
    s = mstep.System(ctx, n=n, ens="gc")
    kill = ctx.real("kill", nonneg=True, hint=(0.05, 0.25))
    ctx.assume(kill < 1)
    om, J = mstep.fields(ctx, s, M, alive, kill)
    tries = ctx.choice("tries", [0, 1, 3])
    o = mstep.run(ctx, s, om, J, kill=kill, tries=tries, scaler=ctx.real("sc", nonneg=True, hint=(0.0, 12.0)), aJ=0.0, aw=0.0, bound=1.0)
    dead = sum(1 for a in alive if not a)
    ctx.same("number of revived compartments", int(o.revived), dead if tries > 0 else 0)
    n_live = M if tries > 0 else M - dead
    ctx.eq("total volume", sum(o.Js[m] for m in range(M)), n_live)
    for m in range(M):
        if alive[m]:
            for r in range(n):
                ctx.eq("living field", o.omegas[r, m], om[r][m])
        for r in range(n):
            if tries > 0:
                ctx.true("revived compartments take part", o.phis_comp[r, m] > 0)
            elif not alive[m]:
                ctx.eq("dead compartments are empty", o.phis_comp[r, m], 0)


CONFIGS = (
    [Config("n%d-m%d" % (n, M), revive, dict(n=n, M=M, group="r")) for n, M in ((1, 1), (1, 2), (2, 2), (1, 3), (2, 3))]
    + [Config("n3-m2", revive, dict(n=3, M=2, group="r"))]
    + [Config("n1-m4", revive, dict(n=1, M=4, group="r"), thorough=True), Config("n2-m4", revive, dict(n=2, M=4, group="r"), thorough=True)]
    + [Config("ends-n%d-m%d" % (n, M), ends, dict(n=n, M=M, group="r")) for n, M in ((1, 2), (2, 2), (1, 3))]
    + [Config("corners-%s" % "".join(map(str, d)), corners, dict(dead=d, group="r")) for d in ((0, 1), (1, 0))]
    + [Config("budget-%d-%d" % (R, k), budget, dict(R=R, steps=k, group="p"), points=1) for R, k in ((0, 3), (1, 4), (1, 6), (2, 7), (9, 24))]
    + [Config("step-%s" % "".join(map(str, a)), step, dict(M=len(a), alive=a, group="gc")) for a in ((1, 0), (0, 1), (1, 1), (0, 1, 0))]
)
