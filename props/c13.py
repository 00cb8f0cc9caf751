"""C13: reported errors are functions of the state: exact, and independent of iteration parameters."""
from symx.cfg import Config

from . import mstep

ID = "C13"
BOUNDS = "1-3 components, 1-3 compartments, dead compartments, both ensembles, local and global constraints; one step from any state, any two settings of the iteration parameters"
OUTSIDE = "larger systems; rounding"
REPLAY_PROCS = 4


def build(ctx, n, per, M, alive, ens, cons, norm=False):
    s = mstep.System(ctx, n=n, per=per, ens=ens, cons=cons)
    alive = alive or (1,) * M
    kill = ctx.real("kill", nonneg=True, hint=(0.05, 0.25)) if not all(alive) else 0.0
    om, J = mstep.fields(ctx, s, M, alive, kill, norm=norm)
    return s, alive, kill, om, J


def exact(ctx, n=2, per=None, M=2, alive=None, ens="can", cons=(), what="incomp", group=None):
    s, alive, kill, om, J = build(ctx, n, per, M, alive, ens, cons, norm=what != "incomp")
    aJ = 0.125 if what != "incomp" else ctx.real("aJ", pos=True, hint=(1e-3, 0.2))
    aw = 0.25 if what != "incomp" else ctx.real("aw", pos=True, hint=(1e-3, 0.2))
    b = ctx.real("b", pos=True, hint=(0.05, 0.5))
    ctx.split_max(what != "incomp")
    o = mstep.run(ctx, s, om, J, kill=kill, aJ=aJ, aw=aw, bound=b)
    live = [m for m in range(M) if alive[m]]
    if what != "incomp":
        # the limiter of the volume changes is inactive
        ctx.assume(o.jerr < 3 * b)
    if what == "incomp":
        ctx.eq("incompressibility", o.incomp, ctx.max([ctx.abs(sum(o.phis_comp[i, m] for i in range(s.comp)) - 1) for m in live]))
        res = []
        for kind, C, T, el, ar, obj in s.cons:
            for x in range(len(T)):
                r = {m: sum(C[x][q] * o.phis_feat[q, m] for q in range(s.feat)) - T[x] for m in live}
                if kind == "local":
                    res += [ctx.abs(v) for v in r.values()]
                else:
                    res.append(ctx.abs(sum(J[m] * r[m] for m in live) / sum(J[m] for m in live)))
        ctx.eq("constraint residue", o.cres, ctx.max(res) if res else 0)
    elif what == "field":
        # the fields move by acceptance times the field error
        ctx.eq("field error", o.werr * aw, ctx.max([ctx.abs(o.omegas[r, m] - om[r][m]) for r in range(s.feat) for m in live]), rtol=1e-6)
    else:
        d = [(o.Js[m] - J[m]) / aJ for m in live]
        c = sum(x * J[m] for x, m in zip(d, live)) / len(live)
        ctx.eq("volume error", o.jerr, ctx.max([ctx.abs(x - c) for x in d]), rtol=1e-5)


def state_function(ctx, n=2, per=None, M=2, alive=None, ens="can", cons=(), group=None):
    s, alive, kill, om, J = build(ctx, n, per, M, alive, ens, cons)
    p = []
    for k in range(2):
        q = dict(aJ=ctx.real("aJ%d" % k, pos=True, hint=(1e-3, 0.5)), aw=ctx.real("aw%d" % k, pos=True, hint=(1e-3, 0.5)),
                 bound=ctx.real("b%d" % k, pos=True, hint=(1e-4, 0.2)), scaler=ctx.real("sc%d" % k, pos=True))
        for c in s.c_cons:
            c.initialize(M)
        p.append(mstep.run(ctx, s, om, J, kill=kill, **q))
    a, b = p
    ctx.eq("fractions", a.phis_comp, b.phis_comp)
    ctx.eq("incompressibility", a.incomp, b.incomp)
    ctx.eq("field error", a.werr, b.werr)
    ctx.eq("volume error", a.jerr, b.jerr)
    ctx.eq("constraint residue", a.cres, b.cres)


def still(ctx, n=2, M=2, ens="gc", cons=(), group=None):
    """Without errors nothing moves; if nothing moves there are no errors."""
    s, alive, kill, om, J = build(ctx, n, None, M, None, ens, cons, norm=True)
    o = mstep.run(ctx, s, om, J, aJ=ctx.real("aJ", pos=True, hint=(1e-3, 0.2)), aw=ctx.real("aw", pos=True, hint=(1e-3, 0.2)), bound=ctx.real("b", pos=True, hint=(1e-3, 0.2)))
    w = [o.omegas[r, m] - om[r][m] for r in range(s.feat) for m in range(M)]
    j = [o.Js[m] - J[m] for m in range(M)]
    for x in w:
        ctx.true("no field error, no change", ctx.implies(o.werr == 0, x == 0))
    for x in j:
        ctx.true("no volume error, no change", ctx.implies(o.jerr == 0, x == 0))
    ctx.true("no change, no field error", ctx.implies(ctx.both(*[x == 0 for x in w]), o.werr == 0))


CONFIGS = (
    [Config("incomp-%s-n%d-m%d%s" % (e, n, M, "".join(map(str, a or ""))), exact, dict(n=n, M=M, alive=a, ens=e, group=e), points=6)
     for e, n, M, a in (("can", 2, 2, None), ("can", 3, 3, None), ("gc", 2, 2, None), ("can", 2, 3, (1, 0, 1)), ("gc", 1, 3, (0, 1, 1)), ("can", 2, 1, None))]
    + [Config("cons-%s%d-m%d%s-%s" % (k, c, M, "".join(map(str, a or "")), e), exact, dict(n=2, M=M, alive=a, ens=e, cons=[(k, c)], group=k + e), points=6)
       for k, c, M, a, e in (("local", 1, 2, None, "gc"), ("global", 1, 2, None, "can"), ("local", 2, 2, None, "gc"), ("global", 2, 2, None, "can"), ("local", 1, 3, (1, 0, 1), "gc"), ("global", 1, 3, (1, 0, 1), "can"))]
    + [Config("cons-both", exact, dict(n=2, M=2, ens="gc", cons=[("global", 1), ("local", 1)], group="both"), points=6)]
    + [Config("%s-%s-n%d-m%d%s" % (w, e, n, M, "".join(map(str, a or ""))), exact, dict(n=n, M=M, alive=a, ens=e, what=w, group=e), points=6)
       for w in ("field", "volume") for e, n, M, a in (("can", 2, 2, None), ("gc", 2, 2, None), ("gc", 3, 2, None), ("gc", 2, 3, (1, 0, 1)), ("gc", 2, 2, (0, 1)), ("can", 2, 1, None))]
    + [Config("state-%s-n%d-m%d%s" % (e, n, M, "".join(map(str, a or ""))), state_function, dict(n=n, M=M, alive=a, ens=e, group=e), points=6)
       for e, n, M, a in (("can", 2, 2, None), ("gc", 2, 2, None), ("gc", 3, 2, None), ("can", 2, 3, (1, 0, 1)), ("can", 3, 2, None))]
    + [Config("state-%s" % k, state_function, dict(n=2, M=2, ens=e, cons=[(k, 1)], group=k + e), points=6) for k, e in (("local", "gc"), ("global", "can"))]
    + [Config("still-%s" % e, still, dict(ens=e, group=e)) for e in ("gc", "can")]
    + [Config("large-%s-%s-n%d-m%d" % (w, e, n, M), exact, dict(n=n, M=M, ens=e, what=w, group=e), points=6) for w, e, n, M in (("field", "gc", 5, 2), ("volume", "gc", 2, 4), ("field", "gc", 2, 4))]
    + [Config("large-incomp", exact, dict(n=5, M=7, ens="gc", group="gc"), points=6)]
)
