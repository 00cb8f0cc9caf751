"""C21: runs can be continued, and results do not share state with the finder."""
from symx.cfg import Config

from . import mstep, probe

ID = "C21"
BOUNDS = "scripted linear components: up to 6 steps split in every listed way (90, 150 and 630 steps with fixed coefficients from any fields), check intervals 1-7 (10-630), with a constraint multiplier, any matrix, fields, acceptance; package components: 2 steps in one or two runs, 2 components, 2 compartments, both ensembles, local/global constraints, all parameters"
OUTSIDE = "longer runs; runs in which compartments are revived, and which compartments fill vanished ones in the result (random draws)"
REPLAY_PROCS = 4


def rig(ctx, name, M, w, mat, aw, gain, interval, K=8, **kw):
    r = probe.Rig(ctx, M=M, K=K, lin=True, gain=gain, acceptance_omega=aw, interval=interval, tolerance=1e-9, **kw)
    for a in range(2):
        for b in range(2):
            r.mat[a, b] = mat[a][b]
    for k in range(K):
        r.inc[k] = 1.0  # never converged
    r.finder.reinitialize_from_omegas(ctx.arr(w))
    return r


def same(ctx, label, a, b, pa, pb):
    ctx.eq(label + ": fields", a.finder.omegas, b.finder.omegas)
    ctx.eq(label + ": volumes", pa.volumes, pb.volumes)
    ctx.eq(label + ": fractions", pa.fractions, pb.fractions)
    ctx.eq(label + ": multiplier", a.mult[0], b.mult[0])
    for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue"):
        ctx.eq(label + ": errors", a.finder.diagnostics[k], b.finder.diagnostics[k])


def params(ctx, M, fixed):
    w = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.0, 1.0)) for m in range(M)] for r in range(2)]
    if fixed:
        return w, [[0.5, -0.25], [0.75, 0.125]], 0.25, 0.5
    mat = [[ctx.real("a_%d_%d" % (r, q), hint=(-1.0, 1.0)) for q in range(2)] for r in range(2)]
    return w, mat, ctx.real("aw", pos=True, hint=(0.05, 0.5)), ctx.real("gain", pos=True, hint=(0.1, 1.0))


def split(ctx, parts=(1, 1), interval=1, interval2=None, M=2, tamper=False, fixed=False, group=None):
    p = params(ctx, M, fixed)
    K = max(8, sum(parts))
    a = rig(ctx, "a", M, *p, interval=interval, K=K)
    b = rig(ctx, "b", M, *p, interval=interval2 or interval, K=K)
    pa = a.finder.run(max_steps=sum(parts))
    old = []
    for k, n in enumerate(parts):
        pb = b.finder.run(max_steps=n)
        ctx.same("reported steps", int(b.finder.diagnostics["steps"]), n)
        if tamper and k < len(parts) - 1:
            # results of earlier runs are the caller's to change
            d = b.finder.diagnostics
            for key in list(d):
                d[key] = 17.0
            for m in range(M):
                pb.volumes[m] = ctx.real("tv_%d_%d" % (k, m), nonneg=True)
                for i in range(2):
                    pb.fractions[m, i] = ctx.real("tf_%d_%d_%d" % (k, m, i))
        if k < len(parts) - 1:
            old.append((pb, ctx.copy(pb.volumes), ctx.copy(pb.fractions), b.finder.diagnostics, dict(b.finder.diagnostics)))
    ctx.same("steps in total", b.steps, sum(parts))
    same(ctx, "continued run", a, b, pa, pb)
    for pb, v, f, d, dd in old:
        ctx.eq("earlier result is kept", pb.volumes, v)
        ctx.eq("earlier result is kept", pb.fractions, f)
        for key in ("steps", "max_abs_omega_diff", "max_constraint_residue"):
            ctx.eq("earlier diagnostics are kept", d[key], dd[key])


def volumes(ctx, parts=(1, 1), interval=1, M=2, group=None):
    """scripted volume forces and potentials"""
    n = sum(parts)
    e = [ctx.real("e_%d" % k, lo=-0.1, hi=0.1, hint=(-0.1, 0.1)) for k in range(n)]
    p = [ctx.real("p_%d" % k, hint=(-1.0, 1.0)) for k in range(n)]
    out = []
    for k in range(2):
        r = probe.Rig(ctx, M=M, K=8, interval=interval if k else n, tolerance=0.0, acceptance_Js=1.0, acceptance_omega=0.25, Js_step_upper_bound=10.0, kill_threshold=0.0, max_revive_per_compartment=0)
        for q in range(n):
            r.energy[q, 0], r.energy[q, 1] = e[q], -e[q]
            r.pot[q] = p[q]
            r.inc[q] = 1.0
        r.zero()
        if k == 0:
            res = r.finder.run(max_steps=n)
        else:
            for q in parts:
                res = r.finder.run(max_steps=q, interval=min(q, interval))
        ctx.same("steps in total", r.steps, n)
        out.append((r, res))
    (a, pa), (b, pb) = out
    same(ctx, "continued run", a, b, pa, pb)
    # the volumes really moved
    ctx.eq("total volume", sum(pa.volumes[m] for m in range(M)), M)


def dying(ctx, parts=(1, 1), interval=1, M=2, group=None):
    """compartments die for good (no revives): what is left goes on as in one run"""
    n = sum(parts)
    e = [ctx.real("e_%d" % k, lo=-0.9, hi=0.9, hint=(-0.9, 0.9)) for k in range(n)]
    p = [ctx.real("p_%d" % k, hint=(-1.0, 1.0)) for k in range(n)]
    ctx.assume(ctx.abs(e[0]) > 0.5)  # the first step kills one
    for v in e[1:]:
        ctx.assume(ctx.abs(v) < 0.1)
    ctx.apart(e[0], 0.5, 1e-6)
    ctx.apart(e[0], -0.5, 1e-6)
    out = []
    for k in range(2):
        r = probe.Rig(ctx, M=M, K=8, interval=interval if k else n, tolerance=0.0, acceptance_Js=1.0, acceptance_omega=0.25, Js_step_upper_bound=10.0, kill_threshold=0.5, max_revive_per_compartment=0)
        for q in range(n):
            r.energy[q, 0], r.energy[q, 1] = e[q], -e[q]
            r.pot[q] = p[q]
            r.inc[q] = 1.0
        r.zero()
        if k == 0:
            res = r.finder.run(max_steps=n)
        else:
            for q in parts:
                res = r.finder.run(max_steps=q, interval=min(q, interval))
        ctx.same("steps in total", r.steps, n)
        out.append((r, res))
    (a, pa), (b, pb) = out
    ctx.eq("continued run: fields", a.finder.omegas, b.finder.omegas)
    ctx.eq("continued run: total volume", pa.total_volume, pb.total_volume)
    ctx.eq("continued run: mean fractions", pa.mean_fractions, pb.mean_fractions)
    for q in range(n):
        ctx.same("continued run: living compartments", int(a.seen[q]), int(b.seen[q]))
    for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue"):
        ctx.eq("continued run: errors", a.finder.diagnostics[k], b.finder.diagnostics[k])


def real(ctx, ens="can", cons=(), M=2, per=None, tamper=False, group=None):
    """the package's own components: 2 steps at once, or one by one"""
    s = mstep.System(ctx, n=2, per=per, ens=ens, cons=cons)
    w = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.0, 1.0)) for m in range(M)] for r in range(2)]
    aw = ctx.real("aw", pos=True, hint=(0.05, 0.3))
    out, fs = [], []
    for k in range(2):
        # both made from the same components before either runs
        f = ctx.fl.CoexistingPhasesFinder(s.interaction, s.entropy, s.ensemble, [c[-1] for c in s.cons] or None, num_part=M, progress=False, kill_threshold=0.0, max_revive_per_compartment=0,
                                          acceptance_omega=aw, acceptance_Js=0.0, Js_step_upper_bound=1e6, interval=20, tolerance=0.0, rng=probe.Draws(ctx), constraint_acceptance_ratio=0.5, constraint_elasticity=0.25)
        arr = ctx.arr(w)
        f.reinitialize_from_omegas(arr)
        fs.append((f, arr))
    p1 = fs[1][0].run(max_steps=1)
    for k in range(2):
        f, arr = fs[k]
        if k == 0:
            p = f.run(max_steps=2)
        else:
            if tamper:
                for m in range(M):
                    p1.volumes[m] = ctx.real("tv_%d" % m, nonneg=True)
                    for i in range(s.comp):
                        p1.fractions[m, i] = ctx.real("tf_%d_%d" % (m, i))
            p = f.run(max_steps=1)
        ctx.eq("given fields are unchanged", arr, ctx.arr(w))
        out.append((f, p))
    (f, p), (g, q) = out
    ctx.eq("continued run: fields", f.omegas, g.omegas)
    ctx.eq("continued run: volumes", p.volumes, q.volumes)
    ctx.eq("continued run: fractions", p.fractions, q.fractions)
    for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue"):
        ctx.eq("continued run: errors", f.diagnostics[k], g.diagnostics[k])


CONFIGS = (
    [Config("split-%s-%d-%s" % ("".join(map(str, p)), i, j), split, dict(parts=p, interval=i, interval2=j, fixed=sum(p) > 2, group="p"))
     for p, i, j in (((1, 1), 1, None), ((2, 1), 3, 2), ((1, 2), 3, 1), ((2, 2), 4, 2), ((1, 1, 1), 1, None), ((3, 3), 6, 1), ((3,), 1, 3), ((4,), 2, 1), ((6,), 3, 2), ((4, 2), 7, 2))]
    + [Config("tamper-%s" % "".join(map(str, p)), split, dict(parts=p, tamper=True, fixed=sum(p) > 2, group="p")) for p in ((1, 1), (2, 2), (1, 1, 1))]
    + [Config("split-m3", split, dict(parts=(2, 2), M=3, fixed=True, group="p"))]
    + [Config("real-%s-%s" % (e, "-".join(c[0] for c in cs) or "none"), real, dict(ens=e, cons=cs, tamper=e == "can", group="r" + e + "".join(c[0] for c in cs)))
       for e, cs in (("can", ()), ("gc", ()), ("gc", [("local", 1)]), ("can", [("global", 1)]))]
    + [Config("dying-m%d-%s-%d" % (M, "".join(map(str, p)), i), dying, dict(M=M, parts=p, interval=i, group="p"), points=8) for M, p, i in ((2, (1, 1), 1), (3, (1, 1), 1), (3, (2, 1), 2), (3, (1, 2), 2))]
    + [Config("volumes-%s-%d" % ("".join(map(str, p)), i), volumes, dict(parts=p, interval=i, group="p")) for p, i in (((1, 1), 1), ((1, 2), 3), ((2, 1, 1), 2))]
    + [Config("long-%s-%d-%d" % ("-".join(map(str, p)), i, j), split, dict(parts=p, interval=i, interval2=j, fixed=True, group="p"), points=2) for p, i, j in (((40, 50), 90, 25), ((150,), 150, 10), ((300, 330), 630, 70))]
)
