"""C18: filling vanished compartments with copies conserves volume and amounts, and ends."""
from symx.cfg import Config

from . import probe

ID = "C18"
BOUNDS = "1-2 components, 2-4 compartments, any volumes >= 0 and any threshold >= 0 with at least one living compartment, any compositions, every sequence of random choices; results of runs of 1-2 steps in which compartments die"
OUTSIDE = "more compartments; all compartments dead"
HANG = "revival ends"
REPLAY_PROCS = 3


def copies(ctx, n=1, M=3, empty=True, group=None):
    impl = ctx.mod("mcmp._finder_impl")
    t = [[ctx.real("t_%d_%d" % (r, m), nonneg=True, hint=(0.0, 1.0)) for m in range(M)] for r in range(n)]
    thr = ctx.real("thr", nonneg=True, hint=(0.0, 1.0))
    J, alive = [], []
    for m in range(M):
        if ctx.choice("dead%d" % m, 2):
            alive.append(0)
            if empty:
                J.append(0.0)
            else:
                J.append(ctx.real("J_%d" % m, nonneg=True, hint=(0.0, 0.3)))
                ctx.assume(J[m] <= thr)
        else:
            alive.append(1)
            J.append(ctx.real("J_%d" % m, pos=True, hint=(0.3, 2.5)))
            ctx.assume(J[m] > thr)
    live = [m for m in range(M) if alive[m]]
    if not live:
        ctx.assume(False)
    for j in J:
        ctx.apart(j, thr)
        ctx.apart(j, 2 * thr)
    Js, T = ctx.arr(J), ctx.arr(t)
    cnt = impl.revive_compartments_by_copy(Js, T, thr, ctx.rng("rng", jit=True))
    ctx.same("number of revived compartments", int(cnt), M - len(live))
    if empty:
        ctx.eq("total volume", sum(Js[m] for m in range(M)), sum(J))
    for r in range(n):
        if empty:
            ctx.eq("amounts", sum(Js[m] * T[r, m] for m in range(M)), sum(J[m] * t[r][m] for m in range(M)))
    for m in range(M):
        ctx.true("every compartment has a volume", Js[m] > 0)
        if alive[m]:
            ctx.le("living compartments only shrink", Js[m], J[m])
            for r in range(n):
                ctx.eq("living composition", T[r, m], t[r][m])
        else:
            ctx.true("copy of a living compartment", ctx.either(*[ctx.both(*[T[r, m] == t[r][k] for r in range(n)]) for k in live]))
    if len(live) == M - 1:
        ctx.true("both halves live if possible", ctx.implies(ctx.either(*[J[m] > 2 * thr for m in live]), ctx.both(*[Js[m] > thr for m in range(M)])))
    # nothing is cut down to a dead volume while another compartment could still be divided into two living ones
    for j in Js:
        ctx.apart(j, thr)
        ctx.apart(j, 2 * thr)
    for m in range(M):
        ctx.true("no dead volumes while a large compartment is left", ctx.implies(Js[m] <= thr, ctx.both(*[Js[k] <= 2 * thr for k in range(M)])))


def result(ctx, M=2, steps=1, group=None):
    """the result of a run: compartments that died by the threshold of the finder are filled, the others are as they are"""
    thr = ctx.real("thr", lo=0.05, hi=0.9, hint=(0.05, 0.9))
    rig = probe.Rig(ctx, M=M, K=4, max_steps=steps, interval=1, tolerance=0.0, acceptance_Js=1.0, Js_step_upper_bound=100.0, kill_threshold=thr, max_revive_per_compartment=0)
    x = ctx.real("x", lo=-0.95, hi=0.95, hint=(-0.95, 0.95))
    # the first two volumes move by x in opposite directions, later they only make up for what died
    rig.energy[0, 0] = -x
    rig.energy[0, 1] = x
    rig.zero()
    p = rig.finder.run()
    J = [1 + x, 1 - x] + [1.0] * (M - 2)
    for k in range(steps):
        for v in J:
            ctx.apart(v, thr, 1e-6)
            ctx.apart(v, 2 * thr, 1e-6)
        if k:
            live = [m for m in range(M) if J[m] > thr]
            shift = 1 - sum(J[m] for m in live) / len(live)
            J = [J[m] + shift if m in live else 0.0 for m in range(M)]
    live = [m for m in range(M) if J[m] > thr]
    ctx.same("one entry per compartment", (int(p.num_phases), int(p.num_components)), (M, 2))
    V, C = p.volumes, p.fractions
    share = {k: 0 for k in live}
    for m in range(M):
        ctx.true("every compartment has a volume", V[m] > 0)
        src = [k for k in live if all(C[m, i] == i + 1 + 10 * k for i in range(2))]
        ctx.true("composition of a living compartment", len(src) == 1)
        if m in live:
            ctx.true("living composition", src == [m])
        for k in src:
            share[k] = share[k] + V[m]
    for k in live:
        ctx.eq("the volume is shared with the copies", share[k], J[k])


CONFIGS = (
    [Config("n%d-m%d" % (n, M), copies, dict(n=n, M=M, group="r"), points=20) for n, M in ((1, 2), (2, 2), (1, 3), (2, 3))]
    + [Config("killed-n%d-m%d" % (n, M), copies, dict(n=n, M=M, empty=False, group="r"), points=20) for n, M in ((1, 2), (1, 3))]
    + [Config("result-m%d-%d" % (M, k), result, dict(M=M, steps=k, group="p"), points=20) for M, k in ((2, 1), (2, 2), (3, 1), (3, 2), (4, 2))]
    + [Config("n1-m4", copies, dict(n=1, M=4, group="r"), points=20, budget=90)]
    + [Config("n2-m4", copies, dict(n=2, M=4, group="r"), points=20, budget=300, thorough=True)]
)
