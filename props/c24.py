"""C24: merging compartments to phases conserves volume and amounts, and merges what belongs together."""
import itertools

from symx.cfg import Config

from . import phasesets as ps

ID = "C24"
BOUNDS = "arbitrary assignment of 2-5 compartments with 1-3 components to clusters (any result of the clustering library); exact clustering of 2 and 3 compartments; any positive volumes, any fractions, any distance"
OUTSIDE = "which of more than 3 compartments the clustering library joins; clusters without any volume; ties between components for the order"
REPLAY_PROCS = 2


class Assign:
    """lets the clustering library return a given assignment"""

    def __init__(self, ctx, labels):
        self.ctx, self.labels, self.used = ctx, labels, False

    def give(self, *a, **k):
        self.used = True
        return list(self.labels)

    def __enter__(self):
        if self.ctx.sym:
            from symx import shadow

            shadow.ScipyStub.labels = self.give
        else:
            import numpy
            import scipy.cluster.hierarchy as h

            self.h, self.old = h, h.fcluster
            h.fcluster = lambda *a, **k: numpy.array(self.give(), dtype=numpy.int32)
        return self

    def __exit__(self, *a):
        if self.ctx.sym:
            from symx import shadow

            shadow.ScipyStub.labels = None
        else:
            self.h.fcluster = self.old


def conserved(ctx, r, v, f):
    P, n = len(v), len(f[0])
    K = r.num_phases
    ctx.same("shapes", (ctx.shape(r.volumes), ctx.shape(r.fractions)), ((K,), (K, n)))
    ctx.eq("total volume", sum(r.volumes[k] for k in range(K)), sum(v))
    for i in range(n):
        ctx.eq("amounts", sum(r.volumes[k] * r.fractions[k, i] for k in range(K)), sum(v[p] * f[p][i] for p in range(P)))
    for k in range(K):
        ctx.true("phases have a volume", r.volumes[k] > 0)


def close(ctx, a, b):
    if ctx.sym:
        return a == b
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)))


def groups_found(ctx, r, v, f, groups):
    n = len(f[0])
    ctx.same("number of phases", int(r.num_phases), len(groups))
    if int(r.num_phases) != len(groups):
        return
    spec = []
    for g in groups:
        vol = sum(v[p] for p in g)
        spec.append((vol, [sum(v[p] * f[p][i] for p in g) for i in range(n)]))
    # some order of the groups
    if len(groups) <= 3:
        ctx.true("phases are the volume-weighted means of their members", ctx.either(*[
            ctx.both(*[ctx.both(close(ctx, r.volumes[k], spec[s[k]][0]), *[close(ctx, r.volumes[k] * r.fractions[k, i], spec[s[k]][1][i]) for i in range(n)]) for k in range(len(groups))])
            for s in itertools.permutations(range(len(groups)))]))
    else:
        for vol, am in spec:
            ctx.true("phases are the volume-weighted means of their members", ctx.either(*[
                ctx.both(close(ctx, r.volumes[k], vol), *[close(ctx, r.volumes[k] * r.fractions[k, i], am[i]) for i in range(n)]) for k in range(len(groups))]))


def assigned(ctx, labels=(1, 1), n=2, cls="Phases", order=True, group=None):
    info = dict(a=1) if cls != "Phases" else None
    P = len(labels)
    o, v, f, V, F = ps.make(ctx, P, n, cls, info=info)
    gs = [[p for p in range(P) if labels[p] == l] for l in sorted(set(labels))]
    # no ties in the means
    for g in gs:
        m = [sum(v[p] * f[p][i] for p in g) for i in range(n)]
        for a, b in itertools.combinations(m, 2):
            ctx.assume(a != b)
            ctx.apart(a, b, 1e-7)
    with Assign(ctx, labels) as A:
        r = o.get_clusters()
    conserved(ctx, r, v, f)
    if A.used:
        groups_found(ctx, r, v, f, gs)
    if order and (A.used or not ctx.sym):
        ps.ordered(ctx, "clusters are sorted", r)
    ps.unchanged(ctx, "original is kept", o, v, f)
    ctx.same("kind of collection", type(r).__name__, type(o).__name__)
    if info:
        ctx.same("information is kept", dict(r.info), info)


def dist(ctx, a, b):
    return ctx.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def exact(ctx, P=2, n=2, default=False, line=False, group=None):
    if line:
        # binary mixtures: the fractions add to one
        v = [ctx.real("v_%d" % p, pos=True, hint=(0.1, 2.0)) for p in range(P)]
        f = [[x, 1 - x] for x in [ctx.real("f_%d" % p, lo=0, hi=1, hint=(0.0, 1.0)) for p in range(P)]]
        o = ctx.fl.Phases(ctx.arr(v), ctx.arr(f))
    else:
        o, v, f, V, F = ps.make(ctx, P, n)
    if default:
        d = 0.01
        r = o.get_clusters()
    else:
        d = ctx.real("dist", pos=True, hint=(0.05, 1.0))
        r = o.get_clusters(d) if ctx.choice("call", 2) else o.get_clusters(dist=d)
    conserved(ctx, r, v, f)
    ps.unchanged(ctx, "original is kept", o, v, f)
    K = int(r.num_phases)
    D = {(a, b): dist(ctx, f[a], f[b]) for a, b in itertools.combinations(range(P), 2)}
    for x in D.values():
        ctx.apart(x, d)
        ctx.apart(x, 3 * d)
    ctx.true("close compartments form one phase", ctx.implies(ctx.both(*[x <= d for x in D.values()]), K == 1))
    ctx.true("distant compartments stay apart", ctx.implies(ctx.both(*[x > d for x in D.values()]), K == P))
    if P == 3:
        for (a, b), x in D.items():
            c = 3 - a - b
            far = [y for k, y in D.items() if k != (a, b)]
            ctx.true("a close pair is merged, a distant compartment is not", ctx.implies(ctx.both(x <= d, *[y > 3 * d for y in far]), K == 2))
            if K == 2:
                # the distant one keeps volume and composition
                ctx.true("a distant compartment is kept as it is", ctx.implies(ctx.both(x <= d, *[y > 3 * d for y in far]), ctx.either(*[
                    ctx.both(close(ctx, r.volumes[k], v[c]), *[close(ctx, r.fractions[k, i], f[c][i]) for i in range(n)]) for k in range(2)])))


def single(ctx, n=2, group=None):
    o, v, f, V, F = ps.make(ctx, 1, n)
    r = o.get_clusters(ctx.real("dist", pos=True, hint=(0.01, 1.0)))
    ps.unchanged(ctx, "one compartment", r, v, f)


LAB = [(1, 1), (1, 2), (2, 1), (1, 1, 1), (1, 2, 1), (2, 1, 1), (1, 2, 3), (3, 1, 2), (1, 2, 2, 1), (2, 2, 1, 1), (1, 1, 1, 2), (1, 1, 2, 1, 2)]
CONFIGS = (
    [Config("assigned-%s-n%d" % ("".join(map(str, l)), n), assigned, dict(labels=l, n=n, order=n < 3, group="p"), points=6) for l in LAB for n in ((2,) if len(l) > 3 else (1, 2))]
    + [Config("assigned-%s-n3" % "".join(map(str, l)), assigned, dict(labels=l, n=3, order=False, group="p"), points=6) for l in ((1, 1), (1, 2, 1))]
    + [Config("assigned-result", assigned, dict(labels=(1, 2, 1), n=2, cls="PhasesResult", group="p"))]
    + [Config("exact-p2-n%d%s" % (n, "-default" if d else ""), exact, dict(P=2, n=n, default=d, group="p"), points=12) for n, d in ((1, False), (2, False), (2, True))]
    + [Config("exact-p2-n3", exact, dict(P=2, n=3, group="p"), points=12, budget=600, thorough=True), Config("exact-p3-n2", exact, dict(P=3, n=2, group="p"), points=12, budget=600, thorough=True)]
    + [Config("exact-p3-n%d" % n, exact, dict(P=3, n=n, group="p"), points=20) for n in (1,)]
    + [Config("exact-p%d-line" % P, exact, dict(P=P, n=2, line=True, group="p"), points=20, budget=120) for P in (2,)] + [Config("exact-p3-line", exact, dict(P=3, n=2, line=True, group="p"), points=20, budget=600, thorough=True)]
    + [Config("single-n%d" % n, single, dict(n=n, group="p")) for n in (1, 3)]
    + [Config("large-assigned", assigned, dict(labels=(1, 2, 3, 3, 2, 1, 1, 4), n=2, order=False, group="p"), points=6)]
)
