"""Collections of phases with symbolic volumes and compositions, and statements about their order."""
import itertools


def make(ctx, P, n, cls="Phases", distinct=False, pos=True, info=None, name=""):
    v = [ctx.real("v%s_%d" % (name, p), pos=pos, hint=(0.1, 2.0)) for p in range(P)]
    f = [[ctx.real("f%s_%d_%d" % (name, p, i), nonneg=True, hint=(0.0, 1.0)) for i in range(n)] for p in range(P)]
    if distinct:
        for r in f:
            for a, b in itertools.combinations(r, 2):
                ctx.assume(a != b)
                ctx.apart(a, b)
    V, F = ctx.arr(v), ctx.arr(f)
    if cls == "Phases":
        o = ctx.fl.Phases(V, F)
    else:
        o = ctx.mod("common").PhasesResult(V, F, info=info)
    return o, v, f, V, F


def before(ctx, x, y, strict):
    """x comes before y: the indices of the components, from the most concentrated one on, in lexicographic order.

    Formula over the entries (both without ties inside)."""
    n = len(x)
    alts = []
    for a in itertools.permutations(range(n)):
        xa = ctx.both(*[x[a[k]] > x[a[k + 1]] for k in range(n - 1)]) if n > 1 else True
        for b in itertools.permutations(range(n)):
            if a < b or (a == b and not strict):
                yb = ctx.both(*[y[b[k]] > y[b[k + 1]] for k in range(n - 1)]) if n > 1 else True
                alts.append(ctx.both(xa, yb))
    return ctx.either(*alts)


def ordered(ctx, label, o):
    P, n = o.num_phases, o.num_components
    for p in range(P - 1):
        ctx.true(label, before(ctx, [o.fractions[p, i] for i in range(n)], [o.fractions[p + 1, i] for i in range(n)], False))


def permuted(ctx, label, o, v, f):
    P, n = len(v), len(f[0])
    ctx.same(label + ": shape", (ctx.shape(o.volumes), ctx.shape(o.fractions)), ((P,), (P, n)))
    if ctx.shape(o.volumes) != (P,) or ctx.shape(o.fractions) != (P, n):
        return
    ctx.true(label, ctx.either(*[
        ctx.both(*[ctx.both(o.volumes[k] == v[s[k]], *[o.fractions[k, i] == f[s[k]][i] for i in range(n)]) for k in range(P)])
        for s in itertools.permutations(range(P))]))


def unchanged(ctx, label, o, v, f):
    ctx.eq(label, o.volumes, ctx.arr(v))
    ctx.eq(label, o.fractions, ctx.arr(f))
