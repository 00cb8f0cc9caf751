"""C07: the interaction matrix is always the symmetric matrix that was asked for."""
from symx.cfg import Config

from .common import matrix

ID = "C07"
BOUNDS = "1-4 components/features; arbitrary (asymmetric) real matrices, scalars and rows; sequences of two assignments from any previous state; arbitrary random draws"
OUTSIDE = "larger matrices; rounding of the average"


def entries(ctx, got, want, label):
    n = len(want)
    ctx.same(label + " shape", ctx.shape(got), (n, n))
    if ctx.shape(got) == (n, n):
        ctx.eq(label, got, ctx.arr(want))


def avg(m):
    n = len(m)
    return [[(m[i][j] + m[j][i]) / 2 for j in range(n)] for i in range(n)]


def make(ctx, cls, n, value):
    if cls == "fh":
        return ctx.fl.FloryHugginsInteraction(n, value)
    if cls == "free":
        return ctx.fl.FloryHuggins(n, value)
    return ctx.fl.FloryHugginsBlockInteraction(n, value)


def read(cls, obj):
    return obj.chis_feat if cls == "block" else obj.chis


def assign(cls, obj, v):
    if cls == "block":
        obj.chis_feat = v
    else:
        obj.chis = v


def symmetrised(ctx, cls="fh", n=2, via="init", kind="full"):
    if kind == "full":
        m = matrix(ctx, "c", n)
        v = ctx.arr(m)
    elif kind == "scalar":
        s = ctx.real("c", hint=(-2.0, 4.0))
        m, v = [[s] * n for _ in range(n)], s
    elif kind == "row":
        r = [ctx.real("c_%d" % i, hint=(-2.0, 4.0)) for i in range(n)]
        m, v = [list(r) for _ in range(n)], ctx.arr(r)
    else:
        m = matrix(ctx, "c", n)
        v = m  # nested list
    if via == "init":
        obj = make(ctx, cls, n, v)
    else:
        obj = make(ctx, cls, n, ctx.arr(matrix(ctx, "old", n)))
        assign(cls, obj, v)
    entries(ctx, read(cls, obj), avg(m), "matrix")
    if kind == "full":
        ctx.eq("argument unchanged", v, ctx.arr(m))


def own_copy(ctx, cls="fh", n=2, via="init"):
    """Changing the caller's array later does not change the interaction."""
    m = matrix(ctx, "c", n, symmetric=True)
    v = ctx.arr(m)
    if via == "init":
        obj = make(ctx, cls, n, v)
    else:
        obj = make(ctx, cls, n, 0.0)
        assign(cls, obj, v)
    v[0, 0] = ctx.real("late", hint=(-2.0, 4.0))
    entries(ctx, read(cls, obj), m, "matrix")


def setup(ctx, n, before):
    fl = ctx.fl
    if before == "matrix":
        return fl.FloryHugginsInteraction(n, ctx.arr(matrix(ctx, "old", n)))
    if before == "uniform":
        o = fl.FloryHugginsInteraction(n, 0)
        o.set_uniform_chis(ctx.real("oldchi", hint=(-2.0, 4.0)), vanishing_diagonal=False)
        return o
    if before == "uniform-int":
        o = fl.FloryHugginsInteraction(n, 0)
        o.set_uniform_chis(3)
        return o
    if before == "random":
        o = fl.FloryHugginsInteraction(n, 0)
        o.set_random_chis(rng=ctx.rng("before"), vanishing_diagonal=False)
        return o
    return None


def uniform(ctx, n=2, diag=True, before="matrix"):
    chi = ctx.real("chi", hint=(-2.0, 4.0))
    if before == "new":
        obj = ctx.fl.FloryHugginsInteraction.from_uniform(n, chi, vanishing_diagonal=diag)
    elif before == "free":
        obj = ctx.fl.FloryHuggins.from_uniform(n, chi, vanishing_diagonal=diag)
    else:
        obj = setup(ctx, n, before)
        obj.set_uniform_chis(chi, vanishing_diagonal=diag)
    entries(ctx, obj.chis, [[0 if (diag and i == j) else chi for j in range(n)] for i in range(n)], "uniform matrix")


def unseeded(ctx, n=2, how="set"):
    """without a generator the draws are those of a generator without fixed seed"""
    from .common import unseeded

    def make(**kw):
        if how == "new":
            return ctx.fl.FloryHugginsInteraction.from_random_normal(n, **kw).chis
        if how == "free":
            return ctx.fl.FloryHuggins.from_random_normal(n, **kw).chis
        obj = ctx.fl.FloryHugginsInteraction(n, 0.5)
        obj.set_random_chis(**kw)
        return obj.chis

    with unseeded(ctx) as u:
        a = ctx.copy(make())
    if u.calls:
        ctx.eq("not the same matrix every time", a, make(rng=ctx.rng("fresh")))


def random_(ctx, n=2, diag=True, before="matrix"):
    """Entries are mean + std * draw: symmetric, every off-diagonal pair its own draw, diagonal as asked."""
    mean, std = ctx.real("mean", hint=(-2.0, 2.0)), ctx.real("std", pos=True, hint=(0.5, 2.0))
    rng = ctx.rng("rng")
    if before == "new":
        obj = ctx.fl.FloryHugginsInteraction.from_random_normal(n, mean, std, vanishing_diagonal=diag, rng=rng)
    elif before == "free":
        obj = ctx.fl.FloryHuggins.from_random_normal(n, mean, std, vanishing_diagonal=diag, rng=rng)
    else:
        obj = setup(ctx, n, before)
        obj.set_random_chis(mean, std, vanishing_diagonal=diag, rng=rng)
    c = obj.chis
    ctx.same("shape", ctx.shape(c), (n, n))
    want = [(i, j) for i in range(n) for j in range(i + 1 if diag else i, n)]
    ctx.same("one draw per entry", rng.k, len(want))
    for i in range(n):
        for j in range(n):
            ctx.eq("symmetric", c[i, j], c[j, i])
        if diag:
            ctx.eq("diagonal", c[i, i], 0)
    if rng.k == len(want):
        # the entries are the draws in some order: compare sums of powers (n <= 3: exact multiset)
        d = [mean + std * ctx.real("rng.%d" % (k + 1)) for k in range(rng.k)]
        e = [c[i, j] for i, j in want]
        for q in range(1, len(want) + 1):
            ctx.eq("entries are the draws", sum(x**q for x in e) + 0, sum(x**q for x in d) + 0, rtol=1e-6)


def refused(ctx, cls="fh", n=2, m=3, dims=2):
    """Arguments that do not fit are refused and leave no trace."""
    old = matrix(ctx, "old", n, symmetric=True)
    if dims == 2:
        v = ctx.arr(matrix(ctx, "c", m))
    else:
        v = ctx.arr([ctx.real("c_%d" % i, hint=(-2.0, 4.0)) for i in range(m)])
    ctx.raises("wrong size is refused", ValueError, lambda: make(ctx, cls, n, v))
    obj = make(ctx, cls, n, ctx.arr(old))
    ctx.raises("wrong size is refused", ValueError, lambda: assign(cls, obj, v))
    entries(ctx, read(cls, obj), old, "matrix after a refused one")


def independent(ctx, n=3):
    m = matrix(ctx, "c", n, symmetric=True)
    obj = ctx.fl.FloryHugginsInteraction(n, ctx.arr(m))
    ctx.eq("independent entries", obj.independent_entries, ctx.arr([m[i][j] for i in range(n) for j in range(i, n)]))


CONFIGS = (
    [Config("%s-%s-%s-n%d" % (c, v, k, n), symmetrised, dict(cls=c, n=n, via=v, kind=k))
     for c in ("fh", "free", "block") for v in ("init", "set") for k, n in (("full", 2), ("full", 3), ("scalar", 2), ("row", 3), ("list", 2))]
    + [Config("fh-init-full-n4", symmetrised, dict(n=4)), Config("fh-n1", symmetrised, dict(n=1)), Config("fh-set-n6", symmetrised, dict(n=6, via="set"))]
    + [Config("copy-%s-%s" % (c, v), own_copy, dict(cls=c, via=v)) for c in ("fh", "block") for v in ("init", "set")]
    + [Config("uniform-%s-%s-n%d" % (b, d, n), uniform, dict(n=n, diag=d, before=b))
       for b in ("matrix", "uniform", "random", "new", "free") for d, n in ((True, 2), (False, 2), (True, 3))]
    + [Config("random-%s-%s-n%d" % (b, d, n), random_, dict(n=n, diag=d, before=b))
       for b in ("matrix", "uniform", "uniform-int", "random", "new", "free") for d, n in ((True, 2), (False, 2), (True, 3))]
    + [Config("unseeded-%s" % h, unseeded, dict(n=3, how=h)) for h in ("new", "free", "set")]
    + [Config("random-n4", random_, dict(n=4)), Config("independent", independent)]
    + [Config("refused-%s-n%d-m%d-%dd" % (c, n, m, d), refused, dict(cls=c, n=n, m=m, dims=d)) for c in ("fh", "free", "block") for n, m, d in ((2, 3, 2), (3, 2, 2), (3, 2, 1))]
)
