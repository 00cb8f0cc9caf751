"""C27: random compositions are uniform on the simplex, and helpers keep all information."""
import itertools
import math

from symx.cfg import Config

from . import common

ID = "C27"
BOUNDS = "1-10 components for the simplex, 2-8 for uniformity, every value of the draws; keyword arguments, broadcasting and block expansion up to 3x3 with blocks of 0-3; x ln x for all real x"
OUTSIDE = "the quality of the generator; implementations drawing from other laws than beta and uniform (uniformity)"
REPLAY_PROCS = 2


def comp(ctx):
    return ctx.mod("common.phases").get_uniform_random_composition


def simplex(ctx, n=3, group=None):
    rng = ctx.rng("rng")
    phi = comp(ctx)(n, rng=rng)
    ctx.same("one fraction per component", ctx.shape(phi), (n,))
    ctx.eq("fractions add to one", sum(phi[i] for i in range(n)), 1)
    for i in range(n):
        ctx.le("fractions are not negative", 0.0, phi[i])
        ctx.le("fractions are at most one", phi[i], 1.0)


class Script:
    """stands for the context of a generator: hands out given values"""

    def __init__(self, ctx, vals):
        self.ctx = ctx
        self.vals = list(vals)

    def real(self, name, **k):
        return self.vals[int(name.split(".")[-1]) - 1]

    def assume(self, c):
        pass

    def arr(self, x):
        return self.ctx.arr(x)


def det(ctx, m):
    """expansion along the row with the most vanishing entries"""
    if not ctx.sym:
        import numpy

        return float(numpy.linalg.det(numpy.array(m, dtype=float)))
    n = len(m)
    if n == 0:
        return 1
    r = max(range(n), key=lambda k: sum(1 for x in m[k] if ctx.is_zero(x)))
    t = 0
    for c in range(n):
        if not ctx.is_zero(m[r][c]):
            q = m[r][c] * det(ctx, [[m[i][j] for j in range(n) if j != c] for i in range(n) if i != r])
            t = t - q if (r + c) % 2 else t + q
    return t


def uniform(ctx, n=3, group=None):
    """density of the draws = (n-1)! |d fractions / d draws|, that is, constant density on the simplex"""
    rng = ctx.rng("rng")
    phi = comp(ctx)(n, rng=rng)
    law = list(rng.law)

    def scripted(x):
        return comp(ctx)(n, rng=type(rng)(Script(ctx, x), "s"))

    if len(law) == 1 and law[0][0] == "dirichlet" and len(law[0][1]) == n:
        u = [ctx.real("rng.%d" % (k + 1), lo=0, hi=1, hint=(0.05, 0.9 / n)) for k in range(n - 1)]
        x = ctx.choice("draw", n - 1)
        ctx.eq("fractions are the draw", phi[x], u[x])
        ctx.same("law of the draw", [float(a) for a in law[0][1]], [1.0] * n)
        return
    if len(law) != n - 1 or any(l[0] != "beta" or l[1] != int(l[1]) or l[2] != int(l[2]) for l in law):
        ctx.cover("another way of drawing")
        return
    # (in terms of one minus the draws, which keeps the polynomials short)
    v = [ctx.real("v_%d" % (k + 1), lo=0, hi=1, hint=(0.05, 0.95)) for k in range(n - 1)]
    for x in v:
        ctx.assume(ctx.both(x > 0, x < 1))
    # a map that ignores the order of the draws reaches every composition (n-1)! times
    pt = [(2 * k + 3) / (2 * n + 7) for k in range(n - 1)]
    many = math.factorial(n - 1)
    if n > 2 and all(abs(float(x) - float(y)) < 1e-12 for q in range(n - 2) for x, y in zip(ctx.values(scripted(pt)), ctx.values(scripted(pt[:q] + [pt[q + 1], pt[q]] + pt[q + 2:])))):
        for q in range(n - 2):
            ctx.assume(v[q] < v[q + 1])
        many = 1

    J = [list(ctx.grad(lambda x, i=i: scripted([1 - x[k] for k in range(n - 1)])[i], ctx.arr(v))) for i in range(n - 1)]
    p = 1
    for (_, a, b), x in zip(law, v):
        a, b = int(a), int(b)
        p = p * (1 - x) ** (a - 1) * x ** (b - 1) * math.factorial(a + b - 1) / (math.factorial(a - 1) * math.factorial(b - 1))
    d = det(ctx, J) * many
    ctx.eq("uniform density", p * p, d * d, rtol=1e-4)


def seeded(ctx, n=3, group=None):
    """the same draws give the same composition, and nothing else enters"""
    a = comp(ctx)(n, rng=ctx.rng("rng"))
    b = comp(ctx)(n, rng=ctx.rng("rng"))
    ctx.eq("reproducible", a, b)


def unseeded(ctx, n=3, group=None):
    """without a generator the draws are those of a generator without fixed seed"""
    with common.unseeded(ctx) as u:
        a = comp(ctx)(n)
    if u.calls:
        ctx.eq("not the same composition every time", a, comp(ctx)(n, rng=ctx.rng("fresh")))


def filtering(ctx, group=None):
    f = ctx.mod("common.utilities").filter_kwargs
    v = [ctx.real("v_%d" % k) for k in range(4)]
    full = dict(a=v[0], b=v[1], c=v[2], d=v[3])
    keep = dict(full)

    def some(a, *, c, z=3):
        pass

    def none():
        pass

    def all_(d, c, b, a):
        pass

    def local(a):
        b = a
        c = b
        return c

    def default(a=1, *, b=None):
        d = 4
        return d

    class Thing:
        def method(self, b):
            c = b
            return c

        @staticmethod
        def static(a, d):
            pass

        @classmethod
        def build(cls, c):
            a = c
            return a

    t = Thing()
    cases = [(some, ["a", "c"]), (none, []), (all_, ["a", "b", "c", "d"]), (local, ["a"]), (default, ["a", "b"]), (lambda d, q=1: d, ["d"]),
             (t.method, ["b"]), (Thing.static, ["a", "d"]), (Thing.build, ["c"])]
    for fun, names in cases:
        r = f(full, fun)
        ctx.same("accepted arguments", sorted(r), names)
        for k in names:
            if k in r:
                ctx.eq("values", r[k], keep[k])
    ctx.same("arguments are kept", sorted(full), ["a", "b", "c", "d"])
    for x in (None, False, 0, "", ()):
        # values that count as false are values like others
        r = f(dict(a=x, q=x), some)
        ctx.true("values that are empty", sorted(r) == ["a"] and r["a"] is x)


def broadcast(ctx, src=(), dst=(2,), how="array", group=None):
    f = ctx.mod("common.utilities").convert_and_broadcast
    cnt = 1
    for s in src:
        cnt *= s
    x = [ctx.real("x_%d" % k) for k in range(cnt)]
    if src == ():
        a = x[0]
    elif how == "list" and len(src) == 1:
        a = list(x)
    else:
        a = ctx.arr(x).reshape(src)
    ok = all(s in (1, d) for s, d in zip(reversed(src), reversed(dst))) and len(src) <= len(dst)
    if not ok:
        ctx.raises("shapes that do not fit are refused", ValueError, lambda: f(a, dst))
        return
    r = f(a, dst)
    ctx.same("shape", ctx.shape(r), tuple(dst))
    import numpy

    idx = numpy.broadcast_to(numpy.arange(cnt).reshape(src) if src else numpy.zeros(1, int), dst)
    for i in numpy.ndindex(*dst):
        ctx.eq("values", r[i], x[int(idx[i])])
    # result is an own array
    r[tuple(0 for _ in dst)] = 5.0
    if src and not isinstance(a, list):
        for k, i in enumerate(numpy.ndindex(*src)):
            ctx.eq("argument is kept", a[i], x[k])


def blocks(ctx, sizes=(2, 1), dims=2, group=None):
    f = ctx.mod("common.utilities").make_square_blocks
    n = len(sizes)
    x = [ctx.real("x_%d" % k) for k in range(n**dims)]
    a = ctx.arr(x).reshape((n,) * dims)
    r = f(a, ctx.np.array(list(sizes)))
    idx = [k for k in range(n) for _ in range(sizes[k])]
    ctx.same("shape", ctx.shape(r), (len(idx),) * dims)
    if tuple(ctx.shape(r)) != (len(idx),) * dims:
        return
    if dims == 3:
        for i in range(len(idx)):
            for j in range(len(idx)):
                for k in range(len(idx)):
                    ctx.eq("blocks", r[i, j, k], x[n * n * idx[i] + n * idx[j] + idx[k]])
    elif dims == 2:
        for i in range(len(idx)):
            for j in range(len(idx)):
                ctx.eq("blocks", r[i, j], x[n * idx[i] + idx[j]])
    else:
        for i in range(len(idx)):
            ctx.eq("blocks", r[i], x[idx[i]])


def blocks_refused(ctx, shape=(2, 3), k=2, group=None):
    f = ctx.mod("common.utilities").make_square_blocks
    cnt = 1
    for s in shape:
        cnt *= s
    a = ctx.arr([ctx.real("x_%d" % q) for q in range(cnt)]).reshape(shape)
    ctx.raises("arrays that do not fit are refused", ValueError, lambda: f(a, ctx.np.array([1] * k)))


def xlogx(ctx, sign=1, group=None):
    f = ctx.mod("common.math").xlogx
    if sign > 0:
        x = ctx.real("x", pos=True, hint=(1e-3, 3.0))
        ctx.eq("x ln x", ctx.np.reshape(f(ctx.arr([x])), (1,))[0], x * ctx.log(x), atol=1e-12)
    elif sign == 0:
        ctx.eq("0 ln 0", ctx.np.reshape(f(ctx.arr([0.0])), (1,))[0], 0)
    else:
        x, y = ctx.real("x", pos=True, hint=(1e-3, 3.0)), ctx.real("y", pos=True, hint=(1e-3, 3.0))
        r = f(ctx.arr([[x, 0.0], [0.0, y]]))
        ctx.eq("elementwise", r, ctx.arr([[x * ctx.log(x), 0.0], [0.0, y * ctx.log(y)]]), atol=1e-12)


CONFIGS = (
    [Config("simplex-n%d" % n, simplex, dict(n=n, group="p"), points=10) for n in (1, 2, 3, 4, 5, 6)]
    + [Config("uniform-n%d" % n, uniform, dict(n=n, group="p"), points=10) for n in (2, 3, 4)]
    + [Config("simplex-n%d" % n, simplex, dict(n=n, group="p"), points=10) for n in (8, 10)]
    + [Config("simplex-n%d" % n, simplex, dict(n=n, group="p"), points=10, thorough=True) for n in (15, 20)]
    + [Config("uniform-n%d" % n, uniform, dict(n=n, group="p"), points=10) for n in (5, 6, 8)]
    + [Config("uniform-n%d" % n, uniform, dict(n=n, group="p"), points=10, thorough=True) for n in (7, 9, 10, 12)]
    + [Config("seeded-n%d" % n, seeded, dict(n=n, group="p")) for n in (2, 4)]
    + [Config("unseeded-n%d" % n, unseeded, dict(n=n, group="p")) for n in (2, 3)]
    + [Config("filter", filtering, dict(group="p"))]
    + [Config("broadcast-%s-%s-%s" % ("x".join(map(str, s)), "x".join(map(str, d)), h), broadcast, dict(src=s, dst=d, how=h, group="p"))
       for s, d, h in (((), (1,), "array"), ((), (3,), "array"), ((), (2, 2), "array"), ((3,), (3,), "array"), ((3,), (3,), "list"), ((2,), (2, 2), "array"), ((1,), (3,), "list"), ((2, 2), (2, 2), "array"), ((2, 1), (2, 2), "array"),
                       ((2,), (3,), "array"), ((3,), (2,), "list"), ((2, 2), (3, 3), "array"), ((2, 2), (2,), "array"))]
    + [Config("blocks-%s-%dd" % ("".join(map(str, z)), d), blocks, dict(sizes=z, dims=d, group="p")) for z, d in (((1,), 2), ((2, 1), 2), ((1, 2), 2), ((3, 1, 2), 2), ((2, 0, 1), 2), ((1, 1), 2), ((2, 1), 1), ((3,), 2), ((2, 2), 2), ((3, 3), 2), ((4, 1), 2), ((3, 3), 1), ((2, 1), 3), ((1, 2), 3), ((2,), 3))]
    + [Config("blocks-refused-%s-%d" % ("x".join(map(str, s)), k), blocks_refused, dict(shape=s, k=k, group="p")) for s, k in (((2, 3), 2), ((2, 2), 3), ((3, 2), 3), ((2, 2), 1), ((1, 3), 1), ((3, 1), 1), ((1, 1, 2), 1), ((2, 1), 2))]
    + [Config("xlogx-%d" % k, xlogx, dict(sign=k, group="p")) for k in (1, 0, 2)]
)
CONFIGS[-1].params["sign"] = -1
