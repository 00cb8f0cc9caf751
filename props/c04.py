"""C04: the stability analysis counts the negative modes of the Hessian, with any dependent component."""
from symx.cfg import Config

from .common import rows, system, vec

ID = "C04"
BOUNDS = "conserved: 1-3 components (4 in the thorough tier); not conserved: 1-2 components (3 thorough); single compositions, stacks of 2 and nested stacks; all real chi, positive sizes and fractions"
OUTSIDE = "larger Hessians; points where an eigenvalue vanishes to rounding (compared exactly in the encoding)"


def hess(phi, chis, sizes):
    n = len(phi)
    return [[chis[i][j] + (1 / (phi[i] * sizes[i]) if i == j else 0) for j in range(n)] for i in range(n)]


def reduced(h, k):
    n = len(h)
    keep = [i for i in range(n) if i != k]
    return [[h[i][j] - h[k][j] - h[i][k] + h[k][k] for j in keep] for i in keep]


def minors(m):
    """coefficients of the characteristic polynomial: sums of principal minors"""
    n = len(m)
    if n == 1:
        return [m[0][0]]
    if n == 2:
        return [m[0][0] + m[1][1], m[0][0] * m[1][1] - m[0][1] * m[1][0]]
    e1 = m[0][0] + m[1][1] + m[2][2]
    e2 = sum(m[p][p] * m[q][q] - m[p][q] * m[q][p] for p in range(3) for q in range(p))
    e3 = (
        m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
        - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
    )
    return [e1, e2, e3]


def claims(ctx, label, count, m):
    """The number of negative eigenvalues, by the signs of the symmetric functions (Descartes)."""
    n = len(m)
    if n == 0:
        ctx.same(label, count, 0)
        return
    e = minors(m)
    ctx.stable(*e)
    if n == 1:
        ctx.true(label, ctx.iff(count == 1, e[0] < 0))
        ctx.true(label, ctx.either(count == 0, count == 1))
    elif n == 2:
        tr, det = e
        ctx.true(label, ctx.implies(det < 0, count == 1))
        ctx.true(label, ctx.implies(ctx.both(det > 0, tr < 0), count == 2))
        ctx.true(label, ctx.implies(ctx.both(det > 0, tr > 0), count == 0))
    else:
        e1, e2, e3 = e
        ctx.true(label, ctx.implies(e3 < 0, ctx.either(count == 1, count == 3)))
        ctx.true(label, ctx.implies(e3 > 0, ctx.either(count == 0, count == 2)))
        ctx.true(label, ctx.implies(ctx.both(e1 > 0, e2 > 0, e3 > 0), count == 0))


def modes(ctx, n=2, conserved=True, stack=0, kind="fh", per=None, whole=False, used=False, nest=None):
    fe, chis, sizes = system(ctx, kind, n, per, symmetric=True, used=used)
    n = len(sizes)
    cnt = max(1, stack)
    if whole:
        phis = [[ctx.integer("p_%d_%d" % (q, i), 1, 3) for i in range(n)] for q in range(cnt)]
    else:
        phis = rows(ctx, "phi", cnt, n, pos=True, hint=(0.05, 1.0))
    arr = (ctx.iarr if whole else ctx.arr)(phis if stack else phis[0])
    if nest:
        a, b = nest
        arr = ctx.arr([[phis[q * b + r] for r in range(b)] for q in range(a)])
    got = fe.num_unstable_modes(arr, conserved)
    stable = fe.is_stable(arr, conserved)
    ctx.same("shape", ctx.shape(got), tuple(nest) if nest else (stack,) if stack else ())
    ctx.same("shape of is_stable", ctx.shape(stable), tuple(nest) if nest else (stack,) if stack else ())
    for p in range(cnt):
        at = (p // nest[1], p % nest[1]) if nest else p
        c = got[at] if stack else got
        s = stable[at] if stack else stable
        ctx.true("stable iff no unstable mode", ctx.iff(c == 0, s))
        h = hess(phis[p], chis, sizes)
        if conserved:
            for k in range(n):
                claims(ctx, "unstable modes (dependent component %d)" % k, c, reduced(h, k))
        else:
            claims(ctx, "unstable modes", c, h)


CONFIGS = [
    Config("conserved-n1", modes, dict(n=1)),
    Config("conserved-n2", modes, dict(n=2)),
    Config("conserved-n2-stack2", modes, dict(n=2, stack=2)),
    Config("conserved-n3", modes, dict(n=3)),
    Config("conserved-block-11", modes, dict(kind="block", per=[1, 1])),
    Config("conserved-block-21", modes, dict(kind="block", per=[2, 1])),
    Config("free-n1", modes, dict(n=1, conserved=False)),
    Config("free-n1-stack2", modes, dict(n=1, conserved=False, stack=2)),
    Config("free-n2", modes, dict(n=2, conserved=False)),
    Config("conserved-whole", modes, dict(n=2, whole=True)),
    Config("free-whole", modes, dict(n=2, conserved=False, whole=True)),
    Config("free-block-11", modes, dict(kind="block", per=[1, 1], conserved=False)),
    Config("free-n2-stack2", modes, dict(n=2, conserved=False, stack=2)),
    Config("conserved-n1-stack2", modes, dict(n=1, stack=2)),
    Config("used-conserved", modes, dict(n=2, used=True)),
    Config("used-conserved-stack", modes, dict(n=2, stack=2, used=True)),
    Config("used-free", modes, dict(n=2, conserved=False, used=True)),
    Config("conserved-nested-21", modes, dict(n=2, stack=2, nest=[2, 1])),
    Config("conserved-nested-12", modes, dict(n=2, stack=2, nest=[1, 2])),
    Config("free-nested-12", modes, dict(n=2, conserved=False, stack=2, nest=[1, 2])),
    Config("conserved-nested-n3", modes, dict(n=3, stack=1, nest=[1, 1])),
    Config("free-n3", modes, dict(n=3, conserved=False), thorough=True),
    Config("conserved-n4", modes, dict(n=4), thorough=True, budget=200, hard_ms=20000),
]
