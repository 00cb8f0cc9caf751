"""C02: Jacobian and Hessian are the derivatives of the energy."""
from symx.cfg import Config

from . import ownfe
from .common import block_chis, grad_spec, make_fe, matrix, rows, sizes_of, system, vec

ID = "C02"
BOUNDS = "1-5 components (blocks up to 2x2); single compositions and stacks of 2 (one 2x2 stack); every choice of the dependent component; all real chi, positive sizes, positive fractions; own interactions and entropies (arbitrary cubic interaction, quadratic entropy) combined with each other and with the package's, 2-3 components"
OUTSIDE = "larger systems; zero fractions (derivatives diverge); rounding"


def derivs(ctx, kind="fh", n=2, per=None, hess=True):
    fe, chis, sizes = system(ctx, kind, n, per, symmetric=False)
    n = len(sizes)
    phi = ctx.arr(vec(ctx, "phi", n, pos=True, hint=(0.05, 1.0)))
    jac = fe.jacobian(phi)
    g = ctx.grad(lambda x: fe.free_energy_density(x), phi)
    ctx.eq("jacobian", jac, g, rtol=1e-5, atol=1e-6)
    if not hess:
        return
    H = fe.hessian(phi)
    ctx.same("hessian shape", ctx.shape(H), (n, n))
    for i in range(n):
        gi = ctx.grad(lambda x: fe.jacobian(x)[i], phi)
        ctx.eq("hessian", H[i], gi, rtol=1e-5, atol=1e-6)
        ctx.eq("symmetric", H[i], H[:, i])


def spec(ctx, kind="fh", n=2, per=None, shape=(), used=False):
    """Against the documented expression, stacked compositions, with each dependent component."""
    fe, chis, sizes = system(ctx, kind, n, per, symmetric=True, used=used)
    n = len(sizes)
    cnt = 1
    for s in shape:
        cnt *= s
    phis = rows(ctx, "phi", cnt, n, pos=True, hint=(0.05, 1.0))
    arr = ctx.arr(phis).reshape(tuple(shape) + (n,))
    G = [grad_spec(ctx, p, chis, sizes) for p in phis]
    H = [[[chis[i][j] + (1 / (p[i] * sizes[i]) if i == j else 0) for j in range(n)] for i in range(n)] for p in phis]
    ctx.eq("jacobian", fe.jacobian(arr), ctx.arr(G).reshape(tuple(shape) + (n,)))
    ctx.eq("hessian", fe.hessian(arr), ctx.arr(H).reshape(tuple(shape) + (n, n)))
    for k in range(n):
        keep = [i for i in range(n) if i != k]
        Gk = [[g[i] - g[k] for i in keep] for g in G]
        Hk = [[[h[i][j] - h[k][j] - h[i][k] + h[k][k] for j in keep] for i in keep] for h in H]
        if n > 1:
            ctx.eq("conserved jacobian", fe.jacobian(arr, k), ctx.arr(Gk).reshape(tuple(shape) + (n - 1,)))
            ctx.eq("conserved hessian", fe.hessian(arr, k), ctx.arr(Hk).reshape(tuple(shape) + (n - 1, n - 1)))


def whole(ctx, n=2, per=None, shape=(), ints="phi"):
    """Whole numbers given as integers mean the same as real ones."""
    m = len(per) if per else n
    n = sum(per) if per else n
    if ints == "phi":
        chis, sizes = matrix(ctx, "chi", m, symmetric=True), sizes_of(ctx, n)
        ca, sa = chis, sizes
    else:
        up = {(i, j): ctx.integer("k_%d_%d" % (i, j), -2, 3) for i in range(m) for j in range(i + 1)}
        chis = [[up[max(i, j), min(i, j)] for j in range(m)] for i in range(m)]
        sizes = [ctx.integer("s_%d" % i, 1, 3) for i in range(n)]
        ca, sa = ctx.iarr(chis), ctx.iarr(sizes)
    fe = make_fe(ctx, "block" if per else "fh", n, ca, sa, per)
    full = block_chis(chis, per) if per else chis
    cnt = 1
    for s in shape:
        cnt *= s
    phis = [[ctx.integer("p_%d_%d" % (q, i), 1, 3) for i in range(n)] for q in range(cnt)]
    arr = ctx.iarr(phis).reshape(tuple(shape) + (n,))
    G = [grad_spec(ctx, p, full, sizes) for p in phis]
    H = [[[full[i][j] + (1 / (p[i] * sizes[i]) if i == j else 0) for j in range(n)] for i in range(n)] for p in phis]
    ctx.eq("jacobian", fe.jacobian(arr), ctx.arr(G).reshape(tuple(shape) + (n,)))
    ctx.eq("hessian", fe.hessian(arr), ctx.arr(H).reshape(tuple(shape) + (n, n)))
    for k in range(n if n > 1 else 0):
        keep = [i for i in range(n) if i != k]
        Gk = [[g[i] - g[k] for i in keep] for g in G]
        Hk = [[[h[i][j] - h[k][j] - h[i][k] + h[k][k] for j in keep] for i in keep] for h in H]
        ctx.eq("conserved jacobian", fe.jacobian(arr, k), ctx.arr(Gk).reshape(tuple(shape) + (n - 1,)))
        ctx.eq("conserved hessian", fe.hessian(arr, k), ctx.arr(Hk).reshape(tuple(shape) + (n - 1, n - 1)))


CONFIGS = (
    [Config("diff-fh-n%d" % n, derivs, dict(n=n)) for n in (1, 2, 3)]
    + [Config("diff-block-%s" % "".join(map(str, p)), derivs, dict(kind="block", per=p)) for p in ([2, 1], [1, 2])]
    + [Config("spec-fh-n%d-%s" % (n, "x".join(map(str, s)) or "single"), spec, dict(n=n, shape=s))
       for n, s in ((1, ()), (2, ()), (3, ()), (4, ()), (5, ()), (2, (2,)), (3, (2,)), (2, (2, 2)), (4, (4,)), (3, (3,)))]
    + [Config("spec-block-%s-%s" % ("".join(map(str, p)), "x".join(map(str, s)) or "single"), spec, dict(kind="block", per=p, shape=s))
       for p, s in (([2, 1], ()), ([1, 2], (2,)), ([2, 2], ()), ([1, 3], ()))]
    + [Config("used-%s" % "".join(map(str, p or [n])), spec, dict(kind="block" if p else "fh", per=p, n=n, shape=s, used=True))
       for n, p, s in ((2, None, ()), (3, None, (2,)), (0, [2, 1], ()))]
    + [Config("whole-%s-%s-%s" % (i, "".join(map(str, p or [n])), "x".join(map(str, s)) or "single"), whole, dict(n=n, per=p, shape=s, ints=i))
       for i, n, p, s in (("phi", 2, None, ()), ("phi", 2, None, (2,)), ("phi", 0, [2, 1], ()), ("all", 2, None, ()), ("all", 2, None, (2,)), ("all", 0, [1, 2], ()))]
    + [Config("diff-fh-n4", derivs, dict(n=4), thorough=True), Config("spec-fh-n7", spec, dict(n=7), thorough=True)]
    + ownfe.CONFIGS
    + [Config("large-fh-n6-3", spec, dict(n=6, shape=(3,))), Config("large-block-43", spec, dict(kind="block", per=[4, 3])), Config("large-fh-n2-9", spec, dict(n=2, shape=(9,)))]
)
