"""C05: the equilibration error measures the imbalance of chemical potentials between phases."""
from symx.cfg import Config

from .common import energy_spec, grad_spec, rows, system

ID = "C05"
BOUNDS = "2-4 components, 1-4 phases; Euclidean, maximum and sum norms; by phase, by component and for all; positive fractions, plus one absent component"
OUTSIDE = "larger systems; matrix norms other than the Frobenius default; rounding"


def mus_of(ctx, phis, chis, sizes):
    M = []
    for p in phis:
        g = grad_spec(ctx, p, chis, sizes)
        f = energy_spec(ctx, p, chis, sizes)
        pg = sum(a * b for a, b in zip(p, g))
        M.append([f - pg + gi for gi in g])
    return M


def value(ctx, n=2, phases=2, axis=1, default=False, kind="fh", per=None, whole=False, used=False):
    """The squared error is the sum of the squared deviations from the mean over the phases."""
    fe, chis, sizes = system(ctx, kind, n, per, symmetric=True, used=used)
    n = len(sizes)
    if whole:
        phis = [[ctx.integer("p_%d_%d" % (q, i), 1, 3) for i in range(n)] for q in range(phases)]
    else:
        phis = rows(ctx, "phi", phases, n, pos=True, hint=(0.05, 1.0))
    arr = (ctx.iarr if whole else ctx.arr)(phis)
    keep = ctx.copy(arr)
    err = fe.equilibration_error(arr) if default else fe.equilibration_error(arr, axis=axis)
    M = mus_of(ctx, phis, chis, sizes)
    mean = [sum(M[p][i] for p in range(phases)) / phases for i in range(n)]
    D2 = [[(M[p][i] - mean[i]) ** 2 for i in range(n)] for p in range(phases)]
    if axis == 1:
        want = [sum(D2[p]) for p in range(phases)]
    elif axis == 0:
        want = [sum(D2[p][i] for p in range(phases)) for i in range(n)]
    else:
        want = [sum(sum(d) for d in D2)]
    ctx.same("shape", ctx.shape(err), (len(want),) if axis is not None else ())
    err = ctx.np.reshape(err, (len(want),))
    for k, w in enumerate(want):
        ctx.true("error is not negative", err[k] >= 0)
        ctx.eq("error", err[k] * err[k], w, rtol=1e-6, atol=1e-9)
    ctx.eq("input unchanged", arr, keep)


def orders(ctx, n=2, phases=2, axis=1, order=1):
    fe, chis, sizes = system(ctx, "fh", n, None, symmetric=True)
    phis = rows(ctx, "phi", phases, n, pos=True, hint=(0.05, 1.0))
    err = fe.equilibration_error(ctx.arr(phis), order=ctx.np.inf if order == "inf" else order, axis=axis)
    M = mus_of(ctx, phis, chis, sizes)
    mean = [sum(M[p][i] for p in range(phases)) / phases for i in range(n)]
    D = [[ctx.abs(M[p][i] - mean[i]) for i in range(n)] for p in range(phases)]
    if axis == 0 or axis is None and order == 1:
        D = [[D[p][i] for p in range(phases)] for i in range(n)]
    if axis is None:
        # norms of the whole table are those of matrices, see numpy.linalg.norm
        ctx.eq("error", err, ctx.max([sum(d) for d in D]))
        return
    want = [sum(d) if order == 1 else ctx.max(d) for d in D]
    ctx.eq("error", err, ctx.arr(want))


def balanced(ctx, n=2, phases=3):
    """Phases that balance exactly have no error, and only those."""
    fe, chis, sizes = system(ctx, "fh", n, None, symmetric=True)
    p = [ctx.real("phi_%d" % i, pos=True, hint=(0.05, 1.0)) for i in range(n)]
    arr = ctx.arr([p] * phases)
    ctx.eq("identical phases", fe.equilibration_error(arr), ctx.arr([0.0] * phases), atol=1e-12)
    ctx.eq("identical phases", fe.equilibration_error(arr, axis=0), ctx.arr([0.0] * n), atol=1e-12)
    ctx.eq("one phase", ctx.np.reshape(fe.equilibration_error(ctx.arr([p])), (1,)), ctx.arr([0.0]))
    ctx.eq("one phase", ctx.np.reshape(fe.equilibration_error(ctx.arr(p)), (1,)), ctx.arr([0.0]))


def order_free(ctx, n=2):
    """Listing the phases in another order permutes the errors by phase."""
    fe, chis, sizes = system(ctx, "fh", n, None, symmetric=True)
    a, b, c = rows(ctx, "phi", 3, n, pos=True, hint=(0.05, 1.0))
    e1 = fe.equilibration_error(ctx.arr([a, b, c]))
    e2 = fe.equilibration_error(ctx.arr([c, a, b]))
    for i, j in ((0, 1), (1, 2), (2, 0)):
        ctx.eq("permuted phases", e1[i] * e1[i], e2[j] * e2[j])


def absent(ctx, n=2, phases=2):
    """A component that is absent everywhere does not contribute."""
    fe, chis, sizes = system(ctx, "fh", n + 1, None, symmetric=True)
    phis = [r + [0.0] for r in rows(ctx, "phi", phases, n, pos=True, hint=(0.05, 1.0))]
    err = fe.equilibration_error(ctx.arr(phis))
    sub = [r[:n] for r in chis[:n]]
    M = mus_of(ctx, [p[:n] for p in phis], sub, sizes[:n])
    mean = [sum(M[p][i] for p in range(phases)) / phases for i in range(n)]
    for p in range(phases):
        ctx.eq("error", err[p] * err[p], sum((M[p][i] - mean[i]) ** 2 for i in range(n)), rtol=1e-6, atol=1e-9)


def partly_absent(ctx, n=2, phases=3, comp=0, gone=0):
    """Where a component is absent from one phase, the disagreement of the others still counts."""
    fe, chis, sizes = system(ctx, "fh", n, None, symmetric=True)
    phis = rows(ctx, "phi", phases, n, pos=True, hint=(0.05, 1.0))
    phis[gone][comp] = 0.0
    inf = ctx.np.inf
    e0 = fe.equilibration_error(ctx.arr(phis), order=inf, axis=0)
    e1 = fe.equilibration_error(ctx.arr(phis), order=inf, axis=1)
    rest = [p for p in range(phases) if p != gone]
    M = dict(zip(rest, mus_of(ctx, [phis[p] for p in rest], chis, sizes)))
    for a in range(len(rest)):
        for b in range(a):
            p, q = rest[a], rest[b]
            for i in range(n):
                d = ctx.abs(M[p][i] - M[q][i])
                ctx.le("disagreement about a component", d, 2 * e0[i], rtol=1e-6, atol=1e-9)
                ctx.le("disagreement of two phases", d, e1[p] + e1[q], rtol=1e-6, atol=1e-9)


CONFIGS = (
    [Config("euclid-n%d-p%d-%s" % (n, p, a), value, dict(n=n, phases=p, axis=a))
     for n, p, a in ((2, 2, 1), (2, 2, 0), (2, 2, None), (3, 2, 1), (2, 3, 1), (3, 3, 0), (2, 4, 1))]
    + [Config("whole-%d" % a, value, dict(n=2, phases=2, axis=a, whole=True)) for a in (0, 1)]
    + [Config("default", value, dict(n=3, phases=2, axis=1, default=True)), Config("block", value, dict(kind="block", per=[2, 1], phases=2, axis=1))]
    + [Config("used-n%d" % n, value, dict(n=n, phases=2, axis=1, used=True)) for n in (2, 3)]
    + [Config("order%s-all" % o, orders, dict(n=2, phases=2, axis=None, order=o)) for o in (1, "inf")]
    + [Config("order%s-axis%d" % (o, a), orders, dict(n=3, phases=2, axis=a, order=o)) for o in (1, "inf") for a in (0, 1)]
    + [Config("balanced-n%d" % n, balanced, dict(n=n)) for n in (2, 3)]
    + [Config("permuted", order_free, dict(n=2)), Config("absent", absent, dict(n=2, phases=2))]
    + [Config("partly-absent-n%d-p%d-%d%d" % (n, p, c, g), partly_absent, dict(n=n, phases=p, comp=c, gone=g)) for n, p, c, g in ((2, 3, 0, 0), (2, 3, 1, 2), (3, 3, 1, 1))]
    + [Config("large-n%d-p%d-%s" % (n, p, a), value, dict(n=n, phases=p, axis=a)) for n, p, a in ((6, 3, 1), (2, 8, 0), (2, 8, 1))]
)
