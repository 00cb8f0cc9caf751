"""C29: no component and no compartment is special: relabelling them relabels the result."""
from symx.cfg import Config

from . import mstep
from .common import block_chis, expand, matrix, sizes_of, vec

ID = "C29"
BOUNDS = "one step from any state: 1-4 components, 1-4 compartments (up to 2 dead), every listed permutation of components and of compartments (all transpositions and cycles up to 4), blocks up to 2+2, both ensembles, local and global constraints in either order; free energy, derivatives, potentials and equilibration error of 2-4 components, 2-3 phases"
OUTSIDE = "larger systems; several steps; random revival; rounding"
REPLAY_PROCS = 4


class Data:
    """everything a step depends on, as plain numbers"""

    def __init__(self, ctx, n=2, per=None, M=2, ens="can", cons=(), alive=None, norm=True):
        self.per = list(per) if per else [1] * n
        self.block = per is not None
        self.map = expand(self.per)
        self.F, self.C, self.M, self.ens = len(self.per), len(self.map), M, ens
        self.chis = matrix(ctx, "chi", self.F, symmetric=True)
        self.sizes = vec(ctx, "l", self.C, pos=True, hint=(0.5, 2.5))
        self.amount = vec(ctx, "mean" if ens == "can" else "act", self.C, pos=True, hint=(0.1, 0.9))
        self.alive = alive or (1,) * M
        self.kill = ctx.real("kill", nonneg=True, hint=(0.05, 0.25)) if not all(self.alive) else 0.0
        self.w = [[ctx.real("w_%d_%d" % (r, m), hint=(-1.5, 1.5)) for m in range(M)] for r in range(self.F)]
        self.J = [ctx.real("J_%d" % m, nonneg=True, hint=(0.3, 1.8) if self.alive[m] else (0.0, 0.05)) for m in range(M)]
        for m in range(M):
            ctx.assume(self.J[m] > self.kill if self.alive[m] else self.J[m] <= self.kill)
            ctx.apart(self.J[m], self.kill)
        self.cons = []
        for q, (kind, a) in enumerate(cons):
            self.cons.append((kind, [[ctx.real("C%d_%d_%d" % (q, x, r), hint=(-1.5, 1.5)) for r in range(self.F)] for x in range(a)],
                              vec(ctx, "T%d" % q, a, hint=(-0.5, 0.8)), ctx.real("kappa%d" % q, nonneg=True, hint=(0.0, 2.0))))

    def relabel(self, feat, comp, part, order):
        """feat, part: new position -> old one; comp: the same within the components"""
        o = Data.__new__(Data)
        o.__dict__.update(self.__dict__)
        o.per = [self.per[r] for r in feat]
        o.map = expand(o.per)
        o.chis = [[self.chis[a][b] for b in feat] for a in feat]
        o.sizes = [self.sizes[i] for i in comp]
        o.amount = [self.amount[i] for i in comp]
        o.w = [[self.w[r][m] for m in part] for r in feat]
        o.J = [self.J[m] for m in part]
        o.alive = tuple(self.alive[m] for m in part)
        o.cons = [(k, [[row[r] for r in feat] for row in C], T, e) for k, C, T, e in (self.cons[q] for q in order)]
        return o

    def step(self, ctx, **kw):
        fl, np = ctx.fl, ctx.np
        s = mstep.Out()
        s.comp, s.feat = self.C, self.F
        if self.block:
            s.c_int = fl.FloryHugginsBlockInteraction(self.F, ctx.arr(self.chis), np.array(self.per)).compiled()
            s.c_ent = fl.IdealGasPolydispersedEntropy(self.F, ctx.arr(self.sizes), np.array(self.per)).compiled()
        else:
            s.c_int = fl.FloryHugginsInteraction(self.F, ctx.arr(self.chis)).compiled()
            s.c_ent = fl.IdealGasEntropy(self.F, ctx.arr(self.sizes)).compiled()
        s.c_ens = (fl.CanonicalEnsemble if self.ens == "can" else fl.GrandCanonicalEnsemble)(self.C, ctx.arr(self.amount)).compiled()
        s.c_cons = []
        for kind, C, T, e in self.cons:
            cls = fl.LinearLocalConstraint if kind == "local" else fl.LinearGlobalConstraint
            s.c_cons.append(cls(self.F, ctx.arr(C), ctx.arr(T)).compiled(constraint_elasticity=e))
        if not s.c_cons:
            s.c_cons = [ctx.mod("constraint").NoConstraintCompiled(self.F)]
        for c in s.c_cons:
            c.initialize(self.M)
        return mstep.run(ctx, s, self.w, self.J, kill=self.kill, **kw)


def step(ctx, n=2, per=None, M=2, ens="can", cons=(), alive=None, feat=None, within=None, part=None, order=None, group=None):
    d = Data(ctx, n, per, M, ens, cons, alive)
    feat = list(feat) if feat else list(range(d.F))
    part = list(part) if part else list(range(M))
    order = list(order) if order else list(range(len(cons)))
    members = {r: [i for i in range(d.C) if d.map[i] == r] for r in range(d.F)}
    comp = []
    for r in feat:
        comp += members[r][::-1] if within else members[r]
    e = d.relabel(feat, comp, part, order)
    kw = dict(aJ=ctx.real("aJ", pos=True, hint=(1e-3, 0.2)), aw=ctx.real("aw", pos=True, hint=(1e-3, 0.2)), bound=ctx.real("b", pos=True, hint=(1e-3, 0.2)))
    a, b = d.step(ctx, **kw), e.step(ctx, **kw)
    tol = dict(rtol=1e-6, atol=1e-9)
    for x in range(M):
        ctx.eq("volumes", b.Js[x], a.Js[part[x]], **tol)
        for y in range(d.F):
            ctx.eq("fields", b.omegas[y, x], a.omegas[feat[y], part[x]], **tol)
            ctx.eq("feature fractions", b.phis_feat[y, x], a.phis_feat[feat[y], part[x]], **tol)
        for y in range(d.C):
            ctx.eq("fractions", b.phis_comp[y, x], a.phis_comp[comp[y], part[x]], **tol)
    for k in ("incomp", "werr", "jerr", "cres"):
        ctx.eq("errors", getattr(b, k), getattr(a, k), **tol)
    ctx.same("whether a compartment died", bool(a.safe), bool(b.safe))


def energy(ctx, n=2, per=None, comp=None, phases=2, part=None):
    """the free energy side"""
    fl, np = ctx.fl, ctx.np
    per_ = list(per) if per else [1] * n
    F = len(per_)
    feat = list(comp)
    mp = expand(per_)
    C = len(mp)
    chis, sizes = matrix(ctx, "chi", F, symmetric=True), sizes_of(ctx, C)
    phi = [vec(ctx, "phi%d" % p, C, pos=True, hint=(0.05, 1.0)) for p in range(phases)]
    order = [i for r in feat for i in range(C) if mp[i] == r]
    part = list(part)

    def fe(ch, sz, pr):
        if per:
            I = fl.FloryHugginsBlockInteraction(F, ctx.arr(ch), np.array(pr))
            S = fl.IdealGasPolydispersedEntropy(F, ctx.arr(sz), np.array(pr))
        else:
            I, S = fl.FloryHugginsInteraction(F, ctx.arr(ch)), fl.IdealGasEntropy(F, ctx.arr(sz))
        return ctx.mod("free_energy.base").FreeEnergyBase(I, S)

    A = fe(chis, sizes, per_)
    B = fe([[chis[a][b] for b in feat] for a in feat], [sizes[i] for i in order], [per_[r] for r in feat])
    x = ctx.arr(phi)
    y = ctx.arr([[phi[p][i] for i in order] for p in part])
    fa, fb = A.free_energy_density(x), B.free_energy_density(y)
    ja, jb, ha, hb = A.jacobian(x), B.jacobian(y), A.hessian(x), B.hessian(y)
    ma, mb = A.chemical_potentials(x), B.chemical_potentials(y)
    for p, q in enumerate(part):
        ctx.eq("energy", fb[p], fa[q])
        for i, k in enumerate(order):
            ctx.eq("jacobian", jb[p, i], ja[q, k])
            ctx.eq("chemical potentials", mb[p, i], ma[q, k])
            for j, l in enumerate(order):
                ctx.eq("hessian", hb[p, i, j], ha[q, k, l])
    for s, k in enumerate(order):
        pa, pb = A.pressure(x, k), B.pressure(y, s)
        for p, q in enumerate(part):
            ctx.eq("pressure", pb[p], pa[q])


def nm(d):
    return "-".join("%s%s" % (k, "".join(map(str, v)) if isinstance(v, (tuple, list)) else v) for k, v in d.items() if v is not None and k != "cons") + "".join("-%s%d" % c for c in d.get("cons", ()))


STEPS = [
    dict(ens="can", n=2, M=2, part=(1, 0)), dict(ens="can", n=2, M=2, feat=(1, 0)), dict(ens="gc", n=2, M=2, feat=(1, 0), part=(1, 0)),
    dict(ens="can", n=3, M=2, feat=(1, 2, 0)), dict(ens="can", n=2, M=3, part=(1, 2, 0)), dict(ens="can", n=2, M=3, part=(2, 1, 0)),
    dict(ens="gc", n=3, M=3, feat=(2, 0, 1), part=(1, 2, 0)), dict(ens="gc", n=2, M=4, part=(3, 0, 1, 2)), dict(ens="gc", n=4, M=2, feat=(3, 0, 1, 2)),
    dict(ens="can", n=2, M=3, alive=(1, 0, 1), part=(1, 2, 0)), dict(ens="gc", n=2, M=3, alive=(0, 1, 1), part=(2, 1, 0), feat=(1, 0)),
    dict(ens="gc", n=1, M=4, alive=(0, 1, 0, 1), part=(1, 2, 3, 0)),
    dict(ens="can", per=(2, 1), M=2, feat=(1, 0)), dict(ens="gc", per=(1, 2), M=2, feat=(1, 0), part=(1, 0)), dict(ens="can", per=(2, 2), M=2, feat=(1, 0)),
    dict(ens="gc", per=(1, 3), M=2, feat=(1, 0)), dict(ens="can", per=(2, 1), M=2, within=1), dict(ens="gc", per=(2, 2), M=2, within=1, feat=(1, 0)),
    dict(ens="gc", n=2, M=2, cons=[("local", 1)], part=(1, 0), feat=(1, 0)), dict(ens="can", n=2, M=2, cons=[("global", 1)], part=(1, 0), feat=(1, 0)),
    dict(ens="gc", n=2, M=2, cons=[("local", 1), ("global", 1)], order=(1, 0), part=(1, 0)), dict(ens="gc", n=2, M=2, cons=[("local", 1), ("local", 1)], order=(1, 0)),
    dict(ens="gc", n=2, M=3, cons=[("local", 1)], alive=(1, 0, 1), part=(1, 2, 0)), dict(ens="gc", n=2, M=3, cons=[("global", 1)], alive=(1, 0, 1), part=(1, 2, 0), feat=(1, 0)),
]
CONFIGS = (
    [Config(nm(d), step, dict(d, group="%s%s%s" % (d["ens"], "p" if "per" in d else "", [c[0] for c in d.get("cons", ())])), points=6) for d in STEPS]
    + [Config("energy-n%d-%s" % (n, "".join(map(str, c))), energy, dict(n=n, comp=c, part=p, phases=len(p)))
       for n, c, p in ((2, (1, 0), (1, 0)), (3, (1, 2, 0), (1, 0)), (3, (2, 1, 0), (1, 2, 0)), (4, (1, 0, 3, 2), (1, 0)))]
    + [Config("energy-block-%s" % "".join(map(str, p)), energy, dict(per=p, comp=(1, 0), part=(1, 0), phases=2)) for p in ((2, 1), (1, 3), (2, 2))]
)
