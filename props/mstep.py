"""One call of the self-consistent iteration with the package's own components (both sides)."""
from .common import block_chis, expand, matrix, sym_chis, vec


class System:
    """Components with symbolic parameters, compiled through their public interface.

    per: number of components of each feature (None: one each, the simple classes)
    ens: "can" | "gc";  cons: list of ("local"|"global", number of constraints)
    """

    def __init__(self, ctx, n=2, per=None, ens="can", cons=(), unit_sizes=False, shift=None, phi_sum_one=False, fixed_chis=None):
        fl = ctx.fl
        self.ctx, self.per = ctx, per
        self.feat = len(per) if per else n
        self.map = expand(per) if per else list(range(n))
        self.comp = len(self.map)
        chis = fixed_chis or matrix(ctx, "chi", self.feat, symmetric=True)
        self.chis = chis
        self.sizes = [1.0] * self.comp if unit_sizes else vec(ctx, "l", self.comp, pos=True, hint=(0.5, 2.5))
        sz = ctx.arr(self.sizes)
        self.given = [sz]  # arrays handed in by the caller

        def arr(x):
            self.given.append(ctx.arr(x))
            return self.given[-1]

        if per:
            self.interaction = fl.FloryHugginsBlockInteraction(self.feat, arr(chis), ctx.np.array(per))
            self.entropy = fl.IdealGasPolydispersedEntropy(self.feat, sz, ctx.np.array(per))
        else:
            self.interaction = fl.FloryHugginsInteraction(n, arr(chis))
            self.entropy = fl.IdealGasEntropy(n, sz)
        if ens == "can":
            self.means = vec(ctx, "mean", self.comp, pos=True, hint=(0.1, 0.9))
            if phi_sum_one:
                self.means[-1] = 1 - sum(self.means[:-1])
                ctx.assume(self.means[-1] > 0)
            self.ensemble = fl.CanonicalEnsemble(self.comp, arr(self.means))
        else:
            self.act = vec(ctx, "act", self.comp, pos=True, hint=(0.1, 1.5))
            self.ensemble = fl.GrandCanonicalEnsemble(self.comp, arr(self.act))
        self.ens = ens
        kw = {} if shift is None else dict(additional_chis_shift=shift)
        self.c_int = self.interaction.compiled(**kw)
        self.c_ent = self.entropy.compiled()
        self.c_ens = self.ensemble.compiled()
        self.cons, self.c_cons = [], []
        for q, (kind, a) in enumerate(cons):
            C = [[ctx.real("C%d_%d_%d" % (q, x, r), hint=(-1.5, 1.5)) for r in range(self.feat)] for x in range(a)]
            T = vec(ctx, "T%d" % q, a, hint=(-0.5, 0.8))
            el = ctx.real("kappa%d" % q, nonneg=True, hint=(0.0, 2.0))
            ar = ctx.real("car%d" % q, nonneg=True, hint=(0.2, 2.0))
            cls = fl.LinearLocalConstraint if kind == "local" else fl.LinearGlobalConstraint
            o = cls(self.feat, arr(C), arr(T))
            self.cons.append((kind, C, T, el, ar, o))
            self.c_cons.append(o.compiled(constraint_acceptance_ratio=ar, constraint_elasticity=el))
        if not self.c_cons:
            self.c_cons = [ctx.mod("constraint").NoConstraintCompiled(self.feat)]

    def group(self):
        return None

    def full_chis(self):
        return block_chis(self.chis, self.per) if self.per else self.chis


class Out:
    pass


def fields(ctx, s, M, alive=None, kill=0.0, name="", norm=False):
    """Symbolic omegas (features x M) and Js; alive: tuple of flags per compartment."""
    for c in s.c_cons:
        c.initialize(M)
    om = [[ctx.real("w%s_%d_%d" % (name, r, m), hint=(-1.5, 1.5)) for m in range(M)] for r in range(s.feat)]
    alive = alive or (1,) * M
    Js = []
    for m in range(M):
        if alive[m]:
            j = ctx.real("J%s_%d" % (name, m), pos=True, hint=(0.3, 1.8))
            ctx.assume(j > kill)
            ctx.apart(j, kill)
        else:
            j = ctx.real("J%s_%d" % (name, m), nonneg=True, hint=(0.0, 0.05))
            ctx.assume(j <= kill)
            ctx.robust(j < kill - 1e-9 or j == 0 if not ctx.sym else True)
        Js.append(j)
    if norm:
        last = max(m for m in range(M) if alive[m])
        if len([a for a in alive if a]) == 1:
            Js[last] = 1.0
            ctx.assume(Js[last] > kill)
        else:
            Js[last] = sum(1 for a in alive if a) - sum(Js[m] for m in range(M) if alive[m] and m != last)
            ctx.assume(Js[last] > kill)
    return om, Js


def run(ctx, s, omegas, Js, steps=1, aJ=0.1, aw=0.2, bound=1e9, kill=0.0, tries=0, scaler=1.0, rng=None, cons=None, ent=None, ens=None, inter=None):
    impl = ctx.mod("mcmp._finder_impl")
    o = Out()
    M = len(Js)
    o.omegas = ctx.arr(omegas)
    o.Js = ctx.arr(Js)
    o.phis_comp = ctx.zeros((s.comp, M))
    o.phis_feat = ctx.zeros((s.feat, M))
    if rng is None:
        rng = ctx.rng("rng", jit=True)
    r = impl.multicomponent_self_consistent_metastep(
        inter or s.c_int, ent or s.c_ent, ens or s.c_ens, tuple(cons or s.c_cons),
        omegas=o.omegas, Js=o.Js, phis_comp=o.phis_comp, phis_feat=o.phis_feat, steps_inner=steps,
        acceptance_Js=aJ, Js_step_upper_bound=bound, acceptance_omega=aw, kill_threshold=kill,
        revive_tries=tries, revive_scaler=scaler, rng=rng,
    )
    o.incomp, o.werr, o.jerr, o.cres, o.revived, o.safe = r
    return o


def fl_(ctx, x):
    """A float parameter (the compiled code is typed: keep one signature)."""
    return x if ctx.sym else float(x)
