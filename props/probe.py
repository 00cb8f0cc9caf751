"""Components implementing the documented interfaces whose behaviour is scripted step by step.

All of them share a clock (number of steps so far = number of calls of ``partition``).
Plain classes on the symbolic side, compiled classes on the concrete side.
"""

SPEC = {
    "Entropy": [("num_comp_", "i"), ("num_feat_", "i"), ("clock", "f1"), ("energy", "f2"), ("lin", "b")],
    "Ensemble": [("num_comp_", "i"), ("clock", "f1"), ("inc", "f1"), ("seen", "f1"), ("lin", "b")],
    "Interaction": [("num_feat_", "i"), ("clock", "f1"), ("pot", "f1"), ("mat", "f2"), ("lin", "b")],
    "Constraint": [("num_feat_", "i"), ("clock", "f1"), ("res", "f1"), ("pots", "f2"), ("vol", "f1"), ("mult", "f1"), ("gain", "f"), ("lin", "b")],
}


def classes(np):
    class Entropy:
        def __init__(self, num_comp_, num_feat_, clock, energy, lin):
            self.num_comp_ = num_comp_
            self.num_feat_ = num_feat_
            self.clock = clock
            self.energy = energy  # step x compartment
            self.lin = lin

        @property
        def num_comp(self):
            return self.num_comp_

        @property
        def num_feat(self):
            return self.num_feat_

        def partition(self, phis_comp, omegas, Js):
            self.clock[0] += 1
            for i in range(self.num_comp_):
                for m in range(omegas.shape[1]):
                    if self.lin:
                        phis_comp[i, m] = omegas[i, m]
                    else:
                        phis_comp[i, m] = i + 1 + 10 * m
            return np.ones(self.num_comp_)

        def comp_to_feat(self, phis_feat, phis_comp):
            for i in range(self.num_feat_):
                for m in range(phis_comp.shape[1]):
                    if self.lin:
                        phis_feat[i, m] = phis_comp[i, m]
                    else:
                        phis_feat[i, m] = 0.0

        def volume_derivative(self, phis_comp):
            k = int(self.clock[0]) - 1
            v = np.zeros(phis_comp.shape[1])
            for m in range(phis_comp.shape[1]):
                v[m] = self.energy[k, m]
            return v

    class Ensemble:
        def __init__(self, num_comp_, clock, inc, seen, lin):
            self.num_comp_ = num_comp_
            self.clock = clock
            self.inc = inc
            self.seen = seen  # living compartments in every step
            self.lin = lin

        @property
        def num_comp(self):
            return self.num_comp_

        def normalize(self, phis_comp, Qs, masks):
            k = int(self.clock[0]) - 1
            n = 0
            v = np.zeros(masks.shape[0])
            for m in range(masks.shape[0]):
                if masks[m] > 0.5:
                    n += 1
                    v[m] = self.inc[k]
                else:
                    for i in range(self.num_comp_):
                        phis_comp[i, m] = 0.0
            self.seen[k] = n
            return v

    class Interaction:
        def __init__(self, num_feat_, clock, pot, mat, lin):
            self.num_feat_ = num_feat_
            self.clock = clock
            self.pot = pot
            self.mat = mat
            self.lin = lin

        @property
        def num_feat(self):
            return self.num_feat_

        def volume_derivative(self, potential, phis_feat):
            return np.zeros(phis_feat.shape[1])

        def potential(self, phis_feat):
            M = phis_feat.shape[1]
            v = np.zeros((self.num_feat_, M))
            if self.lin:
                for r in range(self.num_feat_):
                    for m in range(M):
                        for s in range(self.num_feat_):
                            v[r, m] = v[r, m] + self.mat[r, s] * phis_feat[s, m]
            else:
                k = int(self.clock[0]) - 1
                for m in range(M):
                    v[0, m] = self.pot[k]
                    v[1, m] = -self.pot[k]
            return v

        def incomp_coef(self, phis_feat):
            return 0.0

    class Constraint:
        def __init__(self, num_feat_, clock, res, pots, vol, mult, gain, lin):
            self.num_feat_ = num_feat_
            self.clock = clock
            self.res = res
            self.pots = pots
            self.vol = vol
            self.mult = mult
            self.gain = gain
            self.lin = lin

        @property
        def num_feat(self):
            return self.num_feat_

        @property
        def potential(self):
            return self.pots

        @property
        def volume_derivative(self):
            return self.vol

        def initialize(self, num_part):
            self.pots = np.zeros((self.num_feat_, num_part))
            self.vol = np.zeros(num_part)
            self.mult[0] = 0.0

        def prepare(self, phis_feat, Js, masks):
            if self.lin:
                self.res[0] = phis_feat[0, 0]
                for m in range(phis_feat.shape[1]):
                    self.pots[0, m] = self.mult[0] * masks[m]

        def evolve(self, step, masks):
            if self.lin:
                self.mult[0] += step * self.gain * self.res[0]
                return abs(self.res[0])
            return self.res[int(self.clock[0]) - 1]

    return dict(Entropy=Entropy, Ensemble=Ensemble, Interaction=Interaction, Constraint=Constraint)


_CACHE = {}


def get(ctx):
    if ctx.sym:
        return classes(ctx.np)
    if not _CACHE:
        import numpy
        from numba import boolean, float64, int64
        from numba.experimental import jitclass

        T = dict(i=int64, f=float64, f1=float64[::1], f2=float64[:, ::1], b=boolean)
        for name, cls in classes(numpy).items():
            _CACHE[name] = jitclass([(n, T[t]) for n, t in SPEC[name]])(cls)
    return _CACHE


class Wrap:
    """What the finder is handed: compiles to a given instance and records the arguments."""

    def __init__(self, inst):
        self.inst = inst
        self.kwargs = []

    def compiled(self, **kwargs):
        self.kwargs.append(kwargs)
        return self.inst


class Rig:
    """A finder on scripted components: 2 features, M compartments, K scripted steps."""

    def __init__(self, ctx, M=2, K=8, lin=False, cons=True, **kw):
        P = get(ctx)
        z = ctx.np.zeros
        self.ctx, self.K, self.M = ctx, K, M
        self.clock, self.energy, self.inc, self.pot, self.res, self.seen = z(1), z((K, M)), z(K), z(K), z(K), z(K)
        self.mat = z((2, 2))
        self.ent = P["Entropy"](2, 2, self.clock, self.energy, lin)
        self.ens = P["Ensemble"](2, self.clock, self.inc, self.seen, lin)
        self.int = P["Interaction"](2, self.clock, self.pot, self.mat, lin)
        self.mult = z(1)
        self.gain = kw.pop("gain", 0.0)
        self.con = P["Constraint"](2, self.clock, self.res, z((2, 1)), z(1), self.mult, self.gain, lin)
        self.kw = kw
        args = dict(num_part=M, progress=False, acceptance_Js=0.0, acceptance_omega=0.0, Js_step_upper_bound=1.0)
        args.update(kw)
        if "rng" not in args:
            args["rng"] = Draws(ctx)
        self.finder = ctx.fl.CoexistingPhasesFinder(Wrap(self.int), Wrap(self.ent), Wrap(self.ens), [Wrap(self.con)] if cons else None, **args)

    @property
    def steps(self):
        return int(self.clock[0])

    def zero(self):
        self.finder.reinitialize_from_omegas(self.ctx.zeros((2, self.M)))


def Draws(ctx):
    """generator for the finder: real one on the concrete side (compiled code needs it)"""
    if ctx.sym:
        return ctx.rng("rng")
    import numpy

    return numpy.random.default_rng(7)
