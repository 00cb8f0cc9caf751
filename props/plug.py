"""Components following the documented interfaces that return arbitrary given values and record what they are handed.

Plain classes on the symbolic side, compiled classes on the concrete side.
"""

SPEC = {
    "Entropy": [("nc", "i"), ("nf", "i"), ("weights", "f2"), ("Qs", "f1"), ("mix", "f2"), ("energy", "f1"), ("got_w", "f2"), ("got_J", "f1"), ("got_phi", "f2")],
    "Ensemble": [("nc", "i"), ("phis", "f2"), ("inc", "f1"), ("got_weights", "f2"), ("got_Q", "f1"), ("got_mask", "f1")],
    "Interaction": [("nf", "i"), ("pot", "f2"), ("coef", "f1"), ("vol", "f1"), ("got_phi", "f2"), ("got_phi_coef", "f2"), ("got_phi_vol", "f2"), ("got_pot", "f2")],
    "Constraint": [("nf", "i"), ("pot", "f2"), ("vol", "f1"), ("res", "f"), ("pot_now", "f2"), ("vol_now", "f1"), ("got_phi", "f2"), ("got_J", "f1"), ("got_mask", "f1"), ("got_mask2", "f1"), ("got_step", "f1")],
}


def classes(np):
    class Entropy:
        def __init__(self, nc, nf, weights, Qs, mix, energy, got_w, got_J, got_phi):
            self.nc = nc
            self.nf = nf
            self.weights = weights
            self.Qs = Qs
            self.mix = mix  # features of the components
            self.energy = energy
            self.got_w = got_w
            self.got_J = got_J
            self.got_phi = got_phi

        @property
        def num_comp(self):
            return self.nc

        @property
        def num_feat(self):
            return self.nf

        def partition(self, phis_comp, omegas, Js):
            for m in range(Js.shape[0]):
                self.got_J[m] = Js[m]
                for r in range(self.nf):
                    self.got_w[r, m] = omegas[r, m]
                for i in range(self.nc):
                    phis_comp[i, m] = self.weights[i, m]
            return self.Qs.copy()

        def comp_to_feat(self, phis_feat, phis_comp):
            for m in range(phis_comp.shape[1]):
                for r in range(self.nf):
                    v = 0.0
                    for i in range(self.nc):
                        v = v + self.mix[r, i] * phis_comp[i, m]
                    phis_feat[r, m] = v

        def volume_derivative(self, phis_comp):
            for m in range(phis_comp.shape[1]):
                for i in range(self.nc):
                    self.got_phi[i, m] = phis_comp[i, m]
            return self.energy.copy()

    class Ensemble:
        def __init__(self, nc, phis, inc, got_weights, got_Q, got_mask):
            self.nc = nc
            self.phis = phis
            self.inc = inc
            self.got_weights = got_weights
            self.got_Q = got_Q
            self.got_mask = got_mask

        @property
        def num_comp(self):
            return self.nc

        def normalize(self, phis_comp, Qs, masks):
            for i in range(self.nc):
                self.got_Q[i] = Qs[i]
                for m in range(masks.shape[0]):
                    self.got_weights[i, m] = phis_comp[i, m]
                    phis_comp[i, m] = self.phis[i, m] * masks[m]
            v = np.zeros(masks.shape[0])
            for m in range(masks.shape[0]):
                self.got_mask[m] = masks[m]
                v[m] = self.inc[m] * masks[m]
            return v

    class Interaction:
        def __init__(self, nf, pot, coef, vol, got_phi, got_phi_coef, got_phi_vol, got_pot):
            self.nf = nf
            self.pot = pot
            self.coef = coef
            self.vol = vol
            self.got_phi = got_phi
            self.got_phi_coef = got_phi_coef
            self.got_phi_vol = got_phi_vol
            self.got_pot = got_pot

        @property
        def num_feat(self):
            return self.nf

        def volume_derivative(self, potential, phis_feat):
            for r in range(self.nf):
                for m in range(phis_feat.shape[1]):
                    self.got_pot[r, m] = potential[r, m]
                    self.got_phi_vol[r, m] = phis_feat[r, m]
            return self.vol.copy()

        def potential(self, phis_feat):
            for r in range(self.nf):
                for m in range(phis_feat.shape[1]):
                    self.got_phi[r, m] = phis_feat[r, m]
            return self.pot.copy()

        def incomp_coef(self, phis_feat):
            for r in range(self.nf):
                for m in range(phis_feat.shape[1]):
                    self.got_phi_coef[r, m] = phis_feat[r, m]
            return self.coef.copy()

    class Constraint:
        def __init__(self, nf, pot, vol, res, pot_now, vol_now, got_phi, got_J, got_mask, got_mask2, got_step):
            self.nf = nf
            self.pot = pot
            self.vol = vol
            self.res = res
            self.pot_now = pot_now
            self.vol_now = vol_now
            self.got_phi = got_phi
            self.got_J = got_J
            self.got_mask = got_mask
            self.got_mask2 = got_mask2
            self.got_step = got_step

        @property
        def num_feat(self):
            return self.nf

        @property
        def potential(self):
            return self.pot_now

        @property
        def volume_derivative(self):
            return self.vol_now

        def initialize(self, num_part):
            pass

        def prepare(self, phis_feat, Js, masks):
            for m in range(masks.shape[0]):
                self.got_mask[m] = masks[m]
                self.got_J[m] = Js[m]
                self.vol_now[m] = self.vol[m] * masks[m]
                for r in range(self.nf):
                    self.got_phi[r, m] = phis_feat[r, m]
                    self.pot_now[r, m] = self.pot[r, m] * masks[m]

        def evolve(self, step, masks):
            self.got_step[0] = step
            self.got_step[1] += 1
            for m in range(masks.shape[0]):
                self.got_mask2[m] = masks[m]
            return self.res

    return dict(Entropy=Entropy, Ensemble=Ensemble, Interaction=Interaction, Constraint=Constraint)


_CACHE = {}


def get(ctx):
    if ctx.sym:
        return classes(ctx.np)
    if not _CACHE:
        import numpy
        from numba import float64, int64
        from numba.experimental import jitclass

        T = dict(i=int64, f=float64, f1=float64[::1], f2=float64[:, ::1])
        for name, cls in classes(numpy).items():
            _CACHE[name] = jitclass([(n, T[t]) for n, t in SPEC[name]])(cls)
    return _CACHE


class Plugged:
    """Arbitrary components: nc components, nf features, M compartments, k constraints."""

    def __init__(self, ctx, nc=2, nf=2, M=2, k=0):
        P = get(ctx)
        z = ctx.np.zeros
        self.comp, self.feat, self.M = nc, nf, M

        def val(name, *shape, **kw):
            kw = kw or dict(hint=(-1.0, 1.0))
            if len(shape) == 1:
                return [ctx.real("%s_%d" % (name, a), **kw) for a in range(shape[0])]
            return [[ctx.real("%s_%d_%d" % (name, a, b), **kw) for b in range(shape[1])] for a in range(shape[0])]

        self.weights, self.Qs = val("p", nc, M), val("Q", nc)
        self.phis, self.inc = val("phi", nc, M), val("inc", M)
        self.mix = [[1.0 if r == min(i, nf - 1) else 0.0 for i in range(nc)] for r in range(nf)]
        self.energy, self.pot, self.coef, self.vol = val("s", M), val("u", nf, M), val("c", M), val("f", M)
        a = ctx.arr
        self.c_ent = P["Entropy"](nc, nf, a(self.weights), a(self.Qs), a(self.mix), a(self.energy), z((nf, M)), z(M), z((nc, M)))
        self.c_ens = P["Ensemble"](nc, a(self.phis), a(self.inc), z((nc, M)), z(nc), z(M))
        self.c_int = P["Interaction"](nf, a(self.pot), a(self.coef), a(self.vol), z((nf, M)), z((nf, M)), z((nf, M)), z((nf, M)))
        self.cons = []
        self.c_cons = []
        for q in range(k):
            pot, vol, res = val("cu%d" % q, nf, M), val("cf%d" % q, M), ctx.real("res%d" % q, nonneg=True, hint=(0.0, 1.0))
            self.cons.append((pot, vol, res))
            self.c_cons.append(P["Constraint"](nf, a(pot), a(vol), res, z((nf, M)), z(M), z((nf, M)), z(M), z(M), z(M), z(2)))
        if not k:
            self.c_cons = [ctx.mod("constraint").NoConstraintCompiled(nf)]
            self.c_cons[0].initialize(M)
