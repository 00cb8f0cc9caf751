"""Generator stand-in that compiled functions accept: replays recorded draws."""

import numba as nb
import numpy as np
from numba import float64, int64, types
from numba.experimental import jitclass
from numba.extending import overload


@nb.njit
def _random(vals, kinds, pos, a, b):
    v = vals[pos[0] % 4096]
    pos[0] += 1
    return a + (b - a) * min(max(v, 0.0), 1.0 - 2.0**-53)


@nb.njit
def _normal(vals, kinds, pos, a, b):
    v = vals[pos[0] % 4096]
    if kinds[pos[0] % 4096] == 0:
        v = 4.0 * v - 2.0
    pos[0] += 1
    return a + b * v


@nb.njit
def _integers(vals, kinds, pos, low, high):
    if low >= high:
        raise ValueError("low >= high")
    v = vals[pos[0] % 4096]
    if kinds[pos[0] % 4096] == 0:
        r = low + int(v * (high - low))
    else:
        r = int(np.floor(v + 0.5))
        r = min(max(r, low), high - 1)
    pos[0] += 1
    return r


def _make(f, dtype):
    def draw(vals, kinds, pos, a, b, size):
        raise NotImplementedError

    def one(vals, kinds, pos, a, b, size):
        return f(vals, kinds, pos, a, b)

    def many(vals, kinds, pos, a, b, size):
        out = np.empty(size, dtype)
        for i in range(out.size):
            out.flat[i] = f(vals, kinds, pos, a, b)
        return out

    @overload(draw)
    def _draw(vals, kinds, pos, a, b, size):
        none = size is None or isinstance(size, (types.NoneType, types.Omitted))
        return one if none else many

    return draw


draw_unit = _make(_random, np.float64)
draw_normal = _make(_normal, np.float64)
draw_integers = _make(_integers, np.int64)


@jitclass([("vals", float64[::1]), ("kinds", int64[::1]), ("pos", int64[::1])])
class JitRng:
    def __init__(self, vals, kinds):
        self.vals = vals
        self.kinds = kinds
        self.pos = np.zeros(1, np.int64)

    def random(self, size=None):
        return draw_unit(self.vals, self.kinds, self.pos, 0.0, 1.0, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return draw_unit(self.vals, self.kinds, self.pos, low, high, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return draw_normal(self.vals, self.kinds, self.pos, loc, scale, size)

    def standard_normal(self, size=None):
        return draw_normal(self.vals, self.kinds, self.pos, 0.0, 1.0, size)

    def integers(self, low, high, size=None):
        return draw_integers(self.vals, self.kinds, self.pos, low, high, size)


def make(vals, kinds):
    return JitRng(vals, kinds)
