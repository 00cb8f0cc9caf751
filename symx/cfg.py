"""Configurations of the checks (imported by the symbolic and the concrete side)."""


class Config:
    def __init__(
        self, name, fn, params=None, budget=60.0, quick_ms=400, hard_ms=8000, max_paths=3000,
        thorough=False, points=4, fallback=150,
    ):
        self.name = name
        self.fn = fn
        self.params = dict(params or {})
        self.budget = budget
        self.quick_ms = quick_ms
        self.hard_ms = hard_ms
        self.max_paths = max_paths
        self.thorough = thorough  # only in the thorough tier
        self.points = points  # concrete points replayed on the compiled code in any case
        self.fallback = fallback  # sampled points where the solver gives no answer


def select(mod, tier):
    return [c for c in mod.CONFIGS if tier == "thorough" or not c.thorough]
