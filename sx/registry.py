"""Cases: the bounded questions that together decide a property."""

CASES = {}


class Case:
    def __init__(self, prop, fn, quick, thorough, budget, bounds, opts):
        self.prop, self.fn = prop, fn
        self.name = fn.__name__
        self.quick, self.thorough = quick, thorough
        self.budget, self.bounds, self.opts = budget, bounds, opts

    def params(self, tier):
        if tier == "thorough" and self.thorough is not None:
            return self.thorough
        return self.quick


def case(prop, quick=None, thorough=None, budget=40, bounds="", **opts):
    """Register fn(sx, **params) for every params dict of the tier."""
    def wrap(fn):
        c = Case(prop, fn, quick if quick is not None else [{}], thorough,
                 budget, bounds, opts)
        CASES.setdefault(prop, {})[c.name] = c
        return fn
    return wrap
