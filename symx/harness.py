"""Registration of harnesses by the property modules in props/."""

REGISTRY = []


class Harness:
    def __init__(self, fn, name, quick, thorough, covers, bounds):
        self.fn, self.name, self.covers, self.bounds = fn, name, covers, bounds
        self.quick = quick if isinstance(quick, list) else [quick]
        th = quick if thorough is None else thorough
        self.thorough = th if isinstance(th, list) else [th]

    def params(self, tier):
        return self.quick if tier == "quick" else self.thorough


def harness(*, quick=None, thorough=None, covers=(), bounds=""):
    def deco(fn):
        REGISTRY.append(
            Harness(fn, fn.__name__, {} if quick is None else quick, thorough, tuple(covers), bounds)
        )
        return fn

    return deco
