"""registry of the contracts; importable with and without the solvers"""
SPECS = {}


def spec(prop, name=None, budget=20.0, depth=2, tier='quick', **kw):
    """register f(E) -- or f(E, **kw) -- as a contract of property `prop`"""
    def deco(f):
        g = (lambda E: f(E, **kw)) if kw else f
        g.spec_name = name or f.__name__
        SPECS.setdefault(prop, []).append((g.spec_name, g, budget, depth, tier))
        return f
    return deco
