from harness import test, close, ok, raises, accepts, internal
from common import *
from kalepy import utils


@test(quick=800)
class Bounds:
    def gen(rng, k):
        d = int(rng.integers(1, 5))
        n = int(rng.integers(1, 25))
        data = rng.integers(-5, 6, (d, n)) * (1.0 if k % 2 else .5)
        if k % 3 == 0:
            data = rng.normal(size=(d, n)) * 3
        b = []
        for i in range(d):
            lo, hi = np.sort(rng.choice(np.arange(-6, 7), 2, replace=False)).astype(float)
            if rng.random() < .15:
                lo, hi = -np.inf, np.inf
            b.append([None, [lo, hi], [lo, None], [None, hi], [None, None], [None]][int(rng.integers(6))])
        if rng.random() < .5:
            b = [x if x is not None and len(x) == 2 else [-3.0, 3.0] for x in b]
        return dict(data=data, b=b, form=int(rng.integers(3)))

    def check(c):
        data, b = c['data'], c['b']
        d, n = data.shape
        ins, outs, on = np.ones(n, bool), np.zeros(n, bool), np.zeros(n, bool)
        for x, r in zip(data, b):
            if r is None or len(r) == 1:
                continue
            if r[0] is not None:
                ins &= x > r[0]
                outs |= x < r[0]
                on |= x == r[0]
            if r[1] is not None:
                ins &= x < r[1]
                outs |= x > r[1]
                on |= x == r[1]
        arg = b
        if c['form'] == 1:
            arg = tuple(tuple(r) if r is not None else None for r in b)
        elif c['form'] == 2 and all(r is not None and len(r) == 2 and None not in r for r in b):
            arg = np.array(b, float)
        darg = data.tolist() if c['form'] == 1 else data
        i = np.asarray(utils.bound_indices(darg, arg))
        o = np.asarray(utils.bound_indices(darg, arg, outside=True))
        for q, e, name in ((i, ins, "inside"), (o, outs, "outside")):
            ok(q.shape == (n,) and q.dtype == bool, "%s: one boolean per point (%s %s)" % (name, q.shape, q.dtype))
            ok(np.array_equal(q, e), "%s selection of bounds %r: %s, expected %s" % (name, arg, q.astype(int), e.astype(int)))
        ok(not np.any(i & o), "a point in both selections")
        ok(np.all(on[~i & ~o]), "a point in neither selection that is on no bound")


@test(quick=200)
class OneDim:
    def gen(rng, k):
        n = int(rng.integers(1, 15))
        lo, hi = np.sort(rng.choice(np.arange(-4, 5), 2, replace=False)).astype(float)
        return dict(x=rng.integers(-5, 6, n).astype(float), b=[[lo, hi], [lo, None], [None, hi], [None, None], None][k % 5])

    def check(c):
        x, b = c['x'], c['b']
        lo, hi = (b or [None, None])
        lo, hi = -np.inf if lo is None else lo, np.inf if hi is None else hi
        for form in (b, [b]) + ((tuple(b), np.array(b, float)) if b is not None and None not in b else ()):
            i = np.asarray(utils.bound_indices(x, form))
            o = np.asarray(utils.bound_indices(x, form, outside=True))
            ok(i.shape == x.shape and o.shape == x.shape and i.dtype == bool and o.dtype == bool, "one boolean per point")
            ok(np.array_equal(i, (x > lo) & (x < hi)), "inside selection of %r" % (form,))
            ok(np.array_equal(o, (x < lo) | (x > hi)), "outside selection of %r" % (form,))
