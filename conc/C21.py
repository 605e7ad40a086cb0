from harness import test, close, ok, raises, accepts, internal
from common import *
import kalepy as kale

PAD = 1e-3


def rows(kde):
    r = kde.reflect
    return [None] * kde.ndim if r is None else [None if x is None else [None if y is None else float(y) for y in x] for x in r]


def gen0(rng, k):
    d = int(rng.integers(1, 4))
    n = int(rng.integers(d + 2, 15))
    data = gen_data(rng, d, n)
    kind = k % 4
    if kind == 1:
        data = data - data.max() - rng.uniform(.01, 3)       # all negative
    elif kind == 2:
        data = data - data.min() + rng.uniform(.01, 3)       # all positive
    elif kind == 3 and rng.random() < .5:
        data = data - data.min(axis=1, keepdims=True)        # from exactly zero
    lo, hi = data.min(axis=1), data.max(axis=1)
    s = hi - lo
    spec = []
    for i in range(d):
        a, b = float(lo[i] - s[i] * rng.uniform(-.1, .5)), float(hi[i] + s[i] * rng.uniform(-.1, .5))
        spec.append([None, True, [True, True], [True, None], [None, True], [a, b], [a, None], [None, b], [True, b], [a, True], [None, None]][int(rng.integers(11))])
    return dict(data=data, spec=spec, tup=bool(rng.random() < .3), h=.3 * s + 1e-6)


def enclosing(v, x, side, msg):
    lo, hi = x.min(), x.max()
    m = 1e-3 * max(abs(lo), abs(hi))
    if side == 0:
        ok(v <= lo and v >= lo - m, "%s: lower boundary %r, data from %r" % (msg, v, lo))
    else:
        ok(v >= hi and v <= hi + m, "%s: upper boundary %r, data up to %r" % (msg, v, hi))


def judge(got, spec, data, msg):
    ok(len(got) == len(spec), msg + ": one specification for each dimension")
    for i, s in enumerate(spec):
        s = [True, True] if s is True else (s if s is not None else [None, None])
        g = got[i] if got[i] is not None else [None, None]
        for side in (0, 1):
            if s[side] is None:
                ok(g[side] is None, "%s: a boundary where none was given (dimension %d)" % (msg, i))
            elif s[side] is True:
                ok(g[side] is not None, msg + ": no boundary for true")
                enclosing(g[side], data[i], side, msg)
            else:
                ok(g[side] == s[side], "%s: boundary %r, given %r" % (msg, g[side], s[side]))


@test(quick=400)
class Forms:
    gen = gen0

    def check(c):
        data, spec = c['data'], c['spec']
        if c['tup']:
            spec = tuple(tuple(x) if isinstance(x, list) else x for x in spec)
        kw = dict(bandwidth=1.0, covariance=np.diag(c['h'] ** 2))
        kde = kale.KDE(data, reflect=spec, **kw)
        judge(rows(kde), spec, data, "reflect=%r" % (spec,))
        # the behaviour: zero outside, mirrored inside
        r = rows(kde)
        pts = np.concatenate([data[:, :2] + .1 * c['h'][:, None], data[:, :2] - 1.5 * c['h'][:, None]], axis=1)
        e, out, good = ref_reflected('gaussian', pts, data, np.diag(c['h'] ** 2), None, r)
        v = kde.density(pts)[1]
        ok(np.all(v[out] == 0), "density outside of the boundaries")
        close(v[good], e[good], "density with the boundaries", rtol=1e-6, atol=1e-12 * e.max())
        s = np.atleast_2d(kde.resample(30))
        for i in range(len(data)):
            if r[i] is None:
                continue
            if r[i][0] is not None:
                ok(s[i].min() >= r[i][0], "resample outside of the boundaries")
            if r[i][1] is not None:
                ok(s[i].max() <= r[i][1], "resample outside of the boundaries")


@test(quick=200)
class Overall:
    gen = gen0

    def check(c):
        data = c['data']
        kw = dict(bandwidth=1.0, covariance=np.diag(c['h'] ** 2))
        kde = kale.KDE(data, reflect=True, **kw)
        judge(rows(kde), [True] * len(data), data, "reflect=True")
        plain = kale.KDE(data, **kw).density(data)[1]
        for none in (None, False, [None] * len(data)):
            kde = kale.KDE(data, reflect=none, **kw)
            ok(all(x is None or (x[0] is None and x[1] is None) for x in rows(kde)), "reflect=%r is no boundary" % (none,))
            close(kde.density(data)[1], plain, "reflect=%r is no boundary" % (none,), rtol=1e-12)
        # every datum lies inside of enclosing bounds: none of them has density zero
        v = kale.KDE(data, reflect=True, **kw).density(data)[1]
        ok(np.all(v > 0), "a datum outside of enclosing boundaries")
        for i in range(len(data)):
            x = data[i]
            v = kale.KDE(x, reflect=True, bandwidth=1.0, covariance=c['h'][i] ** 2).density(x)[1]
            ok(np.all(v > 0), "a datum outside of enclosing boundaries (one dimension)")


@test(quick=150)
class Pair1D:
    def gen(rng, k):
        c = gen0(rng, k)
        while len(c['data']) > 1:
            c = gen0(rng, k)
        return c

    def check(c):
        x, s = c['data'][0], c['spec'][0]
        if s is None or s is True:
            return
        kw = dict(bandwidth=1.0, covariance=c['h'][0] ** 2)
        for form in (s, tuple(s), [s]):
            kde = kale.KDE(x, reflect=form, **kw)
            judge(rows(kde), [s], c['data'], "reflect=%r" % (form,))


@test(quick=100)
class IntegerData:
    def gen(rng, k):
        return dict(x=rng.integers(-9, 10, (2, 8)) + [0, 20, -20][k % 3], k=k)

    def check(c):
        x = c['x']
        if np.any(np.ptp(x, axis=1) == 0):
            return
        kde = kale.KDE(x, reflect=True, bandwidth=.5, covariance=np.eye(2))
        judge(rows(kde), [True, True], x, "integer data")
        kde = kale.KDE(x, reflect=[None, [True, None]], bandwidth=.5, covariance=np.eye(2))
        judge(rows(kde), [None, [True, None]], x, "integer data")
