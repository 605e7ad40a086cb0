from harness import test, close, ok, raises, accepts, internal
from common import *
from kalepy import utils


def mid(x, a):
    x = np.moveaxis(x, a, -1)
    return np.moveaxis((x[..., 1:] + x[..., :-1]) / 2, -1, a)


@test(quick=300)
class Midpoints:
    def gen(rng, k):
        d = int(rng.integers(1, 4))
        shp = [int(x) for x in rng.integers(2, 6, d)]
        x = rng.normal(size=shp) if k % 4 else rng.integers(-9, 9, shp)
        na = int(rng.integers(1, d + 1))
        ax = [int(q) for q in rng.permutation(d)[:na]]
        return dict(x=x, y=rng.lognormal(0, 3, shp), ax=ax, neg=int(rng.integers(-d, d)), one=rng.lognormal(0, 1, 7))

    def check(c):
        x, y = c['x'], c['y']
        close(utils.midpoints(x), mid(x.astype(float), -1), "midpoints of the last axis", rtol=1e-12, atol=1e-14)
        close(utils.midpoints(x, axis=c['neg']), mid(x.astype(float), c['neg']), "midpoints of one axis", rtol=1e-12, atol=1e-14)
        close(utils.midpoints(y, axis=c['neg'], log=True), np.exp(mid(np.log(y), c['neg'])), "geometric midpoints", rtol=1e-9)
        for ax in (c['ax'], tuple(c['ax']), np.array(c['ax'])):
            e, g = x.astype(float), np.log(y)
            for a in c['ax']:
                e, g = mid(e, a), mid(g, a)
            close(utils.midpoints(x, axis=ax), e, "midpoints of axes %r" % (ax,), rtol=1e-11, atol=1e-13)
            close(utils.midpoints(y, log=True, axis=ax), np.exp(g), "geometric midpoints of axes %r" % (ax,), rtol=1e-9)
        e, g = x.astype(float), np.log(y)
        for a in range(x.ndim):
            e, g = mid(e, a), mid(g, a)
        close(utils.midpoints(x, axis=None), e, "midpoints of all axes", rtol=1e-11, atol=1e-13)
        close(utils.midpoints(y, axis=None, log=True), np.exp(g), "geometric midpoints of all axes", rtol=1e-9)
        close(utils.midpoints(x.tolist(), axis=0), mid(x.astype(float), 0), "midpoints of a list", rtol=1e-12, atol=1e-14)
        q = utils.midpoints(x[:2], axis=0, squeeze=True)
        close(q, mid(x[:2].astype(float), 0).squeeze(), "squeezed midpoints", rtol=1e-12, atol=1e-14)


@test(quick=250)
class Subdivide:
    def gen(rng, k):
        n = int(rng.integers(2, 9))
        x = rng.normal(size=n).cumsum() if k % 3 else np.sort(rng.normal(size=n))
        return dict(x=x * 10.0 ** rng.uniform(-3, 3), y=np.exp(np.abs(rng.normal(size=n)).cumsum() - 2), num=[0, 1, 2, 3, 7][k % 5], int=rng.integers(-9, 9, n))

    def check(c):
        n = c['num']
        for x in (c['x'], c['x'].tolist(), c['int']):
            r = np.asarray(utils.subdivide(x, n), float)
            x = np.asarray(x, float)
            ok(r.shape == ((x.size - 1) * (n + 1) + 1,), "%d points of %d edges with %d between" % (r.size, x.size, n))
            e = np.concatenate([a + (b - a) * np.arange(n + 1) / (n + 1) for a, b in zip(x[:-1], x[1:])] + [x[-1:]])
            close(r, e, "subdivided edges", rtol=1e-9, atol=1e-12 * np.abs(x).max())
        y = c['y']
        r = np.asarray(utils.subdivide(y, n, log=True), float)
        e = np.concatenate([a * (b / a) ** (np.arange(n + 1) / (n + 1)) for a, b in zip(y[:-1], y[1:])] + [y[-1:]])
        close(r, e, "log-subdivided edges", rtol=1e-9)
        if n == 1:
            close(utils.subdivide(c['x']), np.asarray(utils.subdivide(c['x'], 1)), "default subdivision")


@test(quick=150)
class Bins:
    def gen(rng, k):
        a, b = np.sort(rng.normal(size=2) * 10)
        return dict(a=float(a), b=float(b), n=int(rng.integers(2, 20)))

    def check(c):
        xe, xc, dx = utils.bins(c['a'], c['b'], c['n'])
        e = c['a'] + (c['b'] - c['a']) * np.arange(c['n']) / (c['n'] - 1)
        at = 1e-12 * (abs(c['a']) + abs(c['b']))
        close(xe, e, "bin edges", rtol=1e-10, atol=at)
        close(xc, (e[1:] + e[:-1]) / 2, "bin centres", rtol=1e-10, atol=at)
        close(dx, np.diff(e), "bin widths", rtol=1e-8, atol=at)
        ok(len(utils.bins(c['a'], c['b'])[0]) == 50, "default number of edges")


@test(quick=200)
class Spacing:
    def gen(rng, k):
        x = rng.lognormal(0, 2, int(rng.integers(2, 12)))
        return dict(x=x, z=rng.normal(size=5), num=int(rng.integers(2, 40)), dex=int(rng.integers(3, 12)))

    def check(c):
        x, z, n = c['x'], c['z'], c['num']
        a, b = x.min(), x.max()
        e = a * (b / a) ** (np.arange(n) / (n - 1))
        for s in ('log', 'logarithmic'):
            close(utils.spacing(x, s, num=n), e, "log spacing", rtol=1e-9)
        close(utils.spacing(x, num=n), e, "default spacing", rtol=1e-9)
        a, b = z.min(), z.max()
        for s in ('lin', 'linear'):
            close(utils.spacing(z, s, num=n), a + (b - a) * np.arange(n) / (n - 1), "linear spacing", rtol=1e-9, atol=1e-12)
        v = np.concatenate([x, [-3.0, 0.0]])
        close(utils.spacing(v, 'log', num=n, positive=True), e, "log spacing of the positive values", rtol=1e-9)
        r = np.asarray(utils.spacing(x, 'log', dex=c['dex']))
        t = np.log10(x.max() / x.min()) * c['dex']
        if abs(t - round(t)) > 1e-9:
            ok(r.size == int(np.ceil(t)) + 1, "%d points, %d per decade over %r decades" % (r.size, c['dex'], t / c['dex']))
        close(r[[0, -1]], [x.min(), x.max()], "span of log spacing", rtol=1e-9)
        r = np.asarray(utils.spacing(z, 'lin'))
        close(r[[0, -1]], [z.min(), z.max()], "span of linear spacing", rtol=1e-9)
        raises(lambda: utils.spacing(x, 'other', num=n), "unknown scale")


@test(quick=500)
class Extrema:
    def gen(rng, k):
        n = int(rng.integers(1, 8))
        x = rng.normal(size=n) * 3 if k % 3 else rng.integers(-6, 7, n)
        c = dict(x=x, positive=bool(rng.random() < .4), prev=None, st=None, log=None, lim=None)
        o = lambda v: None if rng.random() < .3 else v
        if rng.random() < .5:
            a, b = np.sort(rng.normal(size=2) * 4)
            c['prev'] = [o(float(a)), o(float(b))]
        if rng.random() < .5:
            st = [float(rng.uniform(0, 1)), float(rng.uniform(0, 1))] if rng.random() < .5 else float(rng.uniform(0, 1))
            if rng.random() < .4:
                c['log'] = st
                c['x'] = np.abs(x) + (1 if x.dtype.kind == 'i' else .1)
            else:
                c['st'] = st
        if rng.random() < .4:
            a, b = np.sort(rng.normal(size=2) * 2)
            c['lim'] = [o(float(a)), o(float(b))]
        c['form'] = int(rng.integers(3))
        return c

    def check(c):
        x = c['x']
        y = x[x > 0] if c['positive'] else x
        arg = [x, x.tolist(), x.reshape(1, -1)][c['form']]
        kw = {}
        for k, n in (('prev', 'prev'), ('st', 'stretch'), ('log', 'log_stretch'), ('lim', 'limit')):
            if c[k] is not None:
                kw[n] = tuple(c[k]) if c['form'] == 1 and isinstance(c[k], list) else c[k]
        r = utils.minmax(arg, positive=c['positive'], **kw)
        if y.size == 0:
            ok((r is None) if c['prev'] is None else (list(r) == c['prev']), "no values: the previous extrema")
            return
        lo, hi = float(y.min()), float(y.max())
        st = c['st'] if c['st'] is not None else c['log']
        if st is not None:
            st = st if isinstance(st, list) else [st, st]
            if c['log'] is not None:
                lo, hi = np.log10(lo), np.log10(hi)
            m = (lo + hi) / 2
            lo, hi = m - (1 + st[0]) * (m - lo), m + (1 + st[1]) * (hi - m)
            if c['log'] is not None:
                lo, hi = 10 ** lo, 10 ** hi
        p = c['prev'] or [None, None]
        lo, hi = lo if p[0] is None else min(lo, p[0]), hi if p[1] is None else max(hi, p[1])
        p = c['lim'] or [None, None]
        lo, hi = lo if p[0] is None else max(lo, p[0]), hi if p[1] is None else min(hi, p[1])
        close(r, [lo, hi], "extrema with %r" % (kw,), rtol=1e-9, atol=1e-12)


@test(quick=60)
class Errors:
    def gen(rng, k):
        return dict(x=rng.lognormal(0, 1, 5), k=k)

    def check(c):
        raises(lambda: utils.minmax(c['x'], stretch=.1, log_stretch=.1), "stretch and log_stretch")
        raises(lambda: utils.minmax(c['x'], stretch=[.1, .2, .3]), "three stretches")
        raises(lambda: utils.minmax(c['x'], limit=[0.0]), "one limit")
        raises(lambda: utils.minmax(c['x'], prev=[0.0, 1.0, 2.0]), "three previous extrema")
