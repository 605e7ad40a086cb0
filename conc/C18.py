from harness import test, close, ok, raises, accepts, internal
from common import *
from kalepy import utils
import kalepy as kale


def even(e, lo, hi, msg, num=None):
    e = np.asarray(e, float)
    ok(e.ndim == 1 and e.size >= 2, msg + ": edges")
    w = np.diff(e)
    sc = abs(lo) + abs(hi)
    ok(np.all(w > 0), msg + ": not strictly increasing")
    close(w, np.full(w.size, (hi - lo) / w.size), msg + ": not evenly spaced", rtol=1e-6, atol=1e-12 * sc)
    close(e[0], lo, msg + ": first edge", rtol=1e-9, atol=1e-11 * (hi - lo))
    close(e[-1], hi, msg + ": last edge", rtol=1e-9, atol=1e-11 * (hi - lo))
    if num is not None:
        ok(w.size == num, msg + ": %d bins, expected %d" % (w.size, num))


def gen0(rng, k, dmin=1):
    d = int(rng.integers(dmin, 4))
    n = int(rng.integers(4, 60))
    data = gen_data(rng, d, n)
    lo, hi = data.min(axis=1), data.max(axis=1)
    s = hi - lo
    ext = []
    for i in range(d):
        a, b = float(lo[i] - s[i] * rng.uniform(-.2, 1)), float(hi[i] + s[i] * rng.uniform(-.2, 1))
        ext.append([[a, b], [None, b], [a, None], None, [a, b]][int(rng.integers(5))])
    common = [float(lo.min() - rng.uniform(0, 1) * s.max()), float(hi.max() + rng.uniform(0, 1) * s.max())]
    if rng.random() < .3:
        common[int(rng.integers(2))] = None
    w = gen_weights(rng, n)
    return dict(data=data, ext=ext, common=common, w=w, nb=int(rng.integers(1, 30)), nbs=[int(x) for x in rng.integers(d + 2, 20, d)], tup=bool(rng.random() < .3))


@test(quick=400)
class Extrema:
    gen = gen0

    def check(c):
        data = c['data']
        d = data.shape[0]
        t = (lambda x: tuple(tuple(y) if isinstance(y, list) else y for y in x)) if c['tup'] else (lambda x: x)
        lo, hi = data.min(axis=1), data.max(axis=1)

        def want(x, i):
            x = x or [None, None]
            return (lo[i] if x[0] is None else x[0], hi[i] if x[1] is None else x[1])
        nbs = c['nbs'] if d > 1 else c['nbs'][0]
        for edges, num in ((None, None), (c['nb'], [c['nb']] * d), (nbs, c['nbs'])):
            es = utils.parse_edges(data, edges=edges, extrema=t(c['ext']), weights=c['w'])
            ok(len(es) == d, "edges of each dimension")
            for i in range(d):
                even(es[i], *want(c['ext'][i], i), "edges=%r, extrema=%r, dimension %d" % (edges, c['ext'], i), None if num is None else num[i])
            if d > 1:
                if any(want(c['common'], i)[0] >= want(c['common'], i)[1] for i in range(d)):
                    continue
                es = utils.parse_edges(data, edges=edges, extrema=t(c['common']), weights=c['w'])
                for i in range(d):
                    even(es[i], *want(c['common'], i), "edges=%r, extrema=%r, dimension %d" % (edges, c['common'], i), None if num is None else num[i])


@test(quick=300)
class Default:
    """without extrema: all data enclosed"""
    gen = gen0

    def check(c):
        data, d = c['data'], c['data'].shape[0]
        for edges in (None, c['nb']):
            es = utils.parse_edges(data, edges=edges, weights=c['w'])
            for i in range(d):
                e = np.asarray(es[i], float)
                ok(e[0] <= data[i].min() and e[-1] >= data[i].max(), "default edges enclose all data")
                even(e, e[0], e[-1], "default edges", c['nb'] if edges else None)
        # one-dimensional form
        e = np.asarray(utils.parse_edges(data[0], edges=c['nb'] + 1), float)
        even(e, e[0], e[-1], "edges of one-dimensional data", c['nb'] + 1)
        ok(e[0] <= data[0].min() and e[-1] >= data[0].max(), "default edges enclose all data")
        p = [data[0].min() - 1, data[0].max() + 1]
        even(utils.parse_edges(data[0], edges=c['nb'] + 1, extrema=p), p[0], p[1], "edges of one-dimensional data with extrema", c['nb'] + 1)


@test(quick=250)
class Explicit:
    """given edges are used unchanged"""
    def gen(rng, k):
        c = gen0(rng, k)
        c['edges'] = [gen_edges(rng, int(rng.integers(5, 9))) for _ in c['data']]
        return c

    def check(c):
        data, d = c['data'], c['data'].shape[0]
        es = utils.parse_edges(data, edges=c['edges'], extrema=c['ext'])
        for a, b in zip(es, c['edges']):
            ok(np.array_equal(a, b), "given edges are used unchanged")
        es = utils.parse_edges(data, edges=c['edges'][0])
        ok(len(es) == d, "one array for each dimension")
        for a in es:
            ok(np.array_equal(a, c['edges'][0]), "given edges are used for each dimension")
        mixed = [c['edges'][i] if i % 2 == 0 else c['nb'] for i in range(d)]
        if d > 1:
            es = utils.parse_edges(data, edges=mixed)
            for i in range(d):
                if i % 2 == 0:
                    ok(np.array_equal(es[i], mixed[i]), "given edges are used unchanged (mixed)")
                else:
                    ok(len(es[i]) == c['nb'] + 1, "given number of bins (mixed)")
        kde = kale.KDE(data, points=c['edges'] if d > 1 else c['edges'][0], bandwidth=.5, covariance=np.diag(data.var(axis=1) + 1e-9))
        p = kde.points
        for i in range(d):
            ok(np.array_equal(np.asarray(p[i] if np.ndim(p[0]) or d > 1 else p, float), c['edges'][i]), "given evaluation points are used unchanged")


@test(quick=250)
class Estimator:
    gen = gen0

    def check(c):
        data, d, n = c['data'], c['data'].shape[0], c['data'].shape[1]
        s = data.std(axis=1) + 1e-9
        bw = 0.4
        kern = KERNELS[n % 4]
        kw = dict(weights=c['w'], bandwidth=bw, covariance=np.diag(s ** 2), kernel=kern)
        h = bw * s
        lo, hi = data.min(axis=1), data.max(axis=1)

        def reach(e, i, side, msg):
            x = lo[i] - e[0] if side == 0 else e[-1] - hi[i]
            tol = 1e-9 * (abs(lo[i]) + abs(hi[i]))
            if kern != 'gaussian':
                ok(x >= h[i] * (1 - 1e-9) - tol and x <= h[i] * 1.2 + tol, msg + ": reach %r, kernel width %r" % (x, h[i]))
            else:
                ok(x > 0, msg + ": does not reach beyond the data")
                neff = ref_neff(n, c['w'])
                if neff > 2.5:
                    import scipy.stats as st
                    ok(x >= h[i] * st.norm.ppf(1 - 1 / neff) - tol and x <= 40 * h[i], msg + ": reach %r, kernel width %r" % (x, h[i]))
        if ref_neff(n, c['w']) <= 2.5:
            return
        kde = kale.KDE(data, **kw)
        ps = kde.points if d > 1 else [np.ravel(kde.points)]
        for i in range(d):
            even(ps[i], ps[i][0], ps[i][-1], "automatic points")
            reach(ps[i], i, 0, "lower end")
            reach(ps[i], i, 1, "upper end")
        # given extrema replace, unspecified ones are filled
        ext = [None if e is None else list(e) for e in c['ext']]
        for key in ('extrema', 'reflect'):
            kde = kale.KDE(data, **dict(kw, **{key: ext}))
            ps = kde.points if d > 1 else [np.ravel(kde.points)]
            for i in range(d):
                e = ext[i] or [None, None]
                even(ps[i], ps[i][0], ps[i][-1], "automatic points with %s=%r" % (key, ext))
                for side in (0, 1):
                    if e[side] is None:
                        reach(ps[i], i, side, "end without given %s" % key)
                    else:
                        close(ps[i][-side], e[side], "end with given %s" % key, rtol=1e-9, atol=1e-10 * (hi[i] - lo[i]))


@test(quick=100)
class Counts:
    """a count of evaluation points given to the estimator; params of edges"""
    gen = gen0

    def check(c):
        data, d = c['data'], c['data'].shape[0]
        kde = kale.KDE(data, bandwidth=.4, covariance=np.diag(data.var(axis=1) + 1e-9), points=c['nb'] + 2)
        ps = kde.points if d > 1 else [np.ravel(kde.points)]
        for p in ps:
            even(p, p[0], p[-1], "given count of points", c['nb'] + 2)


@test(quick=60)
class Identical:
    """all data identical, integer data"""
    def gen(rng, k):
        return dict(data=rng.integers(-5, 6, (2, 12)).astype(int), k=k)

    def check(c):
        if np.any(np.ptp(c['data'], axis=1) == 0):
            return
        es = utils.parse_edges(c['data'], edges=7, extrema=[[-10, None], None])
        even(es[0], -10, c['data'][0].max(), "integer data", 7)
        even(es[1], c['data'][1].min(), c['data'][1].max(), "integer data", 7)
