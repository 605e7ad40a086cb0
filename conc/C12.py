from harness import test, close, ok, raises, accepts, internal
from common import *
import kalepy as kale


def gen0(rng, k):
    d = int(rng.choice([1, 1, 2, 2, 3]))
    n = int(rng.integers(max(3, d + 2), 10))
    data = gen_data(rng, d, n)
    s = data.std(axis=1) + 1e-3 * np.abs(data).max() + 1e-12
    c = dict(data=data, w=gen_weights(rng, n), kernel=str(rng.choice(KERNELS)), cov=gen_matrix(rng, d, 1.0) * s[:, None] * s[None], bw=float(rng.uniform(.2, .8)))
    nb = [int(rng.integers(2, [30, 9, 5][d - 1])) for _ in range(d)]
    ax = []
    for q in range(d):
        h = math.sqrt(c['cov'][q, q]) * c['bw'] * rng.uniform(.3, 4)
        ax.append(np.sort(np.concatenate([[data[q].min() - h, data[q].max() + h], rng.uniform(data[q].min() - h, data[q].max() + h, nb[q])])))
    c['axes'] = ax
    c['refl'] = gen_reflect(rng, data) if rng.random() < .3 else None
    m = 30
    lo = np.array([a[0] for a in ax])
    hi = np.array([a[-1] for a in ax])
    u = rng.uniform(-.4, 1.4, (d, m))
    u = np.where(rng.random((d, m)) < .2, rng.integers(0, 2, (d, m)), u)
    c['pts'] = lo[:, None] + (hi - lo)[:, None] * u
    c['step'] = (hi - lo)[:, None] * rng.uniform(0, .3, (d, m)) * (rng.random((d, m)) < .6)
    c['oned'] = bool(d == 1 and rng.random() < .5)
    return c


def make(c):
    data = c['data'][0] if c['oned'] else c['data']
    pts = c['axes'][0] if c['data'].shape[0] == 1 else c['axes']
    return kale.KDE(data, bandwidth=c['bw'], covariance=c['cov'], weights=c['w'], kernel=c['kernel'], points=pts, reflect=c['refl'])


def ask(kde, c, p):
    return np.asarray(kde.cdf(p[0] if c['oned'] else p), float)


@test(quick=300)
class Shape01:
    gen = gen0

    def check(c):
        kde = make(c)
        d, m = c['pts'].shape
        a = ask(kde, c, c['pts'])
        if not np.all(np.isfinite(a)):
            # a grid that the density misses altogether has no cumulative distribution
            v = kde.density(c['axes'] if d > 1 else c['axes'][0], grid=d > 1)[1]
            ok(np.all(np.asarray(v) == 0), "not finite")
            return
        ok(a.shape == (m,), "one value per point %s" % (a.shape,))
        ok(np.all((a >= -1e-12) & (a <= 1 + 1e-9)), "values outside of [0, 1]: %r" % (a[(a < 0) | (a > 1)][:3],))
        b = ask(kde, c, c['pts'] + c['step'])
        ok(np.all(b >= a - 1e-12), "the cumulative distribution decreases by %r" % (a - b).max())
        lo = np.array([x[0] for x in c['axes']])
        hi = np.array([x[-1] for x in c['axes']])
        low = np.any(c['pts'] <= lo[:, None], axis=0)
        ok(np.all(a[low] == 0), "not zero at or below the lowest coordinate: %r" % a[low].max(initial=0))
        high = np.all(c['pts'] >= hi[:, None], axis=0)
        close(a[high], np.ones(high.sum()), "one above the highest coordinates", rtol=1e-12)
        top = ask(kde, c, np.array([hi, hi + 1, hi * 1.0 + 1e6]).T)
        close(top, np.ones(3), "one above the highest coordinates", rtol=1e-12)
        bot = ask(kde, c, np.array([lo, lo - 1]).T)
        close(bot, np.zeros(2), "zero at the lowest coordinates")
        # below in one dimension, above in the others
        for q in range(d):
            p = hi + 1
            p[q] = lo[q]
            close(ask(kde, c, p[:, None]), [0.0], "zero on the lower face of dimension %d" % q)
        a2 = ask(kde, c, c['pts'])
        ok(np.array_equal(a, a2), "repeated query differs")
        a3 = ask(make(c), c, c['pts'])
        ok(np.array_equal(a, a3), "another estimator of the same data differs")


@test(quick=200)
class GridValues:
    gen = gen0

    def check(c):
        kde = make(c)
        ax = c['axes']
        d = len(ax)
        g = np.array([x.ravel() for x in np.meshgrid(*ax, indexing='ij')])
        shp = tuple(len(x) for x in ax)
        v = ref_reflected(c['kernel'], g, c['data'], c['cov'] * c['bw'] ** 2, c['w'], c['refl'] or [None] * d)
        if not np.all(v[2]):
            return
        dens = v[0].reshape(shp)
        m = trapz_mass(dens, ax)
        if m.sum() <= 1e-200:
            return
        F = np.zeros(shp)
        for q in range(d):
            m = np.cumsum(m, axis=q)
        F[tuple([slice(1, None)] * d)] = m / m.ravel()[-1]
        got = ask(kde, c, g)
        if c['refl'] is not None:
            # points that lie on a boundary up to rounding: skip those estimators
            for a, r in zip(ax, c['refl']):
                for q in (r or []):
                    if q is not None and np.any(np.abs(a - q) <= 1e-9 * (abs(q) + np.ptp(a))):
                        return
        close(got, F.ravel(), "cumulative distribution at the grid points", rtol=1e-6, atol=1e-7)


@test(quick=60)
class AutoGrid:
    """automatic grid: the value at its end points, and agreement with the trapezoid rule"""
    def gen(rng, k):
        c = gen0(rng, k)
        while c['data'].shape[0] > 2:
            c = gen0(rng, k)
        return c

    def check(c):
        data = c['data'][0] if c['oned'] else c['data']
        kde = kale.KDE(data, bandwidth=c['bw'], covariance=c['cov'], weights=c['w'], kernel=c['kernel'])
        d = c['data'].shape[0]
        if d == 2 and np.prod([len(x) for x in kde.points]) > 4e4:
            return
        ax = [np.asarray(x, float) for x in (kde.points if not c['oned'] else [kde.points])]
        g = np.array([x.ravel() for x in np.meshgrid(*ax, indexing='ij')])
        dens = np.reshape(kde.density(g)[1], tuple(len(x) for x in ax))
        m = trapz_mass(dens, ax)
        if m.sum() <= 0:
            return      # the coarse automatic grid misses narrow finite kernels: there is no total to divide by
        for q in range(d):
            m = np.cumsum(m, axis=q)
        F = np.zeros(dens.shape)
        F[tuple([slice(1, None)] * d)] = m / m.ravel()[-1]
        close(ask(kde, c, g), F.ravel(), "cumulative distribution at the automatic grid points", rtol=1e-7, atol=1e-9)


@test(quick=60)
class FineGrid1D:
    """a fine grid over all of the support: the cumulative distribution of the smoothed data"""
    def gen(rng, k):
        n = int(rng.integers(3, 9))
        return dict(data=gen_data(rng, 1, n), w=gen_weights(rng, n), kernel='gaussian', q=rng.uniform(0, 1, 9))

    def check(c):
        import scipy.stats as st
        x = c['data'][0]
        h = x.std() * .4 + 1e-9
        ax = np.linspace(x.min() - 8 * h, x.max() + 8 * h, 4000)
        if (ax[1] - ax[0]) > h * .2:
            return
        kde = kale.KDE(x, bandwidth=1.0, covariance=h ** 2, weights=c['w'], points=ax)
        w = np.ones_like(x) if c['w'] is None else c['w']
        p = ax[0] + (ax[-1] - ax[0]) * c['q']
        e = (st.norm.cdf(np.subtract.outer(p, x) / h) * w).sum(axis=1) / w.sum()
        close(kde.cdf(p), e, "cumulative distribution of a fine grid", atol=1e-3, rtol=0)
