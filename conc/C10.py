from harness import test, close, ok, raises, accepts, internal
from common import *
import kalepy as kale


def gen0(rng, dmax=4, dmin=1, nmax=10, inside=True):
    d = int(rng.integers(dmin, dmax))
    n = int(rng.integers(2, nmax))
    kernel = str(rng.choice(KERNELS))
    data = gen_data(rng, d, n)
    s = data.std(axis=1) + 1e-3 * np.abs(data).max() + 1e-12
    f = rng.uniform(0.1, 0.5)
    a = rng.normal(size=(d, d)) * 0.4
    mat = (np.eye(d) + a @ a.T * (rng.random() < .6)) * f ** 2
    mat = mat * s[:, None] * s[None]
    refl = []
    for k in range(d):
        lo, hi = data[k].min(), data[k].max()
        p = (lo - rng.uniform(0, .5) * f * s[k], hi + rng.uniform(0, .5) * f * s[k])
        refl.append([[p[0], p[1]], [p[0], None], [None, p[1]], None][int(rng.integers(4))])
    if all(r is None for r in refl):
        refl[0] = [float(data[0].min() - 0.1 * s[0]), None]
    refl = [None if r is None else [None if q is None else float(q) for q in r] for r in refl]
    return dict(data=data, cov=mat, w=gen_weights(rng, n), kernel=kernel, refl=refl)


def make(c, **kw):
    return kale.KDE(c['data'], bandwidth=1.0, covariance=c['cov'], weights=c['w'], kernel=c['kernel'], **kw)


def inside(s, refl):
    for k, r in enumerate(refl):
        if r is None:
            continue
        if r[0] is not None:
            ok(s[k].min() >= r[0], "a sample below the boundary %r of dimension %d: %r" % (r[0], k, s[k].min()))
        if r[1] is not None:
            ok(s[k].max() <= r[1], "a sample above the boundary %r of dimension %d: %r" % (r[1], k, s[k].max()))


@test(quick=300)
class InsideAndCount:
    def gen(rng, k):
        c = gen0(rng)
        c['size'] = [None, 1, 3, 50, 400][k % 5]
        return c

    def check(c):
        d, n = c['data'].shape
        m = n if c['size'] is None else c['size']
        for kde, kw in ((make(c), dict(reflect=c['refl'])), (make(c, reflect=c['refl']), {})):
            s = kde.resample(size=c['size'], **kw)
            ok(np.shape(s) == ((m,) if d == 1 else (d, m)), "shape %s of a reflected resample" % (np.shape(s),))
            s = np.atleast_2d(s)
            ok(np.all(np.isfinite(s)), "finite samples")
            inside(s, c['refl'])
        s = np.atleast_2d(kale.resample(c['data'], size=c['size'], reflect=c['refl'], weights=c['w'], kernel=c['kernel'], covariance=c['cov'], bandwidth=1.0))
        ok(s.shape == (d, m), "shape of resample(reflect)")
        inside(s, c['refl'])


def cdf1(kernel, x, h):
    import scipy.stats as st
    t = x / h
    if kernel == 'gaussian':
        return st.norm.cdf(t)
    q = {'box': 1, 'parabola': 2, 'triweight': 4}[kernel]
    return np.where(t < 0, .5 - .5 * st.beta.cdf(t ** 2, .5, q), .5 + .5 * st.beta.cdf(t ** 2, .5, q))


@test(quick=80, thorough=900)
class Law1D:
    """the distribution of the samples is the reflected density, restricted to the interior"""
    def gen(rng, k):
        c = gen0(rng, dmax=2, nmax=7)
        c['kernel'] = KERNELS[k % 4]
        if k % 3 == 0:
            # some data beyond a boundary
            lo, hi = c['data'].min(), c['data'].max()
            c['refl'] = [[float(lo + 0.15 * (hi - lo)), [None, float(hi - 0.1 * (hi - lo))][k // 3 % 2]]]
        return c

    def check(c):
        x, w, h = c['data'][0], c['w'], math.sqrt(c['cov'][0, 0])
        w = np.ones_like(x) if w is None else w
        r = c['refl'][0]
        s = make(c).resample(size=2500, reflect=c['refl'])
        lo = -np.inf if r[0] is None else r[0]
        hi = np.inf if r[1] is None else r[1]
        cs = [x] + [2 * q - x for q in r if q is not None]

        def F(t):
            return sum((w * (cdf1(c['kernel'], np.subtract.outer(t, y), h) - cdf1(c['kernel'], lo - y, h))).sum(axis=-1) for y in cs)
        tot = F(np.array([hi]))[0]
        ok(ks_uniform(F(np.asarray(s)) / tot) > P_MIN, "reflected samples do not follow the reflected density (%s, boundaries %r)" % (c['kernel'], r))


@test(quick=40, thorough=400)
class Law2D:
    def gen(rng, k):
        c = gen0(rng, dmin=2, dmax=3, nmax=6)
        c['kernel'] = KERNELS[k % 4]
        if k % 2:
            c['w'] = rng.uniform(0.1, 3, c['data'].shape[1])
        return c

    def check(c):
        data, mat = c['data'], c['cov']
        s = make(c).resample(size=2500, reflect=c['refl'])
        ext = 5.0 if c['kernel'] == 'gaussian' else 1.0
        ax = []
        for k, r in enumerate(c['refl']):
            r = r or [None, None]
            h = math.sqrt(mat[k, k]) * ext
            ax.append((data[k].min() - h if r[0] is None else r[0], data[k].max() + h if r[1] is None else r[1]))
        nb, sub = 6, 24
        cen = [a + (b - a) * (np.arange(nb * sub) + .5) / (nb * sub) for a, b in ax]
        pts = np.array([q.ravel() for q in np.meshgrid(*cen, indexing='ij')])
        v = ref_reflected(c['kernel'], pts, data, mat, c['w'], c['refl'])[0]
        p = v.reshape(nb, sub, nb, sub).sum(axis=(1, 3))
        p = p / p.sum()
        cnt = np.histogram2d(s[0], s[1], bins=[np.linspace(a, b, nb + 1) for a, b in ax])[0]
        lost = 2500 - cnt.sum()
        ok(lost <= (30 if c['kernel'] == 'gaussian' else 0), "%d samples away from the density" % lost)
        # the cells of the oracle are sums over a fine mesh: leave room for its discretisation
        pv = chi2_p(cnt.ravel(), p.ravel())
        ok(pv > P_MIN, "reflected samples do not follow the reflected density in two dimensions (p=%g)" % pv)


@test(quick=120)
class Kept:
    """kept dimensions with boundaries in other dimensions; both in one dimension is refused"""
    def gen(rng, k):
        c = gen0(rng, dmin=2)
        d = c['data'].shape[0]
        free = [i for i in range(d) if c['refl'][i] is None]
        if not free:
            i = int(rng.integers(d))
            c['refl'][i] = None
            free = [i]
            if all(r is None for r in c['refl']):
                return None
        c['keep'] = free if k % 3 else free[0]
        c['bad'] = [i for i in range(d) if c['refl'][i] is not None][0]
        return c

    def check(c):
        d, n = c['data'].shape
        ks = [c['keep']] if np.isscalar(c['keep']) else c['keep']
        s = make(c).resample(size=80, keep=c['keep'], reflect=c['refl'])
        ok(s.shape == (d, 80), "count with kept dimensions")
        inside(s, c['refl'])
        w = np.ones(n) if c['w'] is None else c['w']
        for j in range(80):
            m = np.all(s[ks, j][:, None] == c['data'][ks], axis=0) & (w > 0)
            ok(m.any(), "kept dimensions do not hold the value of a datum")
        raises(lambda: make(c).resample(size=5, keep=c['bad'], reflect=c['refl']), "kept and reflected dimension")
        raises(lambda: make(c).resample(size=5, keep=True, reflect=c['refl']), "all kept and a reflected dimension")
        raises(lambda: make(c).resample(size=5, keep=ks + [c['bad']], reflect=c['refl']), "kept and reflected dimension")


@test(quick=60, thorough=500)
class MirrorWeight:
    """with one datum much heavier than the others, and close to the boundary: weights of images"""
    def gen(rng, k):
        n = int(rng.integers(2, 6))
        x = np.sort(rng.uniform(0, 1, n)) * 20
        x = x + np.arange(n) * 5
        return dict(data=x[None], w=rng.lognormal(0, 2, n), side=k % 2, h=float(rng.uniform(.5, 1.5)), kernel=KERNELS[k // 2 % 4], gap=float(rng.uniform(0, .6)))

    def check(c):
        x, h = c['data'][0], c['h']
        r = [[x.min() - c['gap'] * h, None], [None, x.max() + c['gap'] * h]][c['side']]
        kde = kale.KDE(x, bandwidth=1.0, covariance=h ** 2, weights=c['w'], kernel=c['kernel'])
        s = kde.resample(size=2000, reflect=r)
        i = np.argmin(np.abs(s[:, None] - x[None]), axis=1)
        # the mass of datum and image inside the boundary equals the weight of the datum
        if np.min(np.diff(x)) < (10 * h if c['kernel'] == 'gaussian' else 2.01 * h):
            return
        p = chi2_p(np.bincount(i, minlength=len(x)), c['w'] / c['w'].sum())
        ok(p > P_MIN, "share of each datum with its images (p=%g)" % p)


@test(quick=60)
class Reachable:
    """a chunked / rejecting draw: data far outside on one side still give all points inside"""
    def gen(rng, k):
        c = gen0(rng, dmax=3)
        d = c['data'].shape[0]
        s = np.sqrt(np.diag(c['cov']))
        i = int(rng.integers(d))
        med = float(np.median(c['data'][i]))
        c['refl'] = [None] * d
        c['refl'][i] = [[med - s[i] * 0.7, None], [None, med + s[i] * 0.7]][k % 2]
        return c

    def check(c):
        s = np.atleast_2d(make(c).resample(size=200, reflect=c['refl']))
        ok(s.shape[1] == 200, "count")
        inside(s, c['refl'])
