from harness import test, close, ok, raises, internal
from common import *
import kalepy as kale


def gen0(rng):
    d = int(rng.choice([1, 2, 2, 3]))
    n = int(rng.integers(2, 12))
    data = gen_data(rng, d, n)
    s = data.std() + 1e-3 * np.abs(data).max() + 1e-12
    cov = gen_matrix(rng, d, s * 0.5)
    bw = float(rng.choice([1.0, 0.4]))
    refl = gen_reflect(rng, data)
    mat = cov * bw ** 2
    pts = gen_points(rng, data, mat, 14)
    # points at, just inside and just beyond boundaries
    for j in range(6):
        k = int(rng.integers(d))
        if refl[k] is None:
            continue
        loc = refl[k][int(rng.integers(2))]
        if loc is None:
            continue
        pts[k, j] = loc + rng.choice([0.0, 1e-6, -1e-6, 0.1, -0.1, 3, -3]) * s
    return dict(data=data, cov=cov, bw=bw, kernel=str(rng.choice(KERNELS)), w=gen_weights(rng, n), pts=pts, refl=refl)


def judge(v, c, reflect, extra=''):
    mat = c['cov'] * c['bw'] ** 2
    e, out, good = ref_reflected(c['kernel'], c['pts'], c['data'], mat, c['w'], reflect)
    v = np.asarray(v, float)
    ok(v.shape == e.shape, "one value per point")
    ok(np.all(v[out] == 0.0), "density beyond a boundary is not zero%s" % extra)
    close(v[good], e[good], "reflected density%s" % extra, rtol=1e-7, atol=1e-11 * max(np.abs(e).max(), 1e-300))


@test(quick=400)
class Formula:
    def gen(rng, k):
        c = gen0(rng)
        c['how'] = int(rng.integers(3))
        return c

    def check(c):
        kw = dict(bandwidth=c['bw'], covariance=c['cov'], kernel=c['kernel'], weights=c['w'])
        before = c['data'].copy()
        if c['how'] == 0:
            kde = kale.KDE(c['data'], reflect=c['refl'], **kw)
            v = kde.density(c['pts'])[1]
        elif c['how'] == 1:
            kde = kale.KDE(c['data'], **kw)
            v = kde.density(c['pts'], reflect=c['refl'])[1]
        else:
            kde = kale.KDE(c['data'], reflect=c['refl'], **kw)
            kde.density(c['pts'])
            v = kde.density(c['pts'], reflect=c['refl'])[1]
        judge(v, c, c['refl'])
        ok(np.array_equal(before, c['data']) and np.array_equal(np.atleast_2d(kde.dataset), before), "dataset altered")


@test(quick=120)
class PairForm1D:
    """one-dimensional data accept a plain pair of boundaries"""
    def gen(rng, k):
        while True:
            c = gen0(rng)
            if c['data'].shape[0] == 1:
                return c

    def check(c):
        kw = dict(bandwidth=c['bw'], covariance=c['cov'], kernel=c['kernel'], weights=c['w'])
        r = c['refl'][0]
        v = kale.KDE(c['data'][0], reflect=r, **kw).density(c['pts'])[1]
        judge(v, c, [r], ' (pair form)')
        v = kale.KDE(c['data'][0], **kw).density(c['pts'], reflect=r)[1]
        judge(v, c, [r], ' (pair form, method)')


@test(quick=100)
class Override:
    """boundaries given to the call replace those of the estimator; no boundaries: the plain density"""
    def gen(rng, k):
        c = gen0(rng)
        c['refl2'] = gen_reflect(rng, c['data'])
        return c

    def check(c):
        kw = dict(bandwidth=c['bw'], covariance=c['cov'], kernel=c['kernel'], weights=c['w'])
        kde = kale.KDE(c['data'], reflect=c['refl'], **kw)
        judge(kde.density(c['pts'], reflect=c['refl2'])[1], c, c['refl2'], ' (boundaries of the call)')
        judge(kde.density(c['pts'])[1], c, c['refl'], ' (boundaries of the estimator, afterwards)')
        kde = kale.KDE(c['data'], **kw)
        judge(kde.density(c['pts'])[1], c, [None] * c['data'].shape[0], ' (no boundaries)')
        judge(kde.density(c['pts'], reflect=[None] * c['data'].shape[0])[1], c, [None] * c['data'].shape[0], ' (None everywhere)')


@test(quick=60)
class GridReflected:
    def gen(rng, k):
        c = gen0(rng)
        c['edges'] = [np.unique(np.concatenate([rng.choice(p, 3), [q for q in (r or []) if q is not None]])) for p, r in zip(c['pts'], c['refl'])]
        return c

    def check(c):
        kde = kale.KDE(c['data'], bandwidth=c['bw'], covariance=c['cov'], kernel=c['kernel'], weights=c['w'], reflect=c['refl'])
        _, v = kde.density(c['edges'], grid=True)
        pts = np.array([x.ravel() for x in np.meshgrid(*c['edges'], indexing='ij')])
        judge(np.ravel(v), dict(c, pts=pts), c['refl'], ' (grid)')
