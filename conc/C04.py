from harness import test, close, ok, raises, internal
from common import *
import kalepy as kale


def gen0(rng, none=0.35):
    d = int(rng.choice([1, 2, 3]))
    n = int(rng.integers(d + 4, 40))
    data = gen_data(rng, d, n)
    w = gen_weights(rng, n, none)
    if w is not None:
        w = w + 0.02 * w.max()
    cov = ref_cov(data, w)
    kw = {}
    if rng.random() < .4:
        kw['bandwidth'] = [0.3, 'scott', 'silverman', 1.0][int(rng.integers(4))]
    if rng.random() < .3:
        kw['covariance'] = gen_matrix(rng, d, np.sqrt(np.diag(cov)).mean())
    if rng.random() < .2:
        kw['diagonal'] = True
        kw['bandwidth'] = 0.4
    if rng.random() < .5:
        kw['kernel'] = str(rng.choice(KERNELS))
    if rng.random() < .2:
        kw['bw_rescale'] = 1.7
    refl = gen_reflect(rng, data) if rng.random() < .4 else None
    return dict(data=data, w=w, kw=kw, refl=refl, pts=gen_points(rng, data, cov + 1e-12 * np.eye(d), 6), scale=float(10.0 ** rng.uniform(-8, 8)))


def kde_of(c, w='w'):
    return kale.KDE(c['data'], weights=c[w] if isinstance(w, str) else w, reflect=c['refl'], **c['kw'])


@test(quick=200)
class OverTotalWeight:
    def gen(rng, k):
        return gen0(rng)

    def check(c):
        kde = kde_of(c)
        tot = c['data'].shape[1] if c['w'] is None else c['w'].sum()
        d = np.asarray(kde.density(c['pts'])[1])
        close(kde.pdf(c['pts'])[1], d / tot, "pdf is not density / total weight", rtol=1e-10)
        close(kde.density(c['pts'], probability=True)[1], d / tot, "probability density", rtol=1e-10)
        close(kde.density(c['pts'])[1], d, "density after pdf", rtol=0)
        if c['data'].shape[0] > 1:
            p = [c['data'].shape[0] - 1, 0]
            q = c['pts'][p]
            close(kde.pdf(q, params=p)[1], np.asarray(kde.density(q, params=p)[1]) / tot, "pdf of parameters", rtol=1e-10)
            e = [q[0][:2], q[1][:3]]
            close(kde.pdf(e, params=p, grid=True)[1], np.asarray(kde.density(e, params=p, grid=True)[1]) / tot, "pdf on a grid", rtol=1e-10)


@test(quick=200)
class ScaleInvariance:
    def gen(rng, k):
        c = gen0(rng, 0)
        return c

    def check(c):
        a = np.asarray(kde_of(c).pdf(c['pts'])[1])
        b = np.asarray(kde_of(c, c['w'] * c['scale']).pdf(c['pts'])[1])
        peak = np.max(kde_of(c).pdf(c['data'])[1])
        skip = c['kw'].get('kernel') == 'box'
        if not skip:
            close(b, a, "pdf changes with the scale of the weights", rtol=1e-6, atol=1e-9 * max(a.max(), peak, 1e-300))


@test(quick=120)
class UniformWeights:
    def gen(rng, k):
        return gen0(rng, 1)

    def check(c):
        a = np.asarray(kde_of(c).pdf(c['pts'])[1])
        if c['kw'].get('kernel') == 'box':
            return
        peak = np.max(kde_of(c).pdf(c['data'])[1])
        for s in (1.0, c['scale']):
            b = np.asarray(kde_of(c, np.ones(c['data'].shape[1]) * s).pdf(c['pts'])[1])
            close(b, a, "uniform weights differ from no weights", rtol=1e-6, atol=1e-9 * max(a.max(), peak, 1e-300))


@test(quick=150)
class ModuleFunctions:
    def gen(rng, k):
        c = gen0(rng)
        c['grid'] = bool(rng.random() < .3)
        c['par'] = int(rng.integers(c['data'].shape[0])) if rng.random() < .3 else None
        c['size'] = [None, 1, 7][int(rng.integers(3))]
        c['keep'] = 0 if (c['refl'] is None and rng.random() < .3) else None
        return c

    def check(c):
        kde = kde_of(c)
        kw = dict(weights=c['w'], reflect=c['refl'], **c['kw'])
        pts = c['pts']
        g = c['grid']
        if g:
            pts = [np.sort(p[:2 + i]) for i, p in enumerate(pts)]
        for f, m, x in ((kale.density, kde.density, {}), (kale.pdf, kde.pdf, {}), (kale.density, kde.density, dict(probability=True))):
            p1, v1 = f(c['data'], points=pts, grid=g, **kw, **x)
            p2, v2 = m(pts, grid=g, **x)
            close(v1, v2, "module-level function differs from the method (%s %s)" % (f.__name__, x), rtol=1e-12)
            if c['par'] is not None:
                q = c['pts'][c['par']]
                close(f(c['data'], points=q, params=c['par'], **kw, **x)[1], m(q, params=c['par'], **x)[1],
                      "module-level function with params", rtol=1e-12)
        if c['data'].shape[0] == 1:
            p1, v1 = kale.pdf(c['data'], **kw)
            p2, v2 = kde.pdf()
            close(v1, v2, "module-level pdf at automatic points", rtol=1e-12)
            close(np.ravel(p1), np.ravel(p2), "automatic points", rtol=1e-12)
        np.random.seed(c['seed'] % 2 ** 31)
        s1 = kale.resample(c['data'], size=c['size'], keep=c['keep'], **kw)
        np.random.seed(c['seed'] % 2 ** 31)
        s2 = kde_of(c).resample(size=c['size'], keep=c['keep'])
        close(s1, s2, "module-level resample", rtol=1e-12)
