from harness import test, close, ok, raises, internal
from common import *
import kalepy as kale


def gen0(rng, dims=(1, 2, 2, 3), exact=False):
    d = int(rng.choice(dims))
    n = int(rng.integers(max(2, d + 1), 12))
    data = gen_data(rng, d, n)
    s = data.std() + 1e-12
    cov = gen_matrix(rng, d, s)
    refl = gen_reflect(rng, data) if rng.random() < .3 else None
    axes = []
    for k in range(d):
        m = int(rng.choice([1, 1, 2, 3, 4, 5]))
        a = rng.uniform(data[k].min() - s, data[k].max() + s, m)
        axes.append(np.sort(a) if rng.random() < .8 else a)
    return dict(data=data, cov=cov, refl=refl, axes=axes, w=gen_weights(rng, n), kernel=str(rng.choice(KERNELS)))


def kde_of(c, **kw):
    return kale.KDE(c['data'], bandwidth=1.0, covariance=c['cov'], weights=c['w'], reflect=c['refl'], kernel=c['kernel'], **kw)


def point_value(kde, p):
    return float(np.ravel(kde.density(np.asarray(p, float)[:, None], grid=False)[1])[0])


@test(quick=250)
class GridEqualsPoints:
    def gen(rng, k):
        c = gen0(rng)
        c['prob'] = bool(rng.random() < .4)
        c['form'] = int(rng.integers(3))
        return c

    def check(c):
        kde = kde_of(c)
        axes = c['axes']
        if len({len(a) for a in axes}) > 1 or c['form'] == 0:
            given = [list(a) for a in axes] if c['form'] == 1 else list(axes)
        else:
            given = np.array(axes)
        if len(axes) == 1 and c['form'] == 2:
            given = [axes[0]]
        pp, v = kde.density(given, grid=True, probability=c['prob'])
        v = np.asarray(v)
        shp = tuple(len(a) for a in axes)
        ok(v.shape == shp, "grid values have shape %s, expected %s" % (v.shape, shp))
        ok(len(pp) == len(axes), "one coordinate array per dimension")
        for a, b in zip(pp, axes):
            close(np.asarray(a, float), b, "the given coordinates are returned", rtol=0)
        tot = 1.0 if not c['prob'] else (c['data'].shape[1] if c['w'] is None else c['w'].sum())
        for idx in np.ndindex(*shp):
            e = point_value(kde, [a[i] for a, i in zip(axes, idx)]) / tot
            close(v[idx], e, "grid value at %s" % (idx,), rtol=1e-9, atol=1e-300)


@test(quick=250)
class OneValuePerPoint:
    def gen(rng, k):
        c = gen0(rng)
        d = c['data'].shape[0]
        m = int(rng.choice([1, 1, 2, 3, 5, d, d + 1]))
        c['pts'] = c['data'][:, rng.integers(c['data'].shape[1], size=m)] + 0.3 * c['data'].std() * rng.normal(size=(d, m))
        c['form'] = int(rng.integers(3))
        return c

    def check(c):
        kde = kde_of(c)
        p = c['pts']
        d, m = p.shape
        given = [p, p.tolist(), [np.array(x) for x in p]][c['form']]
        pp, v = kde.density(given)
        v = np.asarray(v)
        ok(v.shape == (m,), "values have shape %s for %d points" % (v.shape, m))
        close(np.asarray(pp, float), p, "the points are returned", rtol=0)
        for i in range(m):
            e, out, g = ref_reflected(c['kernel'], p[:, [i]], c['data'], c['cov'], c['w'], c['refl'] or [None] * d)
            if g[0]:
                close(v[i], e[0], "value of point %d" % i, rtol=1e-7, atol=1e-200 + 1e-11 * abs(e[0]))


@test(quick=120)
class Lists1D:
    def gen(rng, k):
        c = gen0(rng, (1,))
        c['x'] = rng.uniform(c['data'].min(), c['data'].max(), int(rng.choice([1, 1, 2, 3, 7])))
        return c

    def check(c):
        x = c['x']
        for data in (c['data'], c['data'][0], c['data'][0].tolist()):
            kde = kale.KDE(data, bandwidth=1.0, covariance=c['cov'], weights=c['w'], reflect=c['refl'], kernel=c['kernel'])
            e, out, g = ref_reflected(c['kernel'], x[None], c['data'], c['cov'], c['w'], c['refl'] or [None])
            for given in (x, x.tolist(), tuple(x), x[None], [x.tolist()]):
                pp, v = kde.density(given)
                v = np.asarray(v)
                ok(v.shape == x.shape, "values have shape %s for %d points" % (v.shape, x.size))
                close(v[g], e[g], "value", rtol=1e-7, atol=1e-200 + 1e-11 * np.abs(e).max())
                close(np.ravel(pp), x, "points are returned in order", rtol=0)


@test(quick=60)
class AutomaticPoints:
    def gen(rng, k):
        c = gen0(rng, (1, 2))
        c['flat'] = bool(rng.random() < .6)
        c['np'] = int(rng.choice([1, 2, 3, 5, 8]))
        return c

    def check(c):
        d = c['data'].shape[0]
        if d == 1 and c['flat']:
            c = dict(c)
            kde = kale.KDE(c['data'][0], bandwidth=1.0, covariance=c['cov'], weights=c['w'], reflect=c['refl'], kernel=c['kernel'])
        elif d == 2:
            kde = kde_of(c, points=[c['np'] + i for i in range(2)])
        else:
            kde = kde_of(c)
        for _ in range(2):
            pp, v = kde.density()
            v = np.asarray(v)
            ax = [np.ravel(pp)] if d == 1 else [np.asarray(p, float) for p in pp]
            ok(v.shape == tuple(len(a) for a in ax), "one value per automatic point: %s for %s" % (v.shape, [len(a) for a in ax]))
            pts = np.array([x.ravel() for x in np.meshgrid(*ax, indexing='ij')])
            e, out, g = ref_reflected(c['kernel'], pts, c['data'], c['cov'], c['w'], c['refl'] or [None] * d)
            close(v.ravel()[g], e[g], "value at the automatic points", rtol=1e-7, atol=1e-11 * max(np.abs(e).max(), 1e-300))


@test(quick=60)
class Meshgrid:
    def gen(rng, k):
        return dict(axes=[rng.normal(size=int(rng.integers(1, 5))) for _ in range(int(rng.integers(1, 5)))])

    def check(c):
        from kalepy import utils
        g = utils.meshgrid(*c['axes'])
        shp = tuple(len(a) for a in c['axes'])
        for k, a in enumerate(g):
            ok(np.shape(a) == shp, "meshgrid axis order")
            for idx in np.ndindex(*shp):
                ok(a[idx] == c['axes'][k][idx[k]], "meshgrid coordinate")
