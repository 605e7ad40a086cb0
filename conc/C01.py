from harness import test, close, ok, raises, internal
from common import *
import kalepy as kale


def build(c):
    return kale.KDE(c['data'], bandwidth=c['bw'], covariance=c['cov'], kernel=c['kernel'], weights=c['w'])


def gen0(rng, d=None, nmax=12):
    d = d or int(rng.choice([1, 1, 2, 2, 3, 4]))
    n = int(rng.integers(1, nmax))
    data = gen_data(rng, d, n)
    s = np.abs(data).max() or 1.0
    cov = gen_matrix(rng, d, s)
    bw = float(rng.choice([1.0, 0.5, 0.1, 2.0]))
    mat = cov * bw ** 2
    pts = gen_points(rng, data, mat, int(rng.integers(1, 9)))
    return dict(data=data, cov=cov, bw=bw, kernel=str(rng.choice(KERNELS)), w=gen_weights(rng, n), pts=pts)


@test(quick=400)
class SumFormula:
    def gen(rng, k):
        return gen0(rng)

    def check(c):
        kde = build(c)
        mat = c['cov'] * c['bw'] ** 2
        _, v = kde.density(c['pts'])
        ok(np.all(np.asarray(v) >= 0), "density is negative")
        e = ref_density(c['kernel'], c['pts'], c['data'], mat, c['w'])
        g = edge_free(c['kernel'], c['pts'], c['data'], mat)
        ok(np.shape(v) == (c['pts'].shape[1],), "one value per point")
        close(np.asarray(v)[g], e[g], "density is not the kernel sum", rtol=1e-7, atol=1e-11 * max(e.max(), 1e-300))


@test(quick=60)
class ManyData:
    """larger sizes (beyond any plausible block size)"""
    def gen(rng, k):
        d = int(rng.choice([1, 2, 3]))
        n = int(rng.choice([63, 100, 257, 1025, 3000]))
        data = gen_data(rng, d, n)
        cov = np.atleast_2d(np.cov(data)) + 1e-3 * np.eye(d)
        m = int(rng.choice([1, 50, 129]))
        return dict(data=data, cov=cov, bw=0.5, kernel=str(rng.choice(KERNELS)), w=gen_weights(rng, n),
                    pts=gen_points(rng, data, cov * .25, m))

    def check(c):
        SumFormula.check(c)


@test(quick=100)
class DefaultCovariance:
    """the smoothing matrix from the data"""
    def gen(rng, k):
        d = int(rng.choice([1, 2, 3]))
        n = int(rng.integers(d + 4, 30))
        data = gen_data(rng, d, n)
        w = gen_weights(rng, n)
        if w is not None:
            w = w + 0.05 * w.max()
        cov = ref_cov(data, w)
        bw = float(rng.choice([0.2, 0.5, 1.0]))
        return dict(data=data, bw=bw, kernel=str(rng.choice(KERNELS)), w=w, pts=gen_points(rng, data, cov * bw ** 2, 6))

    def check(c):
        kde = kale.KDE(c['data'], bandwidth=c['bw'], kernel=c['kernel'], weights=c['w'])
        mat = ref_cov(c['data'], c['w']) * c['bw'] ** 2
        _, v = kde.density(c['pts'])
        e = ref_density(c['kernel'], c['pts'], c['data'], mat, c['w'])
        g = edge_free(c['kernel'], c['pts'], c['data'], mat)
        close(np.asarray(v)[g], e[g], "density is not the kernel sum", rtol=1e-6, atol=1e-10 * max(e.max(), 1e-300))


@test(quick=120)
class Independence:
    """the value at a point does not depend on the other points nor on the order of the data"""
    def gen(rng, k):
        c = gen0(rng, nmax=20)
        c['perm'] = rng.permutation(c['data'].shape[1])
        c['pp'] = rng.permutation(c['pts'].shape[1])
        return c

    def check(c):
        kde = build(c)
        _, v = kde.density(c['pts'])
        one = np.array([float(np.ravel(kde.density(c['pts'][:, [i]])[1])[0]) for i in range(c['pts'].shape[1])])
        close(v, one, "value depends on the other points", rtol=1e-12)
        c2 = dict(c, data=c['data'][:, c['perm']], w=None if c['w'] is None else c['w'][c['perm']])
        g = edge_free(c['kernel'], c['pts'], c['data'], c['cov'] * c['bw'] ** 2)
        _, v2 = build(c2).density(c['pts'])
        close(np.asarray(v2)[g], np.asarray(v)[g], "value depends on the order of the data", rtol=1e-9)
        _, v3 = kde.density(c['pts'][:, c['pp']])
        close(v3, np.asarray(v)[c['pp']], "value depends on the order of the points", rtol=1e-12)


@test(quick=60)
class IntegerData:
    def gen(rng, k):
        d = int(rng.choice([1, 2]))
        n = int(rng.integers(3, 9))
        return dict(data=rng.integers(-5, 6, size=(d, n)), cov=gen_matrix(rng, d, 2.0), bw=1.0, kernel=str(rng.choice(KERNELS)),
                    w=rng.integers(1, 5, n) if rng.random() < .5 else None, pts=rng.uniform(-6, 6, size=(d, 5)))

    def check(c):
        kde = build(c)
        _, v = kde.density(c['pts'])
        e = ref_density(c['kernel'], c['pts'], c['data'].astype(float), c['cov'], c['w'])
        g = edge_free(c['kernel'], c['pts'], c['data'].astype(float), c['cov'])
        close(np.asarray(v)[g], e[g], "density is not the kernel sum", rtol=1e-7, atol=1e-12)
