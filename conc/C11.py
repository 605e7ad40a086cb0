from harness import test, close, ok, raises, accepts, internal, Skip
from common import *
import kalepy as kale


def dist(name):
    f = internal('kernels.get_distribution_class')
    return f(name)


BETA = {'box': 1, 'parabola': 2, 'triweight': 4}


@test(quick=160)
class Shapes:
    def gen(rng, k):
        return dict(kernel=KERNELS[k % 4], d=k // 4 % 5 + 1, size=[1, 2, 3, 17, 100][k // 20 % 5])

    def check(c):
        D = dist(c['kernel'])
        d, m = c['d'], c['size']
        s = D.sample(m, ndim=d, squeeze=False)
        ok(np.shape(s) == (d, m), "shape %s of %d draws in %d dimensions" % (np.shape(s), m, d))
        ok(np.all(np.isfinite(s)), "finite draws")
        s = D.sample(m, ndim=d)
        ok(np.shape(s) == ((m,) if d == 1 else (d, m)), "shape %s of %d draws in %d dimensions (squeezed)" % (np.shape(s), m, d))
        if c['kernel'] in BETA:
            s = D.sample(300, ndim=d, squeeze=False)
            r = np.sqrt((s ** 2).sum(axis=0)).max()
            ok(r <= 1 + 1e-9, "a draw of %s at distance %r" % (c['kernel'], r))


@test(quick=60, thorough=600)
class RadialLaw:
    def gen(rng, k):
        return dict(kernel=KERNELS[k % 4], d=k // 4 % 5 + 1)

    def check(c):
        import scipy.stats as st
        D = dist(c['kernel'])
        d, m = c['d'], 6000
        s = D.sample(m, ndim=d, squeeze=False)
        r2 = (s ** 2).sum(axis=0)
        u = st.chi2.cdf(r2, d) if c['kernel'] == 'gaussian' else st.beta.cdf(np.minimum(r2, 1), d / 2, BETA[c['kernel']])
        ok(ks_uniform(u) > P_MIN, "distance law of draws of %s in %d dimensions" % (c['kernel'], d))
        z = s / np.sqrt(r2)
        for a in range(d):
            ok(st.binomtest(int((z[a] > 0).sum()), m, .5).pvalue > P_MIN, "draws prefer one side")
            if d > 1:
                # one coordinate of a uniform direction: z^2 ~ Beta(1/2, (d-1)/2)
                ok(ks_uniform(st.beta.cdf(z[a] ** 2, .5, (d - 1) / 2)) > P_MIN, "direction of draws of %s in %d dimensions" % (c['kernel'], d))
            for b in range(a):
                t = (np.arctan2(z[a], z[b]) + np.pi) / (2 * np.pi)
                ok(ks_uniform(t) > P_MIN, "direction of draws (angle) of %s in %d dimensions" % (c['kernel'], d))
        # direction independent of the distance
        if d > 1:
            big = r2 > np.median(r2)
            ok(ks_uniform(st.beta.cdf(z[0][big] ** 2, .5, (d - 1) / 2)) > P_MIN, "direction depends on the distance")
        # successive draws are independent
        if m > 10:
            h = u > .5
            ok(st.binomtest(int((h[1:] == h[:-1]).sum()), m - 1, .5).pvalue > P_MIN, "successive draws are correlated")


@test(quick=24)
class DensityOfDraws:
    """1D histogram of the draws against the density of the kernel itself"""
    def gen(rng, k):
        return dict(kernel=KERNELS[k % 4])

    def check(c):
        D = dist(c['kernel'])
        s = D.sample(8000, ndim=1, squeeze=False)[0]
        lim = 4.0 if c['kernel'] == 'gaussian' else 1.0
        e = np.linspace(-lim, lim, 25)
        x = (e[:-1, None] + (e[1:] - e[:-1])[:, None] * (np.arange(40) + .5) / 40)
        v = kprof(c['kernel'], x ** 2).sum(axis=1)
        cnt = np.histogram(s, bins=e)[0]
        ok(chi2_p(cnt, v / v.sum()) > P_MIN, "histogram of the draws of %s" % c['kernel'])
        v2 = np.array([float(np.sum(D.evaluate(row[None], 1))) for row in x]) if hasattr(D, 'evaluate') else v
        ok(chi2_p(cnt, v2 / v2.sum()) > P_MIN, "histogram of the draws of %s against its density" % c['kernel'])


@test(quick=40)
class SingleDraw:
    """counts of one: repeated single draws have the same law"""
    def gen(rng, k):
        return dict(kernel=KERNELS[k % 4], d=k // 4 % 3 + 1)

    def check(c):
        import scipy.stats as st
        D = dist(c['kernel'])
        d = c['d']
        s = np.concatenate([D.sample(1, ndim=d, squeeze=False) for _ in range(400)], axis=1)
        ok(s.shape == (d, 400), "single draws")
        r2 = (s ** 2).sum(axis=0)
        u = st.chi2.cdf(r2, d) if c['kernel'] == 'gaussian' else st.beta.cdf(np.minimum(r2, 1), d / 2, BETA[c['kernel']])
        ok(ks_uniform(u) > P_MIN, "distance law of single draws of %s" % c['kernel'])
