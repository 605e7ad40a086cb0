from harness import test, close, ok, raises, accepts, internal
from common import *
import kalepy as kale


def gen0(rng, dmax=4, sep=False, nmax=8):
    d = int(rng.integers(1, dmax))
    n = int(rng.integers(2, nmax))
    kernel = str(rng.choice(KERNELS))
    mat = gen_matrix(rng, d, 1.0)
    if sep:
        # data so far apart that the datum of every sample is known
        s = np.sqrt(np.diag(mat))
        data = (np.arange(n) * 100.0 + rng.uniform(-5, 5, n)) * s[:, None] + 1000 * rng.normal(size=(d, 1))
        data = data[:, rng.permutation(n)]
    else:
        data = gen_data(rng, d, n)
    w = gen_weights(rng, n)
    return dict(data=data, cov=mat, w=w, kernel=kernel)


def make(c, **kw):
    return kale.KDE(c['data'], bandwidth=1.0, covariance=c['cov'], weights=c['w'], kernel=c['kernel'], **kw)


def shaped(s, d):
    """samples as (D, M)"""
    return np.atleast_2d(np.asarray(s, float))


@test(quick=250)
class Counts:
    def gen(rng, k):
        c = gen0(rng)
        c['size'] = [None, 1, 2, 7, 40, 1][k % 6]
        c['keep'] = [None, 0, [0], [c['data'].shape[0] - 1], True, False, list(range(c['data'].shape[0]))][k % 7]
        return c

    def check(c):
        d, n = c['data'].shape
        size = c['size']
        m = n if size is None else size
        s = make(c).resample(size=size, keep=c['keep'])
        ok(np.shape(s) == ((m,) if d == 1 else (d, m)), "shape %s of a resample of %s points in %d dimensions" % (np.shape(s), m, d))
        ok(np.all(np.isfinite(np.asarray(s, float))), "finite samples")
        s = make(c).resample(size=size, keep=c['keep'], squeeze=False)
        ok(np.shape(s) == (d, m), "shape without squeeze")
        kw = dict(size=size, weights=c['w'], kernel=c['kernel'], covariance=c['cov'], bandwidth=1.0, keep=c['keep'])
        s = kale.resample(c['data'], **kw)
        ok(np.shape(s) == ((m,) if d == 1 else (d, m)), "shape of resample()")


@test(quick=250)
class Kept:
    """kept dimensions: exactly the value of the datum that was chosen; never a datum without weight"""
    def gen(rng, k):
        c = gen0(rng, sep=True)
        d, n = c['data'].shape
        kk = [0, d - 1, [0], True, list(range(d)), [int(x) for x in rng.permutation(d)[:max(1, d - 1)]]][k % 6]
        c['keep'] = kk
        c['arr'] = bool(rng.random() < .3)
        if rng.random() < .5:
            w = rng.integers(0, 3, n).astype(float)
            w[rng.integers(n)] = 1.0
            c['w'] = w
        return c

    def check(c):
        d, n = c['data'].shape
        keep = c['keep']
        ks = list(range(d)) if keep is True else ([keep] if np.isscalar(keep) else list(keep))
        if c['arr'] and isinstance(keep, list):
            keep = np.array(keep)
        m = 60
        s = shaped(make(c).resample(size=m, keep=keep), d)
        for j in range(m):
            match = np.all(s[ks, j][:, None] == c['data'][ks], axis=0)
            ok(match.any(), "kept dimensions %s hold %r, of no datum" % (ks, s[ks, j]))
            i = int(np.argmax(match))
            ok(c['w'] is None or c['w'][i] > 0, "a datum without weight was chosen")
            off = [q for q in range(d) if q not in ks]
            # the other dimensions are about the same datum
            for q in off:
                h = math.sqrt(c['cov'][q, q])
                ok(abs(s[q, j] - c['data'][q, i]) <= h * (1 + 1e-9 if c['kernel'] != 'gaussian' else 9), "the other dimensions are not about the same datum")
        if len(ks) < d:
            q = [q for q in range(d) if q not in ks][0]
            i = [int(np.argmax(np.all(s[ks, j][:, None] == c['data'][ks], axis=0))) for j in range(m)]
            ok(np.any(s[q] != c['data'][q, i]), "no noise in a dimension that is not kept")


@test(quick=60, thorough=600)
class Selection:
    """chosen data: probability proportional to weight"""
    def gen(rng, k):
        c = gen0(rng, sep=True)
        n = c['data'].shape[1]
        c['w'] = [None, rng.uniform(0.05, 1, n), rng.integers(0, 4, n) + (np.arange(n) == 0) * 1.0, rng.lognormal(0, 1.5, n)][k % 4]
        return c

    def check(c):
        d, n = c['data'].shape
        m = 3000
        s = shaped(make(c).resample(size=m), d)
        mid = np.argmin(np.abs(s[0][:, None] - c['data'][0][None]), axis=1)
        p = np.ones(n) / n if c['w'] is None else c['w'] / c['w'].sum()
        cnt = np.bincount(mid, minlength=n)
        ok(np.all(cnt[p == 0] == 0), "a datum without weight was chosen")
        ok(chi2_p(cnt, p) > P_MIN, "data chosen %s times of %d, weights %s" % (cnt, m, p))


@test(quick=60, thorough=600)
class Noise:
    """the offset from the datum: radial law and direction of the kernel, after undoing the smoothing matrix"""
    def gen(rng, k):
        c = gen0(rng, sep=True)
        c['kernel'] = KERNELS[k % 4]
        return c

    def check(c):
        import scipy.stats as st
        d, n = c['data'].shape
        m = 3000
        s = shaped(make(c).resample(size=m), d)
        i = np.argmin(np.abs(s[0][:, None] - c['data'][0][None]), axis=1)
        off = s - c['data'][:, i]
        r2 = np.einsum('dm,de,em->m', off, np.linalg.inv(c['cov']), off)
        if c['kernel'] == 'gaussian':
            u = st.chi2.cdf(r2, d)
        else:
            ok(r2.max() <= 1 + 1e-6, "a draw of %s beyond its support: %r" % (c['kernel'], math.sqrt(r2.max())))
            u = st.beta.cdf(r2, d / 2, {'box': 1, 'parabola': 2, 'triweight': 4}[c['kernel']])
        ok(ks_uniform(u) > P_MIN, "distance law of the noise of %s in %d dimensions" % (c['kernel'], d))
        # shape: each axis and pair has the right projected direction (whitened sign and plane angle)
        z = np.linalg.solve(np.linalg.cholesky(c['cov']), off)
        z = z / np.linalg.norm(z, axis=0)
        for a in range(d):
            ok(st.binomtest(int((z[a] > 0).sum()), m, .5).pvalue > P_MIN, "the noise prefers one side")
            for b in range(a):
                t = (np.arctan2(z[a], z[b]) + np.pi) / (2 * np.pi)
                ok(ks_uniform(t) > P_MIN, "direction of the noise (smoothing matrix shape)")
        # independence of datum and noise
        a = off[0] > 0
        for j in range(n):
            if (i == j).sum() > 200:
                ok(st.binomtest(int(a[i == j].sum()), int((i == j).sum()), .5).pvalue > P_MIN, "noise depends on the datum")


@test(quick=40)
class KeepFixed:
    """kept dimensions: the noise of the other dimensions keeps its law"""
    def gen(rng, k):
        c = gen0(rng, sep=True)
        while c['data'].shape[0] < 2:
            c = gen0(rng, sep=True)
        c['kernel'] = 'gaussian'
        c['keep'] = [int(rng.integers(c['data'].shape[0]))]
        return c

    def check(c):
        import scipy.stats as st
        d, n = c['data'].shape
        s = shaped(make(c).resample(size=2500, keep=c['keep']), d)
        q = [q for q in range(d) if q not in c['keep']]
        i = np.argmin(np.abs(s[q[0]][:, None] - c['data'][q[0]][None]), axis=1)
        off = (s - c['data'][:, i])
        for a in q:
            ok(ks_uniform(st.norm.cdf(off[a] / math.sqrt(c['cov'][a, a]))) > P_MIN, "noise of a dimension that is not kept")


@test(quick=60)
class SmallMatrix:
    """tiny bandwidth: every sample lies on its datum"""
    def gen(rng, k):
        return gen0(rng)

    def check(c):
        d, n = c['data'].shape
        kde = kale.KDE(c['data'], bandwidth=1e-12, covariance=c['cov'], weights=c['w'], kernel=c['kernel'])
        s = shaped(kde.resample(size=50), d)
        dist = np.abs(s[:, :, None] - c['data'][:, None, :]).max(axis=0)
        ok(dist.min(axis=1).max() <= 1e-10 * np.sqrt(np.diag(c['cov']).max()) + 1e-12 * np.abs(c['data']).max(), "a sample away from all data")
