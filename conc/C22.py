from harness import test, close, ok, raises, accepts, internal
from common import *
import kalepy as kale


def gen0(rng, k):
    d = int(rng.choice([1, 1, 2, 2, 3]))
    nb = [int(rng.integers(2 if d > 1 else 3, [12, 6, 4][d - 1])) for _ in range(d)]
    e = [gen_edges(rng, n) for n in nb]
    h = rng.integers(0, 6, nb).astype(float) if k % 2 else rng.uniform(0, 3, nb) * (rng.random(nb) < .8)
    for i in rng.choice(h.size, min(h.size, d + 2), replace=False):
        h.flat[i] += rng.uniform(.5, 2) if k % 2 == 0 else 1.0
    return dict(e=e, h=h * (10.0 ** rng.uniform(-3, 3) if k % 2 == 0 else 1), lst=bool(rng.random() < .3), int=bool(k % 4 == 1), kernel=str(rng.choice(KERNELS)))


def args(c):
    e = c['e'][0] if len(c['e']) == 1 else c['e']
    h = c['h'].astype(int) if c['int'] else c['h']
    if c['lst']:
        e, h = (e.tolist() if len(c['e']) == 1 else [x.tolist() for x in e]), h.tolist()
    return e, h


@test(quick=400)
class Bins:
    gen = gen0

    def check(c):
        kde = kale.KDE.from_hist(*args(c), kernel=c['kernel'])
        cen = [(x[1:] + x[:-1]) / 2 for x in c['e']]
        d = len(cen)
        ex = np.array([x.ravel() for x in np.meshgrid(*cen, indexing='ij')])
        w = c['h'].ravel()
        got = np.atleast_2d(np.asarray(kde.dataset, float))
        gw = np.asarray(kde.weights, float)
        ok(got.shape == ex.shape, "one datum for each bin (%s, %s bins)" % (got.shape, ex.shape))
        ok(gw.shape == (w.size,), "one weight for each bin")
        # match in any order
        a, b = np.lexsort(got), np.lexsort(ex)
        sc = max(np.abs(x).max() for x in c['e'])
        close(got[:, a], ex[:, b], "data at the bin centres", rtol=1e-9, atol=1e-12 * sc)
        close(gw[a] / gw.sum(), w[b] / w.sum(), "weights proportional to the counts", rtol=1e-9, atol=1e-15)


@test(quick=200)
class Density:
    gen = gen0

    def check(c):
        d = len(c['e'])
        bw = np.array([np.diff(x).mean() for x in c['e']]) if d > 1 else np.diff(c['e'][0]).mean()
        cen = [(x[1:] + x[:-1]) / 2 for x in c['e']]
        ex = np.array([x.ravel() for x in np.meshgrid(*cen, indexing='ij')])
        w = c['h'].ravel()
        kde = kale.KDE.from_hist(*args(c), kernel=c['kernel'])
        # by default the bandwidth of each dimension is the (mean) bin width
        ok(np.allclose(np.diag(np.atleast_2d(kde.bandwidth)), bw, rtol=1e-9), "default bandwidth %r, bin width %r" % (kde.bandwidth, bw))
        B = np.diag(np.atleast_1d(bw))
        mat = ref_cov(ex, w) * B ** 2
        if np.linalg.cond(mat) > 1e8:
            return
        pts = ex[:, :6] + .3 * np.sqrt(np.diag(mat))[:, None]
        e = ref_density(c['kernel'], pts, ex, mat, w / w.sum())
        g = edge_free(c['kernel'], pts, ex, mat)
        v = kde.pdf(pts)[1]
        close(v[g], e[g], "density of the estimator of a histogram", rtol=1e-6, atol=1e-9 * np.abs(e).max())
        # a given bandwidth is used; a bin without counts contributes nothing
        h = .1 * np.array([np.diff(x).min() for x in c['e']])
        kde = kale.KDE.from_hist(*args(c), bandwidth=1.0, covariance=np.diag(h ** 2) if d > 1 else h[0] ** 2, kernel='box')
        v = kde.density(ex)[1]
        ok(np.all((v > 0) == (w > 0)), "density at the centres of bins with and without counts")
        v = kde.pdf(ex)[1]
        close(v, w / w.sum() / (vol(d) * np.prod(h)), "share of each bin", rtol=1e-6, atol=1e-12 * v.max())


@test(quick=60)
class Resample:
    gen = gen0

    def check(c):
        d = len(c['e'])
        h = 1e-3 * np.array([np.diff(x).min() for x in c['e']])
        kde = kale.KDE.from_hist(*args(c), bandwidth=1.0, covariance=np.diag(h ** 2) if d > 1 else h[0] ** 2, kernel='box')
        s = np.atleast_2d(kde.resample(1500))
        cnt = np.histogramdd(s.T, bins=c['e'])[0].ravel()
        ok(cnt.sum() == 1500, "samples within the bins")
        ok(chi2_p(cnt, (c['h'] / c['h'].sum()).ravel()) > P_MIN, "samples per bin")


@test(quick=60)
class Options:
    """arguments of the constructor are passed on"""
    def gen(rng, k):
        return gen0(rng, k)

    def check(c):
        d = len(c['e'])
        r = [[float(x[0]), float(x[-1])] for x in c['e']]
        kde = kale.KDE.from_hist(*args(c), bandwidth=0.7, reflect=r, kernel=c['kernel'])
        ok(np.allclose(np.diag(np.atleast_2d(kde.bandwidth)), .7), "given bandwidth")
        s = np.atleast_2d(kde.resample(40))
        for x, q in zip(s, r):
            ok(x.min() >= q[0] and x.max() <= q[1], "boundaries are passed on")
