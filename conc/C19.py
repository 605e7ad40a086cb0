from harness import test, close, ok, raises, accepts, internal
from common import *
from kalepy import utils
import kalepy as kale


def refq(v, p, w=None):
    v = np.asarray(v, float)
    w = np.ones_like(v) if w is None else np.asarray(w, float)
    o = np.argsort(v, kind='stable')
    v, w = v[o], w[o]
    t = (np.cumsum(w) - w / 2) / w.sum()
    out = []
    for q in p:
        if q <= t[0]:
            out.append(v[0])
        elif q >= t[-1]:
            out.append(v[-1])
        else:
            i = int(np.searchsorted(t, q, side='left'))
            f = (q - t[i - 1]) / (t[i] - t[i - 1])
            out.append(v[i - 1] + f * (v[i] - v[i - 1]))
    return np.array(out)


def gen0(rng, k):
    n = int(rng.integers(1, 20))
    v = rng.normal(size=n) * 10.0 ** rng.uniform(-3, 3) + rng.normal()
    w = None
    if k % 3:
        w = [rng.uniform(.05, 1, n), rng.lognormal(0, 2, n), rng.integers(1, 5, n).astype(float)][k % 3 - 1 if k % 2 else 2]
    p = np.concatenate([[0.0, 1.0, .5], rng.uniform(0, 1, 5)])
    return dict(v=v, w=w, p=p, perm=rng.permutation(n), f=float(10.0 ** rng.uniform(-5, 5)))


@test(quick=500)
class Definition:
    gen = gen0

    def check(c):
        v, w, p = c['v'], c['w'], c['p']
        at = 1e-12 * np.abs(v).max()
        q = utils.quantiles(v, percs=p, weights=w)
        close(q, refq(v, p, w), "weighted quantiles", rtol=1e-8, atol=at)
        close(utils.quantiles(v[c['perm']], percs=p, weights=None if w is None else w[c['perm']]), q, "order of the data", rtol=1e-8, atol=at)
        if w is not None:
            close(utils.quantiles(v, percs=p, weights=w * c['f']), q, "scale of the weights", rtol=1e-8, atol=1e-9 * np.abs(v).max())
        o = np.argsort(p)
        qs = np.asarray(q)[o]
        ok(np.all(np.diff(qs) >= -at), "quantiles decrease")
        ok(qs[0] >= v.min() - at and qs[-1] <= v.max() + at, "quantiles outside of the data")
        o = np.argsort(v)
        close(utils.quantiles(v[o], percs=p, weights=None if w is None else w[o], values_sorted=True), q, "sorted values", rtol=1e-8, atol=at)
        close(utils.quantiles(v, percs=p.tolist(), weights=w), q, "percentiles as a list")
        close(utils.quantiles(v, percs=float(p[3]), weights=w), q[3], "scalar percentile")


@test(quick=150)
class Sigmas:
    def gen(rng, k):
        c = gen0(rng, k)
        c['s'] = np.concatenate([[0.0, 1.0, -1.0], rng.normal(size=3) * 2])
        return c

    def check(c):
        at = 1e-9 * np.abs(c['v']).max()
        p = np.array([0.5 * math.erfc(-s / math.sqrt(2)) for s in c['s']])
        close(utils.quantiles(c['v'], sigmas=c['s'], weights=c['w']), refq(c['v'], p, c['w']), "quantiles at standard deviations", rtol=1e-8, atol=at)
        raises(lambda: utils.quantiles(c['v'], weights=c['w']), "neither percentiles nor standard deviations")


@test(quick=300)
class Axes:
    def gen(rng, k):
        d = int(rng.integers(2, 4))
        shp = [int(x) for x in rng.integers(1, 6, d)]
        v = rng.normal(size=shp)
        w = rng.uniform(.05, 1, shp) if k % 3 else None
        return dict(v=v, w=w, axis=int(rng.integers(-d, d)), p=rng.uniform(0, 1, 3))

    def check(c):
        v, w, a, p = c['v'], c['w'], c['axis'], c['p']
        vv = np.moveaxis(v, a, -1)
        ww = np.moveaxis(w, a, -1) if w is not None else None
        flat = np.array([refq(vv[i], p, None if ww is None else ww[i]) for i in np.ndindex(vv.shape[:-1])])
        got = np.asarray(utils.quantiles(v, percs=p, weights=w, axis=a), float)
        ok(got.size == flat.size, "number of quantiles along an axis")
        close(got.reshape(flat.shape), flat, "quantiles along axis %d of shape %s" % (a, v.shape), rtol=1e-8, atol=1e-12)
        got = utils.quantiles(v, percs=p, weights=w)
        close(got, refq(v.ravel(), p, None if w is None else w.ravel()), "quantiles of all values", rtol=1e-8, atol=1e-12)


@test(quick=150)
class Iqr:
    gen = gen0

    def check(c):
        v, w = c['v'], c['w']
        q = refq(v, [.25, .75], w)
        close(utils.iqrange(v, weights=w), q[1] - q[0], "inter-quartile range", rtol=1e-8, atol=1e-11 * np.abs(v).max())
        x = np.abs(v) + 1e-3
        q = refq(np.log10(x), [.25, .75], w)
        close(utils.iqrange(x, log=True, weights=w), q[1] - q[0], "inter-quartile range of logarithms", rtol=1e-8, atol=1e-11)


@test(quick=150)
class Ties:
    """repeated values and zero weights: still in range, ordered, the same for each order"""
    def gen(rng, k):
        n = int(rng.integers(2, 15))
        w = rng.integers(0, 3, n).astype(float)
        w[0] = 1.0
        return dict(v=rng.integers(0, 4, n).astype(float), w=w, perm=rng.permutation(n), p=np.sort(rng.uniform(0, 1, 8)), k=k)

    def check(c):
        q = np.asarray(utils.quantiles(c['v'], percs=c['p'], weights=c['w']))
        ok(np.all(np.diff(q) >= -1e-12), "quantiles decrease")
        ok(q.min() >= c['v'].min() - 1e-12 and q.max() <= c['v'].max() + 1e-12, "quantiles outside of the data")
