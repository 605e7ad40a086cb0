from harness import test, close, ok, raises, internal
from common import *
import kalepy as kale


def gen0(rng, dmin=2):
    d = int(rng.integers(dmin, 5))
    n = int(rng.integers(2, 14))
    data = gen_data(rng, d, n)
    s = data.std() + 1e-3 * np.abs(data).max() + 1e-12
    cov = gen_matrix(rng, d, s, diag=0.1)
    k = int(rng.integers(1, d + 1))
    sel = [int(x) for x in rng.permutation(d)[:k]]
    refl = gen_reflect(rng, data) if rng.random() < .5 else None
    mat = cov * 0.25
    pts = gen_points(rng, data, mat, 6)[sel]
    return dict(data=data, cov=cov, bw=0.5, sel=sel, refl=refl, pts=pts, w=gen_weights(rng, n),
                kernel=str(rng.choice(KERNELS)))


def expect(c, sel, pts, refl='refl'):
    sub = c['data'][sel]
    mat = (c['cov'] * c['bw'] ** 2)[np.ix_(sel, sel)]
    r = c[refl] if isinstance(refl, str) else refl
    r = [None] * len(sel) if r is None else [r[i] for i in sel]
    return ref_reflected(c['kernel'], pts, sub, mat, c['w'], r)


def kde_of(c):
    return kale.KDE(c['data'], bandwidth=c['bw'], covariance=c['cov'], weights=c['w'], reflect=c['refl'], kernel=c['kernel'])


def judge(v, ex, msg):
    e, out, g = ex
    v = np.asarray(v, float)
    ok(v.shape == e.shape, msg + ": one value per point (%s)" % (v.shape,))
    ok(np.all(v[out] == 0), msg + ": not zero outside of the boundaries of the selected dimensions")
    close(v[g], e[g], msg, rtol=1e-6, atol=1e-10 * max(np.abs(e).max(), 1e-300))


@test(quick=400)
class Selection:
    def gen(rng, k):
        return gen0(rng)

    def check(c):
        kde = kde_of(c)
        sel = c['sel']
        forms = [sel, tuple(sel), np.array(sel)]
        for f in forms:
            judge(kde.density(c['pts'], params=f)[1], expect(c, sel, c['pts']), "density of parameters %s" % sel)
        # other order
        o = np.argsort(sel)
        s2 = [sel[i] for i in o]
        judge(kde.density(c['pts'][o], params=s2)[1], expect(c, sel, c['pts']), "permuted selection")
        # the whole estimator is unaffected
        full = list(range(c['data'].shape[0]))
        p = np.concatenate([c['pts'], c['data'][len(sel):, [0] * c['pts'].shape[1]]])
        judge(kde.density(p)[1], expect(c, full, p), "all parameters, after a selection")


@test(quick=200)
class ScalarSelection:
    def gen(rng, k):
        return gen0(rng, 1 if k % 5 == 0 else 2)

    def check(c):
        kde = kde_of(c)
        i = c['sel'][0]
        q = c['pts'][0]
        pp, v = kde.density(q, params=i)
        judge(v, expect(c, [i], q[None]), "scalar parameter")
        close(pp, q, "points of a scalar selection are one-dimensional", rtol=0)
        v2 = kde.density(q, params=[i])[1]
        judge(np.ravel(v2), expect(c, [i], q[None]), "one-element selection")
        # automatic points
        pp, v = kde.density(params=i)
        pp = np.asarray(pp, float)
        if c['data'].shape[0] == 1:
            pp, v = np.ravel(pp), np.ravel(v)
        ok(pp.ndim == 1 and np.shape(v) == pp.shape, "scalar selection gives one-dimensional results at automatic points")
        judge(v, expect(c, [i], pp[None]), "automatic points of a parameter")


@test(quick=120)
class SelectedGrid:
    def gen(rng, k):
        while True:
            c = gen0(rng)
            if len(c['sel']) in (2, 3):
                return c

    def check(c):
        kde = kde_of(c)
        e = [np.unique(p[:2 + i]) for i, p in enumerate(c['pts'])]
        pp, v = kde.density(e, params=c['sel'], grid=True)
        ok(np.shape(v) == tuple(len(x) for x in e), "grid shape of a selection")
        pts = np.array([x.ravel() for x in np.meshgrid(*e, indexing='ij')])
        judge(np.ravel(v), expect(c, c['sel'], pts), "grid of a selection")


@test(quick=100)
class SelectedReflect:
    """boundaries given to the call are those of the selected parameters, in order"""
    def gen(rng, k):
        c = gen0(rng)
        c['refl2'] = gen_reflect(rng, c['data'][c['sel']])
        return c

    def check(c):
        kde = kde_of(c)
        v = kde.density(c['pts'], params=c['sel'], reflect=c['refl2'])[1]
        full = [None] * c['data'].shape[0]
        for i, s in enumerate(c['sel']):
            full[s] = c['refl2'][i]
        judge(v, expect(c, c['sel'], c['pts'], full), "selection with boundaries of the call")


@test(quick=40)
class AutoPointsOfSelection:
    def gen(rng, k):
        while True:
            c = gen0(rng)
            if len(c['sel']) == 2:
                c['kernel'] = 'gaussian'
                c['axes'] = [np.sort(x[:3] + np.array([0, 1e-3, 2e-3])) for x in c['data'][:, [0, 0, 0]]]
                return c

    def check(c):
        kde = kale.KDE(c['data'], bandwidth=c['bw'], covariance=c['cov'], weights=c['w'], reflect=c['refl'], points=c['axes'])
        pp, v = kde.density(params=c['sel'])
        for i, s in enumerate(c['sel']):
            close(pp[i], c['axes'][s], "automatic points follow the selection", rtol=1e-12)
        pts = np.array([x.ravel() for x in np.meshgrid(*[c['axes'][s] for s in c['sel']], indexing='ij')])
        ok(np.shape(v) == (3, 3), "grid of automatic points")
        judge(np.ravel(v), expect(c, c['sel'], pts), "values at automatic points")
