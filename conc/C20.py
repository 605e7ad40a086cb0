import copy
from harness import test, close, ok, raises, accepts, internal
from common import *
from C13 import grid0
import kalepy as kale
from kalepy import utils


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a.shape == b.shape and all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a is b or a == b


class Watch:
    """arguments that must not change; arrays are also made read-only"""
    def __init__(self, ro=False, **kw):
        self.kw = kw
        self.old = copy.deepcopy(kw)

    def done(self, what):
        for k in self.kw:
            ok(same(self.kw[k], self.old[k]), "%s modified its argument %s: %.200r -> %.200r" % (what, k, self.old[k], self.kw[k]))


def kcase(rng, k):
    d = int(rng.integers(1, 4))
    n = int(rng.integers(d + 3, 14))
    data = gen_data(rng, d, n)
    s = data.std(axis=1) + 1e-6
    c = dict(data=data, w=gen_weights(rng, n), kernel=str(rng.choice(KERNELS)), bw=rng.uniform(.3, .8, d), cov=np.diag(s ** 2),
             refl=gen_reflect(rng, data, allow_none=True), pts=data[:, :3] + .1 * s[:, None], form=int(rng.integers(3)))
    if c['w'] is not None and np.count_nonzero(c['w']) < 3:
        c['w'] = None
    f = c['form']
    if f == 1:
        c['data'] = c['data'].tolist()
        c['w'] = None if c['w'] is None else c['w'].tolist()
        c['bw'] = c['bw'].tolist()
        c['pts'] = c['pts'].tolist()
        c['cov'] = c['cov'].tolist()
    if f == 2:
        c['refl'] = np.array([[None, None] if r is None else r for r in c['refl']], dtype=object)
        if rng.random() < .5 and np.any(c['refl'] != None):    # noqa
            c['refl'] = np.array([[-1e9 if r[0] is None else r[0], 1e9 if r[1] is None else r[1]] for r in c['refl']], float)
    if rng.random() < .25:
        c['refl'] = [None if r is None else [True if q is not None and rng.random() < .5 else q for q in r] for r in gen_reflect(rng, data)]
    c['ops'] = [int(x) for x in rng.integers(0, 12, 7)]
    c['lo'] = [None if rng.random() < .3 else float(x - 1) for x in data.min(axis=1)]
    return c


def op(kde, c, o):
    """one call; returns the deterministic part of its result"""
    d = kde.ndim
    pts = c['pts']
    refl = c['refl']
    if o == 0:
        return kde.density(pts)[1]
    if o == 1:
        return kde.pdf(pts)[1]
    if o == 2:
        return np.concatenate([np.ravel(kde.density()[1])]) if d < 3 else kde.density(pts)[1]
    if o == 3:
        return kde.density([pts[d - 1]] if d > 1 else pts, params=[d - 1])[1]
    if o == 4:
        return kde.density(pts, reflect=refl)[1]
    if o == 5:
        kde.resample(7)
        return None
    if o == 6:
        kde.resample(5, reflect=refl)
        return None
    if o == 7:
        kde.resample(5, keep=0, reflect=False)
        return None
    if o == 8:
        return kde.cdf(pts) if d < 3 else None
    if o == 9:
        return np.concatenate([np.ravel(x) for x in (kde.points if d > 1 else [kde.points])])
    if o == 10:
        return np.ravel(kde.density([np.sort(p) for p in pts], grid=True)[1])
    return np.ravel(kde.density([pts[d - 1]] if d > 1 else pts, params=d - 1 if d == 1 else [d - 1], probability=True)[1])


def build(c, **kw):
    return kale.KDE(c['data'], weights=c['w'], bandwidth=c['bw'], covariance=c['cov'], kernel=c['kernel'], reflect=c['refl'], **kw)


@test(quick=300)
class Estimator:
    """sequences of calls on one estimator"""
    def gen(rng, k):
        return kcase(rng, k)

    def check(c):
        w = Watch(data=c['data'], weights=c['w'], bandwidth=c['bw'], covariance=c['cov'], reflect=c['refl'], points=c['pts'])
        kde = build(c)
        w.done('the constructor')
        state0 = copy.deepcopy((kde.dataset, kde.weights, kde.kernel.matrix, kde.reflect, kde.bandwidth, kde.covariance, kde.neff, kde.extrema))
        seen = {}
        for o in c['ops'] + c['ops'][::-1]:
            r = op(kde, c, o)
            w.done('call %d' % o)
            st = (kde.dataset, kde.weights, kde.kernel.matrix, kde.reflect, kde.bandwidth, kde.covariance, kde.neff, kde.extrema)
            for name, a, b in zip(('dataset', 'weights', 'smoothing matrix', 'boundaries', 'bandwidth', 'covariance', 'neff', 'extrema'), st, state0):
                ok(same(a, b), "call %d changed the %s: %.200r -> %.200r" % (o, name, b, a))
            if r is None:
                continue
            r = np.array(r, dtype=float)
            if o in seen:
                ok(np.array_equal(r, seen[o], equal_nan=True), "call %d gives another answer after the calls %s" % (o, c['ops']))
            seen[o] = r
        # the same as on a fresh estimator
        for o in seen:
            r = np.array(op(build(c), c, o), dtype=float)
            ok(np.array_equal(r, seen[o], equal_nan=True), "call %d gives another answer on a fresh estimator" % o)


@test(quick=150)
class ResultsAreOwn:
    """writing into a result does not change later answers"""
    def gen(rng, k):
        c = kcase(rng, k)
        while len(c['data']) > 2:
            c = kcase(rng, k)
        return c

    def check(c):
        kde = build(c)
        a = np.array(kde.density(c['pts'])[1])
        r = kde.density(c['pts'])
        r[1][...] = -1.0
        s = np.asarray(kde.resample(5))
        s[...] = 1e9
        ok(np.array_equal(np.array(kde.density(c['pts'])[1]), a), "density after writing into results")
        g = np.array(kde.cdf(c['pts']))
        kde.cdf(c['pts'])[...] = 7.0
        ok(np.array_equal(np.array(kde.cdf(c['pts'])), g, equal_nan=True), "cumulative distribution after writing into results")


@test(quick=150)
class ModuleLevel:
    def gen(rng, k):
        return kcase(rng, k)

    def check(c):
        w = Watch(data=c['data'], weights=c['w'], reflect=c['refl'], points=c['pts'])
        a = kale.density(c['data'], points=c['pts'], weights=c['w'], reflect=c['refl'])[1]
        w.done('density()')
        kale.pdf(c['data'], points=c['pts'], weights=c['w'], reflect=c['refl'])
        w.done('pdf()')
        kale.resample(c['data'], size=4, weights=c['w'], reflect=c['refl'])
        w.done('resample()')
        b = kale.density(c['data'], points=c['pts'], weights=c['w'], reflect=c['refl'])[1]
        ok(np.array_equal(a, b), "density() gives another answer when it is called again")
        # edges and extrema
        data = np.atleast_2d(c['data'])
        ext = [None if x is None else [x, None] for x in c['lo']]
        edges = [6] * len(data)
        w = Watch(data=data, edges=edges, extrema=ext)
        e1 = utils.parse_edges(data, edges=edges, extrema=ext)
        w.done('parse_edges')
        e2 = utils.parse_edges(data, edges=edges, extrema=ext)
        for x, y in zip(e1, e2):
            ok(np.array_equal(x, y), "parse_edges gives another answer when it is called again")
        pair = [None, float(data.max() + 1)]
        w = Watch(extrema=pair)
        utils.parse_edges(data, edges=edges, extrema=pair)
        w.done('parse_edges')
        kde_ext = [None if x is None else [x, None] for x in c['lo']]
        w = Watch(extrema=kde_ext)
        kale.KDE(data, extrema=kde_ext).points
        w.done('KDE(extrema)')


@test(quick=150)
class Samplers:
    def gen(rng, k):
        c = grid0(rng)
        f = 50 / (c['mass'].sum() if c['mass'] is not None else trapz_mass(c['dens'], c['edges']).sum())
        c['dens'] = c['dens'] * f
        if c['mass'] is not None:
            c['mass'] = c['mass'] * f
        c['sc'] = rng.normal(size=c['dens'].shape)
        c['portion'] = c['dens'] * rng.integers(0, 2, c['dens'].shape)
        if not c['portion'].any():
            c['portion'] = c['dens'].copy()
        c['lst'] = bool(rng.random() < .3)
        if c['lst']:
            c['edges'] = [e.tolist() for e in c['edges']]
        return c

    def check(c):
        w = Watch(edges=c['edges'], dens=c['dens'], mass=c['mass'], scalar=c['sc'], portion=c['portion'])
        kale.sample_grid(c['edges'], c['dens'], nsamp=9, mass=c['mass'], scalar_dens=c['sc'])
        w.done('sample_grid')
        kale.sample_grid(c['edges'], c['dens'], nsamp=9, mass=c['mass'], interpolate=False)
        w.done('sample_grid')
        kale.sample_outliers(c['edges'], c['dens'], 4.0, mass=c['mass'])
        w.done('sample_outliers')
        if c['mass'] is None:
            kale.sample.sample_grid_proportional(c['edges'], c['dens'], c['portion'], 9)
            w.done('sample_grid_proportional')
        S = kale.sample.Sample_Grid(c['edges'], c['dens'], mass=c['mass'], scalar_dens=c['sc'])
        T = kale.sample.Sample_Outliers(c['edges'], c['dens'], threshold=4.0, mass=c['mass'])
        outs = []
        for rep in range(3):
            np.random.seed(c['seed'] % 2 ** 32)
            outs.append(S.sample(11))
            np.random.seed(c['seed'] % 2 ** 32)
            outs[-1] += T.sample()
            w.done('a sampler')
            S.sample(3, interpolate=False)
            T.sample(poisson_inside=True, poisson_outside=True)
        for o in outs[1:]:
            for x, y in zip(o, outs[0]):
                ok(np.array_equal(x, y), "a sampler gives other samples for the same random numbers after other calls")


@test(quick=200)
class Utilities:
    def gen(rng, k):
        n = int(rng.integers(3, 9))
        d = int(rng.integers(2, 4))
        return dict(x=np.sort(rng.uniform(.1, 5, n)), v=rng.normal(size=(d, n)), cov=gen_matrix(rng, d), w=rng.uniform(.1, 1, n),
                    e=[gen_edges(rng, 3) for _ in range(d)], g=rng.uniform(.1, 1, [4] * d), d=d, lst=bool(rng.random() < .3))

    def check(c):
        d = c['d']
        lim, prev, st, b = [0.2, None], [None, 9.0], [.1, .2], [[None, .5]] + [None] * (d - 1)
        x, v, cov, w, e, g = c['x'], c['v'], c['cov'], c['w'], c['e'], c['g']
        if c['lst']:
            x, w, e = x.tolist(), w.tolist(), [y.tolist() for y in e]
        W = Watch(x=x, v=v, cov=cov, w=w, e=e, g=g, lim=lim, prev=prev, st=st, b=b)
        calls = [lambda: utils.midpoints(x), lambda: utils.midpoints(x, log=True), lambda: utils.midpoints(v, axis=0), lambda: utils.midpoints(g, axis=None),
                 lambda: utils.minmax(x, limit=lim, prev=prev, stretch=st), lambda: utils.minmax(x, positive=True, log_stretch=st, prev=prev), lambda: utils.subdivide(x, 2), lambda: utils.subdivide(x, 2, log=True),
                 lambda: utils.spacing(x, 'log', num=5), lambda: utils.quantiles(x, percs=[.2, .5], weights=w), lambda: utils.quantiles(v, percs=[.5], axis=0),
                 lambda: utils.iqrange(x, weights=w), lambda: utils.iqrange(x, log=True), lambda: utils.add_cov(v, cov), lambda: utils.rem_cov(v, cov), lambda: utils.cov_keep_vars(cov, [0]),
                 lambda: utils.cov_keep_vars(cov, True), lambda: utils.bound_indices(v, b), lambda: utils.bound_indices(v, b, outside=True), lambda: utils.trapz_nd(g, e),
                 lambda: utils.trapz_dens_to_mass(g, e), lambda: utils.cumtrapz(g, e), lambda: utils.cumtrapz(g, e, axis=1), lambda: utils.cumsum(g), lambda: utils.centroids(e, g),
                 lambda: utils.histogram(np.asarray(x), 4, weights=w, density=True), lambda: utils.matrix_invert(cov)]
        first = []
        for i, f in enumerate(calls):
            first.append(f())
            W.done('utility call %d' % i)
        for i, f in enumerate(calls):
            r = f()
            a = r if isinstance(r, tuple) else (r,)
            b2 = first[i] if isinstance(first[i], tuple) else (first[i],)
            for p, q in zip(a, b2):
                ok(np.array_equal(np.asarray(p, float), np.asarray(q, float)), "utility call %d gives another answer when it is called again" % i)
            for p in a:
                # results do not share memory with the arguments
                if isinstance(p, np.ndarray) and p.size:
                    for q in (v, cov, g):
                        ok(not np.shares_memory(p, q), "the result of utility call %d shares memory with an argument" % i)


@test(quick=80)
class FromHist:
    def gen(rng, k):
        d = int(rng.integers(1, 3))
        nb = [int(rng.integers(4, 7)) for _ in range(d)]
        return dict(e=[gen_edges(rng, n) for n in nb], h=rng.integers(0, 6, nb) + (rng.random(nb) < .8), lst=bool(rng.random() < .4))

    def check(c):
        e = c['e'][0] if len(c['e']) == 1 else c['e']
        h = c['h'].astype(float)
        if np.count_nonzero(h) < 4:
            return
        if c['lst']:
            e, h = [list(x) for x in c['e']] if len(c['e']) > 1 else list(c['e'][0]), h.tolist()
        W = Watch(bins=e, hist=h)
        a = kale.KDE.from_hist(e, h)
        W.done('from_hist')
        a.resample(3)
        a.density(np.atleast_2d(a.dataset)[:, :2])
        W.done('from_hist and calls')
