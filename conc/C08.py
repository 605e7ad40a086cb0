from harness import test, close, ok, raises, accepts, internal
from common import *
import kalepy as kale


def base(rng, dmin=1, dmax=4, nmin=3):
    d = int(rng.integers(dmin, dmax))
    n = int(rng.integers(max(nmin, d + 2), 16))
    return dict(d=d, n=n, data=gen_data(rng, d, n), w=rng.uniform(0.2, 2, n), kernel=str(rng.choice(KERNELS)))


@test(quick=300)
class BadWeights:
    def gen(rng, k):
        c = base(rng)
        w = c['w'].copy()
        i = int(rng.integers(c['n']))
        kind = ['neg', 'nan', 'inf', 'ninf', 'zero', 'short', 'long', 'matrix', 'tinyneg', 'scalar'][k % 10]
        if kind == 'neg':
            w[i] = -w[i]
        elif kind == 'nan':
            w[i] = np.nan
        elif kind == 'inf':
            w[i] = np.inf
        elif kind == 'ninf':
            w[i] = -np.inf
        elif kind == 'zero':
            w[:] = 0
        elif kind == 'short':
            w = w[:-1]
        elif kind == 'long':
            w = np.append(w, 1.0)
        elif kind == 'matrix':
            w = np.tile(w, (2, 1))
        elif kind == 'tinyneg':
            w[i] = -1e-200
        elif kind == 'scalar':
            w = np.array([1.5])
        c.update(w=w, kind=kind, aslist=bool(k // 10 % 2))
        return c

    def check(c):
        data, w = c['data'], c['w'].tolist() if c['aslist'] else c['w']
        p = data[:, :1]
        raises(lambda: kale.KDE(data, weights=w, bandwidth=0.5), "weights (%s)" % c['kind'])
        raises(lambda: kale.KDE(data, weights=w, bandwidth=0.5, covariance=np.eye(c['d']), neff=5.0), "weights (%s), given covariance" % c['kind'])
        raises(lambda: kale.density(data, points=p, weights=w), "weights (%s), density()" % c['kind'])
        raises(lambda: kale.pdf(data, points=p, weights=w), "weights (%s), pdf()" % c['kind'])
        raises(lambda: kale.resample(data, size=5, weights=w), "weights (%s), resample()" % c['kind'])


@test(quick=40)
class EmptyData:
    def gen(rng, k):
        return dict(d=int(rng.integers(1, 4)), k=k)

    def check(c):
        d = c['d']
        forms = [np.zeros((d, 0)), [[] for _ in range(d)], np.zeros(0), []]
        for f in forms:
            raises(lambda: kale.KDE(f), "empty dataset %r" % (f,))
            raises(lambda: kale.KDE(f, bandwidth=0.3, covariance=np.eye(d)), "empty dataset %r" % (f,))
            raises(lambda: kale.resample(f, size=3), "empty dataset %r" % (f,))


@test(quick=120)
class BadKernel:
    def gen(rng, k):
        c = base(rng)
        c['bad'] = ['', 'gausian', 'Normal', 'boxx', 'tri', 'unknown', 'gaussianx', 'bo', 'parabolic', 'cosine', 'par'][int(rng.integers(11))]
        c['bw'] = ['', 'scot', 'silvermann', 'auto', 'bin', 'Scott rule', 'rule'][int(rng.integers(7))]
        return c

    def check(c):
        raises(lambda: kale.KDE(c['data'], kernel=c['bad']), "unknown kernel %r" % c['bad'])
        raises(lambda: kale.density(c['data'], points=c['data'][:, :1], kernel=c['bad']), "unknown kernel %r" % c['bad'])
        raises(lambda: kale.KDE(c['data'], kernel=3), "kernel 3")
        raises(lambda: kale.KDE(c['data'], kernel=lambda x: x), "function as kernel")
        raises(lambda: kale.KDE(c['data'], bandwidth=c['bw']), "unknown bandwidth rule %r" % c['bw'])
        if c['d'] > 1:
            b = [0.5] * (c['d'] - 1) + [c['bw']]
            raises(lambda: kale.KDE(c['data'], bandwidth=b), "unknown bandwidth rule %r" % b)
        accepts(lambda: kale.KDE(c['data'], kernel=c['kernel'].upper()) if 0 else kale.KDE(c['data'], kernel=c['kernel']), "kernel name")


@test(quick=240)
class BandwidthShape:
    def gen(rng, k):
        c = base(rng)
        d = c['d']
        shape = [(d + 1,), (d + 2,), (d, d + 1), (d + 1, d), (d + 1, d + 1), (d, d, d), (max(d - 1, 2) if d != 2 else 3,), (2, 2, 2)][k % 8]
        c['bw'] = rng.uniform(0.2, 1, shape)
        c['good'] = rng.uniform(0.2, 1, d)
        c['aslist'] = bool(k // 8 % 2)
        return c

    def check(c):
        b = c['bw'].tolist() if c['aslist'] else c['bw']
        d = c['d']
        if not (c['bw'].shape in ((d,), (d, d)) or c['bw'].size == 1):
            raises(lambda: kale.KDE(c['data'], bandwidth=b), "bandwidth of shape %s for %d dimensions" % (c['bw'].shape, d))
        g = c['good']
        a = kale.KDE(c['data'], bandwidth=g).density(c['data'])[1]
        for form in (g.tolist(), tuple(g.tolist()), np.diag(g), np.diag(g).tolist(), tuple(map(tuple, np.diag(g).tolist()))):
            v = accepts(lambda: kale.KDE(c['data'], bandwidth=form), "bandwidth %r" % (form,)).density(c['data'])[1]
            close(v, a, "bandwidth given as %s" % type(form).__name__, rtol=1e-7, atol=1e-9 * np.abs(a).max())


@test(quick=300)
class BadReflect:
    def gen(rng, k):
        c = base(rng)
        d = c['d']
        good = [None] * d
        lo, hi = c['data'].min(axis=1), c['data'].max(axis=1)
        s = hi - lo + 1e-6
        i = int(rng.integers(d))
        kind = ['order', 'equal', 'short', 'long', 'entry1', 'entry3', 'allorder', 'entryshape'][k % 8]
        pair = [float(lo[i] - s[i]), float(hi[i] + s[i])]
        if kind == 'order':
            good[i] = pair[::-1]
        elif kind == 'equal':
            good[i] = [pair[0], pair[0]]
        elif kind == 'short':
            if d < 3:
                return None
            good = [pair] + [None] * (d - 2)
        elif kind == 'long':
            good = [pair] + [None] * d if d > 1 else [pair, pair]
        elif kind == 'entry1':
            good[i] = [pair[0]]
        elif kind == 'entry3':
            good[i] = pair + [pair[1] + 1]
        elif kind == 'allorder':
            good = [[float(b), float(a)] for a, b in zip(lo - s, hi + s)]
        elif kind == 'entryshape':
            good[i] = [pair, pair]
        c.update(refl=good, kind=kind, form=int(rng.integers(3)))
        return c

    def check(c):
        r = c['refl']
        if c['form'] == 1:
            r = tuple(tuple(x) if isinstance(x, list) else x for x in r)
        raises(lambda: kale.KDE(c['data'], reflect=r), "reflect=%r" % (r,))
        kde = kale.KDE(c['data'])
        raises(lambda: kde.density(c['data'][:, :2], reflect=r), "density(reflect=%r)" % (r,))
        raises(lambda: kde.resample(5, reflect=r), "resample(reflect=%r)" % (r,))


@test(quick=200)
class BadPoints:
    def gen(rng, k):
        c = base(rng, dmin=1)
        d = c['d']
        m = int(rng.integers(1, 6))
        c['m'] = m
        c['wrong'] = [d + 1, d + 2, d - 1][k % 3] if d > 1 else d + 1 + k % 2
        if c['wrong'] == 1 and d > 1:
            c['wrong'] = d + 1
        return c

    def check(c):
        kde = kale.KDE(c['data'], kernel=c['kernel'])
        d, q, m = c['d'], c['wrong'], c['m']
        bad = np.ones((q, m + 1))
        raises(lambda: kde.density(bad), "points of %d dimensions for %d" % (q, d))
        raises(lambda: kde.pdf(bad), "points of %d dimensions for %d (pdf)" % (q, d))
        raises(lambda: kde.density(bad.tolist()), "points of %d dimensions for %d (list)" % (q, d))
        if d > 1:
            raises(lambda: kde.density(np.ones(m + 1)), "one-dimensional points for %d dimensions" % d)
            raises(lambda: kde.density(np.ones((d, m)), params=list(range(d - 1))), "points of %d dimensions for %d parameters" % (d, d - 1))
            raises(lambda: kde.density(np.ones((d - 1, m + 1)), params=list(range(d))), "points of %d dimensions for %d parameters" % (d - 1, d))
        raises(lambda: kde.density([np.arange(2.0 + i) for i in range(q)], grid=True), "grid of %d axes for %d dimensions" % (q, d))
        # containers
        p = c['data'][:, :3]
        a = kde.density(p)[1]
        for f in (p.tolist(), tuple(map(tuple, p.tolist())), [x for x in p]):
            close(accepts(lambda: kde.density(f), "points as %s" % type(f).__name__)[1], a, "points container", rtol=1e-12)
        g = [np.sort(x) for x in p]
        a = kde.density(g, grid=True)[1]
        for f in ([x.tolist() for x in g], tuple(tuple(x.tolist()) for x in g)):
            close(accepts(lambda: kde.density(f, grid=True), "grid as %s" % type(f).__name__)[1], a, "grid container", rtol=1e-12)


@test(quick=100)
class BadParams:
    def gen(rng, k):
        c = base(rng)
        return c

    def check(c):
        kde = kale.KDE(c['data'])
        d = c['d']
        p = np.ones((1, 3))
        raises(lambda: kde.density(p[0], params=d), "parameter %d of %d" % (d, d))
        raises(lambda: kde.density(p, params=[d + 1]), "parameter %d of %d" % (d + 1, d))
        a = kde.density(c['data'], params=None)[1]
        if d > 1:
            s = list(range(d))
            for f in (s, tuple(s), np.array(s)):
                close(accepts(lambda: kde.density(c['data'], params=f), "params %r" % (f,))[1], a, "container of params", rtol=1e-9)


@test(quick=150)
class BadSampleGrid:
    def gen(rng, k):
        d = int(rng.integers(1, 4))
        nb = [int(rng.integers(1, 5)) for _ in range(d)]
        edges = [gen_edges(rng, n) for n in nb]
        dens = rng.uniform(0.1, 1, [n + 1 for n in nb])
        mass = trapz_mass(dens, edges)
        i = int(rng.integers(d))
        return dict(edges=edges, dens=dens, mass=mass, i=i, d=d)

    def check(c):
        e, dens, mass, i, d = c['edges'], c['dens'], c['mass'], c['i'], c['d']
        worse = [dens[tuple(slice(0, s + (j == i) * 0) for j, s in enumerate(dens.shape))]]
        bad_edges = [x if j != i else np.append(x, x[-1] + 1) for j, x in enumerate(e)]
        raises(lambda: kale.sample_grid(bad_edges, dens, nsamp=5), "density that does not match the edges")
        raises(lambda: kale.sample_outliers(bad_edges, dens, 1.0, nsamp=5), "density that does not match the edges (outliers)")
        raises(lambda: kale.sample_grid(list(e) + [np.array([0.0, 1.0])], dens, nsamp=5), "edges of another dimension")
        if d > 1:
            raises(lambda: kale.sample_grid(e[:-1], dens, nsamp=5), "edges of a lower dimension")
        bad_mass = np.concatenate([mass, np.take(mass, [0], axis=i)], axis=i)
        raises(lambda: kale.sample_grid(e, dens, mass=bad_mass, nsamp=5), "mass that does not match the cells")
        raises(lambda: kale.sample_grid(e, dens, mass=np.concatenate([bad_mass, np.take(mass, [0], axis=i)], axis=i), nsamp=5), "mass that does not match the cells")
        # well formed, in every container
        for f in (lambda x: x, tuple, lambda x: [list(y) for y in x], lambda x: tuple(tuple(y) for y in x)):
            r = accepts(lambda: kale.sample_grid(f(e), dens, nsamp=4), "edges container")
            ok(np.shape(r)[-1] == 4, "number of samples")
        accepts(lambda: kale.sample_grid(e, dens.tolist(), nsamp=4), "density as a list")
        accepts(lambda: kale.sample_grid(e, dens, mass=mass.tolist(), nsamp=4), "mass as a list")


@test(quick=150)
class BadQuantiles:
    def gen(rng, k):
        n = int(rng.integers(2, 10))
        bad = [-0.1, 1.1, -1e-9, 1 + 1e-9, np.nan, 50.0, -np.inf][k % 7]
        return dict(v=rng.normal(size=n), bad=bad, w=rng.uniform(.1, 1, n), where=int(rng.integers(3)))

    def check(c):
        from kalepy import utils
        p = [0.2, 0.8]
        p.insert(c['where'], c['bad'])
        if not np.isnan(c['bad']):
            raises(lambda: utils.quantiles(c['v'], percs=p), "percentiles %r" % p)
            raises(lambda: utils.quantiles(c['v'], percs=np.array(p), weights=c['w']), "percentiles %r" % p)
            raises(lambda: utils.quantiles(c['v'], percs=[c['bad']]), "percentiles %r" % p)
        raises(lambda: utils.quantiles(c['v'], percs=[0.5], weights=c['w'][:-1]), "weights of another length")
        raises(lambda: utils.quantiles(c['v'], percs=[0.5], weights=np.append(c['w'], 1.0)), "weights of another length")
        v2 = np.stack([c['v'], c['v'] + 1])
        raises(lambda: utils.quantiles(v2, percs=[0.5], weights=np.ones((2, v2.shape[1] + 1)), axis=-1), "weights of another length along an axis")
        for f in ([0.0, 0.5, 1.0], (0.0, 0.5, 1.0), np.array([0.0, .5, 1.0])):
            q = accepts(lambda: utils.quantiles(c['v'], percs=f, weights=c['w']), "percentiles")
            ok(np.shape(q) == (3,), "one quantile for each fraction")
        accepts(lambda: utils.quantiles(c['v'].tolist(), percs=[0.5], weights=c['w'].tolist()), "lists")


@test(quick=120)
class BadEdges:
    def gen(rng, k):
        d = int(rng.integers(2, 4))
        n = int(rng.integers(4, 15))
        return dict(data=gen_data(rng, d, n), d=d, k=k)

    def check(c):
        from kalepy import utils
        d, data = c['d'], c['data']
        raises(lambda: utils.parse_edges(data, edges=[[0.0, 1.0]] * (d + 1)), "edges for another number of dimensions")
        raises(lambda: utils.parse_edges(data, edges=5, extrema=[[-1e9, 1e9]] * (d + 1)), "extrema for another number of dimensions")
        raises(lambda: utils.parse_edges(data, edges=5, extrema=[0.0, 1.0, 2.0, 3.0, 4.0]), "extrema that are no pair")
        accepts(lambda: utils.parse_edges(data, edges=[5] * d), "counts")
        accepts(lambda: utils.parse_edges(data.tolist(), edges=tuple([5] * d)), "counts, lists")


@test(quick=120)
class BadMassShape:
    def gen(rng, k):
        d = int(rng.integers(1, 4))
        nb = [int(rng.integers(1, 5)) for _ in range(d)]
        edges = [gen_edges(rng, n) for n in nb]
        return dict(edges=edges, dens=rng.uniform(0.1, 1, [n + 1 for n in nb]), i=int(rng.integers(d)), d=d)

    def check(c):
        from kalepy import utils
        e, dens, i = c['edges'], c['dens'], c['i']
        m = trapz_mass(dens, e)
        short = [x if j != i else np.append(x, x[-1] + 1) for j, x in enumerate(e)]
        raises(lambda: utils.trapz_dens_to_mass(dens, short), "density that does not match the edges")
        raises(lambda: utils.trapz_dens_to_mass(dens, list(e) + [np.array([0., 1.])]), "edges of another dimension")
        close(accepts(lambda: utils.trapz_dens_to_mass(dens, tuple(e)), "tuple of edges"), m, "mass", rtol=1e-9)
        close(accepts(lambda: utils.trapz_dens_to_mass(dens.tolist(), [x.tolist() for x in e]), "lists"), m, "mass", rtol=1e-9)


@test(quick=100)
class WellFormed:
    """containers of data, weights, boundaries"""
    def gen(rng, k):
        c = base(rng)
        c['refl'] = gen_reflect(rng, c['data'])
        return c

    def check(c):
        kw = dict(weights=c['w'], reflect=c['refl'], kernel=c['kernel'], bandwidth=0.6)
        d = c['data']
        a = kale.KDE(d, **kw).density(d)[1]
        t = lambda x: tuple(t(y) for y in x) if isinstance(x, list) else x
        for name, args in [('data', dict(kw, dataset=d.tolist())), ('data', dict(kw, dataset=t(d.tolist()))), ('data', dict(kw, dataset=[x for x in d])),
                           ('weights', dict(kw, dataset=d, weights=c['w'].tolist())), ('weights', dict(kw, dataset=d, weights=tuple(c['w'].tolist()))),
                           ('reflect', dict(kw, dataset=d, reflect=t(c['refl'])))]:
            v = accepts(lambda: kale.KDE(**args), "container of %s" % name).density(d)[1]
            close(v, a, "container of %s" % name, rtol=1e-9, atol=1e-12 * np.abs(a).max())
        iw = np.arange(1, c['n'] + 1)
        a = kale.KDE(d, **dict(kw, weights=iw.astype(float))).density(d)[1]
        v = accepts(lambda: kale.KDE(d, **dict(kw, weights=iw)), "integer weights").density(d)[1]
        close(v, a, "integer weights", rtol=1e-9, atol=1e-12 * np.abs(a).max())
