"""Contracts for the probability form of the density and for the module-level functions."""
from pydv.spec import spec
from kern import spd, kernel_sums, ref_sum
from kdec import quiet, datum, dataset, estimator, kernel_density


def total(E, n, w):
    return E.sum(n, lambda j: w.at((j,))) if w is not None else n


def probability(E, D, weights, how, params=None, grid=False):
    """probability times total weight is the density of the kernel"""
    n, data, w, cov, bw, k = estimator(E, D, weights, helper=False)
    q = D if params is None else len(params)
    if grid:
        m = [E.dim('m%d' % a, 1) for a in range(q)]
        pts = [E.array('p%d' % a, m[a]) for a in range(q)]
    else:
        m = [E.dim('m', 1)]
        pts = E.array('pts', m[0] if q == 1 else (q, m[0]))
    seen = []
    kernel_density(E, seen)
    kw = dict(params=params, grid=grid)
    plain = E.asarr(E.call(k.density, pts, **kw)[1])
    if how == 'pdf':
        v = E.asarr(E.call(k.pdf, pts, **kw)[1])
    else:
        v = E.asarr(E.call(k.density, pts, probability=True, **kw)[1])
    E.under('kde.KDE.density', 'kde.KDE.pdf')
    E.shape_is('shape of the density', plain, m)
    E.shape_is('shape of the probability', v, m)
    i = tuple(E.idx(a) for a in m)
    t = total(E, n, w)
    E.prove('positive total', t > 0)
    if E.concrete:
        E.eq('probability is density over total weight', v.at(i) * t, plain.at(i))
    else:
        E.prove('two densities', len(seen) == 2)
        a, b = seen
        f = E.flat(m, i)
        E.eq('density', plain.at(i), a['z'].at((f,)))
        E.eq('probability is density over total weight', v.at(i) * t, b['z'].at((f,)))
        for c in seen:
            E.prove('kernel of the estimator', c['kernel'] is k.kernel)
            x = E.idx(n)
            if w is None:
                E.prove('no weights', c['weights'] is None)
            else:
                E.shape_is('all weights', c['weights'], [n])
                E.eq('the weights', c['weights'].at((x,)), w.at((x,)))
        N = 1
        for r in m:
            N = N * r
        g = E.idx(N)
        for c in range(q):
            E.eq('same points', a['points'].at((c, g)), b['points'].at((c, g)))
            E.eq('same data', a['data'].at((c, x)), b['data'].at((c, x)))
        E.prove('same dimensions', (a['params'] is None) == (b['params'] is None))
    E.unchanged('frame', data, *([w] if weights else []))


for D in (1, 2):
    for weights in (False, True):
        for how in ('pdf', 'flag'):
            spec('C04', 'probability %dD %s%s' % (D, how, ' weighted' if weights else ''), D=D, weights=weights, how=how, budget=30.0)(probability)
        spec('C04', 'probability on a grid %dD%s' % (D, ' weighted' if weights else ''), D=D, weights=weights, how='pdf', grid=True, budget=30.0)(probability)
    spec('C04', 'probability of parameters %d' % D, D=3, weights=True, how='pdf', params=[2, 0][:D], budget=30.0)(probability)


def scale(E, D, what, kw):
    """multiplying the weights by a constant changes nothing; equal weights are as no weights"""
    quiet(E)
    n, data = dataset(E, D)
    c = E.real('c', pos=True)
    cov = spd(E, D, 'cov')
    kw = dict(kw, covariance=E.asarr(cov), helper=False)
    if kw.get('bandwidth') == 0:
        kw['bandwidth'] = E.real('bw', pos=True)
    if what == 'scaled':
        w1 = E.array('w', n, nonneg=True)
        E.assume(E.sum(n, lambda j: w1.at((j,))) > 0)
        w2 = E.build((n,), lambda j: c * w1.at((j,)))
    else:
        w1, w2 = None, E.build((n,), lambda j: c)
    box = []
    kernel_sums(E, D, box)
    m = E.dim('m', 1)
    pts = E.array('pts', m if D == 1 else (D, m))
    r = []
    if w1 is not None:
        s1 = E.sum(n, lambda j: w1.at((j,)))
        E.lemma('total of the scaled weights', E.close(E.sum(n, lambda j: c * w1.at((j,))), c * s1))
    for w in (w1, w2):
        k = E.call('kde.KDE', data, weights=w, **kw)
        r.append(E.asarr(E.call(k.pdf, pts)[1]))
    E.under('kde.KDE.density', 'kde.KDE.pdf', 'kernels.Kernel.density')
    i = E.idx(m)
    for v in r:
        E.shape_is('one value per point', v, [m])
    E.eq('the same probability density', r[0].at((i,)), r[1].at((i,)))


for D in (1, 2):
    for what in ('scaled', 'uniform'):
        for nm, kw in (('bandwidth given', dict(bandwidth=0)), ('scott', {}), ('silverman', dict(bandwidth='silverman'))):
            if D == 2 and kw != dict(bandwidth=0):
                continue
            spec('C04', '%s weights %dD %s' % (what, D, nm), D=D, what=what, kw=kw, budget=30.0)(scale)


def module(E, func, D, kw):
    """density, pdf and resample of the package build the estimator from the same options and call its method"""
    n, data = dataset(E, D, lo=4)
    w = E.array('w', n, nonneg=True)
    E.assume(E.sum(n, lambda j: w.at((j,))) > 0)
    cov = E.asarr(spd(E, D, 'cov'))
    m = E.dim('m', 1)
    pts = E.array('pts', m if D == 1 else (D, m))
    lo, hi = E.real('lo'), E.real('hi')
    E.assume(lo < hi)
    if E.concrete and func == 'resample':
        # boundaries around the data (resampling needs some mass inside of them)
        x = [float(datum(data, 0, j, D)) for j in range(n)]
        lo, hi = min(x) - 0.01 - abs(lo), max(x) + 0.01 + abs(hi)
    refl = [[lo, hi]] + [None] * (D - 1)
    init = dict(weights=w, reflect=refl, covariance=cov, bandwidth=0.5, kernel='box')
    # on sampled inputs the covariance is always given (repeated data have none of their own)
    init = {a: b for a, b in init.items() if a in kw['init'] or E.concrete and a == 'covariance'}
    call = {a: b for a, b in dict(points=pts, probability=True, grid=False, params=[0], size=7, keep=[0] if D > 1 else None).items() if a in kw['call']}
    if 'params' in call and 'points' in call:
        call['points'] = E.array('pts1', m)
    if E.concrete:
        import numpy as np
        if 'size' in call or func == 'resample':
            np.random.seed(5)
            got = E.call('kalepy.resample', data, **init, **call)
            np.random.seed(5)
            want = E.call(E.call('kde.KDE', data, **init).resample, **call)
            E.prove('same', np.shape(got) == np.shape(want) and np.allclose(got, want))
            return
        got = E.call('kalepy.' + func, data, **init, **call)
        want = E.call(getattr(E.call('kde.KDE', data, **init), func), **call)
        E.prove('same values', np.shape(got[1]) == np.shape(want[1]) and np.allclose(got[1], want[1]))
        E.prove('same points', all(np.allclose(a, b) for a, b in zip(got[0], want[0])))
        return
    log = []
    out = object()

    class Made:
        def density(self, points=None, reflect=None, params=None, grid=False, probability=False):
            log.append(('density', dict(points=points, reflect=reflect, params=params, grid=grid, probability=probability)))
            return ('points', out)

        def pdf(self, points=None, reflect=None, params=None, grid=False, probability=True):
            return self.density(points, reflect, params, grid, True)

        def resample(self, size=None, keep=None, reflect=None, squeeze=True):
            log.append(('resample', dict(size=size, keep=keep, reflect=reflect, squeeze=squeeze)))
            return out

    made = Made()

    def KDE(dataset, bandwidth=None, weights=None, kernel=None, extrema=None, points=None, reflect=None, covariance=None,
            neff=None, diagonal=False, helper=True, bw_rescale=None, **kwargs):
        log.append(('init', dict(dataset=dataset, bandwidth=bandwidth, weights=weights, kernel=kernel, extrema=extrema, points=points,
                                 reflect=reflect, covariance=covariance, neff=neff, diagonal=diagonal, bw_rescale=bw_rescale, **kwargs)))
        return made
    E.stub('kalepy.KDE', KDE)
    got = E.call('kalepy.' + func, data, **init, **call)
    E.prove('one estimator, one call', [a for a, _ in log] == ['init', 'resample' if func == 'resample' else 'density'])
    E.prove('its result is returned', got is out if func == 'resample' else tuple(got) == ('points', out))
    full = dict(dataset=data, bandwidth=None, weights=None, kernel=None, extrema=None, points=None, reflect=None, covariance=None, neff=None,
                diagonal=False, bw_rescale=None)
    full.update(init)
    for a, b in log[0][1].items():
        E.prove('estimator option ' + a, a in full and (b is full[a] or type(b) in (bool, str, float, int) and b == full[a]))
    if func == 'resample':
        full = dict(size=None, keep=None, reflect=None, squeeze=True)
    else:
        full = dict(points=None, reflect=None, params=None, grid=False, probability=(func == 'pdf'))
    full.update(call)
    for a, b in log[1][1].items():
        ok = b is full[a] or type(b) in (bool, int) and b == full[a] or a == 'reflect' and (b is None or b is init.get('reflect'))
        E.prove('option ' + a, ok)


ALL = ['weights', 'reflect', 'covariance', 'bandwidth', 'kernel']
for name in ('density', 'pdf', 'resample'):
    for D in (1, 2):
        for nm, init in (('plain', []), ('weights', ['weights']), ('reflect', ['reflect']), ('options', ALL)):
            if name == 'resample':
                calls = ([], ['size']) + ((['size', 'keep'],) if D > 1 and 'reflect' not in init else ())
            else:
                calls = (['points'], ['points', 'grid', 'params']) + ((['points', 'probability'],) if name == 'density' else ())
            for c in calls:
                spec('C04', 'module %s %dD %s %s' % (name, D, nm, '+'.join(c)), func=name, D=D, kw=dict(init=init, call=c))(module)
