"""Contracts for resampling without boundaries (utils.add_cov; kernels.Kernel.resample, _resample_clear; kde.KDE.resample; kalepy.resample).

The random number generator is assumed to return independent draws of the named law; draws of the kernel are those of C11."""
from pydv.spec import spec
from kern import spd
from kdec import quiet, dataset, datum


def coloured(E, D):
    """add_cov is a linear map A of the draws with A A^T the given matrix"""
    m = E.dim('m', 1)
    cov = spd(E, D, 'cov')
    z = E.array('z', (D, m))
    M = E.asarr(cov)
    r = E.asarr(E.call('utils.add_cov', z, M))
    one = E.asarr([[1.0 if a == b else 0.0 for b in range(D)] for a in range(D)])
    A = E.asarr(E.call('utils.add_cov', one, M))
    E.shape_is('shape', r, [D, m])
    E.shape_is('shape of the map', A, [D, D])
    i = E.idx(m)
    for a in range(D):
        t = 0
        for b in range(D):
            t = t + A.at((a, b)) * z.at((b, i))
        E.eq('linear in the draws', r.at((a, i)), t)
        for b in range(a, D):
            t = 0
            for c in range(D):
                t = t + A.at((a, c)) * A.at((b, c))
            E.eq('covariance shape of the noise', t, cov[a][b])
    E.unchanged('frame', z, M)


def noise(E, D):
    """contracts of sample (C11: as many draws of the kernel as requested) and add_cov ('colour') -> record of the calls"""
    box = dict(sample=[], colour=[])
    if E.concrete:
        f0 = E.fn('kernels._Distribution').__dict__['sample'].__func__
        g0 = E.fn('utils.add_cov')

        def f(self, size, ndim=None, squeeze=None):
            r = f0(type(self), size, ndim=ndim, squeeze=squeeze)
            box['sample'].append(dict(size=size, ndim=ndim, squeeze=squeeze, out=E.asarr(r).copy(), by=self))
            return r

        def g(data, cov):
            r = g0(data, cov)
            box['colour'].append(dict(data=E.asarr(data).copy(), cov=E.asarr(cov).copy(), out=E.asarr(r).copy()))
            return r
    else:
        def f(self, size, ndim=None, squeeze=None):
            q = 1 if ndim is None else ndim
            if q != D:
                E.cannot('draws of another dimension')
            o = E.array('draw%d' % len(box['sample']), (D, size))
            box['sample'].append(dict(size=size, ndim=ndim, squeeze=squeeze, out=o, by=self))
            if D == 1 and squeeze is not False:
                return o[0].copy()
            return o.copy()

        def g(data, cov):
            d, c = E.asarr(data), E.asarr(cov)
            m = E.np.shape(d)[1]
            o = E.array('noise%d' % len(box['colour']), (D, m))
            box['colour'].append(dict(data=d.copy(), cov=c.copy(), out=o))
            return o.copy()
    E.stub('kernels._Distribution.sample', f)
    E.stub('utils.add_cov', g)
    return box


def drawn(E, D, r, m, x, n, w, cov, keep, box, kernel=None):
    """r is (coordinate, draw) -> value"""
    if len(box['sample']) != 1 or len(box['colour']) != 1:
        E.cannot('noise drawn in another way')
    s, c = box['sample'][0], box['colour'][0]
    ch = E.events('choice')
    if len(ch) != 1:
        E.cannot('data chosen in another way')
    ch = ch[0]
    E.eq('a draw of the kernel for every point', s['size'], m)
    if kernel is not None:
        E.prove('draws of the kernel of the estimator', isinstance(s['by'], E.fn('kernels.%s' % kernel)))
    E.shape_is('independent draws', E.asarr(ch['out']), [m])
    E.eq('chosen among all data', ch['n'], n)
    E.prove('independent choices', ch.get('replace', True) is True)
    p = ch.get('p')
    j = E.idx(n)
    if w is None:
        if p is not None:
            E.eq('probability', E.asarr(p).at((j,)) * n, 1)
    else:
        E.prove('probability given', p is not None)
        E.shape_is('probability of every datum', E.asarr(p), [n])
        E.eq('probability', E.asarr(p).at((j,)) * E.sum(n, lambda k: w.at((k,))), w.at((j,)))
    i = E.idx(m)
    k = E.asarr(ch['out']).at((i,))
    if w is not None:
        E.prove('no datum without weight', w.at((k,)) > 0)
    for a in range(D):
        for b in range(D):
            E.eq('smoothing matrix', c['cov'].at((a, b)), cov[a][b])
        E.eq('noise of the draws of the kernel', c['data'].at((a, i)), (s['out'].at((a, i)) if len(E.np.shape(s['out'])) == 2 else s['out'].at((i,))))
        v = r(a, i)
        if a in keep:
            if E.concrete:
                E.prove('value of the chosen datum', v == x(a, k))
            else:
                E.eq('value of the chosen datum', v, x(a, k))
        else:
            E.eq('chosen datum plus noise', v, x(a, k) + c['out'].at((a, i)))


KEEP = {'none': None, 'no': False, 'first': 0, 'last': 'last', 'list': [0], 'all': True, 'every': 'every', 'reversed': 'reversed', 'array': 'array'}


def keeps(E, keep, D):
    """argument, dimensions"""
    if keep in ('none', 'no'):
        return KEEP[keep], []
    if keep == 'first':
        return 0, [0]
    if keep == 'last':
        return D - 1, [D - 1]
    if keep == 'list':
        return [0], [0]
    if keep == 'all':
        return True, list(range(D))
    if keep == 'every':
        return list(range(D)), list(range(D))
    if keep == 'reversed':
        return list(range(D))[::-1][:max(1, D - 1)], list(range(D))[::-1][:max(1, D - 1)]
    return E.const([D - 1], kind='i'), [D - 1]


def kernel(E, D, weights, keep, size, squeeze):
    """Kernel.resample"""
    n = E.dim('n', 1)
    data = E.array('data', (D, n))
    w = E.array('w', n, nonneg=True) if weights else None
    if weights:
        E.assume(E.sum(n, lambda j: w.at((j,))) > 0)
    cov, h = spd(E, D, 'cov'), E.real('h', pos=True)
    box = noise(E, D)
    K = E.call('kernels.Kernel', E.fn('kernels.Box'), h, E.asarr(cov))
    arg, ks = keeps(E, keep, D)
    m = n if size == 'default' else E.dim('m', 1)
    kw = {} if size == 'default' else dict(size=m)
    if squeeze is not None:
        kw['squeeze'] = squeeze
    r = E.asarr(E.call(K.resample, data, weights=w, keep=arg, **kw))
    E.under('kernels.Kernel.resample', 'kernels.Kernel._resample_clear')
    flat = D == 1 and squeeze is not False
    E.shape_is('as many points as requested', r, [m] if flat else [D, m])
    M = [[c * h * h for c in row] for row in cov]
    drawn(E, D, (lambda a, i: r.at((i,)) if flat else r.at((a, i))), m, lambda a, j: data.at((a, j)), n, w, M, ks, box, 'Box')
    E.unchanged('frame', data, *([w] if weights else []))


def estimator(E, D, weights, keep, size, squeeze, how, kernel):
    """KDE.resample, kalepy.resample"""
    quiet(E)
    n, data = dataset(E, D)
    w = E.array('w', n, nonneg=True) if weights else None
    if weights:
        E.assume(E.sum(n, lambda j: w.at((j,))) > 0)
    cov, h = spd(E, D, 'cov'), E.real('h', pos=True)
    box = noise(E, D)
    arg, ks = keeps(E, keep, D)
    m = n if size == 'default' else E.dim('m', 1)
    kw = {} if size == 'default' else dict(size=m)
    if keep != 'none':
        kw['keep'] = arg
    if how == 'function':
        r = E.call('kalepy.resample', data, weights=w, kernel=kernel, bandwidth=h, covariance=E.asarr(cov), **kw)
    else:
        if squeeze is not None:
            kw['squeeze'] = squeeze
        k = E.call('kde.KDE', data, weights=w, kernel=kernel, bandwidth=h, covariance=E.asarr(cov), helper=False,
                   **(dict(reflect=[[None, None]] * D) if how == 'switched off' else {}))
        if how in ('off', 'switched off'):
            kw['reflect'] = False
        r = E.call(k.resample, **kw)
    E.under('kde.KDE.resample', 'kernels.Kernel.resample', 'kernels.Kernel._resample_clear')
    r = E.asarr(r)
    flat = D == 1 and squeeze is not False
    E.shape_is('as many points as requested', r, [m] if flat else [D, m])
    M = [[c * h * h for c in row] for row in cov]
    drawn(E, D, (lambda a, i: r.at((i,)) if flat else r.at((a, i))), m, lambda a, j: datum(data, a, j, D), n, w, M, ks, box,
          {'gaussian': 'Gaussian', 'box': 'Box', 'Triweight': 'Triweight'}[kernel])
    E.unchanged('frame', data, *([w] if weights else []))


for D in (1, 2, 3, 4):
    spec('C09', 'colour %dD' % D, D=D, budget=40.0)(coloured)
for D in (1, 2, 3):
    for weights in (False, True):
        for keep in KEEP:
            spec('C09', 'kernel %dD keep %s%s' % (D, keep, ' weighted' if weights else ''), D=D, weights=weights, keep=keep, size='given', squeeze=None)(kernel)
        spec('C09', 'kernel %dD default size%s' % (D, ' weighted' if weights else ''), D=D, weights=weights, keep='none', size='default', squeeze=None)(kernel)
        spec('C09', 'kernel %dD not squeezed%s' % (D, ' weighted' if weights else ''), D=D, weights=weights, keep='first', size='given', squeeze=False)(kernel)
        for k, (keep, how, size, squeeze) in enumerate((('none', 'method', 'given', None), ('none', 'method', 'default', None), ('last', 'method', 'given', False),
                                                        ('all', 'method', 'given', True), ('reversed', 'off', 'given', None), ('none', 'switched off', 'given', None),
                                                        ('none', 'function', 'default', None), ('list', 'function', 'given', None))):
            spec('C09', 'estimator %dD %s %s %s %s%s' % (D, how, keep, size, squeeze, ' weighted' if weights else ''), D=D, weights=weights, keep=keep, how=how, size=size,
                 squeeze=squeeze, kernel=('gaussian', 'box', 'Triweight')[k % 3])(estimator)
