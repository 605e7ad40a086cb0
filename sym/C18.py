"""Contracts for automatic edges and extrema (utils.parse_edges, _get_edges_1d, _guess_edges, _parse_extrema; kde.KDE)."""
from pydv.spec import spec
from kern import spd
from kdec import quiet, datum, dataset


def guess_contract(E):
    """contract of _guess_edges ('guess'): a number of bins within the given limits and a positive width"""
    seen = []

    def contract(data, extrema=None, ndim=None, weights=None, num_min=None, num_max=None, refine=1.0, bw=None):
        t = len(seen)
        N = E.int('guess%d' % t, 1 if num_min is None else num_min, num_max)
        w = E.real('width%d' % t, pos=True)
        seen.append((N, w))
        return N, w, extrema
    if not E.concrete:
        E.stub('utils._guess_edges', contract)
    return seen


def guess(E, weights, ndim, lim, bw, extr):
    n = E.dim('n', 2)
    data = E.array('data', n)
    w = E.array('w', n, nonneg=True) if weights else None
    if weights:
        E.assume(w.at((E.idx(n),)) > 0)
    lo, hi = E.real('lo'), E.real('hi')
    E.assume(lo < hi)
    nmin, nmax = lim
    kw = dict(refine=2.0)
    if bw:
        kw['bw'] = E.real('bw', pos=True)
    if not E.concrete:
        E.stub('utils.iqrange', lambda data, log=False, weights=None: E.real('iqr'))
    if weights:
        W, W2 = E.sum(n, lambda j: w.at((j,))), E.sum(n, lambda j: w.at((j,)) * w.at((j,)))
        E.assume(W > 0)
        E.assume(W2 > 0)
        E.assume(W * W >= W2)                   # sum of the weights is positive: (sum w)^2 - sum w^2 = sum of w_i w_j >= 0
    r = E.call('utils._guess_edges', data, extrema=[lo, hi], weights=w, ndim=ndim, num_min=nmin, num_max=nmax, **kw)
    E.prove('positive width', r[1] > 0)
    E.prove('number of bins', r[0] >= (nmin or 1))
    if nmax:
        E.prove('number of bins within limits', r[0] <= nmax)
    E.eq('extrema', r[2][0], lo)
    E.eq('extrema', r[2][1], hi)
    E.unchanged('frame', data, *([w] if weights else []))


def even(E, name, e, lo, hi, count):
    """strictly increasing, evenly spaced edges from lo to hi"""
    e = E.asarr(e)
    E.shape_is(name + ': edges', e, [count + 1])
    i = E.idx(count)
    E.eq(name + ': first edge', e.at((0,)), lo)
    E.eq(name + ': last edge', e.at((count,)), hi)
    E.eq(name + ': even spacing', (e.at((i + 1,)) - e.at((i,))) * count, hi - lo)
    E.prove(name + ': increasing', e.at((i + 1,)) > e.at((i,)))


def extent(E, k, c, n, x):
    """extrema entry: b both, l lower, u upper, n None, e [None, None] -> argument, wanted lower, upper (None: of the data)"""
    lo = E.real('lo%d' % k) if c in 'bl' else None
    hi = E.real('hi%d' % k) if c in 'bu' else None
    return (None if c == 'n' else [lo, hi]), lo, hi


def fill(E, w, n, x):
    """lower and upper extremum with missing sides filled from the data"""
    lo, hi = w
    if E.concrete:
        v = [x(j) for j in range(n)]
        return (min(v) if lo is None else lo), (max(v) if hi is None else hi)
    if lo is None:
        lo = E.np.min(E.build((n,), x))
    if hi is None:
        hi = E.np.max(E.build((n,), x))
    return lo, hi


def requested(E, D, kinds, count, form='list'):
    """edges run exactly between the requested extrema"""
    n = E.dim('n', 1)
    data = E.array('data', (D, n))
    x = lambda a: (lambda j: data.at((a, j)))
    if form == 'common':
        a0, lo, hi = extent(E, 0, kinds, n, None)
        arg, w = a0, [(lo, hi)] * D
    else:
        es = [extent(E, k, c, n, None) for k, c in enumerate(kinds)]
        arg, w = [e[0] for e in es], [(e[1], e[2]) for e in es]
        if form == 'tuple':
            arg = tuple(tuple(a) if a else a for a in arg)
    full = [fill(E, w[a], n, x(a)) for a in range(D)]
    for lo, hi in full:
        E.assume(lo < hi)
    seen = guess_contract(E)
    if count == 'none':
        edges = None
    elif count == 'one':
        edges = E.int('count', 1, 6 if E.concrete else None)
    else:
        edges = [E.int('count%d' % a, 1, 6 if E.concrete else None) for a in range(D)]
    got = E.call('utils.parse_edges', data, edges=edges, extrema=arg)
    E.prove('edges of each dimension', len(got) == D)
    for a in range(D):
        c = edges if count == 'one' else edges[a] if count == 'each' else seen[a][0] if not E.concrete else len(got[a]) - 1
        even(E, 'edges', got[a], full[a][0], full[a][1], c)
    E.unchanged('frame', data)


def default(E, D, count, flat):
    """without extrema all data are enclosed"""
    n = E.dim('n', 2)
    data = E.array('data', n if flat else (D, n))
    x = lambda a: (lambda j: data.at((j,) if flat else (a, j)))
    for a in range(D):
        E.assume(x(a)(0) < x(a)(1))
    seen = guess_contract(E)
    edges = None if count == 'none' else E.int('count', 2, 6 if E.concrete else None)
    got = E.call('utils.parse_edges', data, edges=edges)
    if flat:
        got = [got]
    E.prove('edges of each dimension', len(got) == D)
    for a in range(D):
        e = E.asarr(got[a])
        c = edges if edges is not None else seen[a][0] if not E.concrete else len(got[a]) - 1
        i = E.idx(n)
        E.prove('data above the first edge', e.at((0,)) <= x(a)(i))
        E.prove('data below the last edge', e.at((c,)) >= x(a)(i))
        even(E, 'edges', e, e.at((0,)), e.at((c,)), c)
    E.unchanged('frame', data)


def explicit(E, D, form):
    """given edges are used unchanged"""
    n = E.dim('n', 1)
    data = E.array('data', (D, n))
    guess_contract(E)
    m = [E.dim('m%d' % a, 2) for a in range(D)]
    es = [E.array('e%d' % a, m[a], inc=True) for a in range(D)]
    if form == 'common':
        E.assume(m[0] != D)
        arg = es[0]
    elif form == 'mixed':
        arg = [es[0]] + [4] * (D - 1)
    else:
        arg = list(es)
    got = E.call('utils.parse_edges', data, edges=arg)
    E.prove('edges of each dimension', len(got) == D)
    for a in range(D):
        g = E.asarr(got[a])
        if form == 'mixed' and a > 0:
            E.shape_is('given count', g, [5])
            continue
        b = 0 if form == 'common' else a
        E.shape_is('given edges', g, [m[b]])
        i = E.idx(m[b])
        E.eq('given edges', g.at((i,)), es[b].at((i,)))
    E.unchanged('frame', data, *es)


def estimator(E, D, kinds, key, kernel, weights=False):
    """extrema of an estimator: the data and the extent of the kernel, replaced by given boundaries or extrema; its points span them"""
    quiet(E)
    n, data = dataset(E, D, lo=4)
    x = lambda a: (lambda j: datum(data, a, j, D))
    w = E.array('w', n, nonneg=True) if weights else None
    N = n
    if weights:
        W, W2 = E.sum(n, lambda j: w.at((j,))), E.sum(n, lambda j: w.at((j,)) * w.at((j,)))
        E.assume(W > 0)
        E.assume(W2 > 0)
        N = W * W / W2
        E.assume(N > 2)
    cov = spd(E, D, 'cov')
    bw = E.real('bw', pos=True)
    es = [extent(E, k, c, n, None) for k, c in enumerate(kinds)]
    for k, e in enumerate(es):
        if e[1] is not None and e[2] is not None:
            E.assume(e[1] < e[2])
        elif e[1] is not None:
            E.assume(e[1] < x(k)(0))
        elif e[2] is not None:
            E.assume(e[2] > x(k)(0))
    kw = {key: [e[0] for e in es]} if key else {}
    if weights:
        kw['weights'] = w
    seen = guess_contract(E)
    k = E.call('kde.KDE', data, bandwidth=bw, covariance=E.asarr(cov), kernel=kernel, helper=False, **kw)
    ext = k.extrema
    pts = k.points
    E.under('kde.KDE.__init__', 'kde.KDE.points', 'kde.KDE.extrema')
    if D == 1:
        pts = [pts]
    E.prove('points of each dimension', len(pts) == D)
    q = E.ppf(1 - 1 / N)
    for a in range(D):
        h = E.sqrt(cov[a][a] * bw * bw)
        lo, hi = ext[a][0], ext[a][1]
        i = E.idx(n)
        for side, given in ((0, es[a][1] if key else None), (1, es[a][2] if key else None)):
            v = (lo, hi)[side]
            if given is not None:
                E.eq('given extremum', v, given)
                continue
            reach = (x(a)(i) - v) if side == 0 else (v - x(a)(i))
            if kernel == 'gaussian':
                E.prove('beyond the data by the extent of the kernel', reach >= h * q)
                E.prove('beyond the data', reach > 0)
                far = lambda j: (x(a)(j) - v if side == 0 else v - x(a)(j)) <= h * q * 2
            else:
                E.prove('beyond the data by the extent of the kernel', reach >= h)
                far = lambda j: (x(a)(j) - v if side == 0 else v - x(a)(j)) <= h * 2
            E.prove('not further than twice that', E.any(n, far))
        c = seen[a][0] if not E.concrete else len(pts[a]) - 1
        even(E, 'points', pts[a], lo, hi, c)
    E.unchanged('frame', data)


for weights in (False, True):
    for ndim, lim, bw in ((1, (5, 1000), True), (None, (None, None), False), (2, (3, 200), True), (3, (5, 1000), False)):
        spec('C18', 'guess%s %s %s' % (' weighted' if weights else '', ndim, lim), weights=weights, ndim=ndim, lim=lim, bw=bw, extr=None, budget=30.0)(guess)
for D, kk in ((1, 'b l u n e'.split()), (2, 'bb bl un eb'.split()), (3, ['bnl', 'ube'])):
    for kinds in kk:
        for count in ('none', 'one', 'each'):
            spec('C18', 'requested %s %s' % (kinds, count), D=D, kinds=kinds, count=count, budget=30.0)(requested)
    spec('C18', 'requested %s tuples' % kk[0], D=D, kinds=kk[0], count='one', form='tuple', budget=30.0)(requested)
    for c in 'blu':
        if D > 1:
            spec('C18', 'requested common %s %dD' % (c, D), D=D, kinds=c, count='one', form='common', budget=30.0)(requested)
    for count in ('none', 'one'):
        for flat in (False, True):
            if D == 1 or not flat:
                spec('C18', 'default %dD %s%s' % (D, count, ' flat' if flat else ''), D=D, count=count, flat=flat, budget=30.0)(default)
    for form in ('each', 'common', 'mixed'):
        spec('C18', 'given edges %dD %s' % (D, form), D=D, form=form, budget=30.0)(explicit)
for D, kk in ((1, ['n', 'b', 'l', 'u']), (2, ['bn', 'lu'])):
    for kinds in kk:
        for key in ((None,) if kinds == 'n' else ('extrema', 'reflect')):
            for kernel in ('gaussian', 'box'):
                spec('C18', 'estimator %s %s %s' % (kinds, key, kernel), D=D, kinds=kinds, key=key, kernel=kernel, budget=30.0)(estimator)
    spec('C18', 'estimator weighted %dD' % D, D=D, kinds=kk[0], key='extrema', kernel='gaussian', weights=True, budget=30.0)(estimator)
