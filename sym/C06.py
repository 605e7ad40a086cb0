"""Contracts for grid, pointwise and automatic evaluation."""
from pydv.spec import spec
from kern import ref_sum
from kdec import datum, estimator, kernel_density


def values(E, name, v, m, coord, sel, ctx, seen, scale=1):
    """v has shape m and its value at i is that of pointwise evaluation at coord(i), of the dimensions sel"""
    n, data, w, cov, bw, k, D = ctx
    E.shape_is(name + ': one value per point', v, m)
    i = tuple(E.idx(a) for a in m)
    x = coord(i)
    q = len(sel)
    if E.concrete:
        M = [[cov[a][b] * bw * bw for b in sel] for a in sel]
        X = [[datum(data, a, j, D) for j in range(n)] for a in sel]
        E.eq(name, v.at(i) * scale, ref_sum(E, 'Gaussian', M, x, X, w, n, E.call('kernels.Gaussian.norm', q)))
        return
    c = seen[-1]
    N = 1
    for a in m:
        N = N * a
    f = E.flat(m, i)
    E.shape_is(name + ': all points', c['points'], [q, N])
    for a in range(q):
        E.eq(name + ': the coordinates', c['points'].at((a, f)), x[a])
    E.eq(name, v.at(i) * scale, c['z'].at((f,)))


def grid(E, D, weights, probability):
    n, data, w, cov, bw, k = estimator(E, D, weights, helper=False)
    m = [E.dim('m%d' % a, 1) for a in range(D)]
    pts = [E.array('p%d' % a, m[a]) for a in range(D)]
    seen = []
    kernel_density(E, seen)
    p, v = E.call(k.density, pts, grid=True, probability=probability)
    E.under('kde.KDE.density', 'utils.meshgrid')
    t = (E.sum(n, lambda j: w.at((j,))) if weights else n) if probability else 1
    values(E, 'grid', E.asarr(v), m, lambda i: [pts[a].at((i[a],)) for a in range(D)], range(D), (n, data, w, cov, bw, k, D), seen, t)
    E.prove('one array of coordinates per dimension', len(p) == D)
    for a in range(D):
        b = E.asarr(p[a])
        E.shape_is('the given coordinates', b, [m[a]])
        j = E.idx(m[a])
        E.eq('the given coordinates', b.at((j,)), pts[a].at((j,)))
    E.unchanged('frame', data, *pts)


def meshgrid(E, D):
    m = [E.dim('m%d' % a, 1) for a in range(D)]
    pts = [E.array('p%d' % a, m[a]) for a in range(D)]
    g = E.call('utils.meshgrid', *pts)
    E.prove('one array per dimension', len(g) == D)
    i = tuple(E.idx(a) for a in m)
    for a in range(D):
        E.shape_is('one axis per dimension', E.asarr(g[a]), m)
        E.eq('coordinate', E.asarr(g[a]).at(i), pts[a].at((i[a],)))
    E.unchanged('frame', *pts)


def points(E, D, form, count):
    """one value per point in the requested order: an array, a list, a list of lists, a single point"""
    n, data, w, cov, bw, k = estimator(E, D, helper=False)
    m = count or E.dim('m', 1)
    pts = E.array('pts', (D, m) if D > 1 or form == '2d' else m)
    at = lambda a, j: pts.at((a, j)) if D > 1 or form == '2d' else pts.at((j,))
    arg = pts
    if form == 'lists':
        arg = [[at(a, j) for j in range(m)] for a in range(D)]
    elif form == 'list':
        arg = [at(0, j) for j in range(m)]
    elif form == 'arrays':
        arg = [pts[a] for a in range(D)]
    seen = []
    kernel_density(E, seen)
    p, v = E.call(k.density, arg)
    E.under('kde.KDE.density')
    values(E, 'points', E.asarr(v), [m], lambda i: [at(a, i[0]) for a in range(D)], range(D), (n, data, w, cov, bw, k, D), seen)
    p = E.asarr(p)
    flat = D == 1 and form in ('list', 'array')
    E.shape_is('the given points', p, [m] if flat else [D, m])
    j = E.idx(m)
    for a in range(D):
        E.eq('the given points', p.at((j,) if flat else (a, j)), at(a, j))
    E.unchanged('frame', data, pts)


def automatic(E, D, params, init):
    """without points: the automatic edges of every (selected) dimension, on a grid"""
    n, data, w, cov, bw, k = estimator(E, D, helper=False)
    if E.concrete:
        edges = E.call('utils.parse_edges', k.dataset, extrema=k.extrema, nmin=3, nmax=200, pad=0, bw=k.bandwidth, refine=k._EDGE_REFINEMENT)
        edges = [E.asarr(e) for e in edges]
        m = [len(e) for e in edges]
    else:
        # contract of parse_edges (C18): increasing edges in each dimension
        m = [E.dim('e%d' % a, 2) for a in range(D)]
        edges = [E.array('edge%d' % a, m[a], inc=True) for a in range(D)]
        E.stub('utils.parse_edges', lambda *a, **b: [e.copy() for e in edges])
    sel = list(range(D)) if params is None else [params] if isinstance(params, int) else params
    seen = []
    kernel_density(E, seen)
    for turn in range(2):
        p, v = E.call(k.density, params=params)
        E.under('kde.KDE.density', 'kde.KDE.points')
        mm = [m[a] for a in sel]
        name = ('', 'again ')[turn]
        values(E, name + 'automatic points', E.asarr(v), mm, lambda i: [edges[a].at((i[b],)) for b, a in enumerate(sel)], sel,
               (n, data, w, cov, bw, k, D), seen)
        one = D == 1 or isinstance(params, int)
        got = [p] if one else p
        E.prove(name + 'one array of points per dimension', len(got) == len(sel))
        for g, a in zip(got, sel):
            g = E.asarr(g)
            E.shape_is(name + 'the points', g, [m[a]])
            j = E.idx(m[a])
            E.eq(name + 'the points', g.at((j,)), edges[a].at((j,)))
    E.unchanged('frame', data)


for D in (1, 2, 3):
    spec('C06', 'meshgrid %d' % D, D=D, budget=20.0)(meshgrid)
    for weights in (False, True):
        spec('C06', 'grid %dD%s' % (D, ' weighted' if weights else ''), D=D, weights=weights, probability=weights, budget=30.0)(grid)
    for form, count in (('array', 0), ('array', 1), ('arrays', 0), ('lists', 3), ('lists', 1), ('list', 1), ('list', 3), ('2d', 0), ('2d', 1)):
        if form in ('list', '2d') and D > 1 or form in ('arrays', 'lists') and D == 1:
            continue
        spec('C06', 'points %dD %s %s' % (D, form, count or 'm'), D=D, form=form, count=count, budget=30.0)(points)
    for params in {1: [None], 2: [None, 1, [1, 0], [0, 1]], 3: [None, [2, 0], [1], 2]}[D]:
        if params == [1]:
            continue
        spec('C06', 'automatic points %dD %s' % (D, params), D=D, params=params, init=None, budget=30.0)(automatic)
