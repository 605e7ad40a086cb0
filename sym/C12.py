"""Contracts for the cumulative distribution (kde.KDE.cdf; utils.cumtrapz, utils.cumsum).

SciPy's RegularGridInterpolator is represented by its documented contract: multilinear interpolation inside of the grid."""
import itertools
from pydv.spec import spec
from kern import ref_sum
from kdec import dataset, datum, estimator
from samplec import nested


def increasing(E, D):
    """cumtrapz of a nonnegative density: never negative, never decreasing, zero on every lower face, the total at the end"""
    n = [E.dim('n%d' % k, 2) for k in range(D)]
    x = [E.array('x%d' % k, n[k], inc=True) for k in range(D)]
    d = E.array('d', n, nonneg=True)
    if E.concrete:
        m = E.asarr(E.call('utils.trapz_dens_to_mass', d, x))
    else:
        # contract of trapz_dens_to_mass (C16): no mass is negative
        m = E.array('mass', [a - 1 for a in n], nonneg=True)
        E.stub('utils.trapz_dens_to_mass', lambda *a, **k: m.copy())
    r = E.asarr(E.call('utils.cumtrapz', d, x if D > 1 else x[0]))
    E.under('utils.cumsum')
    E.shape_is('one value per grid point', r, n)
    i = [E.idx(a) for a in n]
    at = lambda *i: r.at(tuple(i))

    def upto(i):
        def rec(k, idx):
            return m.at(tuple(idx)) if k == D else E.sum(i[k], lambda j: rec(k + 1, idx + [j]))
        return rec(0, [])
    E.lemma('masses of the cells below', at(*i) == upto(i) if not E.concrete else abs(at(*i) - upto(i)) <= 1e-9 * (1 + abs(at(*i))))
    E.prove('not negative', at(*i) >= 0)
    for k in range(D):
        E.eq('zero on the lower face', at(*(i[:k] + [0] + i[k + 1:])), 0)
        j = E.idx(n[k])
        if E.concrete:
            i2 = i[:k] + [max(i[k], j)] + i[k + 1:]
            E.prove('never decreases', at(*i) <= at(*i2) * (1 + 1e-12))
            continue
        E.assume(i[k] <= j)
        E.prove('never decreases', at(*i) <= at(*(i[:k] + [j] + i[k + 1:])))
    E.unchanged('frame', d, *x)


for D in (1, 2, 3):
    spec('C12', 'increasing %dD' % D, D=D, budget=40.0, depth=3)(increasing)


def setting(E, D, auto, weights, lo=2):
    """an estimator, its evaluation grid, and (symbolically) the contracts of its parts"""
    if auto:
        n, data, w, cov, bw, k = estimator(E, D, weights, lo=lo, helper=False)
        if E.concrete:
            x = E.call('utils.parse_edges', k.dataset, extrema=k.extrema, nmin=3, nmax=200, pad=0, bw=k.bandwidth, refine=k._EDGE_REFINEMENT, weights=w)
            x = [E.asarr(e) for e in x]
            g = [len(e) for e in x]
            if g[0] ** D > 3000:
                E.assume(False)
        else:
            # contract of parse_edges (C18): increasing edges in each dimension
            g = [E.dim('g%d' % a, 2) for a in range(D)]
            x = [E.array('x%d' % a, g[a], inc=True) for a in range(D)]
            E.stub('utils.parse_edges', lambda *a, **b: [e.copy() for e in x])
    else:
        g = [E.dim('g%d' % a, 2) for a in range(D)]
        x = [E.array('x%d' % a, g[a], inc=True) for a in range(D)]
        n, data, w, cov, bw, k = estimator(E, D, weights, lo=lo, helper=False, points=x if D > 1 else x[0])
    seen, tables = [], []
    T = None
    if not E.concrete:
        def density(self, points, data, weights=None, reflect=None, params=None):
            # contract of Kernel.density (C01, C03): no negative value
            p = E.asarr(points) if E.np.ndim(points) == 2 else E.np.atleast_2d(points)
            z = E.array('dens%d' % len(seen), E.np.shape(p)[1], nonneg=True)
            seen.append(dict(points=p.copy(), data=data, weights=weights, reflect=reflect, params=params, z=z))
            return z.copy()
        E.stub('kernels.Kernel.density', density)
        zero = lambda v, i: [E.imp(E.lor(*[j == 0 for j in i]), v == 0)]
        up = lambda a, i, b, j: [E.imp(E.land(*[p <= q for p, q in zip(i, j)]), a <= b)]
        T = E.array('table', g, nonneg=True, fact=zero, pairfact=up)
        E.assume(T.at(tuple(a - 1 for a in g)) > 0)

        def cumtrapz(pdf, edges, prepend=True, axis=None):
            # contract of cumtrapz ('increasing', C16)
            if not prepend or axis is not None:
                E.cannot('another use of cumtrapz')
            tables.append((E.asarr(pdf).copy(), [E.asarr(e).copy() for e in ([edges] if E.np.ndim(edges[0]) == 0 else edges)]))
            return T.copy()
        E.stub('utils.cumtrapz', cumtrapz)
    else:
        g = [len(a) for a in x]
        pts = E.np.array([a.ravel() for a in E.np.meshgrid(*x, indexing='ij')])
        M = [[cov[a][b] * bw * bw for b in range(D)] for a in range(D)]
        X = [[datum(data, a, j, D) for j in range(n)] for a in range(D)]
        dens = E.np.array([ref_sum(E, 'Gaussian', M, p, X, w, n, E.call('kernels.Gaussian.norm', D)) for p in pts.T]).reshape(g)
        T = E.call('utils.cumtrapz', dens, x)
        if not T.max() > 0:
            E.assume(False)
    return n, data, w, k, g, x, T, seen, tables


def ask(E, k, D, p):
    """p: one array per dimension"""
    return E.asarr(E.call(k.cdf, p[0] if D == 1 else p))


def lerp(u, a, b):
    return (1 - u) * a + u * b


def inner(E, D, T, g, x, j=0, coord=None):
    """what is interpolated at point j of the last query: cells, positions inside of them, corner values (named, with their ranges proved)"""
    ev = E.events('rgi')
    if not ev:
        E.cannot('another way of interpolating')
    seg, ends, val = E.interpolation(ev[-1], j)
    last = tuple(a - 1 for a in g)
    E.let(T.at(last))
    w = E.largest(E.np.max(T), last)
    E.lemma('no larger entry', T.at(tuple(w)) <= T.at(last))
    E.lemma('largest', E.np.max(T) == T.at(last))
    u = []
    for d, (y, a, b) in enumerate(ends):
        E.lemma('cell', a < b)
        E.lemma('inside of the cell', E.land(a <= y, y <= b))
        u.append(E.let((y - a) / (b - a)))
        if coord is not None:
            E.lemma('coordinate', y == coord(d))
        E.lemma('position inside of a cell', E.land(u[-1] >= 0, u[-1] <= 1))
    t = {}
    for c in itertools.product((0, 1), repeat=D):
        y = T.at(tuple(s + q for s, q in zip(seg, c)))
        E.lemma('entry', E.land(y >= 0, y <= T.at(last)))
        t[c] = E.let(val(c))
        E.lemma('corner', t[c] * T.at(last) == y)
        E.lemma('corner between zero and one', E.land(t[c] >= 0, t[c] <= 1))
    return seg, u, t


def fold(u, t, a, each):
    """one step of the multilinear average, along dimension a: each(u, lower, upper)"""
    r = {}
    for c in t:
        if c[0] == 0:
            r[c[1:]] = each(u[a], t[c], t[(1,) + c[1:]])
    return r


def table(E, D, auto, weights):
    """values at the grid points: the trapezoid-rule integral of the density divided by its total"""
    n, data, w, k, g, x, T, seen, tables = setting(E, D, auto, weights, lo=4 if D == 3 else 2)
    i = [E.idx(a) for a in g]
    one = [E.build((1,), lambda _, a=a: x[a].at((i[a],))) for a in range(D)]
    v = ask(E, k, D, one if D > 1 else one)
    E.under('kde.KDE.cdf', 'kde.KDE.points', 'kde.KDE.pdf', 'kde.KDE.density')
    E.shape_is('one value per point', v, [1])
    last = tuple(a - 1 for a in g)
    if not E.concrete and D > 1:
        seg, u, t = inner(E, D, T, g, x, coord=lambda a: x[a].at((i[a],)))
        t0 = t
        for a in range(D):
            xa, j, k = x[a], i[a], seg[a]
            E.lemma('knots in order', E.land(E.imp(k + 1 < j, xa.at((k + 1,)) < xa.at((j,))), E.imp(j < k, xa.at((j,)) < xa.at((k,)))))
            E.lemma('a corner of the cell', E.lor(k == j, k + 1 == j))
            E.lemma('at the corner', E.land(E.imp(k == j, u[a] == 0), E.imp(k + 1 == j, u[a] == 1)))
            t = fold(u, t, a, lambda w, lo, hi: E.let(lerp(w, lo, hi)))
        E.lemma('multilinear', v.at((0,)) == t[()])
        for c in t0:
            here = E.land(*[seg[a] + c[a] == i[a] for a in range(D)])
            E.lemma('the same corner', E.imp(here, T.at(tuple(seg[a] + c[a] for a in range(D))) == T.at(tuple(i))))
            E.lemma('table at a corner', E.imp(here, v.at((0,)) * T.at(last) == T.at(tuple(i))))
    E.eq('table at the grid points', v.at((0,)) * T.at(last), T.at(tuple(i)))
    if not E.concrete:
        E.prove('one table', len(tables) == 1)
        pdf, edges = tables[0]
        E.prove('edges of every dimension', len(edges) == D)
        for a in range(D):
            E.shape_is('table of the evaluation grid', edges[a], [g[a]])
            E.eq('table of the evaluation grid', edges[a].at((i[a],)), x[a].at((i[a],)))
        E.shape_is('integral of the density on the grid', pdf, g)
        N = 1
        for a in g:
            N = N * a
        f = E.flat(g, i)
        s = seen[0]
        E.prove('density evaluated once', len(seen) == 1 and s['params'] is None)
        E.shape_is('density of all grid points', s['points'], [D, N])
        for a in range(D):
            E.eq('density of all grid points', s['points'].at((a, f)), x[a].at((i[a],)))
        tot = E.sum(n, lambda j: w.at((j,))) if weights else n
        E.eq('integral of the density on the grid', pdf.at(tuple(i)) * tot, s['z'].at((f,)))
    E.unchanged('frame', data, *x)


def order(E, D, along, seg, u, t, seg2, u2, t2, c, c2, T, ev, i):
    """moving along one dimension: along it, first; then the average over the others"""
    (y, a, b), (y2, a2, b2) = E.interpolation(ev[-2], i)[1][along], E.interpolation(ev[-1], i)[1][along]
    E.lemma('later coordinate', y <= y2)
    E.lemma('knots in order', E.land(E.imp(seg2[along] < seg[along], b2 <= a), E.imp(seg[along] == seg2[along], E.land(a == a2, b == b2))))
    E.lemma('later cell', seg[along] <= seg2[along])
    E.lemma('same or later cell', E.lor(seg[along] < seg2[along], E.land(seg[along] == seg2[along], u[along] <= u2[along])))
    for b in range(D):
        if b != along:
            E.lemma('same position in the other dimensions', E.land(seg[b] == seg2[b], u[b] == u2[b]))
    r, r2 = {}, {}
    for q in itertools.product((0, 1), repeat=D - 1):
        lo, hi = q[:along] + (0,) + q[along:], q[:along] + (1,) + q[along:]
        T1, T2 = (lambda c: T.at(tuple(k + o for k, o in zip(seg, c)))), (lambda c: T.at(tuple(k + o for k, o in zip(seg2, c))))
        k, k2 = seg[along], seg2[along]
        E.lemma('entries in order', E.land(T1(lo) <= T1(hi), T2(lo) <= T2(hi), E.imp(k < k2, T1(hi) <= T2(lo)),
                                           E.imp(k == k2, E.land(T1(lo) == T2(lo), T1(hi) == T2(hi)))))
        E.lemma('corners in order', t[lo] <= t[hi])
        E.lemma('corners in order', t2[lo] <= t2[hi])
        E.lemma('corners in order', E.imp(k < k2, t[hi] <= t2[lo]))
        E.lemma('corners in order', E.imp(k == k2, t[lo] == t2[lo]))
        E.lemma('corners in order', E.imp(k == k2, t[hi] == t2[hi]))
        r[q], r2[q] = E.let(lerp(u[along], t[lo], t[hi])), E.let(lerp(u2[along], t2[lo], t2[hi]))
        E.rule('along the dimension', (seg[along], seg2[along], u[along], u2[along], t[lo], t[hi], t2[lo], t2[hi]),
               lambda s1, s2, w1, w2, a, b, a2, b2: [E.lor(s1 < s2, E.land(s1 == s2, w1 <= w2)), w1 >= 0, w1 <= 1, w2 >= 0, w2 <= 1,
                                                     a <= b, a2 <= b2, E.imp(s1 < s2, b <= a2), E.imp(s1 == s2, E.land(a == a2, b == b2))],
               lambda s1, s2, w1, w2, a, b, a2, b2: lerp(w1, a, b) <= lerp(w2, a2, b2))
        E.lemma('along the dimension', r[q] <= r2[q])
    rest = [b for b in range(D) if b != along]
    for b in rest:
        s, s2 = {}, {}
        for q in r:
            if q[0] == 0:
                lo, hi = q, (1,) + q[1:]
                s[q[1:]], s2[q[1:]] = E.let(lerp(u[b], r[lo], r[hi])), E.let(lerp(u2[b], r2[lo], r2[hi]))
                E.rule('average', (u[b], r[lo], r[hi], r2[lo], r2[hi]), lambda w, a, b, a2, b2: [w >= 0, w <= 1, a <= a2, b <= b2],
                       lambda w, a, b, a2, b2: lerp(w, a, b) <= lerp(w, a2, b2))
                E.lemma('average', s[q[1:]] <= s2[q[1:]])
        r, r2 = s, s2
    E.lemma('multilinear', c == r[()])
    E.lemma('multilinear', c2 == r2[()])


def shape(E, D, what, along=None):
    """between zero and one; zero below, one above; never decreasing"""
    n, data, w, k, g, x, T, seen, tables = setting(E, D, False, False, lo=2 if D == 1 or what == 'again' else 4)
    m = E.dim('m', 1)
    p = [E.array('p%d' % a, m) for a in range(D)]
    i = E.idx(m)
    v = ask(E, k, D, p)
    E.under('kde.KDE.cdf')
    E.shape_is('one value per point', v, [m])
    c = v.at((i,))
    lo, hi = [a.at((0,)) for a in x], [x[a].at((g[a] - 1,)) for a in range(D)]
    y = [a.at((i,)) for a in p]
    tol = 1e-12 if E.concrete else 0
    hint = not E.concrete and D > 1 and what != 'again'
    last = tuple(a - 1 for a in g)
    if what == 'low':
        E.assume(y[along] <= lo[along])
    if what == 'high':
        for a in range(D):
            E.assume(y[a] >= hi[a])
    if hint:
        seg, u, t = inner(E, D, T, g, x, i, (lambda a: hi[a]) if what == 'high' else (lambda a: lo[a] if a == along else E.interpolation(E.events('rgi')[-1], i)[1][a][0]) if what == 'low' else None)
        t0 = t
        for a in range(D):
            def each(w, p, q):
                r = E.let(lerp(w, p, q))
                if what == 'bounds':
                    E.rule('average', (w, p, q, r), lambda w, p, q, r: [w >= 0, w <= 1, p >= 0, p <= 1, q >= 0, q <= 1, r == lerp(w, p, q)],
                           lambda w, p, q, r: E.land(r >= 0, r <= 1))
                return r
            if what == 'low' and a == along:
                E.lemma('knots in order', E.imp(seg[a] > 0, x[a].at((0,)) < x[a].at((seg[a],))))
                E.lemma('lowest cell', E.land(seg[a] == 0, u[a] == 0))
            if what == 'high':
                E.lemma('knots in order', E.imp(seg[a] + 1 < g[a] - 1, x[a].at((seg[a] + 1,)) < x[a].at((g[a] - 1,))))
                E.lemma('highest cell', E.land(seg[a] == g[a] - 2, u[a] == 1))
            if what == 'order' and a == along:
                break
            t = fold(u, t, a, each)
        if what != 'order':
            E.lemma('multilinear', c == t[()])
    if what == 'bounds':
        E.prove('not below zero', c >= -tol)
        E.prove('not above one', c <= 1 + tol)
    if what == 'low':
        E.prove('zero at or below the lowest coordinate of any dimension', E.abs(c) <= tol)
    if what == 'high':
        E.prove('one at or above the highest coordinates', E.abs(c - 1) <= tol)
    if what == 'order':
        s = E.array('step', m, nonneg=True)
        v2 = ask(E, k, D, [p[b] + s if b == along else p[b] for b in range(D)])
        c2 = v2.at((i,))
        if hint:
            seg2, u2, t2 = inner(E, D, T, g, x, i)
            order(E, D, along, seg, u, t0, seg2, u2, t2, c, c2, T, E.events('rgi'), i)
        E.prove('never decreases', c <= c2 + tol)
    if what == 'again':
        v2 = ask(E, k, D, p)
        E.eq('the same answer again', v2.at((i,)), c)
        E.call(k.density, p if D > 1 else p[0])
        v3 = ask(E, k, D, p)
        E.eq('the same answer after another query', v3.at((i,)), c)
        if not E.concrete:
            E.prove('one table', len(tables) == 1)
    E.unchanged('frame', data, *(x + p))


for D in (1, 2, 3):
    for auto in (False, True):
        if not (auto and D == 3):
            spec('C12', 'table %dD%s' % (D, ' automatic grid' if auto else ''), D=D, auto=auto, weights=auto, budget=30.0,
                 tier='quick' if D < 3 else 'thorough')(table)
    for what in ('bounds', 'high', 'again'):
        spec('C12', '%s %dD' % (what, D), D=D, what=what, budget=30.0, tier='thorough' if D == 3 and what == 'high' else 'quick')(shape)
    for what in ('low', 'order'):
        for along in range(D):
            spec('C12', '%s %dD dimension %d' % (what, D, along), D=D, what=what, along=along, budget=30.0,
                 tier='thorough' if D == 3 and what == 'order' and along else 'quick')(shape)
