"""Contracts for resampling with boundaries (kernels.Kernel.resample, _resample_reflect, _reflect_data, _truncate_reflections,
_get_truncation_bounds; utils.bound_indices, cov_keep_vars).

_resample_clear is represented by its contract (C09): independent draws from the weighted data plus kernel noise."""
from pydv.spec import spec
from kern import spd, bounds, mirrored
from kdec import quiet, dataset, datum


class Done(Exception):
    pass


def within(E, refl, x, margin=None):
    """inside of all boundaries, or within the margin of them"""
    cs = []
    for k, b in enumerate(refl):
        for side, loc in enumerate(b or []):
            if loc is not None:
                r = 0 if margin is None else margin[k]
                cs.append(x[k] > loc - r if side == 0 else x[k] < loc + r)
    return E.land(*cs)


def setup(E, D, kinds, weights, kernel):
    n = E.dim('n', 1)
    data = E.array('data', (D, n))
    w = E.array('w', n, nonneg=True) if weights else None
    refl = bounds(E, kinds)
    cov, h = spd(E, D, 'cov'), E.real('h', pos=True)
    K = E.call('kernels.Kernel', E.fn('kernels.%s' % kernel), h, E.asarr(cov))
    at = lambda j: [data.at((a, j)) for a in range(D)]
    # some datum lies inside
    E.assume(within(E, refl, at(0)))
    if weights:
        E.assume(w.at((0,)) > 0)
        E.assume(E.sum(n, lambda j: w.at((j,))) > 0)
    return n, data, w, refl, cov, h, K, at


def given_boundaries(E):
    """contract of _check_reflect ('boundaries'): given boundaries are used as they are"""
    E.stub('kernels._check_reflect', lambda reflect, data, weights=None, helper=False: None if reflect is None else [b if b is None else list(b) for b in reflect])


def boundaries(E, D, kinds, form):
    """_check_reflect: given boundaries are returned in a new list, automatic ones lie outside of the data"""
    n = E.dim('n', 1)
    data = E.array('data', (D, n))
    refl = bounds(E, [c if c in 'blun' else 'n' for c in kinds])
    x = lambda a: (lambda j: data.at((a, j)))
    arg = []
    for a, c in enumerate(kinds):
        if c == 't':
            E.assume(E.any(n, lambda j: x(a)(j) != 0))
            arg.append(True)
        elif c == 'T':
            E.assume(E.any(n, lambda j: x(a)(j) != 0))
            arg.append([True, True])
        else:
            arg.append(refl[a])
    if form == 'flat':
        arg = arg[0]
    if form == 'tuple':
        arg = tuple(None if b is None else tuple(b) for b in arg)
    before = [None if b is None else b if b is True else list(b) for b in arg] if form != 'flat' else list(arg)
    r = E.call('kernels._check_reflect', arg, data)
    E.prove('one entry per dimension', len(r) == D)
    i = E.idx(n)
    for a, c in enumerate(kinds):
        if c == 'n':
            E.prove('no boundary', r[a] is None)
            continue
        E.prove('two sides', len(r[a]) == 2)
        if c in 'tT':
            E.prove('automatic boundaries enclose the data', E.land(r[a][0] <= x(a)(i), x(a)(i) <= r[a][1]))
            E.prove('automatic boundaries in order', r[a][0] < r[a][1])
            continue
        for side in (0, 1):
            if refl[a][side] is None:
                E.prove('no boundary on this side', r[a][side] is None)
            else:
                E.eq('given boundary', r[a][side], refl[a][side])
    if form != 'tuple':
        now = [None if b is None else b if b is True else list(b) for b in arg] if form != 'flat' else list(arg)
        E.prove('boundaries of the caller are left alone', len(now) == len(before) and all(
            (p is q) or (isinstance(p, list) and isinstance(q, list) and all(u is v for u, v in zip(p, q))) for p, q in zip(now, before)))
    E.unchanged('frame', data)


def reach_of(E, K, kernel, cov, h, D):
    """how far a kernel reaches in each dimension"""
    pad = E.fn('kernels._NUM_PAD') + 1 if kernel != 'Gaussian' else E.ppf(1 - E.fn('kernels._TRUNCATE_INFINITE_KERNELS'))
    return [E.sqrt(cov[a][a] * h * h) * pad for a in range(D)]


def anyfun(E, D):
    return (lambda *x: 1 / (1 + sum((v - 0.3 * (a + 1)) ** 2 for a, v in enumerate(x)))) if E.concrete else E.function('G', D)


def box_is(E, box, refl):
    """the boundaries as an array; none is infinitely far"""
    E.shape_is('two boundaries per dimension', box, [len(refl), 2])
    for k, b in enumerate(refl):
        for side in (0, 1):
            loc = None if b is None else b[side]
            if loc is None:
                E.prove('no boundary is infinitely far', E.np.isinf(box.at((k, side))) & (box.at((k, side)) > 0 if side else box.at((k, side)) < 0))
            else:
                E.eq('boundary', box.at((k, side)), loc)


def reflected(E, D, kinds, weights):
    """_reflect_data: the data and their mirror image at every boundary, each with the weight of its datum"""
    n, data, w, refl, cov, h, K, at = setup(E, D, kinds, weights, 'Gaussian')
    x, box, v = E.call(K._reflect_data, data, refl, weights=w)
    q = len(mirrored(refl, at(0)))
    x = E.asarr(x)
    E.shape_is('data and mirror images', x, [D, q * n])
    G = anyfun(E, D)
    wt = (lambda j: w.at((j,))) if weights else (lambda j: 1)

    def total(g):
        t = 0
        for k in range(q):
            t = t + E.sum(n, lambda j: wt(j) * g(mirrored(refl, at(j))[k]))
        return t
    E.prove('weights given if there are weights', (v is None) == (w is None))
    if weights:
        v = E.asarr(v)
        E.shape_is('a weight for each', v, [q * n])
        left = E.sum(q * n, lambda k: v.at((k,)) * G(*[x.at((a, k)) for a in range(D)]))
        E.eq('weighted data and mirror images', left * total(lambda y: 1), total(lambda y: G(*y)))
        E.eq('weights add up to one', E.sum(q * n, lambda k: v.at((k,))), 1)
        j = E.idx(q * n)
        E.prove('no negative weight', v.at((j,)) >= 0)
    else:
        left = E.sum(q * n, lambda k: G(*[x.at((a, k)) for a in range(D)]))
        E.eq('data and mirror images', left, total(lambda y: G(*y)))
    box_is(E, E.asarr(box), refl)
    E.unchanged('frame', data, *([w] if weights else []))


def truncated(E, D, kinds, weights, kernel):
    """_truncate_reflections: those candidates that reach the interior, each with its weight"""
    N = E.dim('N', 1)
    x0 = E.array('x', (D, N))
    w = E.array('v', N, nonneg=True) if weights else None
    refl = bounds(E, kinds)
    cov, h = spd(E, D, 'cov'), E.real('h', pos=True)
    K = E.call('kernels.Kernel', E.fn('kernels.%s' % kernel), h, E.asarr(cov))
    inf = float('inf')
    box = E.asarr([[-inf if b is None or b[0] is None else b[0], inf if b is None or b[1] is None else b[1]] for b in refl])
    reach = reach_of(E, K, kernel, cov, h, D)
    at = lambda j: [x0.at((a, j)) for a in range(D)]
    keep = lambda j: within(E, refl, at(j), reach)
    wt = (lambda j: w.at((j,))) if weights else (lambda j: 1)
    E.assume(keep(0))
    T = E.sum(N, lambda j: E.ite(keep(j), wt(j), 0))
    if weights:
        E.assume(wt(0) > 0)
        E.assume(T > 0)
    x, v = E.call(K._truncate_reflections, x0, box, weights=w)
    E.under('kernels.Kernel._get_truncation_bounds', 'utils.bound_indices')
    x = E.asarr(x)
    n = E.np.shape(x)[1]
    E.shape_is('points', x, [D, n])
    G = anyfun(E, D)
    right = E.sum(N, lambda j: E.ite(keep(j), wt(j) * G(*at(j)), 0))
    E.prove('weights given if there are weights', (v is None) == (w is None))
    if weights:
        v = E.asarr(v)
        E.shape_is('a weight for each', v, [n])
        E.eq('weights add up to one', E.sum(n, lambda k: v.at((k,))), 1)
        E.eq('weighted points within reach', E.sum(n, lambda k: v.at((k,)) * G(*[x.at((a, k)) for a in range(D)])) * T, right)
    else:
        E.eq('number of points within reach', n, T)
        E.eq('points within reach', E.sum(n, lambda k: G(*[x.at((a, k)) for a in range(D)])), right)
    E.unchanged('frame', x0, box, *([w] if weights else []))


def mixture(E, D, kinds, weights, kernel, keep=None):
    """candidates are drawn from the data and those mirror images that reach the interior, each with the weight of its datum"""
    n, data, w, refl, cov, h, K, at = setup(E, D, kinds, weights, kernel)
    seen, refs, trs = [], [], []

    def contract(self, data, size, weights=None, matrix=None, keep=None):
        seen.append(dict(data=E.asarr(data).copy(), weights=None if weights is None else E.asarr(weights).copy(),
                         matrix=self.matrix if matrix is None else matrix, keep=keep, size=size))
        raise Done()
    E.stub('kernels.Kernel._resample_clear', contract)
    if not E.concrete:
        given_boundaries(E)
        N, M = E.dim('N', 1), E.dim('M', 1)
        x1, x2 = E.array('mirrored', (D, N)), E.array('within', (D, M))
        v1, v2 = (E.array('weight mirrored', N, nonneg=True), E.array('weight within', M, nonneg=True)) if weights else (None, None)

        def reflect_data(self, data, reflect, weights=None):
            refs.append((E.asarr(data).copy(), reflect, None if weights is None else E.asarr(weights).copy()))
            b = E.asarr([[-E.np.inf if c is None or c[0] is None else c[0], E.np.inf if c is None or c[1] is None else c[1]] for c in refl])
            return x1, b, v1

        def truncate(self, data, bounds, weights=None):
            trs.append((data, E.asarr(bounds), weights))
            return x2, v2
        E.stub('kernels.Kernel._reflect_data', reflect_data)
        E.stub('kernels.Kernel._truncate_reflections', truncate)
    m = E.dim('m', 1)
    try:
        E.call(K.resample, data, weights=w, size=m, reflect=refl, keep=keep)
        E.prove('candidates are drawn', False)
        return
    except Done:
        pass
    E.under('kernels.Kernel.resample', 'kernels.Kernel._resample_reflect', 'utils.cov_keep_vars')
    s = seen[0]
    x, v = s['data'], s['weights']
    E.prove('weights given if there are weights', (v is None) == (w is None))
    if E.concrete:
        G = anyfun(E, D)
        N = E.np.shape(x)[1]
        reach = reach_of(E, K, kernel, cov, h, D)
        wt = (lambda j: w.at((j,))) if weights else (lambda j: 1)
        q = len(mirrored(refl, at(0)))
        total = lambda g: sum(wt(j) * g(mirrored(refl, at(j))[k]) for k in range(q) for j in range(n) if within(E, refl, mirrored(refl, at(j))[k], reach))
        if weights:
            E.eq('weights add up to one', E.sum(N, lambda k: v.at((k,))), 1)
        else:
            E.eq('number of data and mirror images', N, total(lambda y: 1))
        left = E.sum(N, lambda k: (v.at((k,)) if weights else 1) * G(*[x.at((a, k)) for a in range(D)]))
        E.eq('data and mirror images', left * (total(lambda y: 1) if weights else 1), total(lambda y: G(*y)))
    else:
        if len(refs) != 1 or len(trs) != 1:
            E.cannot('mirror images are not made by _reflect_data and _truncate_reflections')
        d, r, v0 = refs[0]
        j, k = E.idx(n), E.idx(M)
        E.shape_is('data are mirrored', d, [D, n])
        for a in range(D):
            E.eq('data are mirrored', d.at((a, j)), data.at((a, j)))
            E.eq('candidates are those within reach', x.at((a, k)), x2.at((a, k)))
        E.shape_is('candidates are those within reach', x, [D, M])
        E.prove('at the boundaries', list(r) == list(refl))
        E.prove('mirror images are truncated', trs[0][0] is x1 and trs[0][2] is v1)
        box_is(E, trs[0][1], refl)
        if weights:
            E.shape_is('weights', v0, [n])
            E.eq('data with their weights', v0.at((j,)), w.at((j,)))
            E.shape_is('a weight for every candidate', v, [M])
            E.eq('candidates with their weights', v.at((k,)), v2.at((k,)))
    Mx = E.asarr(s['matrix'])
    for a in range(D):
        for b in range(D):
            E.eq('noise of the smoothing matrix', Mx.at((a, b)), cov[a][b] * h * h)
    E.prove('at least as many candidates as samples are drawn at once', s['size'] >= 1)
    ks = [] if keep is None else list(E.np.atleast_1d(s['keep']))
    E.prove('kept dimensions', ks == ([] if keep is None else [keep] if isinstance(keep, int) else list(keep)))
    E.unchanged('frame', data, *([w] if weights else []))


def accepted(E, D, kinds, weights, how='kernel', size='given'):
    """the samples are the candidates inside of the boundaries, in the order in which they are drawn, until there are enough"""
    if how == 'kernel':
        n, data, w, refl, cov, h, K, at = setup(E, D, kinds, weights, 'Gaussian')
    else:
        quiet(E)
        n, data = dataset(E, D)
        w = E.array('w', n, nonneg=True) if weights else None
        refl = bounds(E, kinds)
        cov, h = spd(E, D, 'cov'), E.real('h', pos=True)
        at = lambda j: [datum(data, a, j, D) for a in range(D)]
        E.assume(within(E, refl, at(0)))
        if weights:
            E.assume(w.at((0,)) > 0)
            E.assume(E.sum(n, lambda j: w.at((j,))) > 0)
    if not E.concrete:
        given_boundaries(E)
        E.stub('utils.stats_str', lambda *a, **k: 'report')

        def candidates(self, data, bounds, weights=None):
            N = E.dim('candidates', 1)
            return E.array('candidate', (D, N)), None if weights is None else E.array('candidate weight', N, nonneg=True)
        E.stub('kernels.Kernel._truncate_reflections', candidates)
    trials = []
    orig = E.fn('kernels.Kernel._resample_clear') if E.concrete else None

    def contract(self, data, size, weights=None, matrix=None, keep=None):
        if E.concrete:
            o = E.asarr(orig(self, data, size, weights=weights, matrix=matrix, keep=keep))
            trials.append(o.copy())
            return o
        o = E.array('trial%d' % len(trials), (D, size))
        trials.append(o)
        return o.copy()
    E.stub('kernels.Kernel._resample_clear', contract)
    m = n if size == 'default' else E.dim('m', 1)

    def rule(L):
        e = L.env
        for k in ('num_good', 'samps', 'draw', 'cnt', 'size'):
            if k not in e:
                E.cannot('no variable %s in the acceptance loop' % k)
        E.eq('no sample before the first draw', e['num_good'], 0)
        E.prove('candidates before the first draw', e['draw'] >= 1)
        E.shape_is('room for the samples', e['samps'], [m, D])
        g = E.int('good', 0, m)

        def fact(v, i):
            cs = []
            for a in range(D):
                b = refl[a] or [None, None]
                t = []
                if b[0] is not None:
                    t.append(v > b[0])
                if b[1] is not None:
                    t.append(v < b[1])
                if t:
                    cs.append(E.imp(E.land(i[1] == a, i[0] < g), E.land(*t)))
            return cs
        rows = E.array('rows', (m, D), fact=fact)
        d = E.int('draw', 0)
        E.assume(E.imp(g < m, d >= 1))
        L.havoc('num_good', g)
        L.havoc('samps', rows)
        L.havoc('draw', d)
        L.havoc('cnt', E.int('cnt', 0))
        if 'fracs' in e:
            L.havoc('fracs', [])
        if not L.cond():
            return False
        k0 = len(trials)
        L.step()
        E.prove('candidates of one draw', len(trials) == k0 + 1)
        t = trials[-1]
        N = E.np.shape(t)[1]
        ins = E.build((N,), lambda i: within(E, refl, [t.at((a, i)) for a in range(D)]), 'b')
        sel = E.np.where(ins)[0]
        c = E.np.count_nonzero(ins)
        g2, s2 = e['num_good'], E.asarr(e['samps'])
        E.eq('as many more samples as candidates inside, until there are enough', g2, E.min(g + c, m))
        E.shape_is('room for the samples', s2, [m, D])
        r = E.idx(m)
        for a in range(D):
            E.prove('earlier samples stay', E.imp(r < g, s2.at((r, a)) == rows.at((r, a))))
        q = E.idx(m)
        E.assume(q < c)
        E.assume(g + q < m)
        for a in range(D):
            E.eq('further samples are the candidates inside, in order', s2.at((g + q, a)), t.at((a, sel.at((q,)))))
        y = [s2.at((g + q, a)) for a in range(D)]
        E.prove('samples inside of the boundaries', within(E, refl, y))
        E.prove('candidates for the next draw', E.imp(g2 < m, e['draw'] >= 1))
        return True
    E.loop('_resample_reflect', rule)
    kw = dict(size=m) if size != 'default' else {}
    try:
        if how == 'kernel':
            r = E.call(K.resample, data, weights=w, reflect=refl, **kw)
        elif how == 'function':
            r = E.call('kalepy.resample', data, weights=w, bandwidth=h, covariance=E.asarr(cov), reflect=refl, **kw)
        elif how == 'own':
            k = E.call('kde.KDE', data, weights=w, bandwidth=h, covariance=E.asarr(cov), helper=False, reflect=refl)
            r = E.call(k.resample, **kw)
        else:
            k = E.call('kde.KDE', data, weights=w, bandwidth=h, covariance=E.asarr(cov), helper=False)
            r = E.call(k.resample, reflect=refl, **kw)
    except RuntimeError:
        return                      # too few candidates inside after many draws: reported, no result
    if how != 'kernel':
        E.under('kde.KDE.resample')
    E.under('kernels.Kernel.resample', 'kernels.Kernel._resample_reflect', 'utils.bound_indices')
    r = E.asarr(r)
    E.shape_is('as many points as requested', r, [m] if D == 1 else [D, m])
    i = E.idx(m)
    x = [r.at((i,)) if D == 1 else r.at((a, i)) for a in range(D)]
    E.prove('inside of the boundaries', within(E, refl, x))
    if E.concrete:
        good = [[float(t[a, j]) for a in range(D)] for t in trials for j in range(t.shape[1])
                if within(E, refl, [t[a, j] for a in range(D)])]
        for a in range(D):
            E.eq('the candidates inside, in order', x[a], good[i][a])
    E.unchanged('frame', data, *([w] if weights else []))


def refused(E, D, keep, kinds):
    """keeping a dimension that has a boundary"""
    n, data, w, refl, cov, h, K, at = setup(E, D, kinds, False, 'Gaussian')
    E.raises('refused', lambda: E.call(K.resample, data, size=3, reflect=refl, keep=keep))
    E.under('utils.cov_keep_vars')
    E.unchanged('frame', data)


def indices(E, D, kinds, outside, flat=False):
    """bound_indices"""
    n = E.dim('n', 1)
    data = E.array('data', n if flat else (D, n))
    refl = bounds(E, kinds)
    r = E.asarr(E.call('utils.bound_indices', data, refl[0] if flat else refl, **(dict(outside=True) if outside else {})))
    E.shape_is('one answer per point', r, [n])
    i = E.idx(n)
    x = [data.at((i,)) if flat else data.at((a, i)) for a in range(D)]
    ins, out = [], []
    for k, b in enumerate(refl):
        for side, loc in enumerate(b or []):
            if loc is not None:
                ins.append(x[k] > loc if side == 0 else x[k] < loc)
                out.append(x[k] < loc if side == 0 else x[k] > loc)
    if outside:
        E.eq('outside of a boundary', r.at((i,)), E.lor(*out) if out else False)
    else:
        E.eq('inside of all boundaries', r.at((i,)), E.land(*ins) if ins else True)
    E.unchanged('frame', data)


for D, kk in ((1, 'b l u'.split()), (2, 'bn lu bb nu'.split()), (3, 'nbn lub nnl'.split())):
    for kinds in kk:
        for weights in (False, True):
            spec('C10', 'reflected %s%s' % (kinds, ' weighted' if weights else ''), D=D, kinds=kinds, weights=weights, budget=40.0)(reflected)
            for kernel in ('Gaussian', 'Triweight') if weights else ('Box', 'Parabola'):
                spec('C10', 'truncated %s %s%s' % (kinds, kernel, ' weighted' if weights else ''), D=D, kinds=kinds, weights=weights, kernel=kernel, budget=40.0)(truncated)
                spec('C10', 'mixture %s %s%s' % (kinds, kernel, ' weighted' if weights else ''), D=D, kinds=kinds, weights=weights, kernel=kernel, budget=40.0)(mixture)
        spec('C10', 'accepted %s' % kinds, D=D, kinds=kinds, weights=D == 2, budget=30.0)(accepted)
        for outside in (False, True):
            spec('C10', 'indices %s%s' % (kinds, ' outside' if outside else ''), D=D, kinds=kinds, outside=outside)(indices)
            if D == 1:
                spec('C10', 'indices %s flat%s' % (kinds, ' outside' if outside else ''), D=D, kinds=kinds, outside=outside, flat=True)(indices)
    for how in ('own', 'argument', 'function'):
        spec('C10', 'estimator %s %s' % (kk[0], how), D=D, kinds=kk[0], weights=how == 'own', how=how, budget=30.0)(accepted)
    spec('C10', 'estimator %s default size' % kk[1], D=D, kinds=kk[1], weights=False, how='own', size='default', budget=30.0)(accepted)
for kinds, form in (('b', 'list'), ('l', 'flat'), ('b', 'flat'), ('t', 'list'), ('T', 'list'), ('bn', 'list'), ('lu', 'tuple'), ('tl', 'list'), ('nbu', 'list'), ('Tnb', 'list')):
    spec('C10', 'boundaries %s %s' % (kinds, form), D=len(kinds), kinds=kinds, form=form, budget=30.0)(boundaries)
for D, kinds, keep in ((2, 'bn', 1), (2, 'nl', [0]), (3, 'nun', [0, 2]), (3, 'nub', 0)):
    spec('C10', 'kept %s with boundaries %s' % (keep, kinds), D=D, kinds=kinds, weights=True, kernel='Gaussian', keep=keep, budget=40.0)(mixture)
for D, kinds, keep in ((1, 'b', 0), (1, 'l', True), (2, 'bn', 0), (2, 'nu', [0, 1]), (2, 'nl', True), (3, 'nbn', [2, 1])):
    spec('C10', 'refused %s with boundaries %s' % (keep, kinds), D=D, kinds=kinds, keep=keep)(refused)
