"""Contracts for the density (kernels.py, kde.py)."""
from pydv.spec import spec
from kern import spd, det, adj, profile, rows, kernel_sum, inverse_contract, ref_sum, KERNELS
from kdec import datum, estimator, kernel_density


def kernel_sum_body(E, kernel=None):
    d, n, m = E.dim('d', 1), E.dim('n', 1), E.dim('m', 1)
    white, data, pts, w = E.array('white', (d, d)), E.array('data', (d, n)), E.array('pts', (d, m)), E.array('w', n)
    K = (lambda t: profile(E, kernel, t)) if kernel else E.function('K')
    r = E.call('kernels._evaluate_numba', white, data, pts, w, E.fn('kernels.%s._evaluate' % kernel) if kernel else K)
    E.shape_is('one value per point', r, [m])
    i = E.idx(m)
    y2 = lambda j: E.sum(d, lambda k: E.sq(E.sum(d, lambda l: white.at((k, l)) * pts.at((l, i)))
                                           - E.sum(d, lambda l: white.at((k, l)) * data.at((l, j)))))
    E.eq('sum over the data of kernel profile times weight', r.at((i,)), E.sum(n, lambda j: K(y2(j)) * w.at((j,))))
    E.unchanged('frame', white, data, pts, w)


spec('C01', 'kernel sum', budget=30.0)(kernel_sum_body)
for k in KERNELS:
    spec('C01', 'kernel sum, ' + k, budget=30.0, kernel=k)(kernel_sum_body)


def scaled(E, name, M, D, c, seen):
    """the sum was taken of the covariance-scaled distances, with these data, points and weights"""
    inv, dt = adj(M), det(M)
    wh = c['white']
    E.shape_is(name + ': whitening', wh, [D, D])
    if seen:
        M0, V = seen[0]
        for a in range(D):
            for b in range(D):
                E.eq(name + ': the inverse of the smoothing matrix', M0[a][b], M[a][b])
        for a in range(D):
            for b in range(a, D):
                E.eq(name + ': whitening is a root of the inverse smoothing matrix',
                     sum(wh.at((k, a)) * wh.at((k, b)) for k in range(D)), V[a][b])
        return
    for a in range(D):
        for b in range(a, D):
            E.eq(name + ': whitening is a root of the inverse smoothing matrix',
                 sum(wh.at((k, a)) * wh.at((k, b)) for k in range(D)) * dt, inv[a][b])


def inverse(E, D):
    m = spd(E, D)
    M = E.asarr(m)
    v = E.asarr(E.call('utils.matrix_invert', M, helper=False))
    E.shape_is('square', v, [D, D])
    A, dt = adj(m), det(m)
    for i in range(D):
        for j in range(D):
            E.eq('adjugate over determinant', v.at((i, j)) * dt, A[i][j])
    V = rows(E, v, D)
    if D > 1:
        E.lemma('diagonal', m[1][1] > 0)
    if D > 2:
        g = m[1][1] * m[2][2] - m[1][2] * m[1][2]
        h = m[0][1] * m[1][2] - m[0][2] * m[1][1]
        E.lemma('complementary minor', E.close(m[1][1] * dt + h * h, (m[0][0] * m[1][1] - m[0][1] * m[0][1]) * g))
        E.lemma('complementary minor is positive', g > 0)
        f = V[0][0] * V[1][1] - V[0][1] * V[0][1]
        E.lemma('minor of the inverse', E.close(f * dt, m[2][2]))
        E.lemma('last diagonal', m[2][2] > 0)
        C = [V[0][1] * V[1][2] - V[0][2] * V[1][1], V[0][2] * V[1][0] - V[0][0] * V[1][2], f]
        for k in range(3):
            E.lemma('cofactor of the inverse', E.close(C[k] * dt, m[2][k]))
        p = sum(V[2][k] * m[2][k] for k in range(3))
        E.lemma('product', E.close(p * dt, dt))
        E.lemma('product is one', E.close(p, 1))
        E.rule('determinant of the inverse', [det(V), dt], lambda x, t: [E.close(x * t, 1), t > 0], lambda x, t: x > 0)
    for k in range(1, D + 1):
        E.prove('positive definite (%d)' % k, det([r[:k] for r in V[:k]]) > 0)
    E.unchanged('frame', M)


for D in (1, 2, 3):
    spec('C01', 'inverse %dD' % D, D=D, budget=30.0)(inverse)


def density(E, D, kernel, weights):
    cov = spd(E, D)
    bw = E.real('bw', pos=True) if D < 3 else 1
    n, m = E.dim('n', 1), E.dim('m', 1)
    data, pts = E.array('data', (D, n)), E.array('pts', (D, m))
    w = E.array('w', n, nonneg=True) if weights else None
    k = E.call('kernels.Kernel', E.fn('kernels.' + kernel), bw, E.asarr(cov))
    M = [[cov[i][j] * bw * bw for j in range(D)] for i in range(D)]
    box, seen = [], []
    kernel_sum(E, box)
    if D > 2:
        inverse_contract(E, seen)
    r = E.call(k.density, pts, data, weights=w)
    E.under('kernels.Kernel.density', 'kernels.Kernel.matrix_inv', 'kernels.Kernel.norm')
    r = E.asarr(r)
    E.shape_is('one value per point', r, [m])
    i = E.idx(m)
    norm = E.call('kernels.%s.norm' % kernel, D)
    if E.concrete:
        want = ref_sum(E, kernel, M, [pts.at((a, i)) for a in range(D)],
                       [[data.at((a, j)) for j in range(n)] for a in range(D)], w, n, norm)
        E.eq('density at a point', r.at((i,)), want)
    else:
        E.prove('one kernel sum', len(box) == 1)
        c = box[0]
        scaled(E, 'distance', M, D, c, seen)
        j = E.idx(n)
        E.shape_is('all data', c['data'], [D, n])
        E.shape_is('all points', c['points'], [D, m])
        E.shape_is('all weights', c['weights'], [n])
        for a in range(D):
            E.eq('the data', c['data'].at((a, j)), data.at((a, j)))
            E.eq('the points', c['points'].at((a, i)), pts.at((a, i)))
        E.eq('the weights, one if none are given', c['weights'].at((j,)), w.at((j,)) if weights else 1)
        y = E.real('y2', nonneg=True)
        E.eq('profile of the kernel', c['kfunc'](y), profile(E, kernel, y))
        s = E.sqrt(det(M))
        E.eq('divided by the root of the determinant and the normalization', r.at((i,)) * s * norm, c['z'].at((i,)))
    E.unchanged('frame', data, pts, *([w] if weights else []))


for D in (1, 2, 3):
    for kernel in KERNELS:
        for weights in (False, True):
            spec('C01', 'kernel density %dD %s%s' % (D, kernel, ' weighted' if weights else ''), D=D, kernel=kernel, weights=weights,
                 budget=30.0, tier='quick' if D < 3 or kernel == 'Gaussian' else 'thorough')(density)


def nonneg(E, kernel):
    d, n, m = E.dim('d', 1), E.dim('n', 1), E.dim('m', 1)
    white, data, pts, w = E.array('white', (d, d)), E.array('data', (d, n)), E.array('pts', (d, m)), E.array('w', n, nonneg=True)
    r = E.call('kernels._evaluate_numba', white, data, pts, w, E.fn('kernels.%s._evaluate' % kernel))
    E.prove('never negative', r.at((E.idx(m),)) >= 0)


for k in KERNELS:
    spec('C01', 'kernel sum is nonnegative, ' + k, budget=30.0, kernel=k)(nonneg)


def whole(E, D, weights):
    """KDE.density hands the points, the data and the weights to the kernel and returns its values"""
    n, data, w, cov, bw, k = estimator(E, D, weights)
    m = E.dim('m', 1)
    pts = E.array('pts', m if D == 1 else (D, m))
    seen = []
    kernel_density(E, seen)
    out = E.call(k.density, pts)
    E.under('kde.KDE.density', 'kde.KDE.__init__')
    p, v = out
    p, v = E.asarr(p), E.asarr(v)
    E.shape_is('one value per point', v, [m])
    i, j = E.idx(m), E.idx(n)
    E.shape_is('the points', p, [m] if D == 1 else [D, m])
    for a in range(D):
        E.eq('the points', datum(p, a, i, D), datum(pts, a, i, D))
    if E.concrete:
        M = [[cov[a][b] * bw * bw for b in range(D)] for a in range(D)]
        norm = E.call('kernels.Gaussian.norm', D)
        E.eq('density', v.at((i,)), ref_sum(E, 'Gaussian', M, [datum(pts, a, i, D) for a in range(D)],
                                            [[datum(data, a, j, D) for j in range(n)] for a in range(D)], w, n, norm))
    else:
        E.prove('one density', len(seen) == 1)
        c = seen[0]
        E.eq('density', v.at((i,)), c['z'].at((i,)))
        E.shape_is('kernel points', c['points'], [D, m])
        E.shape_is('kernel data', c['data'], [D, n])
        for a in range(D):
            E.eq('kernel points', c['points'].at((a, i)), datum(pts, a, i, D))
            E.eq('kernel data', c['data'].at((a, j)), datum(data, a, j, D))
        if weights:
            E.shape_is('kernel weights', c['weights'], [n])
            E.eq('kernel weights', c['weights'].at((j,)), w.at((j,)))
        else:
            E.prove('no weights', c['weights'] is None)
        E.prove('no boundaries, all dimensions', c['reflect'] is None and c['params'] is None)
        E.prove('the kernel of the estimator', c['kernel'] is k.kernel)
        M = E.asarr(k.kernel.matrix)
        for a in range(D):
            for b in range(D):
                E.eq('smoothing matrix', M.at((a, b)), cov[a][b] * bw * bw)
    E.unchanged('frame', data, pts, *([w] if weights else []))


for D in (1, 2, 3):
    for weights in (False, True):
        spec('C01', 'estimator density %dD%s' % (D, ' weighted' if weights else ''), D=D, weights=weights, budget=30.0)(whole)
