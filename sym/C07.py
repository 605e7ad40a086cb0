"""Contracts for the smoothing matrix (kde.KDE.__init__, _set_bandwidth, _compute_bandwidth; kernels.Kernel.__init__)."""
from fractions import Fraction as Fr
from pydv.spec import spec
from kern import spd
from kdec import quiet, datum, dataset


def rule(E, name, neff, D):
    e = Fr(-1, D + 4)
    x = neff if name in (None, 'scott') else neff * (D + 2) / 4
    return x ** float(e) if E.concrete else E.np.power(x, e)


def scalar_of(E, b, neff, D):
    return rule(E, b, neff, D) if b is None or isinstance(b, str) else b


def bandwidth_arg(E, D, form):
    """-> argument, matrix of specifications (None: no entry)"""
    if form in (None, 'scott', 'silverman'):
        return form, [[form] * D for _ in range(D)]
    if form == 'number':
        b = E.real('b', pos=True)
        return b, [[b] * D for _ in range(D)]
    if form == 'one':
        b = E.real('b', pos=True)
        return [b], [[b] * D for _ in range(D)]
    if form in ('each', 'rules'):
        v = [E.real('b%d' % k, pos=True) if form == 'each' or k == 1 else ('scott', '', 'silverman')[k] for k in range(D)]
        return v, [[v[i] if i == j else None for j in range(D)] for i in range(D)]
    v = [[E.real('b%d%d' % (i, j), pos=(i == j)) for j in range(D)] for i in range(D)]
    return (E.asarr(v) if form == 'matrix' else v), v


def matrix(E, D, form, weights=False, diagonal=False, rescale=None, neff=False, given=True, flat=False, kernel=None):
    quiet(E)
    n, data = dataset(E, D, lo=3)
    w = E.array('w', n, nonneg=True) if weights else None
    X = lambda a, j: datum(data, a, j, D)
    kw = {}
    if weights:
        W = E.sum(n, lambda j: w.at((j,)))
        W2 = E.sum(n, lambda j: w.at((j,)) * w.at((j,)))
        E.assume(W > 0)
        E.assume(W2 > 0)
        E.assume(W * W > W2)      # more than one weighted point
        kw['weights'] = w
    if given:
        cov = spd(E, D, 'cov')
        kw['covariance'] = cov[0][0] if flat else E.asarr(cov)
    if neff:
        N = E.real('neff', pos=True)
        E.assume(N >= 2)
        kw['neff'] = N
    elif weights:
        N = W * W / W2
    else:
        N = n
    arg, B = bandwidth_arg(E, D, form)
    if arg is not None:
        kw['bandwidth'] = arg
    if diagonal:
        kw['diagonal'] = True
        B = [[B[i][j] if i == j else None for j in range(D)] for i in range(D)]
    if rescale == 'number':
        r = E.real('r', pos=True)
        kw['bw_rescale'] = r
        R = [[r] * D for _ in range(D)]
    elif rescale == 'each':
        r = [E.real('r%d' % k, pos=True) for k in range(D)]
        kw['bw_rescale'] = E.asarr(r)
        R = [r for _ in range(D)]
    else:
        R = [[1] * D for _ in range(D)]
    if kernel:
        kw['kernel'] = kernel
    k = E.call('kde.KDE', data, helper=False, **kw)
    E.under('kde.KDE._set_bandwidth', 'kde.KDE._compute_bandwidth', 'kernels.Kernel.__init__')
    if not given:
        if weights:
            mean = [E.sum(n, lambda j: w.at((j,)) * X(a, j)) / W for a in range(D)]
            fact = W - W2 / W
            cov = [[E.sum(n, lambda j: w.at((j,)) * ((X(a, j) - mean[a]) * (X(b, j) - mean[b]))) / fact for b in range(D)] for a in range(D)]
        else:
            mean = [E.sum(n, lambda j: X(a, j)) / n for a in range(D)]
            cov = [[E.sum(n, lambda j: (X(a, j) - mean[a]) * (X(b, j) - mean[b])) / (n - 1) for b in range(D)] for a in range(D)]
    E.eq('effective number', k.neff, N)
    bm, cm, mm = E.asarr(k.bandwidth), E.asarr(k.covariance), E.asarr(k.kernel.matrix)
    for nm, a in (('bandwidth', bm), ('covariance', cm), ('smoothing matrix', mm)):
        E.shape_is(nm, a, [D, D])
    for i in range(D):
        for j in range(D):
            s = B[i][j]
            if s is None and not (form is None and not (diagonal and i != j)):
                b = 0
            else:
                b = scalar_of(E, s, N, D)
            b = b * R[i][j]
            E.eq('covariance', cm.at((i, j)), cov[i][j])
            E.eq('bandwidth', bm.at((i, j)), b)
            E.eq('smoothing matrix', mm.at((i, j)), cov[i][j] * b * b)
    E.unchanged('frame', data, *([w] if weights else []))


FORMS = [None, 'scott', 'silverman', 'number', 'one', 'each', 'matrix', 'list matrix', 'rules']
for D in (1, 2, 3):
    for form in FORMS:
        if D == 1 and form in ('each', 'matrix', 'list matrix', 'rules'):
            continue
        for diagonal in (False, True):
            spec('C07', 'matrix %dD %s%s' % (D, form, ' diagonal' if diagonal else ''), D=D, form=form, diagonal=diagonal)(matrix)
        spec('C07', 'matrix %dD %s weighted' % (D, form), D=D, form=form, weights=True)(matrix)
        spec('C07', 'matrix %dD %s rescaled' % (D, form), D=D, form=form, rescale='number')(matrix)
    spec('C07', 'matrix %dD rescaled each' % D, D=D, form='number', rescale='each')(matrix)
    spec('C07', 'matrix %dD finite kernel' % D, D=D, form='scott', kernel='box')(matrix)
    for form in ('scott', 'silverman'):
        spec('C07', 'matrix %dD %s neff given' % (D, form), D=D, form=form, neff=True, weights=True)(matrix)
    if D < 3:
        for weights in (False, True):
            for form in (None, 'number'):
                spec('C07', 'matrix %dD %s sample covariance%s' % (D, form, ' weighted' if weights else ''), D=D, form=form, given=False, weights=weights,
                     budget=30.0)(matrix)
spec('C07', 'matrix 1D plain covariance', D=1, form='scott', flat=True)(matrix)
