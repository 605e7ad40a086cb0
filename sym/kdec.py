"""Common pieces of the contracts of the estimator."""


def quiet(E):
    """contract of KDE._finalize (diagnostics only): no effect on the estimator"""
    E.stub('kde.KDE._finalize', lambda self, *a, **k: None)


def dataset(E, D, n=None, name='data', lo=2):
    """D arrays of n values -> what the caller passes"""
    n = E.dim('n', lo) if n is None else n
    return n, E.array(name, n if D == 1 else (D, n))


def datum(x, k, i, D):
    return x.at((i,)) if D == 1 else x.at((k, i))


def kernel_density(E, seen):
    """contract of Kernel.density (C01, C03, C05): some value per point, arguments untouched; recorded in seen"""
    def contract(self, points, data, weights=None, reflect=None, params=None):
        p = E.asarr(points) if E.np.ndim(points) == 2 else E.np.atleast_2d(points)
        m = E.np.shape(p)[1]
        z = E.array('dens%d' % len(seen), m)
        seen.append(dict(kernel=self, points=p.copy(), data=E.asarr(data).copy(),
                         weights=None if weights is None else E.asarr(weights).copy(), reflect=reflect, params=params, z=z))
        return z.copy()
    if not E.concrete:
        E.stub('kernels.Kernel.density', contract)


def estimator(E, D, weights=False, lo=2, **kw):
    """an estimator of arbitrary data with a given positive definite covariance and one bandwidth"""
    from kern import spd
    quiet(E)
    n, data = dataset(E, D, lo=lo)
    w = E.array('w', n, nonneg=True) if weights else None
    if weights:
        E.assume(E.sum(n, lambda j: w.at((j,))) > 0)
    cov = spd(E, D, 'cov')
    bw = E.real('bw', pos=True)
    k = E.call('kde.KDE', data, bandwidth=bw, covariance=E.asarr(cov), weights=w, **kw)
    return n, data, w, cov, bw, k
