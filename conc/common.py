"""Input generators and reference formulas, written from the property statements (no kalepy code is used)."""
import itertools
import math
import numpy as np
import scipy.special as ss

KERNELS = ['gaussian', 'box', 'parabola', 'triweight']
ALIASES = {'gaussian': 'gaussian', 'box': 'box', 'parabola': 'parabola', 'epanechnikov': 'parabola', 'triweight': 'triweight'}


def vol(d):
    return math.pi ** (d / 2) / math.gamma(d / 2 + 1)


def knorm(kernel, d):
    if kernel == 'gaussian':
        return (2 * math.pi) ** (d / 2)
    if kernel == 'box':
        return vol(d)
    # integral of (1 - r^2)^p over the unit ball
    p = {'parabola': 1, 'triweight': 3}[kernel]
    return math.pi ** (d / 2) * math.gamma(p + 1) / math.gamma(d / 2 + p + 1)


def kprof(kernel, r2):
    r2 = np.asarray(r2, dtype=float)
    if kernel == 'gaussian':
        return np.exp(-r2 / 2)
    if kernel == 'box':
        return (r2 <= 1).astype(float)
    p = {'parabola': 1, 'triweight': 3}[kernel]
    return np.where(r2 < 1, np.clip(1 - r2, 0, None) ** p, 0.0)


def dist2(points, data, matrix):
    """(M, N) squared scaled distances"""
    df = points[:, :, None] - data[:, None, :]
    d = matrix.shape[0]
    inv = np.linalg.inv(matrix)
    return np.einsum('dmn,de,emn->mn', df, inv, df)


def ref_density(kernel, points, data, matrix, weights=None):
    d = data.shape[0]
    w = np.ones(data.shape[1]) if weights is None else np.asarray(weights, float)
    r2 = dist2(points, data, matrix)
    return (kprof(kernel, r2) @ w) / (knorm(kernel, d) * math.sqrt(np.linalg.det(matrix)))


def edge_free(kernel, points, data, matrix):
    """the points whose distances are not within rounding of the edge of the box kernel"""
    if kernel != 'box':
        return np.ones(points.shape[1], bool)
    return np.all(np.abs(dist2(points, data, matrix) - 1) > 1e-7, axis=1)


def ref_reflected(kernel, points, data, matrix, weights, reflect):
    """reflect: list of None or [lo, hi]"""
    v = ref_density(kernel, points, data, matrix, weights)
    out = np.zeros(points.shape[1], bool)
    good = edge_free(kernel, points, data, matrix)
    for d, r in enumerate(reflect):
        if r is None:
            continue
        for s, loc in enumerate(r):
            if loc is None:
                continue
            m = data.copy()
            m[d] = 2 * loc - m[d]
            v = v + ref_density(kernel, points, m, matrix, weights)
            good &= edge_free(kernel, points, m, matrix)
            out |= (points[d] < loc) if s == 0 else (points[d] > loc)
    v[out] = 0.0
    return v, out, good | out


def ref_cov(data, weights=None):
    data = np.atleast_2d(data)
    n = data.shape[1]
    if weights is None:
        mu = data.mean(axis=1, keepdims=True)
        x = data - mu
        return x @ x.T / (n - 1)
    w = np.asarray(weights, float)
    W = w.sum()
    mu = (data * w).sum(axis=1, keepdims=True) / W
    x = data - mu
    # reliability weights
    return (x * w) @ x.T / (W - (w ** 2).sum() / W)


def ref_neff(n, weights=None):
    if weights is None:
        return float(n)
    w = np.asarray(weights, float)
    return w.sum() ** 2 / (w ** 2).sum()


def scott(neff, d):
    return neff ** (-1.0 / (d + 4))


def silverman(neff, d):
    return (neff * (d + 2.0) / 4.0) ** (-1.0 / (d + 4))


# ------------------------------------------------------------------ generators
def gen_data(rng, d, n, scale=None):
    kind = rng.integers(4)
    if kind == 0:
        x = rng.normal(size=(d, n))
    elif kind == 1:
        x = rng.uniform(-1, 1, size=(d, n))
    elif kind == 2:
        x = rng.lognormal(0, 0.6, size=(d, n))
    else:
        x = rng.integers(-4, 5, size=(d, n)).astype(float) + rng.normal(size=(d, n)) * 0.05
    if scale is None:
        scale = 10.0 ** rng.uniform(-2, 2)
    mix = np.eye(d) + 0.4 * rng.normal(size=(d, d)) * (rng.random() < 0.6)
    return mix @ x * scale + rng.normal(size=(d, 1)) * scale * rng.integers(0, 3)


def gen_weights(rng, n, none=0.35):
    if rng.random() < none:
        return None
    k = rng.integers(5)
    if k == 0:
        w = np.ones(n) * float(rng.uniform(0.1, 5))
    elif k == 1:
        w = rng.uniform(0.1, 3, n)
    elif k == 2:
        w = rng.lognormal(0, 2, n)
    elif k == 3:
        w = rng.integers(0, 4, n).astype(float)
        w[rng.integers(n)] = 2.0
        if n > 2:
            i = rng.choice(n, 2, replace=False)
            w[i] = [1.0, 3.0]
    else:
        w = rng.uniform(0, 1, n) * 10.0 ** rng.uniform(-6, 6)
    return w


def gen_matrix(rng, d, scale=1.0, diag=0.25):
    """positive definite"""
    a = rng.normal(size=(d, d))
    m = a @ a.T + 0.3 * np.eye(d)
    if rng.random() < diag:
        m = np.diag(np.diag(m))
    s = 10.0 ** rng.uniform(-1, 1, d)
    return m * s[:, None] * s[None, :] * scale ** 2


def gen_points(rng, data, matrix, m):
    """near the data, on data points, and far"""
    d, n = data.shape
    c = data[:, rng.integers(n, size=m)]
    l = np.linalg.cholesky(matrix)
    rad = rng.choice([0.0, 0.3, 0.8, 0.97, 1.03, 1.5, 3.0], size=m, p=[.05, .25, .25, .1, .1, .15, .1])
    u = rng.normal(size=(d, m))
    u /= np.linalg.norm(u, axis=0)
    return c + l @ (u * rad)


def gen_reflect(rng, data, allow_none=True, width=None):
    """a boundary specification around the data: list of None / [lo|None, hi|None], at least one boundary"""
    d = data.shape[0]
    while True:
        out = []
        for k in range(d):
            lo, hi = float(data[k].min()), float(data[k].max())
            s = (hi - lo) or 1.0
            c = rng.integers(5)
            a = lo - rng.choice([0.0, 0.05, 0.3]) * s
            b = hi + rng.choice([0.0, 0.05, 0.3]) * s
            if rng.random() < 0.2:
                a = lo + 0.1 * s
            if rng.random() < 0.2:
                b = hi - 0.1 * s
            out.append([None, [a, b], [a, None], [None, b], [a, b]][c])
        if any(r is not None for r in out) or not allow_none:
            return out


def gen_edges(rng, n, pos=False):
    w = rng.uniform(0.1, 2, n) if rng.random() < 0.7 else np.ones(n) * rng.uniform(0.2, 2)
    e = np.concatenate([[0.0], np.cumsum(w)]) + (0.1 if pos else rng.normal() * 3)
    return e * 10.0 ** rng.uniform(-1, 1)


def trapz_mass(dens, edges):
    """independent trapezoid mass of each cell: average of the corners times the volume"""
    d = dens.ndim
    shp = tuple(s - 1 for s in dens.shape)
    acc = np.zeros(shp)
    for c in itertools.product((0, 1), repeat=d):
        acc += dens[tuple(slice(k, k + s) for k, s in zip(c, shp))]
    acc /= 2 ** d
    for k in range(d):
        w = np.diff(edges[k])
        acc = acc * w.reshape([-1 if j == k else 1 for j in range(d)])
    return acc


def ks_uniform(u):
    """p value of the one-sample KS test against the uniform distribution"""
    import scipy.stats
    return scipy.stats.kstest(u, 'uniform').pvalue


P_MIN = 1e-9      # a statistical test fails below this p value


def chi2_p(counts, probs):
    import scipy.stats
    n = counts.sum()
    e = probs * n
    # merge the small cells
    o = np.argsort(e)
    counts, e = counts[o].astype(float), e[o]
    while len(e) > 1 and e[0] < 8:
        counts = np.concatenate([[counts[0] + counts[1]], counts[2:]])
        e = np.concatenate([[e[0] + e[1]], e[2:]])
        o = np.argsort(e)
        counts, e = counts[o], e[o]
    if len(e) < 2:
        return 1.0
    return scipy.stats.chi2.sf(((counts - e) ** 2 / e).sum(), len(e) - 1)
