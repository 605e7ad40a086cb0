"""Contracts for densities of selected parameters."""
from pydv.spec import spec
from kern import kernel_sums, inverse_contract, bounds, check_value
from kdec import datum, estimator


def selected(E, D, params, kinds, weights, grid=False, probability=False):
    """the density of the data restricted to the given dimensions in the given order"""
    refl = bounds(E, kinds) if kinds else None
    n, data, w, cov, bw, k = estimator(E, D, weights, reflect=refl, helper=False)
    ps = [params] if isinstance(params, int) else list(params)
    q = len(ps)
    if grid:
        m = [E.dim('m%d' % a, 1) for a in range(q)]
        pts = [E.array('p%d' % a, m[a]) for a in range(q)]
    else:
        m = [E.dim('m', 1)]
        pts = E.array('pts', m[0] if q == 1 else (q, m[0]))
    box, seen = [], []
    H = kernel_sums(E, q, box)
    if D > 2:
        inverse_contract(E, seen)
    p, v = E.call(k.density, pts, params=params, grid=grid, probability=probability)
    E.under('kde.KDE.density', 'kernels.Kernel.density')
    v = E.asarr(v)
    E.shape_is('one value per point', v, m)
    i = tuple(E.idx(a) for a in m)
    if grid:
        x = [pts[a].at((i[a],)) for a in range(q)]
    else:
        x = [datum(pts, a, i[0], q) for a in range(q)]
    if not grid:
        E.shape_is('the points', E.asarr(p), [m[0]] if q == 1 else [q, m[0]])
    at = lambda j: [datum(data, a, j, D) for a in ps]
    M = [[cov[a][b] * bw * bw for b in ps] for a in ps]
    rs = [refl[a] for a in ps] if refl else None
    if probability:
        t = E.sum(n, lambda j: w.at((j,))) if weights else n
        v = scaled(E, v, m, t)
    check_value(E, 'density of the selected dimensions', v, i, x, at, n, w, rs, H, box, seen, M, E.call('kernels.Gaussian.norm', q))
    E.unchanged('frame', data, *([w] if weights else []))


def scaled(E, v, m, t):
    return E.build(tuple(m), lambda *j: v.at(j) * t)


CASES = [
    (1, 0, None), (1, [0], 'b'), (2, 0, None), (2, 1, 'lu'), (2, [1], None), (2, [1, 0], 'bn'), (2, [0, 1], 'nu'), (2, [1, 0], None),
    (3, 2, 'bnl'), (3, [0, 2], 'bnl'), (3, [2, 0], 'bnl'), (3, [1, 2], None), (3, [2, 0, 1], 'lnu'), (3, [2, 1, 0], None),
]
for D, params, kinds in CASES:
    for weights in (False, True):
        big = not isinstance(params, int) and len(params) == 3
        spec('C05', 'parameters %s of %d%s%s' % (params, D, ' bounded ' + kinds if kinds else '', ' weighted' if weights else ''),
             D=D, params=params, kinds=kinds, weights=weights, budget=30.0, tier='thorough' if big and weights else 'quick')(selected)
for D, params, kinds in ((2, [1, 0], 'bn'), (3, [2, 0], None), (3, [1], 'nln')):
    spec('C05', 'parameters %s of %d on a grid' % (params, D), D=D, params=params, kinds=kinds, weights=True, grid=True, budget=30.0)(selected)
    spec('C05', 'probability of parameters %s of %d' % (params, D), D=D, params=params, kinds=kinds, weights=True, probability=True, budget=30.0)(selected)
