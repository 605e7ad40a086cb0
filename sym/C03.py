"""Contracts for reflection (kernels.Kernel.density, kde.KDE.density)."""
from pydv.spec import spec
from kern import spd, det, adj, ref_sum, kernel_sums, inverse_contract, bounds, outside, mirrored
from kdec import datum, estimator, kernel_density

# boundaries per dimension: n none, b both, l lower only, u upper only, e neither side
KINDS = {1: ['b', 'l', 'u', 'e', 'n'], 2: ['bb', 'bn', 'nb', 'lu', 'nl', 'eb', 'nn'], 3: ['bbb', 'nbn', 'lnu']}


def reflected(E, D, kinds, weights):
    cov = spd(E, D)
    n, m = E.dim('n', 1), E.dim('m', 1)
    data, pts = E.array('data', (D, n)), E.array('pts', (D, m))
    w = E.array('w', n, nonneg=True) if weights else None
    refl = bounds(E, kinds)
    k = E.call('kernels.Kernel', E.fn('kernels.Gaussian'), 1, E.asarr(cov))
    box, seen = [], []
    H = kernel_sums(E, D, box)
    if D > 2:
        inverse_contract(E, seen)
    r = E.asarr(E.call(k.density, pts, data, weights=w, reflect=refl))
    E.under('kernels.Kernel.density')
    E.shape_is('one value per point', r, [m])
    i = E.idx(m)
    x = [pts.at((a, i)) for a in range(D)]
    out = outside(E, refl, x)
    norm = E.call('kernels.Gaussian.norm', D)
    at = lambda j: [data.at((a, j)) for a in range(D)]
    if E.concrete:
        t = 0.0
        for q in range(len(mirrored(refl, at(0)))):
            Y = [[mirrored(refl, at(j))[q][a] for j in range(n)] for a in range(D)]
            t += ref_sum(E, 'Gaussian', cov, x, Y, w, n, norm)
        E.eq('density with its mirror images, zero outside', r.at((i,)), 0.0 if out else t)
    else:
        W = box[0]['white']
        dt = det(cov)
        s = E.sqrt(dt) * norm
        one = (lambda j: w.at((j,))) if weights else (lambda j: 1)
        t = 0
        for q in range(len(mirrored(refl, at(0)))):
            t = t + E.sum(n, lambda j: H(*[x[a] - mirrored(refl, at(j))[q][a] for a in range(D)]) * one(j))
        E.prove('zero outside of the boundaries', E.imp(out, r.at((i,)) == 0))
        E.prove('density with its mirror images', E.imp(E.lnot(out), r.at((i,)) * s == t))
        E.shape_is('whitening', W, [D, D])
        V = seen[0][1] if seen else None
        for a in range(D):
            for b in range(a, D):
                g = sum(W.at((c, a)) * W.at((c, b)) for c in range(D))
                if V:
                    E.eq('whitening is a root of the inverse smoothing matrix', g, V[a][b])
                else:
                    E.eq('whitening is a root of the inverse smoothing matrix', g * dt, adj(cov)[a][b])
    E.unchanged('frame', data, pts, *([w] if weights else []))


for D in KINDS:
    for kinds in KINDS[D]:
        for weights in (False, True):
            spec('C03', 'mirror images %s%s' % (kinds, ' weighted' if weights else ''), D=D, kinds=kinds, weights=weights, budget=30.0,
                 tier='thorough' if D == 3 and weights else 'quick')(reflected)


def same_bounds(E, name, got, want):
    if want is None:
        E.prove(name, got is None)
        return
    E.prove(name, got is not None and len(got) == len(want))
    for g, b in zip(got, want):
        if b is None:
            E.prove(name, g is None)
            continue
        E.prove(name, g is not None and len(g) == 2)
        for u, v in zip(g, b):
            if v is None:
                E.prove(name, u is None)
            else:
                E.prove(name, u is not None)
                E.eq(name, u, v)


def handed(E, D, kinds, given):
    """the boundaries of the estimator, or those of the call, reach the kernel unchanged"""
    refl = bounds(E, kinds)
    arg = refl[0] if D == 1 and kinds == 'b' else refl
    n, data, w, cov, bw, k = estimator(E, D, weights=(given == 'call'), reflect=None if given == 'call' else arg, helper=False)
    m = E.dim('m', 1)
    pts = E.array('pts', m if D == 1 else (D, m))
    seen = []
    kernel_density(E, seen)
    p, v = E.call(k.density, pts, **({} if given == 'init' else dict(reflect=arg)))
    E.under('kde.KDE.density', 'kde.KDE.__init__', 'kernels._check_reflect')
    v = E.asarr(v)
    E.shape_is('one value per point', v, [m])
    i, j = E.idx(m), E.idx(n)
    if E.concrete:
        x = [datum(pts, a, i, D) for a in range(D)]
        M = [[cov[a][b] * bw * bw for b in range(D)] for a in range(D)]
        norm = E.call('kernels.Gaussian.norm', D)
        X = lambda j: [datum(data, a, j, D) for a in range(D)]
        t = 0.0
        for q in range(len(mirrored(refl, X(0)))):
            Y = [[mirrored(refl, X(j))[q][a] for j in range(n)] for a in range(D)]
            t += ref_sum(E, 'Gaussian', M, x, Y, w, n, norm)
        E.eq('density', v.at((i,)), 0.0 if outside(E, refl, x) else t)
    else:
        E.prove('one density', len(seen) == 1)
        c = seen[0]
        E.eq('density', v.at((i,)), c['z'].at((i,)))
        E.shape_is('kernel points', c['points'], [D, m])
        E.shape_is('kernel data', c['data'], [D, n])
        for a in range(D):
            E.eq('kernel points', c['points'].at((a, i)), datum(pts, a, i, D))
            E.eq('kernel data', c['data'].at((a, j)), datum(data, a, j, D))
        if w is not None:
            E.eq('kernel weights', c['weights'].at((j,)), w.at((j,)))
        else:
            E.prove('no weights', c['weights'] is None)
        E.prove('all dimensions', c['params'] is None)
        same_bounds(E, 'boundaries of the kernel', c['reflect'], refl)
        same_bounds(E, 'boundaries of the estimator', k.reflect, None if given == 'call' else refl)
    E.unchanged('frame', data, pts)


for D in KINDS:
    for kinds in KINDS[D][:3]:
        for given in ('init', 'call'):
            spec('C03', 'boundaries %s of the %s' % (kinds, {'init': 'estimator', 'call': 'call'}[given]), D=D, kinds=kinds, given=given,
                 budget=30.0)(handed)
