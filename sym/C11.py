"""Contracts for random draws from the kernels (kernels.py: sample, _sample, _sample_beta_kernel, _triweight_inverse_func).

The random number generator is assumed to return independent draws of the named law.  What is proved is the map from these
draws to the result, for every outcome:
  * g standard normal and independent of the radius R: R g / |g| has a uniformly random direction and the radius R,
  * u uniform on [0, 1): R with R^D = u is the radius of the uniform density on the ball,
  * b of the law Beta(D/2, p+1): R with R^2 = b is the radius of the density (1 - r^2)^p,
  * the median of three uniform numbers on [-1, 1) has the density 3/4 (1 - x^2),
  * u uniform on [0, 1): R with P(R) = u has the cumulative distribution P."""
from fractions import Fraction
from pydv.spec import spec

KERNELS = ['Gaussian', 'Box', 'Parabola', 'Triweight']
POWER = {'Parabola': 1, 'Triweight': 3}


def normals(E, D, m):
    """D independent standard normal numbers for each draw: (coordinate, draw) -> number; None without any"""
    mv, nn = E.events('multivariate_normal'), E.events('normal')
    if not mv and not nn:
        return None
    if len(mv) + len(nn) > 1 and not (not mv and len(nn) == D):
        E.cannot('normal numbers of several calls')
    if mv:
        e = mv[0]
        mean, cov, o = E.asarr(e['mean']), E.asarr(e['cov']), E.asarr(e['out'])
        for a in range(D):
            E.eq('standard normal numbers', mean.at((a,)), 0)
            for b in range(D):
                E.eq('standard normal numbers', cov.at((a, b)), 1 if a == b else 0)
        E.shape_is('normal numbers of every draw', o, [m, D])
        return lambda a, i: o.at((i, a))
    for e in nn:
        E.eq('standard normal numbers', e.get('loc', 0), 0)
        E.eq('standard normal numbers', e.get('scale', 1), 1)
    if len(nn) == D and len(E.np.shape(nn[0]['out'])) == 1:
        for e in nn:
            E.shape_is('normal numbers of every draw', E.asarr(e['out']), [m])
        return lambda a, i: E.asarr(nn[a]['out']).at((i,))
    o = E.asarr(nn[0]['out'])
    if len(E.np.shape(o)) != 2:
        E.cannot('layout of the normal numbers')
    E.shape_is('normal numbers of every draw', o, [D, m])
    return lambda a, i: o.at((a, i))


def numbers(E, evs, m, i, lo=None, hi=None):
    """the number of draw i"""
    if len(evs) != 1:
        E.cannot('several calls of the random number generator')
    e = evs[0]
    if lo is not None:
        E.eq('range of the uniform numbers', e['low'], lo)
        E.eq('range of the uniform numbers', e['high'], hi)
    o = E.asarr(e['out'])
    s = E.np.shape(o)
    if len(s) == 1:
        E.shape_is('a number for every draw', o, [m])
        return o.at((i,))
    if len(s) == 2:
        E.shape_is('a number for every draw', o, [1, m])
        return o.at((0, i))
    E.cannot('layout of the random numbers')


def table(E):
    """the tabulated inverse: its knots lie on the cumulative distribution of the triweight kernel, closely spaced"""
    T = E.fn('kernels._triweight_inverse_func')
    n = int(E.np.shape(T.x)[0])
    u, r = [E.asarr(T.x).at((k,)) for k in range(n)], [E.asarr(T.y).at((k,)) for k in range(n)]
    c = E.real_const(1, 0) * 35 / 16
    P = lambda x: c * (x - x * x * x + 3 * x * x * x * x * x / 5 - x * x * x * x * x * x * x / 7)
    tol = 1e-12 if E.concrete else 0
    E.prove('cumulative distribution at the knots', all(abs(P(x) - v) <= tol for x, v in zip(r, u)))
    E.prove('radius of the knots increases', all(a < b for a, b in zip(r, r[1:])))
    E.prove('cumulative distribution of the knots increases', all(a < b for a, b in zip(u, u[1:])))
    E.prove('closely spaced knots', all((b - a) * 900 <= 1 for a, b in zip(r, r[1:])))
    E.prove('all radii', r[0] == 0 and r[-1] == 1 and u[0] == 0 and u[-1] == 1)
    E.under('kernels._triweight_cdf')


def draws(E, kernel, D, squeeze):
    m = E.dim('m', 2 if squeeze is True and D > 1 else 1)
    kw = {} if squeeze is None else dict(squeeze=squeeze)
    if squeeze == 'default':
        r = E.call('kernels.%s.sample' % kernel, m)
    else:
        r = E.call('kernels.%s.sample' % kernel, m, ndim=D, **kw)
    r = E.asarr(r)
    E.under('kernels.%s._sample' % kernel)
    one = D == 1 and squeeze is not False
    E.shape_is('as many draws as requested', r, [m] if one else [D, m])
    i = E.idx(m)
    x = [r.at((i,)) if one else r.at((a, i)) for a in range(D)]
    s2 = 0
    for v in x:
        s2 = s2 + v * v
    if kernel == 'Gaussian':
        g = normals(E, D, m)
        if g is None:
            E.cannot('no normal numbers')
        for a in range(D):
            E.eq('standard normal draw', x[a], g(a, i))
        return
    g = normals(E, D, m)
    if g is None:
        if D > 1:
            E.cannot('no normal numbers')
        us = E.events('uniform')
        if len(us) != 1:
            E.cannot('several calls of the random number generator')
        o = E.asarr(us[0]['out'])
        if kernel == 'Box':
            E.eq('uniform between -1 and 1', x[0], numbers(E, us, m, i, -1, 1))
        elif kernel == 'Parabola' and len(E.np.shape(o)) == 3:
            E.eq('range of the uniform numbers', us[0]['low'], -1)
            E.eq('range of the uniform numbers', us[0]['high'], 1)
            E.shape_is('three numbers for every draw', o, [1, m, 3])
            v = [o.at((0, i, k)) for k in range(3)]
            E.prove('the draw is one of three uniform numbers', E.lor(*[x[0] == q for q in v]))
            # not more than one of the others on either side
            for p, q in ((0, 1), (0, 2), (1, 2)):
                E.prove('the draw is the median', E.land(x[0] >= E.min(v[p], v[q]), x[0] <= E.max(v[p], v[q])))
        else:
            E.cannot('other way to draw')
        E.prove('within unit distance', x[0] * x[0] <= 1)
        return
    n2 = 0
    for a in range(D):
        n2 = n2 + g(a, i) * g(a, i)
    E.assume(n2 > 0)                       # almost surely
    for a in range(D):
        E.prove('direction of the normal numbers', E.close(x[a] * g(0, i), x[0] * g(a, i)))
    dot = 0
    for a in range(D):
        dot = dot + x[a] * g(a, i)
    E.prove('direction of the normal numbers: orientation', dot >= 0)
    bs, us = E.events('beta'), E.events('uniform')
    if kernel in POWER and bs and not us:
        b = numbers(E, bs, m, i)
        E.eq('law of the squared distance', bs[0]['a'], E.real_const(1, 0) * D / 2)
        E.eq('law of the squared distance', bs[0]['b'], POWER[kernel] + 1)
        E.eq('squared distance', s2, b)
    elif kernel == 'Box' and us and not bs:
        u = numbers(E, us, m, i, 0, 1)
        R = E.pow(u, Fraction(1, D))
        E.eq('distance', s2, R * R)
        p = 1
        for _ in range(D):
            p = p * R
        E.eq('fraction of the ball within the distance', p, u)
    elif kernel == 'Triweight' and D == 1 and us and not bs:
        u = numbers(E, us, m, i, 0, 1)
        T = E.fn('kernels._triweight_inverse_func')
        t = E.asarr(T(E.asarr([u]))).at((0,))
        E.eq('tabulated distance', s2, t * t)
    else:
        E.cannot('other way to draw the distance')
    E.prove('within unit distance', s2 <= (1 + 1e-12 if E.concrete else 1))


spec('C11', 'table')(table)
for kn in KERNELS:
    spec('C11', 'draws %s default' % kn, kernel=kn, D=1, squeeze='default')(draws)
    for D in (1, 2, 3, 4, 5):
        for sq in (None, True, False) if D < 4 else (None,):
            spec('C11', 'draws %s %dD%s' % (kn, D, '' if sq is None else ' squeezed' if sq else ' not squeezed'), kernel=kn, D=D, squeeze=sq)(draws)
