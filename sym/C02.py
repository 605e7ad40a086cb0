"""Contracts for the kernels (kernels.py: the four distributions, _nball_vol, _beta_kernel_norm, get_distribution_class)."""
import itertools
from pydv.spec import spec
from kern import profile
from kdec import quiet, dataset

KERNELS = ['Gaussian', 'Box', 'Parabola', 'Triweight']
NAMES = {'gaussian': 'Gaussian', 'box': 'Box', 'parabola': 'Parabola', 'epanechnikov': 'Parabola', 'triweight': 'Triweight'}
# profile on [0, 1] as a polynomial of the squared distance
POLY = {'Box': [1], 'Parabola': [1, -1], 'Triweight': [1, -3, 3, -1]}


def ball(E, d):
    """volume of the unit ball"""
    return E.pow(E.pi, d / 2) / E.gamma(d / 2 + 1)


def shape_of(E, kernel):
    """the unnormalized kernel is its documented profile of the squared distance"""
    n = E.dim('n', 1)
    y2 = E.array('y2', n, nonneg=True)
    r = E.asarr(E.call('kernels.%s._evaluate' % kernel, y2))
    i = E.idx(n)
    E.shape_is('one value per point', r, [n])
    x, v = y2.at((i,)), r.at((i,)) * 1
    E.eq('profile', v, profile(E, kernel, x))
    E.prove('nonnegative', v >= 0)
    E.unchanged('frame', y2)
    if kernel != 'Gaussian':
        E.prove('zero beyond unit distance', E.imp(x > 1, v == 0))
        t = 0
        for k, c in enumerate(POLY[kernel]):
            p = c
            for _ in range(k):
                p = p * x
            t = t + p
        if E.concrete:
            if x <= 1:
                E.eq('polynomial within unit distance', v, t)
        else:
            E.prove('polynomial within unit distance', E.imp(x <= 1, v == t))


def normalization(E, kernel, D):
    """the divisor is the integral of the profile over the whole space.
    Radial integration: integral = D V_D int_0^inf profile(r^2) r^(D-1) dr, with int_0^1 r^(2k+D-1) dr = 1/(D+2k)"""
    d = D if D else E.int('D', 1, 40)
    v = E.call('kernels.%s.norm' % kernel, d)
    if kernel == 'Gaussian':
        # the square root of 2 pi in each dimension
        if D:
            e = 1
            for _ in range(D):
                e = e * E.sqrt(2 * E.pi)
        else:
            e = E.pow(2 * E.pi, d / 2)
    else:
        s = 0
        for k, c in enumerate(POLY[kernel]):
            s = s + c / (d * E.real_const(1, 0) + 2 * k)
        e = d * ball(E, d) * s
    E.eq('integral of the profile', v, e)


def evaluate(E, kernel, D, flat):
    """the kernel at points: profile of the distance over the normalization"""
    n = E.dim('n', 1)
    d = D if D else E.dim('D', 1)
    y = E.array('y', n if flat else (d, n))
    r = E.asarr(E.call('kernels.%s.evaluate' % kernel, y))
    N = E.call('kernels.%s.norm' % kernel, d)
    E.shape_is('one value per point', r, [n])
    i = E.idx(n)
    x = y.at((i,)) * y.at((i,)) if flat else E.sum(d, lambda k: y.at((k, i)) * y.at((k, i)))
    if D:
        E.lemma('positive normalization', N > 0)
    E.prove('nonnegative', r.at((i,)) >= 0)
    if E.concrete:
        if abs(x - 1) > 1e-9:
            E.eq('kernel', r.at((i,)), profile(E, kernel, x) / N)
    else:
        E.eq('kernel', r.at((i,)) * N, profile(E, kernel, x))
    E.unchanged('frame', y)


def grid(E, kernel, D):
    """grid evaluation is pointwise evaluation"""
    n = [E.dim('n%d' % k, 1) for k in range(D)]
    x = [E.array('x%d' % k, n[k]) for k in range(D)]
    r = E.asarr(E.call('kernels.%s.grid' % kernel, x))
    E.shape_is('shape of the grid', r, n)
    N = E.call('kernels.%s.norm' % kernel, D)
    E.lemma('positive normalization', N > 0)
    i = [E.idx(a) for a in n]
    s = 0
    for k in range(D):
        s = s + x[k].at((i[k],)) * x[k].at((i[k],))
    v = r.at(tuple(i))
    if E.concrete:
        if abs(s - 1) > 1e-9:
            E.eq('value on the grid', v, profile(E, kernel, s) / N)
    else:
        E.eq('value on the grid', v * N, profile(E, kernel, s))
    E.unchanged('frame', *x)


def cases(name):
    return itertools.product(*[(c, c.upper()) for c in name])


def names(E, kernel):
    """every spelling of a documented name, in any letter case: all of them are tried"""
    f = E.fn('kernels.get_distribution_class')
    want = E.fn('kernels.%s' % NAMES[kernel])
    E.under('kernels.get_distribution_class')
    E.prove('in any letter case', all(f(''.join(c)) is want for c in cases(kernel)))
    E.prove('the class itself', f(want) is want)
    E.prove('no name', f() is E.fn('kernels.Gaussian') and f(None) is E.fn('kernels.Gaussian'))
    for k in (kernel, kernel.upper(), kernel.capitalize(), want, None):
        est = made(E, k)
        E.prove('kernel of an estimator', isinstance(est._kernel.distribution, want if k is not None else E.fn('kernels.Gaussian')))


def made(E, kernel):
    quiet(E)
    n, data = dataset(E, 1, lo=2)
    w = E.call('kde.KDE', data, bandwidth=E.real('h', pos=True), covariance=E.asarr([[1]]), helper=False, **({} if kernel is None else dict(kernel=kernel)))
    return w


for kn in KERNELS:
    spec('C02', 'profile %s' % kn, kernel=kn)(shape_of)
    for D in (0, 1, 2, 3, 4, 5, 6, 7, 8):
        spec('C02', 'normalization %s %s' % (kn, '%dD' % D if D else 'any dimension'), kernel=kn, D=D)(normalization)
    for D in (0, 1, 2, 3, 4):
        spec('C02', 'kernel %s %s' % (kn, '%dD' % D if D else 'any dimension'), kernel=kn, D=D, flat=False)(evaluate)
    spec('C02', 'kernel %s flat' % kn, kernel=kn, D=1, flat=True)(evaluate)
    for D in (1, 2, 3):
        spec('C02', 'grid %s %dD' % (kn, D), kernel=kn, D=D)(grid)
for nm in NAMES:
    spec('C02', 'name %s' % nm, kernel=nm)(names)
