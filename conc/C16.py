from harness import test, close, ok, raises, accepts, internal
from common import *
from kalepy import utils


def gen0(rng, k, dmax=5):
    d = int(rng.integers(1, dmax))
    nb = [int(rng.integers(1, [9, 6, 4, 3][d - 1])) for _ in range(d)]
    edges = [gen_edges(rng, n) for n in nb]
    dens = rng.normal(size=[n + 1 for n in nb]) if k % 3 else rng.lognormal(0, 2, [n + 1 for n in nb])
    na = int(rng.integers(1, d + 1))
    axes = [int(x) for x in rng.permutation(d)[:na]]
    return dict(dens=dens, edges=edges, axes=axes, lst=bool(rng.random() < .3), b=rng.normal(size=dens.shape), co=rng.normal(size=2))


def mass_axes(dens, edges, axes):
    m = np.asarray(dens, float)
    for a in axes:
        m = np.moveaxis(m, a, -1)
        m = (m[..., 1:] + m[..., :-1]) / 2 * np.diff(edges[a])
        m = np.moveaxis(m, -1, a)
    return m


def args(c):
    e = c['edges']
    if c['lst']:
        return c['dens'].tolist(), (e[0].tolist() if len(e) == 1 else [x.tolist() for x in e])
    return c['dens'], (e[0] if len(e) == 1 and len(c['axes']) % 2 else e)


def sc(c):
    return np.abs(c['dens']).max() * np.prod([max(1e-300, np.ptp(e)) for e in c['edges']])


@test(quick=400)
class CellMass:
    gen = gen0

    def check(c):
        dens, e = args(c)
        close(utils.trapz_dens_to_mass(dens, e), trapz_mass(c['dens'], c['edges']), "cell masses", rtol=1e-9, atol=1e-13 * sc(c))
        close(utils.trapz_dens_to_mass(dens, e, axis=None), trapz_mass(c['dens'], c['edges']), "cell masses", rtol=1e-9, atol=1e-13 * sc(c))
        ex = mass_axes(c['dens'], c['edges'], c['axes'])
        at = 1e-12 * np.abs(c['dens']).max() * np.prod([np.diff(c['edges'][a]).max() for a in c['axes']])
        for ax in (c['axes'], tuple(c['axes']), np.array(c['axes'])) + ((c['axes'][0],) if len(c['axes']) == 1 else ()):
            close(utils.trapz_dens_to_mass(dens, e, axis=ax), ex, "masses along axes %r" % (ax,), rtol=1e-9, atol=at)


@test(quick=300)
class Totals:
    gen = gen0

    def check(c):
        if len(c['edges']) == 1:
            dens, e = c['dens'], c['edges'][0]
        else:
            dens, e = args(c)
        m = trapz_mass(c['dens'], c['edges'])
        close(utils.trapz_nd(dens, e), m.sum(), "total integral", rtol=1e-8, atol=1e-12 * sc(c))
        ex = mass_axes(c['dens'], c['edges'], c['axes']).sum(axis=tuple(c['axes']))
        at = 1e-11 * np.abs(c['dens']).max() * np.prod([np.ptp(c['edges'][a]) for a in c['axes']])
        for ax in (c['axes'], np.array(c['axes'])) + ((c['axes'][0],) if len(c['axes']) == 1 else ()):
            close(utils.trapz_nd(dens, e, axis=ax), ex, "integral along axes %r" % (ax,), rtol=1e-8, atol=at)


@test(quick=300)
class Cumulative:
    gen = gen0

    def check(c):
        d = len(c['edges'])
        dens, e = args(c)
        m = trapz_mass(c['dens'], c['edges'])
        F = m
        for k in range(d):
            F = np.cumsum(F, axis=k)
        full = np.zeros(c['dens'].shape)
        full[tuple([slice(1, None)] * d)] = F
        at = 1e-11 * sc(c)
        close(utils.cumtrapz(dens, e), full, "cumulative integral", rtol=1e-8, atol=at)
        close(utils.cumtrapz(dens, e, prepend=False), F, "cumulative integral without prepended zeros", rtol=1e-8, atol=at)
        a = c['axes'][0]
        Fa = np.cumsum(mass_axes(c['dens'], c['edges'], [a]), axis=a)
        at = 1e-11 * np.abs(c['dens']).max() * np.ptp(c['edges'][a])
        close(utils.cumtrapz(dens, e, prepend=False, axis=a), Fa, "cumulative integral along axis %d" % a, rtol=1e-8, atol=at)
        z = np.concatenate([np.zeros_like(np.take(Fa, [0], axis=a)), Fa], axis=a)
        close(utils.cumtrapz(dens, e, axis=a), z, "cumulative integral along axis %d, with zeros" % a, rtol=1e-8, atol=at)
        if d > 1:
            s = c['dens'].copy()
            for k in range(d):
                s = np.cumsum(s, axis=k)
            close(utils.cumsum(dens), s, "cumulative sum", rtol=1e-8, atol=1e-11 * np.abs(c['dens']).max() * c['dens'].size)
        close(utils.cumsum(dens, axis=a), np.cumsum(c['dens'], axis=a), "cumulative sum along an axis", rtol=1e-8, atol=1e-11 * np.abs(c['dens']).max() * c['dens'].size)


@test(quick=200)
class LinearExact:
    """linear in the density; exact for densities linear along each axis"""
    gen = gen0

    def check(c):
        e, d = c['edges'], len(c['edges'])
        p, q = c['co']
        a, b = c['dens'], c['b']
        at = 1e-11 * (abs(p) * np.abs(a).max() + abs(q) * np.abs(b).max()) * np.prod([np.ptp(x) for x in e])
        for name in ('trapz_dens_to_mass', 'trapz_nd', 'cumtrapz'):
            f = getattr(utils, name)
            close(f(p * a + q * b, e), p * np.asarray(f(a, e)) + q * np.asarray(f(b, e)), "%s is linear" % name, rtol=1e-8, atol=at)
        # product of linear functions: exact integral
        cs = [(float(a.ravel()[k % a.size]), float(b.ravel()[k % b.size])) for k in range(d)]
        dens, ex = np.ones([1] * d), 1.0
        cell = np.ones([1] * d)
        for k in range(d):
            sh = [-1 if j == k else 1 for j in range(d)]
            u, v = cs[k]
            dens = dens * (u + v * e[k]).reshape(sh)
            cell = cell * np.diff(u * e[k] + v * e[k] ** 2 / 2).reshape(sh)
        at = 1e-10 * np.prod([(abs(u) + abs(v) * np.abs(x).max()) * (np.abs(x).max() + np.ptp(x)) for (u, v), x in zip(cs, e)])
        close(utils.trapz_dens_to_mass(dens, e), cell, "exact for densities linear along each axis", rtol=1e-7, atol=at)
        close(utils.trapz_nd(dens, e), cell.sum(), "exact total for densities linear along each axis", rtol=1e-7, atol=at * cell.size)
