from harness import test, close, ok, raises, internal
from common import *
import kalepy as kale
from kalepy import kernels


def cls_of(name):
    return kernels.get_distribution_class(name)


@test(quick=250)
class Profile:
    def gen(rng, k):
        d = int(rng.integers(1, 9))
        m = int(rng.integers(1, 12))
        u = rng.normal(size=(d, m))
        u /= np.linalg.norm(u, axis=0)
        r = rng.choice([0.0, 1e-9, 0.1, 0.5, 0.9, 1 - 1e-6, 1 + 1e-6, 1.3, 2.0, 5.0, 30.0], size=m) * 1.0
        r = np.where(rng.random(m) < .3, rng.uniform(0, 1.5, m), r)
        return dict(y=u * r, kernel=str(rng.choice(list(ALIASES))))

    def check(c):
        d = c['y'].shape[0]
        cls = cls_of(c['kernel'])
        kn = ALIASES[c['kernel']]
        v = np.asarray(cls.evaluate(c['y']), float)
        r2 = (c['y'] ** 2).sum(axis=0)
        e = kprof(kn, r2) / knorm(kn, d)
        g = np.abs(r2 - 1) > 1e-9
        ok(v.shape == r2.shape, "one value per point")
        ok(np.all(v >= 0), "negative kernel")
        close(v[g], e[g], "kernel profile", rtol=1e-8, atol=1e-13 / knorm(kn, d))
        if kn != 'gaussian':
            ok(np.all(v[(r2 > 1) & g] == 0), "finite kernel is not zero beyond unit distance")


@test(quick=60)
class Radial:
    """depends on the distance only"""
    def gen(rng, k):
        d = int(rng.integers(2, 6))
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        return dict(y=rng.normal(size=(d, 6)) * 0.5, q=q, kernel=str(rng.choice(KERNELS)))

    def check(c):
        cls = cls_of(c['kernel'])
        r = np.linalg.norm(c['y'], axis=0)
        g = np.abs(r - 1) > 1e-9
        close(np.asarray(cls.evaluate(c['q'] @ c['y']), float)[g], np.asarray(cls.evaluate(c['y']), float)[g], "not radial", rtol=1e-7, atol=1e-13)


@test(quick=80)
class OneDimensional:
    """1D positions, as a vector and as a single row"""
    def gen(rng, k):
        return dict(y=rng.uniform(-2, 2, int(rng.integers(1, 9))), kernel=str(rng.choice(KERNELS)))

    def check(c):
        cls = cls_of(c['kernel'])
        v = np.asarray(cls.evaluate(c['y']), float).ravel()
        v2 = np.asarray(cls.evaluate(c['y'][None, :]), float).ravel()
        close(v, v2, "vector and single row differ", rtol=1e-12)
        e = kprof(c['kernel'], c['y'] ** 2) / knorm(c['kernel'], 1)
        close(v, e, "1D kernel", rtol=1e-9, atol=1e-14)


@test(quick=4 * 20)
class Normalisation:
    """the constant: integral of the profile over the space, for every dimension"""
    def gen(rng, k):
        return dict(d=1 + k // 4, kernel=KERNELS[k % 4])

    def check(c):
        cls = cls_of(c['kernel'])
        n = float(cls().norm(c['d']))
        close(n, knorm(c['kernel'], c['d']), "kernel normalization (D=%d)" % c['d'], rtol=1e-9)
        # radial quadrature of the evaluated kernel
        d = c['d']
        if d <= 12:
            rmax = 1.0 if c['kernel'] != 'gaussian' else 14.0
            x, w = np.polynomial.legendre.leggauss(200)
            r = (x + 1) / 2 * rmax
            y = np.zeros((d, r.size))
            y[d - 1] = r
            f = np.asarray(cls.evaluate(y), float)
            tot = (f * r ** (d - 1) * w).sum() * rmax / 2 * d * vol(d)
            close(tot, 1.0, "integral of the kernel (D=%d)" % d, rtol=1e-6)


@test(quick=60)
class Names:
    def gen(rng, k):
        nm = list(ALIASES)[k % 5]
        s = ''.join(ch.upper() if rng.random() < .5 else ch for ch in nm)
        return dict(name=s if k % 3 else nm, want=ALIASES[nm], pts=rng.normal(size=(1, 5)))

    def check(c):
        cls = cls_of(c['name'])
        want = {'gaussian': kernels.Gaussian, 'box': kernels.Box, 'parabola': kernels.Parabola, 'triweight': kernels.Triweight}[c['want']]
        ok(cls is want, "name %r selects %r" % (c['name'], cls))
        ok(cls_of(want) is want, "a class selects itself")
        ok(cls_of(None) is kernels.Gaussian, "default kernel")
        data = np.array([0.0, 1.0, 3.0])
        for spec in (c['name'], want):
            kd = kale.KDE(data, bandwidth=1.0, covariance=1.0, kernel=spec)
            v = np.asarray(kd.density(c['pts'])[1], float)
            close(v, ref_density(c['want'], c['pts'], data[None], np.eye(1)), "kernel selected by %r" % (spec,), rtol=1e-9, atol=1e-13)
        v = np.asarray(kale.KDE(data, bandwidth=1.0, covariance=1.0).density(c['pts'])[1], float)
        close(v, ref_density('gaussian', c['pts'], data[None], np.eye(1)), "default kernel", rtol=1e-9)


@test(quick=80)
class Grid:
    def gen(rng, k):
        d = int(rng.integers(1, 4))
        return dict(edges=[np.sort(rng.uniform(-1.3, 1.3, int(rng.integers(1, 5)))) for _ in range(d)], kernel=str(rng.choice(KERNELS)))

    def check(c):
        cls = cls_of(c['kernel'])
        g = np.asarray(cls.grid(c['edges']), float)
        ok(g.shape == tuple(len(e) for e in c['edges']), "grid shape %s" % (g.shape,))
        for idx in np.ndindex(*g.shape):
            p = np.array([[e[i]] for e, i in zip(c['edges'], idx)])
            if abs((p ** 2).sum() - 1) < 1e-9:
                continue
            close(g[idx], float(np.ravel(cls.evaluate(p))[0]), "grid and pointwise kernel", rtol=1e-11, atol=1e-15)
