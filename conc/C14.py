from harness import test, close, ok, raises, accepts, internal
from common import *
from C13 import grid0, cells
import kalepy as kale


def face(dens, dim):
    """average of the densities on the lower and the upper face of each cell in a dimension"""
    lo, hi = None, None
    d = dens.ndim
    shp = tuple(s - 1 for s in dens.shape)
    out = [np.zeros(shp), np.zeros(shp)]
    for c in itertools.product((0, 1), repeat=d):
        out[c[dim]] += dens[tuple(slice(k, k + s) for k, s in zip(c, shp))]
    return out[0] / 2 ** (d - 1), out[1] / 2 ** (d - 1)


def lin_cdf(t, y1, y2):
    """CDF at t in [0, 1] of the density proportional to y1 + (y2 - y1) t"""
    tot = (y1 + y2) / 2
    with np.errstate(all='ignore'):
        u = (y1 * t + (y2 - y1) * t ** 2 / 2) / tot
    return np.where(tot > 0, u, t)


@test(quick=200, thorough=2000)
class PositionLaw:
    def gen(rng, k):
        c = grid0(rng)
        c['interp'] = bool(k % 4)
        if k % 3 == 0:
            # steep cells next to flat ones of very different density
            c['dens'] = c['dens'] * 10.0 ** rng.uniform(-4, 4, [c['dens'].shape[0]] + [1] * (c['dens'].ndim - 1))
        return c

    def check(c):
        d, n = len(c['edges']), 3000
        s = np.reshape(kale.sample_grid(c['edges'], c['dens'], nsamp=n, mass=c['mass'], interpolate=c['interp'], squeeze=False), (d, n))
        idx = cells(s, c['edges'])
        us = []
        for k in range(d):
            e = c['edges'][k]
            t = (s[k] - e[idx[k]]) / np.diff(e)[idx[k]]
            if c['interp']:
                y1, y2 = face(c['dens'], k)
                u = lin_cdf(t, y1[idx], y2[idx])
            else:
                u = t
            us.append(u)
            p = ks_uniform(u)
            ok(p > P_MIN, "positions inside of the cells, dimension %d (p=%g)" % (k, p))
            # and each well filled cell by itself
            flat = np.ravel_multi_index(idx, tuple(len(e) - 1 for e in c['edges']))
            for q in np.unique(flat):
                if (flat == q).sum() >= 100:
                    p = ks_uniform(u[flat == q])
                    ok(p > P_MIN, "positions inside of cell %d, dimension %d (p=%g)" % (q, k, p))
        import scipy.stats as st
        for a in range(d):
            for b in range(a):
                x = (us[a] > .5) == (us[b] > .5)
                ok(st.binomtest(int(x.sum()), n, .5).pvalue > P_MIN, "positions in two dimensions depend on each other")


@test(quick=300)
class InverseCdf:
    """the internal inverse: exactly the inverse of the linear CDF for every gradient"""
    def gen(rng, k):
        n = int(rng.integers(1, 6))
        m = 40
        e = gen_edges(rng, n)
        g = rng.choice([0.0, 1e-10, -1e-10, 1e-7, 1e-4, -1e-3, .3, -.5, 1.0, 1.9, -1.99, 2.0, -2.0], m) * (1 if k % 2 else rng.uniform(.2, 1, m))
        u = rng.uniform(0, 1, m)
        u[:3] = [0.0, 1 - 1e-16, .5]
        return dict(e=e, b=rng.integers(0, n, m), u=u, g=g)

    def check(c):
        f = internal('sample._intrabin_linear_interp')
        e, b, u, g = c['e'], c['b'], c['u'], c['g']
        w = np.diff(e)
        v = f(e, w, u.copy(), b, g.copy())
        t = (v - e[b]) / w[b]
        tol = 1e-6
        ok(np.all((t >= -tol) & (t <= 1 + tol)), "a sample outside of its cell")
        F = (1 - g / 2) * t + g * t ** 2 / 2
        close(F, u, "inverse of the linear cumulative distribution", rtol=0, atol=1e-6)


@test(quick=200)
class Scalars:
    """scalar values of samples: cell average plus the linear change to the sampled position"""
    def gen(rng, k):
        c = grid0(rng)
        sc = rng.normal(size=c['dens'].shape)
        if k % 3 == 0:
            # linear scalar: it must be reproduced exactly
            co = rng.normal(size=len(c['edges']))
            sc = sum(a * e.reshape([-1 if i == j else 1 for j in range(len(c['edges']))]) for i, (a, e) in enumerate(zip(co, c['edges']))) + 0 * sc
            c['co'] = co
        c['sc'] = sc
        c['interp'] = bool(k % 4)
        return c

    def check(c):
        d, n = len(c['edges']), 300
        S = kale.sample.Sample_Grid(c['edges'], c['dens'], mass=c['mass'], scalar_dens=c['sc'])
        for rep in range(2):
            s, v = S.sample(n, interpolate=c['interp'])
            ok(np.shape(s) == (d, n) and np.shape(v) == (n,), "shapes of samples and scalars")
            idx = cells(s, c['edges'])
            inner = np.ones(n, bool)
            ave = sum(face(c['sc'], 0)) / 2
            ex = ave[idx].copy()
            for k in range(d):
                e = c['edges'][k]
                t = (s[k] - e[idx[k]]) / np.diff(e)[idx[k]]
                inner &= (t > 1e-6) & (t < 1 - 1e-6)
                a, b = face(c['sc'], k)
                if c['interp']:
                    ex += (b - a)[idx] * (t - .5)
            sc = np.abs(c['sc']).max() + 1e-300
            close(np.asarray(v)[inner], ex[inner], "scalar of each sample", rtol=0, atol=1e-6 * sc)
            if 'co' in c and c['interp']:
                close(v, c['co'] @ s, "a linear scalar is reproduced", rtol=0, atol=1e-6 * (sc + np.abs(c['co'][:, None] * s).max()))


@test(quick=80)
class OtherCells:
    """the law in a cell does not change with the densities of other cells"""
    def gen(rng, k):
        a, b = rng.uniform(.05, 1, 2)
        big = 10.0 ** rng.uniform(3, 9)
        dens = np.array([a, b, big, big * .3])
        return dict(e=gen_edges(rng, 3), dens=dens, mass=np.array([1.0, .01, .01]))

    def check(c):
        s = kale.sample_grid(c['e'], c['dens'], nsamp=3000, mass=c['mass'])
        e = c['e']
        x = s[(s < e[1])]
        t = (x - e[0]) / (e[1] - e[0])
        ok(ks_uniform(lin_cdf(t, c['dens'][0], c['dens'][1])) > P_MIN, "law inside of a cell beside a dense cell")
