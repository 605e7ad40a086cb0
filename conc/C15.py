from harness import test, close, ok, raises, accepts, internal
from common import *
from C13 import grid0, cells
from C14 import face, lin_cdf
import kalepy as kale


def gen0(rng, k):
    c = grid0(rng)
    pos = rng.random() < .6
    if pos or c['mass'] is not None:
        c['dens'] = c['dens'] + .05 * c['dens'].max() * rng.random(c['dens'].shape)
    m = c['mass'] if c['mass'] is not None else trapz_mass(c['dens'], c['edges'])
    f = rng.uniform(5, 600) / m.sum()
    c['dens'] = c['dens'] * f
    if c['mass'] is not None:
        c['mass'] = c['mass'] * f
    m = m * f
    q = m[m > 0]
    c['thr'] = float([rng.choice(q), np.quantile(q, .5) * 1.01, q.max() * 2, q.min() * .5, q.max() * .7][k % 5])
    if k % 5 == 0:
        c['thr'] *= float(rng.choice([.9, 1.1]))
    return c


def com(edges, dens, k):
    a, b = face(dens, k)
    sh = [-1 if j == k else 1 for j in range(dens.ndim)]
    lo, w = edges[k][:-1].reshape(sh), np.diff(edges[k]).reshape(sh)
    with np.errstate(all='ignore'):
        f = (a + 2 * b) / (3 * (a + b))
    return lo + w * f, (a + b) > 0


@test(quick=250)
class Conservation:
    gen = gen0

    def check(c):
        d = len(c['edges'])
        m = c['mass'] if c['mass'] is not None else trapz_mass(c['dens'], c['edges'])
        v, w = kale.sample_outliers(c['edges'], c['dens'], c['thr'], mass=c['mass'])
        v, w = np.reshape(v, (d, -1)), np.asarray(w, float)
        ok(v.shape[1] == w.size, "one weight per point")
        heavy = m > c['thr']
        rest = m[~heavy].sum()
        if abs(rest - np.floor(rest) - .5) < 1e-6:
            return
        n = int(np.around(rest))
        ok(w.size == heavy.sum() + n, "%d points, expected %d heavy cells and %d samples" % (w.size, heavy.sum(), n))
        ok(abs(w.sum() - m.sum()) <= .5 + 1e-6 * m.sum(), "total weight %r, total mass %r" % (w.sum(), m.sum()))
        # each heavy cell: exactly one point, at its centre, with its mass as weight
        cen, good = zip(*[com(c['edges'], c['dens'], k) for k in range(d)])
        used = np.zeros(w.size, bool)
        for i in np.argwhere(heavy):
            i = tuple(i)
            hit = np.abs(w - m[i]) <= 1e-9 * m[i]
            for k in range(d):
                if good[k][i]:
                    hit &= np.abs(v[k] - cen[k][i]) <= 1e-7 * (np.abs(c['edges'][k]).max() + np.ptp(c['edges'][k]))
                else:
                    hit &= (v[k] >= c['edges'][k][i[k]]) & (v[k] <= c['edges'][k][i[k] + 1])
            hit &= ~used
            ok(hit.any(), "no point with the mass of the heavy cell %s at its centre" % (i,))
            used[np.argmax(hit)] = True
        ok(np.all(w[~used] == 1), "weights of the samples of light cells are not one")
        if n:
            s = v[:, ~used]
            idx = cells(s, c['edges'])
            inner = np.ones(n, bool)
            for x, e, i in zip(s, c['edges'], idx):
                tol = 1e-9 * (np.abs(e).max() + np.ptp(e))
                inner &= (x > e[i] + tol) & (x < e[i + 1] - tol)
            ok(not np.any(heavy[idx][inner]), "a sample in a heavy cell")
            ok(np.all(m[idx][inner] > 0), "a sample in a cell without mass")


@test(quick=60, thorough=600)
class LightFractions:
    def gen(rng, k):
        c = gen0(rng, k)
        m = c['mass'] if c['mass'] is not None else trapz_mass(c['dens'], c['edges'])
        rest = m[m <= c['thr']].sum()
        if rest <= 0:
            return None
        f = 2000 / rest
        c['dens'] = c['dens'] * f
        c['mass'] = None if c['mass'] is None else c['mass'] * f
        c['thr'] *= f
        return c

    def check(c):
        d = len(c['edges'])
        m = c['mass'] if c['mass'] is not None else trapz_mass(c['dens'], c['edges'])
        S = kale.sample.Sample_Outliers(c['edges'], c['dens'], threshold=c['thr'], mass=c['mass'])
        heavy = m > c['thr']
        if np.any(np.abs(m[heavy] - 1) < 1e-9):
            return
        for rep in range(2):
            n, v, w = S.sample()
            ok(n == np.size(w) == np.shape(v)[1], "reported number of samples")
            s = v[:, np.asarray(w) == 1]
            idx = cells(s, c['edges'])
            p = np.where(heavy, 0, m)
            cnt = np.bincount(np.ravel_multi_index(idx, m.shape), minlength=m.size)
            # (samples on a border are counted to the neighbour: only with rounding)
            pv = chi2_p(cnt, (p / p.sum()).ravel())
            ok(pv > P_MIN, "samples per light cell %s, masses %s (p=%g)" % (cnt[:10], p.ravel()[:10], pv))
            for k in range(d):
                e = c['edges'][k]
                t = (s[k] - e[idx[k]]) / np.diff(e)[idx[k]]
                a, b = face(c['dens'], k)
                pv = ks_uniform(lin_cdf(t, a[idx], b[idx]))
                ok(pv > P_MIN, "positions of outliers inside of their cells (p=%g)" % pv)


@test(quick=80)
class Poisson:
    """the random totals have the right mean: mass of the light cells, mass of each heavy cell"""
    def gen(rng, k):
        return gen0(rng, k)

    def check(c):
        import scipy.stats as st
        m = c['mass'] if c['mass'] is not None else trapz_mass(c['dens'], c['edges'])
        heavy = m > c['thr']
        rest = m[~heavy].sum()
        S = kale.sample.Sample_Outliers(c['edges'], c['dens'], threshold=c['thr'], mass=c['mass'])
        tot = nin = 0
        for _ in range(12):
            n, v, w = S.sample(poisson_inside=True, poisson_outside=True)
            tot += n - heavy.sum()
            nin += float(np.sum(w)) - (n - heavy.sum())
            ok(np.shape(v)[1] == n == np.size(w), "number of samples with Poisson numbers")
        for name, x, mu in (('light', tot, 12 * rest), ('heavy', nin, 12 * m[heavy].sum())):
            if mu > 0:
                p = min(st.poisson.cdf(x, mu), st.poisson.sf(x - 1, mu))
                ok(p > P_MIN, "total of the %s cells %r, expected %r" % (name, x, mu))
            else:
                ok(abs(x) < 1e-6, "total of the %s cells %r, expected none" % (name, x))
