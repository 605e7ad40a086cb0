from harness import test, close, ok, raises, accepts, internal
from common import *
import kalepy as kale


def grid0(rng, dmax=4, small=False):
    d = int(rng.integers(1, dmax))
    nb = [int(rng.integers(1, [8, 5, 4][d - 1])) for _ in range(d)]
    edges = [gen_edges(rng, n) for n in nb]
    shp = [n + 1 for n in nb]
    kind = int(rng.integers(4))
    if kind == 0:
        dens = rng.uniform(0.1, 1, shp)
    elif kind == 1:
        dens = rng.lognormal(0, 1.5, shp)
    elif kind == 2:
        dens = rng.uniform(0.1, 1, shp) * (rng.random(shp) < .5)
    else:
        dens = rng.integers(0, 4, shp).astype(float)
    if not dens.any():
        dens.flat[rng.integers(dens.size)] = 1.0
    dens = dens * 10.0 ** rng.uniform(-6, 6)
    mass = None
    if rng.random() < .5:
        mass = rng.lognormal(0, 1.5, nb) * (rng.random(nb) < .7)
        if not mass.any():
            mass.flat[rng.integers(mass.size)] = 1.0
        mass = mass * 10.0 ** rng.uniform(-3, 3)
    return dict(edges=edges, dens=dens, mass=mass)


def cells(s, edges):
    """the cell of each sample (inside or on its border)"""
    idx = []
    for x, e in zip(s, edges):
        tol = 1e-9 * (np.abs(e).max() + np.ptp(e))
        ok(x.size == 0 or (x.min() >= e[0] - tol and x.max() <= e[-1] + tol), "a sample outside of the grid: %r .. %r of %r" % (x.min(initial=0), x.max(initial=0), (e[0], e[-1])))
        idx.append(np.clip(np.searchsorted(e, x, side='right') - 1, 0, len(e) - 2))
    return tuple(idx)


def sample(c, nsamp, **kw):
    e = c['edges'][0] if (len(c['edges']) == 1 and c.get('flat')) else c['edges']
    s = kale.sample_grid(e, c['dens'], nsamp=nsamp, mass=c['mass'], **kw)
    return s


@test(quick=300)
class Counts:
    def gen(rng, k):
        c = grid0(rng)
        c['size'] = [1, 2, 13, 50, None, 0, 7.9][k % 7]
        c['flat'] = bool(k // 7 % 2)
        m = c['mass'] if c['mass'] is not None else trapz_mass(c['dens'], c['edges'])
        if c['size'] is None:
            f = float(rng.uniform(3, 500)) / m.sum()
            c['dens'] = c['dens'] * f
            if c['mass'] is not None:
                c['mass'] = c['mass'] * f
        c['interp'] = bool(rng.random() < .5)
        return c

    def check(c):
        d = len(c['edges'])
        n = c['size']
        s = sample(c, n, interpolate=c['interp'])
        if n is None:
            m = c['mass'] if c['mass'] is not None else trapz_mass(c['dens'], c['edges'])
            t = m.sum()
            if abs(t - round(t)) < 1e-6:
                return
            n = t
        n = int(n)
        ok(np.shape(s) == ((n,) if d == 1 else (d, n)), "shape %s of %d samples in %d dimensions" % (np.shape(s), n, d))
        s = np.reshape(s, (d, n))
        ok(np.all(np.isfinite(s)), "finite samples")
        idx = cells(s, c['edges'])
        # no sample in the interior of a cell without mass
        m = c['mass'] if c['mass'] is not None else trapz_mass(c['dens'], c['edges'])
        inner = np.ones(n, bool)
        for x, e, i in zip(s, c['edges'], idx):
            w = 1e-9 * (np.abs(e).max() + np.ptp(e))
            inner &= (x > e[i] + w) & (x < e[i + 1] - w)
        ok(np.all(m[idx][inner] > 0), "a sample in a cell without mass")


@test(quick=150, thorough=1500)
class CellFractions:
    def gen(rng, k):
        c = grid0(rng)
        c['interp'] = bool(k % 2)
        return c

    def check(c):
        d = len(c['edges'])
        n = 3000
        s = np.reshape(sample(c, n, interpolate=c['interp']), (d, n))
        m = c['mass'] if c['mass'] is not None else trapz_mass(c['dens'], c['edges'])
        idx = cells(s, c['edges'])
        cnt = np.bincount(np.ravel_multi_index(idx, m.shape), minlength=m.size)
        p = (m / m.sum()).ravel()
        if c['interp'] and c['mass'] is None or not c['interp']:
            # a sample exactly on a border may be counted to its neighbour
            pass
        pv = chi2_p(cnt, p)
        ok(pv > P_MIN, "samples per cell %s, mass fractions %s (p=%g)" % (cnt[:12], np.round(p[:12], 4), pv))


@test(quick=60)
class Sequence:
    """repeated sampling from one sampler: the same law, fresh samples, all counts"""
    def gen(rng, k):
        return grid0(rng)

    def check(c):
        S = kale.sample.Sample_Grid(c['edges'], c['dens'], mass=c['mass'])
        d = len(c['edges'])
        m = c['mass'] if c['mass'] is not None else trapz_mass(c['dens'], c['edges'])
        out = []
        for n in (5, 1, 700, 3, 700, 700):
            s = np.asarray(S.sample(n))
            ok(s.shape == (d, n), "shape of repeated sampling")
            out.append(s)
        ok(not np.array_equal(out[2], out[4]), "the same samples again")
        s = np.concatenate(out, axis=1)
        cnt = np.bincount(np.ravel_multi_index(cells(s, c['edges']), m.shape), minlength=m.size)
        ok(chi2_p(cnt, (m / m.sum()).ravel()) > P_MIN, "samples per cell of repeated sampling")


@test(quick=60)
class Singles:
    """samples drawn one at a time follow the same law"""
    def gen(rng, k):
        return grid0(rng, dmax=3)

    def check(c):
        d = len(c['edges'])
        m = c['mass'] if c['mass'] is not None else trapz_mass(c['dens'], c['edges'])
        S = kale.sample.Sample_Grid(c['edges'], c['dens'], mass=c['mass'])
        s = np.concatenate([S.sample(1) for _ in range(300)], axis=1)
        cnt = np.bincount(np.ravel_multi_index(cells(s, c['edges']), m.shape), minlength=m.size)
        ok(chi2_p(cnt, (m / m.sum()).ravel()) > P_MIN, "cells of samples drawn singly")


@test(quick=80)
class Proportional:
    def gen(rng, k):
        c = grid0(rng, dmax=4)
        c['portion'] = c['dens']
        c['dens2'] = c['dens'] * rng.uniform(.2, 2, c['dens'].shape)
        return c

    def check(c):
        d = len(c['edges'])
        v, w = kale.sample.sample_grid_proportional(c['edges'], c['dens2'], c['portion'], 2000, mass=c['mass'])
        ok(np.shape(v) == (d, 2000) and np.shape(w) == (2000,), "shapes of proportional sampling")
        m = c['mass'] if c['mass'] is not None else trapz_mass(c['portion'], c['edges'])
        cnt = np.bincount(np.ravel_multi_index(cells(v, c['edges']), m.shape), minlength=m.size)
        ok(chi2_p(cnt, (m / m.sum()).ravel()) > P_MIN, "samples per cell of proportional sampling")
