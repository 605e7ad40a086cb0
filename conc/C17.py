from harness import test, close, ok, raises, accepts, internal
from common import *
from kalepy import utils


def gen0(rng, k):
    d = int(rng.integers(1, 5))
    nb = [int(rng.integers(1, [9, 6, 4, 3][d - 1])) for _ in range(d)]
    edges = [gen_edges(rng, n) for n in nb]
    shp = [n + 1 for n in nb]
    kind = k % 5
    if kind == 0:
        dens = rng.uniform(0, 1, shp)
    elif kind == 1:
        dens = rng.integers(0, 3, shp).astype(float)
    elif kind == 2:
        dens = rng.lognormal(0, 3, shp)
    elif kind == 3:
        dens = rng.uniform(.1, 1, shp) * (rng.random(shp) < .4)
    else:
        dens = np.ones(shp) * rng.uniform(.1, 5)
    return dict(dens=dens * 10.0 ** rng.uniform(-3, 3), edges=edges, lst=bool(rng.random() < .3))


@test(quick=600)
class Centroid:
    gen = gen0

    def check(c):
        dens, edges = c['dens'], c['edges']
        d = dens.ndim
        shp = tuple(s - 1 for s in dens.shape)
        if c['lst']:
            got = utils.centroids([e.tolist() for e in edges], dens.tolist()) if d > 1 else utils.centroids([edges[0].tolist()], dens.tolist())
        else:
            got = utils.centroids(edges, dens)
        got = np.asarray(got, float)
        ok(got.shape == (d,) + shp, "one centroid per cell and dimension (%s)" % (got.shape,))
        for k in range(d):
            f = [np.zeros(shp), np.zeros(shp)]
            for cc in itertools.product((0, 1), repeat=d):
                f[cc[k]] += dens[tuple(slice(q, q + s) for q, s in zip(cc, shp))]
            a, b = f
            sh = [-1 if j == k else 1 for j in range(d)]
            lo, w = edges[k][:-1].reshape(sh), np.diff(edges[k]).reshape(sh)
            lo, w = lo + 0 * a, w + 0 * a
            pos = (a + b) > 0
            with np.errstate(all='ignore'):
                ex = lo + w * (a + 2 * b) / (3 * (a + b))
            sc = np.abs(edges[k]).max() + np.ptp(edges[k])
            close(got[k][pos], ex[pos], "centroid in dimension %d" % k, rtol=1e-9, atol=1e-11 * sc)
            g = got[k]
            tol = 1e-11 * sc
            ok(np.all(g[pos] > (lo + w / 3 * .999)[pos] - tol) and np.all(g[pos] < (lo + w * 2 / 3 * 1.001)[pos] + tol), "centroid strictly inside of its cell")
            ok(np.all(np.isfinite(g)) and np.all(g >= lo - tol) and np.all(g <= lo + w + tol), "centroid of an empty cell inside of the cell")
            eq = pos & (a == b)
            close(g[eq], (lo + w / 2)[eq], "midpoint for equal faces", rtol=1e-9, atol=tol)
            up = pos & (b > a * (1 + 1e-9))
            dn = pos & (a > b * (1 + 1e-9))
            ok(np.all(g[up] > (lo + w / 2)[up] - tol) and np.all(g[dn] < (lo + w / 2)[dn] + tol), "centroid moves to the denser face")
