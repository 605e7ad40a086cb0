from harness import test, close, ok, raises, accepts, internal
from common import *
from kalepy import utils


def plot(name):
    return internal('plot.' + name)


def ref_level(data, q):
    v = np.sort(np.ravel(data))[::-1]
    t = 0.0
    best = v[0]
    tot = v.sum()
    for x in v:
        t += x
        if t <= q * tot * (1 + 1e-12):
            best = x
    return best


@test(quick=300)
class Levels:
    def gen(rng, k):
        shp = [int(x) for x in rng.integers(1, 8, 2)]
        h = [rng.uniform(.01, 1, shp), rng.lognormal(0, 2, shp), rng.integers(0, 9, shp).astype(float)][k % 3]
        h.flat[0] += 1
        return dict(h=h, q=rng.uniform(.02, .98, int(rng.integers(1, 5))), s=rng.uniform(.1, 3, 3))

    def check(c):
        f = plot('_dfm_levels')
        h = c['h']
        h0 = h.copy()
        for kw, qs in ((dict(quantiles=c['q']), c['q']), (dict(quantiles=c['q'].tolist()), c['q']), (dict(sigmas=c['s']), 1 - np.exp(-c['s'] ** 2 / 2))):
            # fractions so close to a partial sum that rounding decides are left out
            t = np.cumsum(np.sort(h.ravel())[::-1]) / h.sum()
            if np.min(np.abs(np.subtract.outer(qs, t))) < 1e-9:
                return
            s, lev, q = f(h, **kw)
            e = np.sort([ref_level(h, x) for x in qs])
            close(lev, e, "contour levels for fractions %s" % qs, rtol=1e-12)
            close(np.sort(q), np.sort(qs), "reported fractions", rtol=1e-9)
            close(np.sort(np.ravel(s)), np.sort(np.sqrt(-2 * np.log(1 - qs))), "reported standard deviations", rtol=1e-9)
        ok(np.array_equal(h, h0), "the histogram was changed")
        s, lev, q = f(h)
        ok(np.all(np.diff(lev) >= 0), "default levels are not in increasing order")
        close(q, 1 - np.exp(-np.square(s) / 2), "default fractions and standard deviations", rtol=1e-9)


@test(quick=60)
class ExactLevels:
    """partial sums and fractions that are exact in floating point"""
    def gen(rng, k):
        h = rng.integers(0, 9, [int(x) for x in rng.integers(1, 6, 2)]).astype(float)
        tot = 2.0 ** int(np.ceil(np.log2(h.sum() + 1)))
        h.flat[0] += tot - h.sum()
        return dict(h=h)

    def check(c):
        h = c['h']
        for q in np.cumsum(np.sort(h.ravel())[::-1])[:-1] / h.sum():
            if 0 < q < 1:
                s, lev, _ = plot('_dfm_levels')(h, quantiles=[q])
                v = np.sort(h.ravel())[::-1]
                e = v[np.cumsum(v) <= q * h.sum()][-1]
                ok(lev[0] == e, "level %r of the fraction %r that some cells hold exactly: not %r" % (lev[0], q, e))


@test(quick=100)
class SigmaFractions:
    def gen(rng, k):
        return dict(s=rng.uniform(.05, 4, 4), q=rng.uniform(.01, .99, 3))

    def check(c):
        f = plot('_default_quantiles')
        q, s = f(sigmas=c['s'])
        close(q, 1 - np.exp(-c['s'] ** 2 / 2), "fractions of standard deviations", rtol=1e-9)
        q, s = f(quantiles=c['q'])
        close(s, np.sqrt(-2 * np.log(1 - c['q'])), "standard deviations of fractions", rtol=1e-9)
        close(q, c['q'], "given fractions", rtol=0)
        q, s = f()
        close(q, 1 - np.exp(-np.square(s) / 2), "default fractions", rtol=1e-9)


@test(quick=250)
class Pad:
    def gen(rng, k):
        nb = [int(x) for x in rng.integers(2, 7, 2)]
        return dict(h=rng.normal(size=nb) if k % 2 else rng.integers(1, 9, nb).astype(float), e=[gen_edges(rng, n - (0 if k % 3 else 1)) for n in nb], pad=int(rng.integers(1, 4)))

    def check(c):
        f = plot('_pad_hist')
        h, e, p = c['h'], c['e'], c['pad']
        h0, e0 = h.copy(), [x.copy() for x in e]
        ee, hh = f(e, h, p)
        ok(np.shape(hh) == tuple(s + 2 * p for s in h.shape), "shape of the padded histogram")
        ok(np.array_equal(hh[p:-p, p:-p], h), "original cells")
        m = np.ones(np.shape(hh), bool)
        m[p:-p, p:-p] = False
        ok(np.all(hh[m] == h.min()), "padding with the minimum")
        for a, b in zip(ee, e):
            a = np.asarray(a)
            ok(a.size == b.size + 2 * p, "number of padded edges")
            close(a[p:-p], b, "original edges", rtol=0)
            at = 1e-12 * (np.abs(b).max() + np.ptp(b))
            close(np.diff(a[:p + 1]), np.full(p, b[1] - b[0]), "spacing of the lower padding", rtol=1e-7, atol=at)
            close(np.diff(a[-p - 1:]), np.full(p, b[-1] - b[-2]), "spacing of the upper padding", rtol=1e-7, atol=at)
        ok(np.array_equal(h, h0) and all(np.array_equal(a, b) for a, b in zip(e, e0)), "arguments were changed")


@test(quick=150)
class Match:
    def gen(rng, k):
        nb = [int(x) for x in rng.integers(1, 7, 2)]
        return dict(h=rng.normal(size=nb), e=[gen_edges(rng, n) for n in nb], k=k)

    def check(c):
        f = plot('_match_edges_to_hist')
        r = f(c['e'], c['h'])
        for a, b in zip(r, c['e']):
            close(a, (b[1:] + b[:-1]) / 2, "centres of edges", rtol=1e-10, atol=1e-12 * np.abs(b).max())
        cen = [x[:-1] for x in c['e']]
        r = f(cen, c['h'])
        for a, b in zip(r, cen):
            close(a, b, "given centres", rtol=0)
        raises(lambda: f([x[:-1] if i else np.append(x, x[-1] + 1) for i, x in enumerate(c['e'])], c['h']), "mismatched edges")


@test(quick=250)
class Histogram:
    def gen(rng, k):
        n = int(rng.integers(3, 40))
        return dict(x=rng.normal(size=n), w=rng.uniform(0, 2, n) if k % 2 else None, e=np.sort(rng.normal(size=int(rng.integers(2, 8))) * 1.5), nb=int(rng.integers(1, 9)))

    def check(c):
        x, w = c['x'], c['w']
        W = len(x) if w is None else w.sum()
        for bins in (c['e'], c['nb']):
            e = np.linspace(x.min(), x.max(), c['nb'] + 1) if np.isscalar(bins) else bins
            i = np.searchsorted(e, x, side='right') - 1
            i[x == e[-1]] = len(e) - 2
            if np.isscalar(bins) and np.min(np.abs(np.subtract.outer(x, e[1:-1])), initial=1) < 1e-12:
                continue
            sel = (i >= 0) & (i < len(e) - 1) & (x <= e[-1])
            cnt = np.bincount(i[sel], weights=None if w is None else w[sel], minlength=len(e) - 1).astype(float)
            wid = np.diff(e)
            for den, prob in itertools.product((False, True), repeat=2):
                h, ee = utils.histogram(x, bins=bins, weights=w, density=den, probability=prob)
                close(ee, e, "histogram edges", rtol=1e-9, atol=1e-12)
                close(h, cnt / (wid if den else 1) / (W if prob else 1), "histogram (density=%s, probability=%s)" % (den, prob), rtol=1e-9, atol=1e-12)


@test(quick=80)
class Drawn:
    """the drawn step line"""
    def gen(rng, k):
        n = int(rng.integers(1, 9))
        h = rng.integers(0, 5, n).astype(float) if k % 2 else rng.uniform(.1, 2, n)
        h[0] += 1
        return dict(e=gen_edges(rng, n), h=h, joints=bool(k % 3), nonzero=bool(rng.random() < .3), positive=bool(rng.random() < .3), renorm=[False, True, 2.5, None][int(rng.integers(4))], rotate=bool(rng.random() < .4))

    def check(c):
        import matplotlib.figure
        f = plot('draw_hist1d')
        ax = matplotlib.figure.Figure().add_subplot()
        e, h = c['e'], c['h']
        line = f(ax, e, h, renormalize=c['renorm'], nonzero=c['nonzero'], positive=c['positive'], joints=c['joints'], rotate=c['rotate'])
        x, y = [np.ma.filled(np.ma.asarray(v, dtype=float).astype(float), np.nan) for v in (line.get_xdata(orig=True), line.get_ydata(orig=True))]
        if c['rotate']:
            x, y = y, x
        g = h.copy()
        if c['renorm'] not in (False, None):
            g = h / h.max() * (1.0 if c['renorm'] is True else c['renorm'])
        n = len(h)
        step = 2 if c['joints'] else 3
        ok(len(x) == len(y) == step * n, "%d points of the line for %d bins" % (len(x), n))
        for i in range(n):
            for s in (0, 1):
                yy, xx = y[step * i + s], x[step * i + s]
                if c['nonzero'] and h[i] == 0:
                    ok(np.isnan(yy) or np.isnan(xx), "an empty bin is drawn")
                    continue
                close(xx, e[i + s], "edge %d of the line" % i, rtol=1e-9, atol=1e-12)
                close(yy, g[i], "value of bin %d of the line" % i, rtol=1e-9, atol=1e-12)
            if step == 3:
                ok(np.isnan(x[3 * i + 2]) or np.isnan(y[3 * i + 2]), "bins are joined")
