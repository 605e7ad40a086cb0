from harness import test, close, ok, raises, internal
from common import *
import kalepy as kale


@test(quick=400)
class Matrix:
    def gen(rng, k):
        d = int(rng.choice([1, 2, 3, 4]))
        n = int(rng.integers(d + 3, 50))
        data = gen_data(rng, d, n)
        w = gen_weights(rng, n)
        if w is not None:
            w = w + 0.01 * w.max()
        c = dict(data=data, w=w, cov=None, neff=None, diag=bool(rng.random() < .3), resc=None)
        form = int(rng.integers(8))
        rule = lambda: ['scott', 'silverman'][int(rng.integers(2))]
        if form == 0:
            bw = float(rng.uniform(0.05, 3))
        elif form == 1:
            bw = rng.uniform(0.05, 3, d)
        elif form == 2:
            bw = rng.uniform(0.05, 3, (d, d))
            bw = (bw + bw.T) / 2 * 0.2 + np.diag(rng.uniform(1, 2, d))
        elif form == 3:
            bw = None
        elif form in (4, 5):
            bw = rule()
        elif form == 6:
            bw = [rule() if rng.random() < .5 else float(rng.uniform(.1, 2)) for _ in range(d)]
        else:
            bw = [float(rng.uniform(0.1, 2))]
        if rng.random() < .4:
            c['cov'] = gen_matrix(rng, d, data.std() + 1e-9)
            if d == 1 and rng.random() < .5:
                c['cov'] = float(c['cov'][0, 0])
        if rng.random() < .3:
            c['neff'] = float(rng.uniform(3, 1e4))
        if rng.random() < .3:
            c['resc'] = float(rng.uniform(.1, 4)) if rng.random() < .6 else rng.uniform(.5, 2, d)
        c.update(bw=bw, form=form, kernel=str(rng.choice(KERNELS)), aslist=bool(rng.random() < .4))
        return c

    def check(c):
        d, n = c['data'].shape
        bw = c['bw']
        if c['aslist'] and isinstance(bw, np.ndarray):
            bw = bw.tolist()
        kde = kale.KDE(c['data'] if (d > 1 or c['diag']) else c['data'][0], bandwidth=bw, weights=c['w'], covariance=c['cov'], neff=c['neff'],
                       diagonal=c['diag'], bw_rescale=c['resc'], kernel=c['kernel'])
        cov = ref_cov(c['data'], c['w']) if c['cov'] is None else np.atleast_2d(c['cov'])
        neff = ref_neff(n, c['w']) if c['neff'] is None else c['neff']
        close(float(kde.neff), neff, "effective number of points", rtol=1e-9)
        close(np.asarray(kde.covariance, float), cov, "covariance", rtol=1e-8, atol=1e-10 * np.abs(cov).max())

        def one(b):
            if b is None or (isinstance(b, str) and b == 'scott'):
                return scott(neff, d)
            if isinstance(b, str):
                return silverman(neff, d)
            return float(b)
        b = c['bw']
        form = c['form']
        if form in (1, 6) and d > 1:
            B = np.diag([one(x) for x in b])
        elif form == 2 and d > 1:
            B = np.asarray(b, float)
            if c['diag']:
                B = np.diag(np.diag(B))
        else:
            x = b if form not in (1, 2, 6, 7) else (np.ravel(np.asarray(b, dtype=object))[0])
            v = one(x)
            B = v * np.eye(d) if c['diag'] else v * np.ones((d, d))
        if c['resc'] is not None:
            B = B * np.atleast_2d(c['resc'])
        close(np.asarray(kde.bandwidth, float), B, "bandwidth", rtol=1e-9)
        M = cov * B ** 2
        close(np.asarray(kde.kernel.matrix, float), M, "smoothing matrix", rtol=1e-8, atol=1e-10 * np.abs(M).max())


@test(quick=60)
class Effect:
    """the matrix is what the density is smoothed with"""
    def gen(rng, k):
        d = int(rng.choice([1, 2]))
        n = int(rng.integers(5, 12))
        data = gen_data(rng, d, n)
        return dict(data=data, bw=[None, 'scott', 'silverman', 0.4][int(rng.integers(4))], w=None if k % 2 else rng.uniform(.2, 2, n),
                    diag=bool(rng.random() < .4), resc=float(rng.choice([1.0, 0.5, 2.0])), u=rng.normal(size=(d, 4)))

    def check(c):
        d, n = c['data'].shape
        neff = ref_neff(n, c['w'])
        cov = ref_cov(c['data'], c['w'])
        b = {None: scott, 'scott': scott, 'silverman': silverman}.get(c['bw'], lambda *a: c['bw'])(neff, d) * c['resc']
        M = cov * b ** 2
        if c['diag']:
            M = np.diag(np.diag(M))
        pts = c['data'][:, :1] + np.linalg.cholesky(M) @ c['u']
        kde = kale.KDE(c['data'], bandwidth=c['bw'], weights=c['w'], diagonal=c['diag'], bw_rescale=c['resc'])
        e = ref_density('gaussian', pts, c['data'], M, c['w'])
        close(kde.density(pts)[1], e, "density with the documented smoothing matrix", rtol=1e-6, atol=1e-10 * e.max())
