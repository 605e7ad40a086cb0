from harness import test, close, ok, raises, accepts, internal
from common import *
from kalepy import utils


@test(quick=400)
class AddRemove:
    def gen(rng, k):
        d = int(rng.integers(1, 6))
        n = int(rng.integers(1, 8))
        return dict(cov=gen_matrix(rng, d, float(10.0 ** rng.uniform(-2, 2))), x=rng.normal(size=(d, n)), y=rng.normal(size=(d, n)), p=rng.normal(size=2), perm=rng.permutation(n))

    def check(c):
        cov, x, y = c['cov'], c['x'], c['y']
        d = cov.shape[0]
        L = np.asarray(utils.add_cov(np.eye(d), cov), float)
        close(L @ L.T, cov, "the map times its transpose is the covariance", rtol=1e-7, atol=1e-9 * np.abs(cov).max())
        sc = np.abs(L).max() * np.abs(x).max() * d
        close(utils.add_cov(x, cov), L @ x, "a linear map of each column", rtol=1e-8, atol=1e-10 * sc)
        close(utils.add_cov(x[:, c['perm']], cov), np.asarray(utils.add_cov(x, cov))[:, c['perm']], "columns are independent", rtol=1e-9, atol=1e-11 * sc)
        k = np.linalg.cond(cov)
        if k > 1e9:
            return
        b = utils.rem_cov(utils.add_cov(x, cov), cov)
        close(b, x, "removing undoes adding", rtol=1e-6, atol=1e-13 * k * np.abs(x).max() * d)
        b = utils.add_cov(utils.rem_cov(x, cov), cov)
        close(b, x, "adding undoes removing", rtol=1e-6, atol=1e-13 * k * np.abs(x).max() * d)


@test(quick=200)
class DefaultCov:
    def gen(rng, k):
        d = int(rng.integers(2, 5))
        n = int(rng.integers(d + 4, 40))
        return dict(x=gen_data(rng, d, n))

    def check(c):
        x = c['x']
        cov = ref_cov(x)
        if np.linalg.cond(cov) > 1e8:
            return
        w = np.asarray(utils.rem_cov(x))
        close(ref_cov(w), np.eye(len(x)), "removing the sample covariance", rtol=0, atol=1e-6)
        close(w, utils.rem_cov(x, cov), "default covariance", rtol=1e-6, atol=1e-8 * np.abs(w).max())
        a = utils.add_cov(w, cov)
        close(ref_cov(np.asarray(a)), cov, "whitened data acquires the covariance", rtol=1e-6, atol=1e-8 * np.abs(cov).max())


@test(quick=300)
class KeepVars:
    def gen(rng, k):
        d = int(rng.integers(1, 6))
        keep = [int(x) for x in rng.permutation(d)[:int(rng.integers(1, d + 1))]]
        return dict(m=gen_matrix(rng, d), keep=[keep, keep[0], True, None, False, np.array(keep), tuple(keep), []][k % 8], int=bool(rng.random() < .2))

    def check(c):
        m, keep = c['m'], c['keep']
        if c['int']:
            m = np.round(m * 10).astype(int)
        d = m.shape[0]
        m0 = m.copy()
        ks = [] if keep is None or keep is False else (list(range(d)) if keep is True else [int(x) for x in np.atleast_1d(keep)])
        e = m.copy()
        for i in range(d):
            for j in range(d):
                if i in ks or j in ks:
                    e[i, j] = 0
        r = utils.cov_keep_vars(m, keep)
        close(r, e, "matrix with kept variables %r" % (keep,), rtol=0)
        ok(np.array_equal(m, m0), "the given matrix was changed")
        ok(not np.shares_memory(r, m), "not a copy")
        if ks:
            refl = [None] * d
            refl[ks[-1]] = [0.0, 1.0]
            raises(lambda: utils.cov_keep_vars(m, keep, reflect=refl), "kept and reflected")
            refl = [None if i in ks else [0.0, 1.0] for i in range(d)]
            close(accepts(lambda: utils.cov_keep_vars(m, keep, reflect=refl), "kept and others reflected"), e, "with boundaries elsewhere", rtol=0)
