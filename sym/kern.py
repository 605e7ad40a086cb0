"""Common pieces of the contracts of the kernels."""
KERNELS = ['Gaussian', 'Box', 'Parabola', 'Triweight']


def spd(E, D, name='c'):
    """a symmetric positive definite matrix (any: leading minors are positive)"""
    if E.concrete:
        l = [[E.real('%s%d%d' % (name, i, j), pos=(i == j)) if j <= i else 0.0 for j in range(D)] for i in range(D)]
        return [[sum(l[i][k] * l[j][k] for k in range(D)) for j in range(D)] for i in range(D)]
    m = [[None] * D for _ in range(D)]
    for i in range(D):
        for j in range(i, D):
            m[i][j] = m[j][i] = E.real('%s%d%d' % (name, i, j))
    for k in range(1, D + 1):
        E.assume(det([r[:k] for r in m[:k]]) > 0)
    return m


def det(m):
    if len(m) == 1:
        return m[0][0]
    t = 0
    for j in range(len(m)):
        s = m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
        t = t + s if j % 2 == 0 else t - s
    return t


def adj(m):
    """adjugate: m * adj(m) = det(m) * 1"""
    n = len(m)
    if n == 1:
        return [[1]]
    r = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            c = det([row[:i] + row[i + 1:] for k, row in enumerate(m) if k != j])
            r[i][j] = c if (i + j) % 2 == 0 else -c
    return r


def profile(E, name, y2):
    """documented profile of each kernel, without normalization, of the squared distance"""
    if name == 'Gaussian':
        return E.exp(-y2 / 2)
    if name == 'Box':
        return E.ite(y2 <= 1, 1, 0)
    p = {'Parabola': 1, 'Triweight': 3}[name]
    return E.ite(y2 < 1, (1 - y2) ** p, 0)


def rows(E, a, D):
    return [[E.asarr(a).at((i, j)) for j in range(D)] for i in range(D)]


def kernel_sum(E, box):
    """contract of _evaluate_numba (C01, 'kernel sum'): out[i] = sum over data of profile(|white (point - datum)|^2) weight"""
    def contract(white, data, points, weights, kfunc):
        m = E.np.shape(points)[1]
        z = E.array('z%d' % len(box), m)
        box.append(dict(white=E.asarr(white).copy(), data=E.asarr(data).copy(), points=E.asarr(points).copy(),
                        weights=E.asarr(weights).copy(), kfunc=kfunc, z=z))
        return z.copy()
    if not E.concrete:
        E.stub('kernels._evaluate_numba', contract)


def ref_sum(E, name, M, x, data, w, n, norm):
    """the kernel sum at one point (concrete values only)"""
    import numpy as np
    M = np.array(M, float)
    inv = np.linalg.inv(M)
    t = 0.0
    for j in range(n):
        v = np.array(x, float) - np.array([data[k][j] for k in range(len(x))], float)
        t += float(profile(E, name, float(v @ inv @ v))) * (1.0 if w is None else float(w.at((j,))))
    return t / (np.sqrt(np.linalg.det(M)) * float(norm))


def inverse_contract(E, seen):
    """contract of utils.matrix_invert (C01, 'inverse'): for a positive definite matrix the inverse, itself positive definite"""
    def contract(matrix, helper=True):
        m = E.asarr(matrix)
        D = E.np.shape(m)[0]
        M = rows(E, m, D)
        V = [[None] * D for _ in range(D)]
        t = len(seen)
        for i in range(D):
            for j in range(i, D):
                V[i][j] = V[j][i] = E.real('v%d_%d%d' % (t, i, j))
        dt = det(M)
        A = adj(M)
        for i in range(D):
            for j in range(i, D):
                E.assume(V[i][j] * dt == A[i][j])
        for k in range(1, D + 1):
            E.assume(det([r[:k] for r in V[:k]]) > 0)
        seen.append((M, V))
        return E.asarr(V)
    if not E.concrete:
        E.stub('utils.matrix_invert', contract)


def kernel_sums(E, D, box):
    """contract of _evaluate_numba (C01, 'kernel sum') for one whitening and one profile: the sum over the data of
    weight times a function H of the difference between point and datum"""
    if E.concrete:
        return None
    H = E.function('H', D)

    def contract(white, data, points, weights, kfunc):
        W, X, P, w = E.asarr(white).copy(), E.asarr(data).copy(), E.asarr(points).copy(), E.asarr(weights).copy()
        n, m = E.np.shape(X)[1], E.np.shape(P)[1]
        E.shape_is('kernel sum: data', X, [D, n])
        E.shape_is('kernel sum: points', P, [D, m])
        E.shape_is('kernel sum: weights', w, [n])
        if box:
            E.prove('kernel sum: same kernel', kfunc is box[0]['kfunc'] or kfunc == box[0]['kfunc'])
            for a in range(D):
                for b in range(D):
                    E.eq('kernel sum: same scaling', W.at((a, b)), box[0]['white'].at((a, b)))
        box.append(dict(white=W, kfunc=kfunc))
        return E.build((m,), lambda i: E.sum(n, lambda j: H(*[P.at((a, i)) - X.at((a, j)) for a in range(D)]) * w.at((j,))))
    E.stub('kernels._evaluate_numba', contract)
    return H


def bounds(E, kinds):
    out = []
    for k, c in enumerate(kinds):
        if c == 'n':
            out.append(None)
            continue
        lo = E.real('lo%d' % k) if c in 'bl' else None
        hi = E.real('hi%d' % k) if c in 'bu' else None
        if c == 'b':
            E.assume(lo < hi)
        out.append([lo, hi])
    return out


def outside(E, refl, x):
    cs = []
    for k, b in enumerate(refl):
        if b is None:
            continue
        if b[0] is not None:
            cs.append(x[k] < b[0])
        if b[1] is not None:
            cs.append(x[k] > b[1])
    return E.lor(*cs) if cs else False


def mirrored(refl, x):
    """every mirror image of a datum, itself first"""
    out = [list(x)]
    for k, b in enumerate(refl):
        for loc in b or []:
            if loc is not None:
                y = list(x)
                y[k] = 2 * loc - y[k]
                out.append(y)
    return out


def check_value(E, name, r, i, x, at, n, w, refl, H, box, seen, M, norm):
    """r[i] is the density at x of the data at(j) with its mirror images, smoothed with M"""
    q = len(x)
    out = outside(E, refl, x) if refl else False
    imgs = lambda j: mirrored(refl or [], at(j))
    if E.concrete:
        t = 0.0
        for k in range(len(imgs(0))):
            Y = [[imgs(j)[k][a] for j in range(n)] for a in range(q)]
            t += ref_sum(E, 'Gaussian', M, x, Y, w, n, norm)
        E.eq(name, r.at(i), 0.0 if out else t)
        return
    W = box[-1]['white']
    dt = det(M)
    one = (lambda j: w.at((j,))) if w is not None else (lambda j: 1)
    t = 0
    for k in range(len(imgs(0))):
        t = t + E.sum(n, lambda j: H(*[x[a] - imgs(j)[k][a] for a in range(q)]) * one(j))
    if refl:
        E.prove(name + ': zero outside of the boundaries', E.imp(out, r.at(i) == 0))
    E.prove(name, E.imp(E.lnot(out), r.at(i) * (E.sqrt(dt) * norm) == t))
    E.shape_is(name + ': whitening', W, [q, q])
    V = seen[-1][1] if seen and q > 2 else None
    if V:
        for a in range(q):
            for b in range(q):
                E.eq(name + ': the inverse of the smoothing matrix', seen[-1][0][a][b], M[a][b])
    for a in range(q):
        for b in range(a, q):
            g = sum(W.at((c, a)) * W.at((c, b)) for c in range(q))
            if V:
                E.eq(name + ': whitening is a root of the inverse smoothing matrix', g, V[a][b])
            else:
                E.eq(name + ': whitening is a root of the inverse smoothing matrix', g * dt, adj(M)[a][b])
