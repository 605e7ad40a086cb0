"""Contracts for add_cov, rem_cov, cov_keep_vars (utils.py)."""
import itertools
from pydv.spec import spec


def spd(E, D, name='m'):
    """a symmetric positive definite matrix: its leading minors are positive"""
    if E.concrete:
        g = E._given(name + '00')
        vals = {}
        if g is None:
            a = E.rng.normal(size=(D, D))
            a = a @ a.T + 0.3 * __import__('numpy').eye(D)
            for i in range(D):
                for j in range(i, D):
                    E.model[name + '%d%d' % (i, j)] = repr(float(a[i, j]))
    v = {}
    for i in range(D):
        for j in range(i, D):
            v[i, j] = v[j, i] = E.real(name + '%d%d' % (i, j))
    E.assume(v[0, 0] > 0)
    if D > 1:
        E.assume(v[0, 0] * v[1, 1] - v[0, 1] * v[0, 1] > 0)
    if D > 2:
        E.assume(v[0, 0] * (v[1, 1] * v[2, 2] - v[1, 2] * v[1, 2]) - v[0, 1] * (v[0, 1] * v[2, 2] - v[1, 2] * v[0, 2])
                 + v[0, 2] * (v[0, 1] * v[1, 2] - v[1, 1] * v[0, 2]) > 0)
    return [[v[i, j] for j in range(D)] for i in range(D)], E.const([[v[i, j] for j in range(D)] for i in range(D)])


def add(E, D):
    """a linear map of each column, the same for every column, and L L^T is the matrix"""
    n = E.dim('n', 1)
    data = E.array('data', (D, n))
    m, M = spd(E, D)
    r = E.call('utils.add_cov', data, M)
    eye = E.const([[1 if i == j else 0 for j in range(D)] for i in range(D)])
    L = E.call('utils.add_cov', eye, M)
    for i in range(D):
        for j in range(i, D):
            E.eq('map times its transpose is the matrix', sum(L.at((i, k)) * L.at((j, k)) for k in range(D)), m[i][j])
    E.arr_eq('linear map of every column', r, (D, n),
             lambda i, c: sum(L.at((i, k)) * data.at((k, c)) for k in range(D)))
    E.unchanged('frame', data)


def rem(E, D):
    n = E.dim('n', 1)
    data = E.array('data', (D, n))
    m, M = spd(E, D)
    r = E.call('utils.rem_cov', E.call('utils.add_cov', data, M), M)
    E.arr_eq('removing undoes adding', r, (D, n), lambda i, c: data.at((i, c)))
    r = E.call('utils.add_cov', E.call('utils.rem_cov', data, M), M)
    E.arr_eq('adding undoes removing', r, (D, n), lambda i, c: data.at((i, c)))
    E.unchanged('frame', data)


def default(E, D):
    """without a matrix: the same as with the sample covariance"""
    n = E.dim('n', 3)
    data = E.array('data', (D, n))
    mean = [E.sum(n, lambda k, i=i: data.at((i, k))) / n for i in range(D)]
    C = [[E.sum(n, lambda k, i=i, j=j: (data.at((i, k)) - mean[i]) * (data.at((j, k)) - mean[j])) / (n - 1)
          for j in range(D)] for i in range(D)]
    E.assume(C[0][0] > 0)
    if D == 2:
        E.assume(C[0][0] * C[1][1] - C[0][1] * C[1][0] > 0)
    r = E.call('utils.rem_cov', data if D > 1 else data)
    a = E.call('utils.add_cov', r, E.const(C))
    E.arr_eq('removed the sample covariance', a, (D, n), lambda i, c: data.at((i, c)))


for D in (1, 2, 3):
    spec('C24', 'add_cov %dD' % D, D=D)(add)
    spec('C24', 'rem_cov %dD' % D, D=D, budget=40.0)(rem)
for D in (2,):
    spec('C24', 'rem_cov default %dD' % D, D=D, budget=40.0)(default)


def keep_vars(E, D, keep):
    M = E.array('M', (D, D))
    k = None if keep in (None, 'False') else keep
    arg = {'False': False, 'True': True, 'int': 0}.get(keep, list(keep) if isinstance(keep, tuple) else keep)
    r = E.call('utils.cov_keep_vars', M, arg)
    kept = [] if keep in (None, 'False') else list(range(D)) if keep == 'True' else [0] if keep == 'int' else list(keep)
    E.arr_eq('rows and columns of the kept variables', r, (D, D),
             lambda i, j: 0 if (i in kept or j in kept) else M.at((i, j)))
    E.unchanged('a copy', M)
    # writing the result does not write the argument
    r[0, 0] = 17
    E.unchanged('own buffer', M)


def conflict(E, D, k):
    M = E.array('M', (D, D))
    refl = [None] * D
    refl[k] = [E.real('lo'), None]
    E.raises('keep and reflect', lambda: E.call('utils.cov_keep_vars', M, [k], reflect=refl))
    if D > 1:
        o = (k + 1) % D
        r = E.call('utils.cov_keep_vars', M, [o], reflect=refl)
        E.arr_eq('other variables may be kept', r, (D, D), lambda i, j: 0 if o in (i, j) else M.at((i, j)))


for D in (1, 2, 3, 4):
    ks = [None, 'False', 'True', 'int'] + [c for m in range(1, D + 1) for c in itertools.combinations(range(D), m)]
    for keep in ks:
        spec('C24', 'cov_keep_vars %dD keep=%s' % (D, keep), D=D, keep=keep)(keep_vars)
    for k in range(D):
        spec('C24', 'cov_keep_vars %dD keep and reflect %d' % (D, k), D=D, k=k)(conflict)


@spec('C24', 'cov_keep_vars any size')
def keep_any(E):
    D = E.dim('D', 1)
    M = E.array('M', (D, D))
    k = E.idx(D, 'k')
    r = E.call('utils.cov_keep_vars', M, k)
    E.arr_eq('rows and columns of the kept variable', r, (D, D), lambda i, j: E.ite(E.lor(i == k, j == k), 0, M.at((i, j))))
    r = E.call('utils.cov_keep_vars', M, None)
    E.arr_eq('nothing kept', r, (D, D), lambda i, j: M.at((i, j)))
    E.unchanged('a copy', M)
