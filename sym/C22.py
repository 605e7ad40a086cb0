"""Contracts for KDE.from_hist (kde.py)."""
import itertools
from pydv.spec import spec
from kdec import quiet


def build(E, D, how='default', wrap='list'):
    quiet(E)
    nb = [E.dim('b%d' % k, 2) for k in range(D)]
    e = [E.array('e%d' % k, nb[k] + 1, inc=True) for k in range(D)]
    h = E.array('h', nb, nonneg=True)
    E.assume(total(E, nb, h) > 0)
    kw = {}
    if how == 'scalar':
        kw['bandwidth'] = E.real('bw', pos=True)
    elif how == 'vector':
        kw['bandwidth'] = [E.real('bw%d' % k, pos=True) for k in range(D)]
    return nb, e, h, kw, E.call('kde.KDE.from_hist', e[0] if D == 1 else e, h, **kw)


def total(E, n, h):
    def rec(k, idx):
        if k == len(n):
            return h.at(tuple(idx))
        return E.sum(n[k], lambda j: rec(k + 1, idx + [j]))
    return rec(0, [])


def bins(E, D, how):
    nb, e, h, kw, kde = build(E, D, how)
    N = 1
    for b in nb:
        N = N * b
    data = kde.dataset
    E.shape_is('one datum for every bin', data, [D, N])
    E.shape_is('one weight for every bin', kde.weights, [N])
    idx = [E.idx(b) for b in nb]
    flat = 0
    for i, b in zip(idx, nb):
        flat = flat * b + i
    for k in range(D):
        E.eq('at the centre of the bin', E.asarr(data).at((k, flat)), (e[k].at((idx[k],)) + e[k].at((idx[k] + 1,))) / 2)
    j = [E.idx(b) for b in nb]
    flat2 = 0
    for i, b in zip(j, nb):
        flat2 = flat2 * b + i
    w = E.asarr(kde.weights)
    E.eq('weight proportional to the count', w.at((flat,)) * h.at(tuple(j)), w.at((flat2,)) * h.at(tuple(idx)))
    E.prove('no weight exactly where there is no count', E.iff(w.at((flat,)) > 0, h.at(tuple(idx)) > 0))
    bw = E.asarr(kde.bandwidth)
    for k in range(D):
        if how == 'default':
            E.eq('bandwidth is the bin width', bw.at((k, k)) * nb[k], e[k].at((nb[k],)) - e[k].at((0,)))
        else:
            E.eq('given bandwidth', bw.at((k, k)), kw['bandwidth'] if how == 'scalar' else kw['bandwidth'][k])
    E.unchanged('frame', h, *e)


for D in (1, 2, 3):
    for how in ('default', 'scalar') + (('vector',) if D > 1 else ()):
        spec('C22', '%dD, %s bandwidth' % (D, how), D=D, how=how, budget=30.0)(bins)
