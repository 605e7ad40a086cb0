"""Contracts for quantiles and iqrange (utils.py)."""
from pydv.spec import spec


def data(E, weights, n=None, name='v', nondec=True):
    n = E.dim('n', 1) if n is None else n
    v = E.array(name, n, nondec=nondec)
    w = E.array('w', n, nonneg=True) if weights else None
    return n, v, w


def cum(E, n, w):
    """cumulative weight up to and including half of the own weight, over the total"""
    if w is None:
        return lambda k: (k + 1 - 0.5) / n
    T = E.sum(n, lambda j: w.at((j,)))
    return lambda k: (E.sum(k + 1, lambda j: w.at((j,))) - w.at((k,)) / 2) / T


def positive(E, n, w):
    if w is not None:
        E.assume(E.sum(n, lambda j: w.at((j,))) > 0)


def interp_ok(E, n, v, c, p, q, tag=''):
    k = E.idx(n)
    first, last = c(0), c(n - 1)
    E.prove('first value below the first cumulative weight' + tag, E.imp(p <= first, q == v.at((0,))))
    E.prove('last value above the last cumulative weight' + tag, E.imp(p >= last, q == v.at((n - 1,))))
    E.assume(k + 1 < n)
    a, b = c(k), c(k + 1)
    E.assume(E.land(a < p, p < b))
    E.eq('linear interpolation at the cumulative weight' + tag, (q - v.at((k,))) * (b - a), (v.at((k + 1,)) - v.at((k,))) * (p - a))


def sorted_(E, weights, many):
    n, v, w = data(E, weights)
    positive(E, n, w)
    c = cum(E, n, w)
    kw = dict(weights=w) if weights else {}
    if many:
        m = E.dim('m', 1)
        ps = E.array('p', m, fact=lambda a, i: [a >= 0, a <= 1])
        q = E.call('utils.quantiles', v, percs=ps, values_sorted=True, **kw)
        E.shape_is('one quantile per fraction', q, [m])
        i = E.idx(m)
        p, q = ps.at((i,)), q.at((i,))
    else:
        p = E.real('p', nonneg=True)
        E.assume(p <= 1)
        q = E.call('utils.quantiles', v, percs=p, values_sorted=True, **kw)
        E.shape_is('scalar', q, [])
    interp_ok(E, n, v, c, p, q)
    E.unchanged('frame', v, *([w] if weights else []))


for wt in (False, True):
    for many in (False, True):
        spec('C19', 'sorted values%s, %s' % (', weights' if wt else '', 'list of fractions' if many else 'one fraction'),
             weights=wt, many=many, budget=40.0)(sorted_)


class View:
    """elements of an array in another order (specification only)"""

    def __init__(self, a, order):
        self.a, self.order = a, order

    def at(self, i):
        return self.a.at((self.order.at((i[0],)),))


def unsorted(E, weights, flat):
    if flat:
        n0, n1 = E.dim('n0', 1, 3), 2
        v = E.array('v', (n0, n1))
        w = E.array('w', (n0, n1), nonneg=True) if weights else None
        n = n0 * n1
        fv, fw = E.asarr(E.np.ravel(v)), E.asarr(E.np.ravel(w)) if weights else None
    else:
        n, v, w = data(E, weights, nondec=False)
        fv, fw = v, w
    positive(E, n, fw)
    order = E.np.argsort(fv)
    p = E.real('p', nonneg=True)
    E.assume(p <= 1)
    q = E.call('utils.quantiles', v, percs=p, **(dict(weights=w) if weights else {}))
    E.shape_is('scalar', q, [])
    # the contract above applies to these values: they are in nondecreasing order
    s = E.call('utils.quantiles', fv[order], percs=p, values_sorted=True, **(dict(weights=fw[order]) if weights else {}))
    E.eq('that of the sorted values with their own weights', q, s)
    E.unchanged('frame', v, *([w] if weights else []))


def order_props(E, weights):
    """nondecreasing in the fraction, within the range of the data"""
    n, v, w = data(E, weights)
    positive(E, n, w)
    m = E.dim('m', 2)
    ps = E.array('p', m, fact=lambda a, i: [a >= 0, a <= 1])
    q = E.call('utils.quantiles', v, percs=ps, values_sorted=True, **(dict(weights=w) if weights else {}))
    i, j = E.idx(m), E.idx(m)
    qi, qj, pi, pj = q.at((i,)), q.at((j,)), ps.at((i,)), ps.at((j,))
    E.lemma('not below the smallest value', v.at((0,)) <= qi)
    E.lemma('not above the largest value', qi <= v.at((n - 1,)))
    c = cum(E, n, w)
    first, last = c(0), c(n - 1)
    E.prove('nondecreasing in the fraction: below the first cumulative weight', E.imp(E.land(pi <= pj, pi <= first), qi <= qj))
    E.prove('nondecreasing in the fraction: above the last cumulative weight', E.imp(E.land(pi <= pj, pj >= last), qi <= qj))
    # pi lies between c(k) and c(k + 1)
    k = E.idx(n)
    E.assume(k + 1 < n)
    a, b = c(k), c(k + 1)
    E.assume(E.land(a < pi, pi < b, pi <= pj))
    line = lambda q_, p_: (q_ - v.at((k,))) * (b - a) == (v.at((k + 1,)) - v.at((k,))) * (p_ - a)
    if not E.concrete:
        E.assume(line(qi, pi))      # proved by the contracts of sorted values above
    E.lemma('not above the next value', qi <= v.at((k + 1,)))
    E.prove('nondecreasing in the fraction: across neighbours', E.imp(pj >= b, v.at((k + 1,)) <= qj))
    E.assume(pj < b)
    if not E.concrete:
        E.assume(line(qj, pj))
        E.lemma('difference along the line', (qj - qi) * (b - a) == (v.at((k + 1,)) - v.at((k,))) * (pj - pi))
    E.prove('nondecreasing in the fraction: between the same neighbours', qi <= qj)


def scale(E, sorted_):
    n, v, w = data(E, True, nondec=sorted_)
    positive(E, n, w)
    a = E.real('a', pos=True)
    p = E.real('p', nonneg=True)
    E.assume(p <= 1)
    aw = E.asarr(w * a)
    order = None if sorted_ else E.asarr(E.np.argsort(v))
    vo, wo, awo = (v, w, aw) if sorted_ else (View(v, order), View(w, order), View(aw, order))
    k = E.idx(n)
    E.eq('cumulative weight does not depend on the scale', cum(E, n, wo)(k), cum(E, n, awo)(k))


def axis(E, D, ax, weights):
    """along an axis: the quantiles of each slice"""
    n = [E.dim('n', 1) if k == ax else 2 for k in range(D)]
    v = E.array('v', n)
    w = E.array('w', n, nonneg=True) if weights else None
    m = 2
    ps = E.array('p', m, fact=lambda a, i: [a >= 0, a <= 1])
    other = [k for k in range(D) if k != ax]
    idx = [E.idx(n[k]) for k in other]
    q = E.call('utils.quantiles', v, percs=ps, axis=ax, **(dict(weights=w) if weights else {}))
    import itertools
    for c in itertools.product(range(2), repeat=D - 1):
        key = list(c)
        key.insert(ax, slice(None))
        s = E.call('utils.quantiles', v[tuple(key)], percs=ps, **(dict(weights=w[tuple(key)]) if weights else {}))
        flat = 0
        for t in c:
            flat = flat * 2 + t
        for j in range(m):
            E.eq('quantiles of each slice', q.at((flat, j)), s.at((j,)))
    E.unchanged('frame', v, ps, *([w] if weights else []))


def sigmas(E, weights):
    n, v, w = data(E, weights, nondec=False)
    positive(E, n, w)
    s = E.real('s')
    kw = dict(weights=w) if weights else {}
    a = E.call('utils.quantiles', v, sigmas=s, **kw)
    b = E.call('utils.quantiles', v, percs=E.cdf(s), **kw)
    E.eq('normal probabilities', a, b)


def iqr(E, weights, log):
    n, v, w = data(E, weights, nondec=False)
    if log:
        v = E.array('u', n, pos=True)
    positive(E, n, w)
    kw = dict(weights=w) if weights else {}
    r = E.call('utils.iqrange', v, log=log, **kw)
    t = E.np.log10(v) if log else v
    b = E.call('utils.quantiles', t, percs=[0.75, 0.25], **kw)
    E.eq('difference of the quartiles', r, b[0] - b[1])
    E.unchanged('frame', v)


def refuse(E):
    n, v, w = data(E, False, nondec=False)
    p = E.real('p')
    E.assume(E.lor(p < 0, p > 1))
    E.raises('fraction outside zero to one', lambda: E.call('utils.quantiles', v, percs=p))
    E.raises('no fraction', lambda: E.call('utils.quantiles', v))


for wt in (False, True):
    t = ', weights' if wt else ''
    spec('C19', 'any order' + t, weights=wt, flat=False, budget=40.0)(unsorted)
    spec('C19', 'any order, flattened' + t, weights=wt, flat=True, budget=40.0)(unsorted)
    spec('C19', 'range and order' + t, weights=wt, budget=40.0)(order_props)
    spec('C19', 'sigmas' + t, weights=wt, budget=40.0)(sigmas)
    for log in (False, True):
        spec('C19', 'interquartile range%s%s' % (t, ' log' if log else ''), weights=wt, log=log, budget=40.0)(iqr)
    for D in (2, 3):
        for ax in range(D):
            spec('C19', 'axis %d of %d%s' % (ax, D, t), D=D, ax=ax, weights=wt, budget=40.0)(axis)
spec('C19', 'weight scale', sorted_=True, budget=40.0)(scale)
spec('C19', 'weight scale, any order', sorted_=False, budget=40.0)(scale)
spec('C19', 'refusal', budget=20.0)(refuse)
