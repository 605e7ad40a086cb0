"""Contracts for contours and drawn histograms (plot.py: _dfm_levels, _default_quantiles, _pad_hist, _match_edges_to_hist,
draw_hist1d; utils.histogram)."""
from pydv.spec import spec


def fractions(E, given):
    """fractions and standard deviations of the two-dimensional normal distribution"""
    n = 3
    x = E.array('x', n, nonneg=True)
    if given == 'sigmas':
        q, s = E.call('plot._default_quantiles', sigmas=x)
    elif given == 'quantiles':
        for i in range(n):
            E.assume(x.at((i,)) < 1)
        q, s = E.call('plot._default_quantiles', quantiles=x)
    else:
        q, s = E.call('plot._default_quantiles')
        n = len(s)
    q, s = E.asarr(q), E.asarr(s)
    E.shape_is('as many fractions', q, [n])
    E.shape_is('as many standard deviations', s, [n])
    for i in range(n):
        a, b = q.at((i,)), s.at((i,))
        E.prove('standard deviations are not negative', b >= 0)
        E.prove('fraction within the radius', E.close(a, 1 - E.exp(-b * b / 2)))
        if given == 'sigmas':
            E.eq('given standard deviations', b, x.at((i,)))
        if given == 'quantiles':
            E.eq('given fractions', a, x.at((i,)))
    E.unchanged('frame', x)


for given in ('sigmas', 'quantiles', 'default'):
    spec('C26', 'fractions %s' % given, given=given)(fractions)


def padded(E, D, pad):
    nb = [E.dim('n%d' % a, 1) for a in range(D)]
    ne = [E.dim('e%d' % a, 2) for a in range(D)]
    h = E.array('h', nb)
    e = [E.array('x%d' % a, ne[a], inc=True) for a in range(D)]
    r, hh = E.call('plot._pad_hist', e, h, pad)
    hh = E.asarr(hh)
    E.shape_is('cells on every side', hh, [n + 2 * pad for n in nb])
    i = [E.idx(n) for n in nb]
    E.eq('original cells', hh.at(tuple(k + pad for k in i)), h.at(tuple(i)))
    j = [E.idx(n + 2 * pad) for n in nb]
    inner = E.land(*[E.land(k >= pad, k < n + pad) for k, n in zip(j, nb)])
    v = hh.at(tuple(j))
    E.prove('padding is not above any cell', E.imp(E.lnot(inner), v <= h.at(tuple(i))))
    E.prove('padding is the value of a cell', E.imp(E.lnot(inner), E.any(nb[0], lambda a: v == h.at((a,))) if D == 1 else
                                                    v == E.np.min(h)))
    for a in range(D):
        x = E.asarr(r[a])
        E.shape_is('edges on every side', x, [ne[a] + 2 * pad])
        k = E.idx(ne[a])
        E.eq('original edges', x.at((k + pad,)), e[a].at((k,)))
        for q in range(pad):
            E.prove('spacing below', E.close(x.at((q + 1,)) - x.at((q,)), e[a].at((1,)) - e[a].at((0,))))
            E.prove('spacing above', E.close(x.at((ne[a] + pad + q,)) - x.at((ne[a] + pad + q - 1,)), e[a].at((ne[a] - 1,)) - e[a].at((ne[a] - 2,))))
    E.unchanged('frame', h, *e)


for D in (1, 2):
    for pad in (1, 2, 3):
        spec('C26', 'padding %d %dD' % (pad, D), D=D, pad=pad, budget=30.0)(padded)


def match(E, D, form):
    nb = [E.dim('n%d' % a, 1) for a in range(D)]
    h = E.array('h', nb)
    e = [E.array('x%d' % a, n + (1 if form == 'edges' else 0), inc=True) for a, n in enumerate(nb)]
    r = E.call('plot._match_edges_to_hist', e, h)
    for a in range(D):
        x = E.asarr(r[a])
        E.shape_is('one place per cell', x, [nb[a]])
        i = E.idx(nb[a])
        E.eq('place of the cell', x.at((i,)), (e[a].at((i,)) + e[a].at((i + 1,))) / 2 if form == 'edges' else e[a].at((i,)))
    E.unchanged('frame', h, *e)


for D in (1, 2):
    for form in ('edges', 'centres'):
        spec('C26', 'places of cells %s %dD' % (form, D), D=D, form=form)(match)


def contours(E, m, D=1):
    """the level of a fraction: the smallest value such that the cells in order of decreasing value, down to it, hold no more"""
    n = E.dim('n', 1)
    h = E.array('h', n, nonneg=True)
    T = E.sum(n, lambda j: h.at((j,)))
    E.assume(T > 0)
    q = E.array('q', m, pos=True)
    for a in range(m):
        E.assume(q.at((a,)) < 1)
    order = E.np.argsort(h)
    value = lambda k: h.at((order.at((n - 1 - k,)),))            # decreasing
    held = lambda k: E.sum(k + 1, lambda j: value(j))
    s, lev, qq = E.call('plot._dfm_levels', h, quantiles=q)
    lev, qq = E.asarr(lev), E.asarr(qq)
    E.shape_is('one level per fraction', lev, [m])
    E.lemma('total', E.close(held(n - 1), T))
    T = held(n - 1)
    k = E.idx(n)
    E.prove('decreasing order', E.imp(k + 1 < n, value(k) >= value(k + 1)))
    for a in range(m):
        x = lev.at((a,))
        if a + 1 < m:
            E.prove('levels in increasing order', x <= lev.at((a + 1,)))
        E.eq('the fractions', qq.at((a,)), q.at((a,)))
    if m == 1:
        x, p = lev.at((0,)), q.at((0,))
        E.prove('not above a value whose cells hold no more', E.imp(held(k) <= p * T, x <= value(k)))
        E.prove('at most the largest value', x <= value(0))
        E.prove('the level is a value that holds no more, or the largest', E.lor(
            E.any(n, lambda j: E.land(x == value(j), held(j) <= p * T)), E.land(x == value(0), held(0) > p * T)))
    E.unchanged('frame', h, q)


for m in (1, 2):
    spec('C26', 'levels of %d fractions' % m, m=m, budget=40.0)(contours)


class Axes:
    """stands for the figure: records what is drawn"""
    def __init__(self):
        self.drawn = []

    def plot(self, x, y, **kw):
        self.drawn.append((x, y, kw))
        return ['line']


def steps(E, joints=True, rotate=False, renormalize=False, hide=None):
    n = E.dim('n', 1)
    edges = E.array('x', n + 1, inc=True)
    h = E.array('h', n)
    ax = Axes()
    kw = dict(rotate=rotate, renormalize=renormalize, joints=joints)
    if hide is not None:
        kw[hide] = True
    if renormalize:
        E.assume(E.any(n, lambda j: h.at((j,)) > 0))
    line = E.call('plot.draw_hist1d', ax, edges, h, **kw)
    E.prove('the line that was drawn', line == 'line' and len(ax.drawn) == 1)
    x, y, kw = ax.drawn[0]
    E.prove('no other settings', kw == {})
    if rotate:
        x, y = y, x
    hx, hy = E.hidden(x), E.hidden(y)
    x, y = E.asarr(x), E.asarr(y)
    m = 2 if joints else 3
    E.shape_is('abscissae', x, [m * n])
    E.shape_is('ordinates', y, [m * n])
    i = E.idx(n)
    for q in (0, 1):
        E.eq('the line goes along the bin', x.at((m * i + q,)), edges.at((i + q,)))
        v = h.at((i,))
        if not renormalize:
            E.prove('at the value of the bin', E.close(y.at((m * i + q,)), v))
        else:
            r = 1 if renormalize is True else renormalize
            k = E.idx(n)
            E.prove('in proportion to the bins', E.close(y.at((m * i + q,)) * h.at((k,)), y.at((m * k + q,)) * v))
            E.prove('not above the largest value', E.lor(y.at((m * i + q,)) <= r, E.close(y.at((m * i + q,)), r)))
            E.prove('the largest value', E.any(n, lambda j: E.close(y.at((m * j + q,)), r)))
            E.prove('same signs', E.iff(y.at((m * i + q,)) > 0, v > 0))
        if hide is None:
            E.prove('all is shown', hx is None and hy is None)
        else:
            for z, o in ((hy, False), (hx, rotate)):
                if o:
                    continue        # the other coordinate is hidden already
                E.prove('bins are hidden', z is not None)
                w = h.at((i,))
                E.eq('which bins are hidden', z.at((m * i + q,)), w == 0 if hide == 'nonzero' else w < 0)
    E.unchanged('frame', h, edges)


for rotate in (False, True):
    for r in (False, True, 2.5):
        spec('C26', 'steps renormalize %s%s' % (r, ' rotated' if rotate else ''), rotate=rotate, renormalize=r)(steps)
    for hide in ('positive', 'nonzero'):
        spec('C26', 'steps %s%s' % (hide, ' rotated' if rotate else ''), rotate=rotate, hide=hide)(steps)
    spec('C26', 'steps without joints%s' % (' rotated' if rotate else ''), rotate=rotate, joints=False)(steps)


def counts(E, weighted, scale, bins='edges', drawn=False):
    N = E.dim('N', 1)
    data = E.array('data', N)
    w = E.array('w', N, pos=True) if weighted else None
    if bins == 'edges':
        m = E.dim('m', 1)
        b = E.array('edges', m + 1, inc=True)
    else:
        b = None if bins == 'auto' else E.dim('bins', 1)
    kw = {scale: True} if scale else {}
    if drawn:
        ax = Axes()
        h, edges, line = E.call('plot.hist1d', data, edges=b, ax=ax, weights=w, **kw)
        E.prove('the line that was drawn', line == 'line' and len(ax.drawn) == 1)
    else:
        h, edges = E.call('utils.histogram', data, bins=b, weights=w, **kw)
    h, edges = E.asarr(h), E.asarr(edges)
    if bins == 'edges':
        E.arr_eq('the edges', edges, [m + 1], lambda i: b.at((i,)))
    else:
        m = h.shape[0]
        E.shape_is('edges', edges, [m + 1])
    E.shape_is('one value per bin', h, [m])
    k = E.idx(m)
    if drawn:
        x, y, _ = ax.drawn[0]
        hidden = E.hidden(y)
        x, y = E.asarr(x), E.asarr(y)
        for q in (0, 1):
            E.eq('the line goes along the bin', x.at((2 * k + q,)), edges.at((k + q,)))
            E.prove('at the value of the bin', E.close(y.at((2 * k + q,)), h.at((k,))))
            E.prove('bins are shown', E.imp(h.at((k,)) >= 0, E.lnot(hidden.at((2 * k + q,)))))
    lo, hi = edges.at((k,)), edges.at((k + 1,))
    inside = lambda j: E.land(lo <= data.at((j,)), E.lor(data.at((j,)) < hi, E.land(k == m - 1, data.at((j,)) == hi)))
    wt = lambda j: w.at((j,)) if weighted else 1
    c = E.sum(N, lambda j: E.ite(inside(j), wt(j), 0))
    v = h.at((k,))
    if scale == 'density':
        E.prove('counts over widths', E.close(v * (hi - lo), c))
    elif scale == 'probability':
        E.prove('counts over the total', E.close(v * (E.sum(N, wt) if weighted else N), c))
    else:
        E.prove('counts', E.close(v, c))
    E.unchanged('frame', data, *([w] if weighted else []), *([b] if bins == 'edges' else []))


for weighted in (False, True):
    for scale in ('', 'density', 'probability'):
        for bins in ('edges', 'auto', 'number'):
            if bins == 'auto' and weighted:
                continue            # numpy has no automatic bins of weighted values
            spec('C26', 'histogram %s%s%s' % (bins, ' weighted' if weighted else '', ' ' + scale if scale else ''), weighted=weighted, scale=scale, bins=bins)(counts)
            spec('C26', 'drawn histogram %s%s%s' % (bins, ' weighted' if weighted else '', ' ' + scale if scale else ''), weighted=weighted, scale=scale,
                 bins=bins, drawn=True)(counts)
