"""Contracts for midpoints, subdivide, bins, spacing, minmax (utils.py)."""
import itertools
from pydv.spec import spec

AX = {1: [(0,)], 2: [(0,), (1,), (0, 1)], 3: [(0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)]}


def corners(axes):
    return list(itertools.product(*[(0, 1) if a else (0,) for a in axes]))


def mids(E, D, axes, how, log=False):
    n = [E.dim('n%d' % k, 2 if k in axes else 1) for k in range(D)]
    a = E.array('a', n, pos=log)
    kw = dict(log=True) if log else {}
    if how == 'tuple':
        kw['axis'] = axes
    elif how == 'scalar':
        kw['axis'] = axes[0]
    elif how == 'negative':
        kw['axis'] = axes[0] - D
    elif how == 'none':
        kw['axis'] = None
    m = E.call('utils.midpoints', a, **kw)
    E.under('utils._midpoints_1d')
    sel = [k in axes for k in range(D)]
    cs = corners(sel)
    sh = [x - 1 if s else x for x, s in zip(n, sel)]

    def want(*i):
        t = 0
        for c in cs:
            v = a.at(tuple(x + d for x, d in zip(i, c)))
            t = t + (E.log10(v) if log else v)
        t = t / len(cs)
        return E.p10(t) if log else t
    E.arr_eq('mean of the neighbours', m, sh, want)
    E.unchanged('frame', a)


for D in (1, 2, 3):
    for axes in AX[D]:
        hows = ['tuple']
        if len(axes) == 1:
            hows += ['scalar', 'negative']
        if len(axes) == D:
            hows.append('none')
        if axes == (D - 1,):
            hows.append('default')
        for h in hows:
            spec('C23', 'midpoints %dD axes=%s (%s)' % (D, axes, h), D=D, axes=axes, how=h)(mids)
spec('C23', 'midpoints log 1D', D=1, axes=(0,), how='default', log=True)(mids)
spec('C23', 'midpoints log 2D', D=2, axes=(0, 1), how='none', log=True)(mids)
spec('C23', 'midpoints log 2D axis 0', D=2, axes=(0,), how='scalar', log=True)(mids)


@spec('C23', 'log midpoints are geometric means')
def geometric(E):
    n = E.dim('n', 2)
    a = E.array('a', n, pos=True)
    m = E.call('utils.midpoints', a, log=True)
    i = E.idx(n - 1)
    # log10 of the midpoint is the mean of the logarithms
    E.eq('log of the midpoint', E.log10(m.at((i,))), (E.log10(a.at((i,))) + E.log10(a.at((i + 1,)))) / 2)


@spec('C23', 'midpoints squeeze')
def squeeze(E):
    n = E.dim('n', 2)
    a = E.array('a', (n, 2))
    m = E.call('utils.midpoints', a, squeeze=True)
    if E.concrete and n == 1:
        return
    E.arr_eq('squeezed', m, (n,), lambda i: (a.at((i, 0)) + a.at((i, 1))) / 2)


@spec('C23', 'midpoints too short')
def short(E):
    n = E.dim('n', 1)
    a = E.array('a', (n, 1))
    E.raises('rejected', lambda: E.call('utils.midpoints', a))
    E.raises('rejected on axis', lambda: E.call('utils.midpoints', a, axis=None))


def subdiv(E, num, log):
    n = E.dim('n', 2)
    a = E.array('a', n, pos=log)
    r = E.call('utils.subdivide', a, num=num, log=log)
    f = num + 1
    E.shape_is('length', r, ((n - 1) * f + 1,))
    i = E.idx(n - 1)
    v = lambda k: E.log10(a.at((k,))) if log else a.at((k,))
    for s in range(f):
        want = v(i) + (v(i + 1) - v(i)) * s / f
        got = r.at((i * f + s,))
        E.eq('points between edges', E.log10(got) if log else got, want)
    E.eq('last edge', r.at(((n - 1) * f,)), a.at((n - 1,)))
    E.eq('original edges are kept', r.at((i * f,)), a.at((i,)))
    E.unchanged('frame', a)


for num in (0, 1, 2, 3, 5):
    for log in (False, True):
        spec('C23', 'subdivide num=%d log=%s' % (num, log), num=num, log=log)(subdiv)


@spec('C23', 'subdivide any num')
def subdiv_any(E):
    n, k = E.dim('n', 2), E.dim('k', 0)
    a = E.array('a', n)
    r = E.call('utils.subdivide', a, num=k)
    f = k + 1
    E.shape_is('length', r, ((n - 1) * f + 1,))
    i, s = E.idx(n - 1), E.idx(f)
    E.eq('points between edges', r.at((i * f + s,)), a.at((i,)) + (a.at((i + 1,)) - a.at((i,))) * s / f)


@spec('C23', 'bins')
def bins(E):
    lo, hi = E.real('lo'), E.real('hi')
    n = E.dim('n', 2)
    xe, xc, dx = E.call('utils.bins', lo, hi, n)
    e = lambda i: lo + (hi - lo) * i / (n - 1)
    E.arr_eq('edges', xe, (n,), e)
    E.arr_eq('centres', xc, (n - 1,), lambda i: (e(i) + e(i + 1)) / 2)
    E.arr_eq('widths', dx, (n - 1,), lambda i: e(i + 1) - e(i))


def ext(E, a, n, lo, hi, nm, pos=False):
    """lo/hi are the attained extrema of a (of its positive elements)"""
    i = E.idx(n, 'q')
    v = a.at((i,))
    E.prove(nm + ': lower bound', E.imp(v > 0, lo <= v) if pos else lo <= v)
    E.prove(nm + ': upper bound', E.imp(v > 0, v <= hi) if pos else v <= hi)
    E.prove(nm + ': attained', E.land(E.any(n, lambda j: a.at((j,)) == lo), E.any(n, lambda j: a.at((j,)) == hi)))
    if pos:
        E.prove(nm + ': positive', lo > 0)


def plain(E, kind, nd):
    n = E.dim('n', 1)
    sh = (n,) if nd == 1 else (n, 2)
    a = E.array('a', sh, kind=kind)
    m = E.call('utils.minmax', a)
    E.shape_is('pair', m, (2,))
    lo, hi = m.at((0,)), m.at((1,))
    for c in range(1 if nd == 1 else 2):
        i = E.idx(n, 'q')
        v = a.at((i,) if nd == 1 else (i, c))
        E.prove('encloses', E.land(lo <= v, v <= hi))
    at = lambda j, x: E.lor(*[a.at((j,) if nd == 1 else (j, c)) == x for c in range(1 if nd == 1 else 2)])
    E.prove('attained', E.land(E.any(n, lambda j: at(j, lo)), E.any(n, lambda j: at(j, hi))))
    E.unchanged('frame', a)


for kind in 'fi':
    for nd in (1, 2):
        spec('C23', 'minmax %s %dD' % (kind, nd), kind=kind, nd=nd)(plain)


@spec('C23', 'minmax positive')
def positive(E):
    n = E.dim('n', 1)
    a = E.array('a', n)
    m = E.call('utils.minmax', a, positive=True)
    if m is None:
        i = E.idx(n)
        E.prove('none positive', a.at((i,)) <= 0)
        return
    lo, hi = m.at((0,)), m.at((1,))
    ext(E, a, n, lo, hi, 'positive', pos=True)


@spec('C23', 'minmax positive keeps prev')
def positive_prev(E):
    n = E.dim('n', 1)
    a = E.array('a', n, fact=lambda v, i: [v <= 0])
    p, q = E.real('p'), E.real('q')
    m = E.call('utils.minmax', a, positive=True, prev=[p, q])
    E.eq('prev lower', m[0], p)
    E.eq('prev upper', m[1], q)


def full(E, st, prev, limit, kind='f'):
    n = E.dim('n', 1)
    a = E.array('a', n, kind=kind)
    m0 = E.call('utils.minmax', a)
    lo, hi = m0.at((0,)), m0.at((1,))
    kw = {}
    s0 = s1 = None
    if st == 'scalar':
        s0 = s1 = E.real('s')
        kw['stretch'] = s0
    elif st == 'pair':
        s0, s1 = E.real('s0'), E.real('s1')
        kw['stretch'] = [s0, s1]
    wl, wh = lo, hi
    if s0 is not None:
        c = (lo + hi) / 2
        wl, wh = c - (1 + s0) * (hi - lo) / 2, c + (1 + s1) * (hi - lo) / 2
    if prev is not None:
        pv = [E.real('p%d' % k) if f else None for k, f in enumerate(prev)]
        kw['prev'] = pv
        if pv[0] is not None:
            wl = E.min(wl, pv[0])
        if pv[1] is not None:
            wh = E.max(wh, pv[1])
    if limit is not None:
        lv = [E.real('l%d' % k) if f else None for k, f in enumerate(limit)]
        kw['limit'] = lv
        if lv[0] is not None:
            wl = E.max(wl, lv[0])
        if lv[1] is not None:
            wh = E.min(wh, lv[1])
    m = E.call('utils.minmax', a, **kw)
    E.eq('lower end', m.at((0,)), wl)
    E.eq('upper end', m.at((1,)), wh)
    E.shape_is('pair', m, (2,))
    E.unchanged('frame', a)


for st in (None, 'scalar', 'pair'):
    for prev in (None, (1, 1), (1, 0), (0, 1), (0, 0)):
        for limit in (None, (1, 1), (1, 0), (0, 1)):
            for kind in 'fi':
                if kind == 'i' and (prev not in (None, (1, 1)) or limit not in (None, (1, 1))):
                    continue
                nm = 'minmax %s stretch=%s prev=%s limit=%s' % (kind, st, prev, limit)
                spec('C23', nm, st=st, prev=prev, limit=limit, kind=kind,
                     tier='quick' if prev in (None, (1, 1), (1, 0)) else 'thorough')(full)


@spec('C23', 'minmax log_stretch')
def logst(E):
    n = E.dim('n', 1)
    a = E.array('a', n, pos=True)
    m0 = E.call('utils.minmax', a)
    lo, hi = E.log10(m0.at((0,))), E.log10(m0.at((1,)))
    s0, s1 = E.real('s0'), E.real('s1')
    m = E.call('utils.minmax', a, log_stretch=[s0, s1])
    c = (lo + hi) / 2
    E.eq('lower end', E.log10(m.at((0,))), c - (1 + s0) * (hi - lo) / 2)
    E.eq('upper end', E.log10(m.at((1,))), c + (1 + s1) * (hi - lo) / 2)


@spec('C23', 'minmax both stretches are rejected')
def both(E):
    n = E.dim('n', 1)
    a = E.array('a', n, pos=True)
    E.raises('rejected', lambda: E.call('utils.minmax', a, stretch=E.real('s'), log_stretch=E.real('t')))


@spec('C23', 'spacing linear')
def splin(E):
    n, k = E.dim('n', 1), E.dim('k', 2)
    a = E.array('a', n)
    m = E.call('utils.minmax', a)
    r = E.call('utils.spacing', a, 'lin', num=k)
    lo, hi = m.at((0,)), m.at((1,))
    E.arr_eq('points', r, (k,), lambda i: lo + (hi - lo) * i / (k - 1))
    r = E.call('utils.spacing', a, 'linear')
    E.arr_eq('default count', r, (20,), lambda i: lo + (hi - lo) * i / 19)


@spec('C23', 'spacing log')
def splog(E):
    n, k = E.dim('n', 1), E.dim('k', 2)
    a = E.array('a', n, pos=True)
    m = E.call('utils.minmax', a)
    lo, hi = E.log10(m.at((0,))), E.log10(m.at((1,)))
    r = E.call('utils.spacing', a, 'log', num=k)
    E.shape_is('count', r, (k,))
    i = E.idx(k)
    E.eq('points', E.log10(r.at((i,))), lo + (hi - lo) * i / (k - 1))
    r = E.call('utils.spacing', a, num=k)
    E.eq('default scale', E.log10(r.at((i,))), lo + (hi - lo) * i / (k - 1))
    E.eq('first', r.at((0,)), m.at((0,)))
    E.eq('last', r.at((k - 1,)), m.at((1,)))


@spec('C23', 'spacing scale is validated')
def spbad(E):
    n = E.dim('n', 1)
    a = E.array('a', n, pos=True)
    E.raises('rejected', lambda: E.call('utils.spacing', a, 'bad', num=3))
