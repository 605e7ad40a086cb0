"""Contracts for trapz_dens_to_mass, trapz_nd, cumsum, cumtrapz (utils.py)."""
import itertools
from pydv.spec import spec


def subsets(D):
    return [c for m in range(1, D + 1) for c in itertools.combinations(range(D), m)]


def grid(E, D, axes=None):
    n = [E.dim('n%d' % k, 2) for k in range(D)]
    x = [E.array('x%d' % k, n[k], inc=True) for k in range(D)]
    d = E.array('d', n)
    return n, x, d


def cell(x, d, axes):
    """mass of the cell with lower corner idx, along the chosen axes"""
    def f(*idx):
        t = 0
        for c in itertools.product(*[(0, 1) if k in axes else (0,) for k in range(len(idx))]):
            t = t + d.at(tuple(i + o for i, o in zip(idx, c)))
        t = t / (2 ** len(axes))
        for k in axes:
            t = t * (x[k].at((idx[k] + 1,)) - x[k].at((idx[k],)))
        return t
    return f


def mass(E, D, axes, how):
    n, x, d = grid(E, D)
    kw = {} if how == 'default' else dict(axis=None) if how == 'none' else dict(axis=axes[0]) if how == 'scalar' else dict(axis=list(axes))
    edges = x[0] if how == 'default' and D == 1 else x
    m = E.call('utils.trapz_dens_to_mass', d, edges, **kw)
    E.arr_eq('corner average times volume', m, [a - 1 if k in axes else a for k, a in enumerate(n)], cell(x, d, axes))
    E.unchanged('frame', d, *x)


def hows(D, axes):
    h = ['list']
    if len(axes) == 1:
        h.append('scalar')
    if len(axes) == D:
        h += ['none', 'default']
    return h


for D in (1, 2, 3, 4):
    for axes in subsets(D):
        for h in hows(D, axes):
            spec('C16', 'mass %dD axis=%s (%s)' % (D, axes, h), D=D, axes=axes, how=h,
                 tier='thorough' if D == 4 and len(axes) not in (1, 4) else 'quick')(mass)
spec('C16', 'mass 2D axes in any order', D=2, axes=(1, 0), how='list')(mass)
spec('C16', 'mass 3D axes in any order', D=3, axes=(2, 0), how='list')(mass)


def nest(E, x, d, axes, idx, n):
    """sum of the cell masses over the chosen axes, at fixed other indices"""
    f = cell(x, d, axes)
    axes = list(axes)

    def rec(left, cur):
        if not left:
            return f(*cur)
        k = left[0]
        return E.sum(n[k] - 1, lambda j: rec(left[1:], cur[:k] + [j] + cur[k + 1:]))
    return rec(axes, list(idx))


def total(E, D, axes, how):
    n, x, d = grid(E, D)
    kw = {} if how == 'default' else dict(axis=None) if how == 'none' else dict(axis=axes[0]) if how == 'scalar' else dict(axis=list(axes))
    edges = x[0] if how == 'default' and D == 1 else x
    t = E.call('utils.trapz_nd', d, edges, **kw)
    rest = [k for k in range(D) if k not in axes]
    if rest:
        def want(*i):
            idx = [0] * D
            for k, j in zip(rest, i):
                idx[k] = j
            return nest(E, x, d, axes, idx, n)
        E.arr_eq('sum of the cell masses', t, [n[k] for k in rest], want)
    else:
        E.eq('sum of the cell masses', t, nest(E, x, d, axes, [0] * D, n))
    E.unchanged('frame', d, *x)


for D in (1, 2, 3):
    for axes in subsets(D):
        for h in hows(D, axes):
            spec('C16', 'total %dD axis=%s (%s)' % (D, axes, h), D=D, axes=axes, how=h, budget=40.0)(total)


def cums(E, D, axis):
    n = [E.dim('n%d' % k, 1) for k in range(D)]
    v = E.array('v', n)
    r = E.call('utils.cumsum', v, **({} if axis is None else dict(axis=axis)))
    axes = list(range(D)) if axis is None else [axis % D]

    def want(*idx):
        def rec(left, cur):
            if not left:
                return v.at(tuple(cur))
            k = left[0]
            return E.sum(idx[k] + 1, lambda j: rec(left[1:], cur[:k] + [j] + cur[k + 1:]))
        return rec(axes, list(idx))
    E.arr_eq('sum of all lower elements', r, n, want)
    E.unchanged('frame', v)


for D in (1, 2, 3):
    for axis in [None] + list(range(-D, D)):
        spec('C16', 'cumsum %dD axis=%s' % (D, axis), D=D, axis=axis)(cums)


def cumt(E, D, axis, prepend):
    n, x, d = grid(E, D)
    kw = {} if axis is None else dict(axis=axis)
    if prepend is not None:
        kw['prepend'] = prepend
    r = E.call('utils.cumtrapz', d, x, **kw)
    axes = tuple(range(D)) if axis is None else (axis,)
    f = cell(x, d, axes)
    pre = prepend is None or prepend

    def want(*idx):
        def rec(left, cur):
            if not left:
                return f(*cur)
            k = left[0]
            return E.sum(idx[k] + (0 if pre else 1), lambda j: rec(left[1:], cur[:k] + [j] + cur[k + 1:]))
        return rec(list(axes), list(idx))
    i = [E.idx(m if pre or k not in axes else m - 1) for k, m in enumerate(n)]
    E.shape_is('shape', r, [m if pre or k not in axes else m - 1 for k, m in enumerate(n)])
    if pre:
        for k in axes:
            z = list(i)
            z[k] = 0
            E.eq('zero on the lower faces', r.at(tuple(z)), 0)
        for k in axes:
            if not E.concrete:
                E.assume(i[k] >= 1)
            else:
                i[k] = max(1, i[k])
    E.eq('sum of the masses of all lower cells', r.at(tuple(i)), want(*i))
    E.unchanged('frame', d, *x)


for D in (1, 2, 3):
    for axis in [None] + list(range(D)):
        for pre in (None, True, False):
            spec('C16', 'cumtrapz %dD axis=%s prepend=%s' % (D, axis, pre), D=D, axis=axis, prepend=pre, budget=40.0)(cumt)


def linear(E, D):
    """linear in the density: masses of a*d1 + b*d2"""
    n = [E.dim('n%d' % k, 2) for k in range(D)]
    x = [E.array('x%d' % k, n[k], inc=True) for k in range(D)]
    d1, d2 = E.array('d1', n), E.array('d2', n)
    a, b = E.real('a'), E.real('b')
    m1 = E.call('utils.trapz_dens_to_mass', d1, x)
    m2 = E.call('utils.trapz_dens_to_mass', d2, x)
    m = E.call('utils.trapz_dens_to_mass', d1 * a + d2 * b, x)
    E.arr_eq('linear', m, [k - 1 for k in n], lambda *i: a * m1.at(i) + b * m2.at(i))


def exact(E, D):
    """a density linear along each axis: the mass of each cell is the exact integral"""
    n = [E.dim('n%d' % k, 2) for k in range(D)]
    x = [E.array('x%d' % k, n[k], inc=True) for k in range(D)]
    co = {c: E.real('c' + ''.join(map(str, c))) for c in itertools.product((0, 1), repeat=D)}
    d = 0
    for c, v in co.items():
        t = v
        for k in range(D):
            if c[k]:
                key = tuple(slice(None) if j == k else None for j in range(D))
                t = t * x[k][key]
        d = d + t
    sh = E.array('zero', n) * 0
    m = E.call('utils.trapz_dens_to_mass', d + sh, x)

    def want(*i):
        t = 0
        for c, v in co.items():
            for k in range(D):
                lo, hi = x[k].at((i[k],)), x[k].at((i[k] + 1,))
                v = v * ((hi * hi - lo * lo) / 2 if c[k] else hi - lo)
            t = t + v
        return t
    E.arr_eq('exact integral', m, [k - 1 for k in n], want)


for D in (1, 2, 3):
    spec('C16', 'mass is linear %dD' % D, D=D)(linear)
    spec('C16', 'exact for linear densities %dD' % D, D=D)(exact)


@spec('C16', 'edges must match the density')
def mismatch(E):
    a, b, c = E.dim('A', 2), E.dim('B', 2), E.dim('C', 2)
    E.assume(E.lnot(E.land(a == b, b == c)))
    d = E.array('d', (a, b))
    E.assume(E.lnot(b == c))
    x = [E.array('x', a, inc=True), E.array('y', c, inc=True)]
    E.raises('mass', lambda: E.call('utils.trapz_dens_to_mass', d, x))
    E.raises('total', lambda: E.call('utils.trapz_nd', d, x))
