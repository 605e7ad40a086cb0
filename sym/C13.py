"""Contracts for grid sampling: which cell (sample.py)."""
import itertools
from pydv.spec import spec
from samplec import grid, corner_mass, nested, flat_index, cells, use_table, rows, drawn


def cumulative(E, D, positive):
    """the table used for choosing a cell: a permutation of the cells and the cumulative mass in that order"""
    b = [E.dim('b%d' % k, 1) for k in range(D)]
    m = E.array('m', b, nonneg=True)
    N = 1
    for a in b:
        N = N * a
    tot = nested(E, b, lambda *i: m.at(tuple(i)))
    E.assume(tot > 0)
    idx, csum = E.call('sample._data_to_cumulative', m)
    E.shape_is('one entry for every cell', idx, [N])
    E.shape_is('cumulative mass at every boundary', csum, [N + 1])
    k, l = E.idx(N), E.idx(N)
    c = E.idx(N)
    ik, il = E.asarr(idx).at((k,)), E.asarr(idx).at((l,))
    flat = E.asarr(E.np.ravel(m))
    E.prove('indices of cells', E.land(ik >= 0, ik < N))
    E.prove('every cell once', E.imp(ik == il, k == l))
    E.eq('starts at zero', csum.at((0,)), 0)
    E.eq('ends at one', csum.at((N,)), 1)
    E.eq('share of the total mass', (csum.at((k + 1,)) - csum.at((k,))) * E.sum(N, lambda j: flat.at((j,))), flat.at((ik,)))
    E.unchanged('frame', m)


for D in (1, 2, 3):
    spec('C13', 'cumulative table %dD' % D, D=D, positive=True, budget=30.0)(cumulative)


def sampler(E, D, mass):
    n, x, d, m = grid(E, D, mass)
    s = E.call('sample.Sample_Grid', x if D > 1 else x[0], d, **(dict(mass=m) if mass else {}))
    return n, x, d, m, s


def init(E, D, mass):
    """masses of the sampler: the given ones, or trapezoid masses of the density"""
    n, x, d, m, s = sampler(E, D, mass)
    b = [a - 1 for a in n]
    i = [E.idx(a) for a in b]
    E.eq('mass of the cell', E.asarr(s._mass).at(tuple(i)), m.at(tuple(i)) if mass else corner_mass(x, d, i))
    E.unchanged('frame', d, *(x + ([m] if mass else [])))


for D in (1, 2, 3):
    for mass in (False, True):
        spec('C13', 'masses %dD%s' % (D, ', given' if mass else ''), D=D, mass=mass, budget=30.0)(init)


def choose(E, D):
    """the cell of every sample is the inverse of the cumulative table at an independent uniform number"""
    n, x, d, m = grid(E, D, True)
    N = cells(n)
    fm = E.asarr(E.np.ravel(m))
    if E.concrete and not m.sum() > 0:
        return
    use_table(E, N, fm)
    s = E.call('sample.Sample_Grid', x if D > 1 else x[0], d, mass=m)
    ns = E.dim('ns', 1)
    flat, locs = E.call(s._random_bins, ns)
    E.under('sample.Sample_Grid._random_bins')
    E.shape_is('one cell for every sample', flat, [ns])
    u = rows(E, ns, 1 + D)
    E.prove('positions for every dimension', len(locs) == D)
    i = E.idx(ns)
    for k in range(D):
        E.eq('position in the cell is the uniform number', E.asarr(locs[k]).at((i,)), u[1 + k].at((i,)))
    r = E.asarr(E.np.sort(u[0])).at((i,))
    csum, idx = E.asarr(s._csum), E.asarr(s._idx)
    f = E.asarr(flat).at((i,))
    E.prove('cell index in range', E.land(f >= 0, f < N))
    k = E.idx(N)
    E.prove('inverse of the cumulative table', E.imp(E.land(csum.at((k,)) < r, r < csum.at((k + 1,))), f == idx.at((k,))))
    if E.concrete or True:
        E.assume(r > 0)     # the number zero selects the last entry (the cell of largest mass)
    E.prove('never a cell without mass', fm.at((f,)) > 0)


for D in (1, 2, 3):
    spec('C13', 'choice of the cell %dD' % D, D=D, budget=40.0)(choose)


def place(E, D, interpolate, mass):
    """every sample lies inside its cell"""
    n, x, d, m, v, c, loc, i, ns, _ = drawn(E, D, mass, interpolate)
    E.shape_is('one value per dimension and sample', v, [D, ns])
    for k in range(D):
        q = E.asarr(v).at((k, i))
        lo, hi = x[k].at((c[k],)), x[k].at((c[k] + 1,))
        if E.concrete:
            E.prove('inside its cell', lo - 1e-9 * abs(lo) <= q <= hi + 1e-9 * abs(hi))
        else:
            E.prove('inside its cell', E.land(lo <= q, q <= hi))
    E.unchanged('frame', d, *(x + ([m] if mass else [])))


for D in (1, 2, 3):
    for interpolate in (False, True):
        for mass in (False, True):
            spec('C13', 'inside the cell %dD%s%s' % (D, ' interpolated' if interpolate else '', ', mass given' if mass else ''),
                 D=D, interpolate=interpolate, mass=mass, budget=40.0)(place)


def number(E, D, given):
    """exactly the requested number; the rounded-down total mass by default"""
    n, x, d, m = grid(E, D, True)
    N = cells(n)
    b = [a - 1 for a in n]
    fm = E.asarr(E.np.ravel(m))
    if E.concrete and not m.sum() > 0:
        return
    use_table(E, N, fm)
    s = E.call('sample.Sample_Grid', x if D > 1 else x[0], d, mass=m)
    ns = E.dim('ns', 1) if given else None
    tot = nested(E, b, lambda *i: m.at(tuple(i)))
    vals = E.call(s.sample, nsamp=ns, interpolate=False)
    E.under('sample.Sample_Grid.sample')
    if given:
        E.shape_is('requested number', vals, [D, ns])
    else:
        q = E.asarr(vals).shape[1]
        E.prove('total mass rounded down', E.land(q <= tot, tot < q + 1))


for D in (1, 2, 3):
    for given in (True, False):
        spec('C13', 'number %s %dD' % ('given' if given else 'default', D), D=D, given=given, budget=30.0)(number)
