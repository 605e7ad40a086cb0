"""Common pieces of the contracts of grid sampling."""
import itertools


def grid(E, D, mass, nonneg=True, inc=True):
    n = [E.dim('n%d' % k, 2) for k in range(D)]
    x = [E.array('x%d' % k, n[k], inc=True) for k in range(D)]
    d = E.array('d', n, nonneg=True)
    m = E.array('m', [a - 1 for a in n], nonneg=True) if mass else None
    return n, x, d, m


def corner_mass(x, d, idx):
    """trapezoid mass of a cell"""
    D = len(idx)
    t = 0
    for c in itertools.product((0, 1), repeat=D):
        t = t + d.at(tuple(i + o for i, o in zip(idx, c)))
    t = t / 2 ** D
    for k in range(D):
        t = t * (x[k].at((idx[k] + 1,)) - x[k].at((idx[k],)))
    return t


def nested(E, n, f):
    def rec(k, idx):
        if k == len(n):
            return f(*idx)
        return E.sum(n[k], lambda j: rec(k + 1, idx + [j]))
    return rec(0, [])


def flat_index(idx, n):
    r = 0
    for i, a in zip(idx, n):
        r = r * a + i
    return r


def faces(d, idx, k, D):
    """corner densities averaged over the other dimensions, on the lower and the upper face along k"""
    y = [0, 0]
    for c in itertools.product((0, 1), repeat=D):
        y[c[k]] = y[c[k]] + d.at(tuple(i + o for i, o in zip(idx, c)))
    return y[0] / 2 ** (D - 1), y[1] / 2 ** (D - 1)


def cells(n):
    N = 1
    for a in n:
        N = N * (a - 1)
    return N


def use_table(E, N, fm):
    """callers of _data_to_cumulative rely on its contract (the obligations `cumulative table` of C13) only"""
    if E.concrete:
        return

    def contract(mass, *a, **k):
        csum = E.array('csum', N + 1, nondec=True)
        E.assume(csum.at((0,)) == 0)
        E.assume(csum.at((N,)) == 1)
        idx = E.array('idx', N, kind='i', fact=lambda v, i: [v >= 0, v < N, E.imp(csum.at((i[0],)) < csum.at((i[0] + 1,)), fm.at((v,)) > 0) if fm is not None else True])
        return idx, csum
    E.stub('sample._data_to_cumulative', contract)


def rows(E, ns, want):
    """the uniform numbers that were drawn, as rows of one number per sample"""
    out = []
    for e in E.events('uniform'):
        o = e['out']
        if len(o.shape) == 1:
            out.append(o)
        else:
            out += [o[k] for k in range(int(o.shape[0]))]
    E.prove('one number for the cell and one for every dimension of every sample', len(out) == want)
    E.prove('uniform between zero and one', E.land(*[E.land(e['low'] == 0, e['high'] == 1) for e in E.events('uniform')]))
    for o in out:
        E.shape_is('a number for every sample', o, [ns])
    return out


def use_bins(E, D, N, fm=None):
    """callers of _random_bins rely on its contract (the obligations `choice of the cell` of C13); -> box with the result"""
    box = {}
    if E.concrete:
        orig = E.fn('sample.Sample_Grid._random_bins')

        def spy(self, nsamp):
            r = orig(self, nsamp)
            box['flat'], box['locs'] = E.asarr(r[0]), [E.asarr(v) for v in r[1]]
            return r
        E.stub('sample.Sample_Grid._random_bins', spy)
        return box

    def contract(self, nsamp):
        if box:
            raise AssertionError('positions are drawn twice')
        facts = (lambda v, i: [v >= 0, v < N, fm.at((v,)) > 0]) if fm is not None else (lambda v, i: [v >= 0, v < N])
        box['flat'] = E.array('flat', nsamp, kind='i', fact=facts)
        box['locs'] = [E.array('loc%d' % k, nsamp, fact=lambda v, i: [v >= 0, v < 1]) for k in range(D)]
        return box['flat'].copy(), [v.copy() for v in box['locs']]
    E.stub('sample.Sample_Grid._random_bins', contract)
    return box


def drawn(E, D, mass, interpolate, scalar=None, sd=None, **kw):
    """a sampler and samples from it -> n, x, d, samples, cell (tuple), position numbers, sample index"""
    n, x, d, m = grid(E, D, mass)
    N = cells(n)
    b = [a - 1 for a in n]
    if E.concrete and not (m.sum() > 0 if mass else d.sum() > 0):
        raise_reject(E)
    use_table(E, N, E.asarr(E.np.ravel(m)) if mass else None)
    box = use_bins(E, D, N, E.asarr(E.np.ravel(m)) if mass else None)
    args = dict(mass=m) if mass else {}
    if sd is not None:
        args['scalar_dens'] = sd(n)
    s = E.call('sample.Sample_Grid', x if D > 1 else x[0], d, **args)
    ns = E.dim('ns', 1)
    r = E.call(s.sample, nsamp=ns, interpolate=interpolate, **kw)
    E.under('sample.Sample_Grid.sample')
    i = E.idx(ns)
    f = box['flat'].at((i,))
    c = E.unravel(f, b)
    return n, x, d, m, r, tuple(c), [v.at((i,)) for v in box['locs']], i, ns, args


def raise_reject(E):
    E.assume(False)
