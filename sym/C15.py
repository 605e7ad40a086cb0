"""Contracts for outlier sampling (sample.py)."""
from pydv.spec import spec
from samplec import grid, cells, nested, corner_mass


def build(E, D, mass, thr=None):
    n, x, d, m = grid(E, D, mass)
    b = [a - 1 for a in n]
    N = cells(n)
    thr = E.real('threshold', nonneg=True) if thr is None else thr
    tab = {}
    coms = None
    if not E.concrete:
        def table(v, *a, **k):
            tab['mass'] = E.asarr(v).copy()
            return E.array('idx', N, kind='i', fact=lambda v, i: [v >= 0, v < N]), E.array('csum', N + 1, nondec=True)
        E.stub('sample._data_to_cumulative', table)
        coms = E.array('coms', [D] + b)

        def cent(edges, data):
            tab['cent'] = (edges, data)
            return coms.copy()
        E.stub('utils.centroids', cent)
    s = E.call('sample.Sample_Outliers', x if D > 1 else x[0], d, threshold=thr, **(dict(mass=m) if mass else {}))
    E.under('sample.Sample_Outliers.__init__')
    if E.concrete:
        coms = E.asarr(s._coms)
    mm = m if mass else E.asarr(s._mass)
    return n, x, d, m, mm, b, N, thr, tab, coms, s


def init(E, D, mass):
    n, x, d, m, mm, b, N, thr, tab, coms, s = build(E, D, mass)
    i = [E.idx(a) for a in b]
    want = m.at(tuple(i)) if mass else corner_mass(x, d, i)
    E.eq('mass of the cell', mm.at(tuple(i)), want)
    if not E.concrete:
        E.eq('light cells are drawn in proportion to their mass, heavy cells never', tab['mass'].at(tuple(i)),
             E.ite(want > thr, 0, want))
        e, dd = tab['cent']
        E.prove('centroids of the density', len(e) == D)
        for k in range(D):
            E.eq('centroids on the grid', E.asarr(e[k]).at((i[k],)), x[k].at((i[k],)))
        E.eq('centroids of the density', E.asarr(dd).at(tuple(i)), d.at(tuple(i)))
    E.unchanged('frame', d, *(x + ([m] if mass else [])))


for D in (1, 2, 3):
    for mass in (False, True):
        spec('C15', 'masses %dD%s' % (D, ', given' if mass else ''), D=D, mass=mass, budget=30.0)(init)


def draw(E, D, wrapper=False):
    n, x, d, m, mm, b, N, thr, tab, coms, s = build(E, D, True)
    box = {}
    if E.concrete:
        orig = E.fn('sample.Sample_Grid.sample')

        def spy(self, nsamp=None, interpolate=True, return_scalar=None):
            box['n'] = nsamp
            box['v'] = E.asarr(orig(self, nsamp, interpolate=interpolate, return_scalar=return_scalar))
            return box['v']
        E.stub('sample.Sample_Grid.sample', spy)
    else:
        def contract(self, nsamp=None, interpolate=True, return_scalar=None):
            box['n'] = nsamp
            box['v'] = E.array('outs', [D, nsamp])
            return box['v'].copy()
        E.stub('sample.Sample_Grid.sample', contract)
    ns, vals, wts = E.call(s.sample)
    E.under('sample.Sample_Outliers.sample')
    vals, wts = E.asarr(vals), E.asarr(wts)
    flat = E.asarr(E.np.ravel(m))
    heavy = flat > thr
    which = E.asarr(E.np.arange(N)[heavy])
    nin = E.sum(N, lambda j: E.ite(flat.at((j,)) > thr, 1, 0))
    light = nested(E, b, lambda *i: E.ite(m.at(tuple(i)) > thr, 0, m.at(tuple(i))))
    E.shape_is('one representative for every heavy cell', which, [nin])
    nout = ns - nin
    E.prove('as many others as their total mass, rounded', E.land(nout - light <= E.real_const(2, -1), light - nout <= E.real_const(2, -1)))
    E.prove('others come from the sampler of the light cells', E.imp(nout > 0, box['n'] == nout) if 'n' in box else E.lnot(nout > 0))
    E.shape_is('one value per dimension and sample', vals, [D, ns])
    E.shape_is('one weight per sample', wts, [ns])
    if not E.concrete or nin > 0:
        p = E.idx(nin)
        c = which.at((p,))
        E.eq('weight of a representative is the mass of its cell', wts.at((p,)), flat.at((c,)))
        ci = E.unravel(c, b)
        for k in range(D):
            E.eq('representative at the centroid of its cell', vals.at((k, p)), coms.at(tuple([k]) + ci))
    E.unchanged('frame', d, m, *x)
    if 'n' in box:
        q = E.idx(nout)
        E.eq('unit weight', wts.at((nin + q,)), 1)
        for k in range(D):
            E.eq('drawn sample', vals.at((k, nin + q)), box['v'].at((k, q)))


for D in (1, 2, 3):
    spec('C15', 'samples %dD' % D, D=D, budget=40.0, depth=max(2, D), tier='quick' if D < 3 else 'thorough')(draw)
