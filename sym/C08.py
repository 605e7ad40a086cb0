"""Contracts for refused and accepted specifications."""
from pydv.spec import spec
from kern import spd, KERNELS
from kdec import quiet, datum, dataset, estimator
from samplec import grid


def kde(E, data, **kw):
    return E.call('kde.KDE', data, helper=False, **kw)


def fixed(E, D, lo=2):
    quiet(E)
    n, data = dataset(E, D, lo=lo)
    return n, data, dict(covariance=E.asarr(spd(E, D, 'cov')), bandwidth=E.real('bw', pos=True))


def weights_negative(E, D, given):
    n, data, kw = fixed(E, D, 4)
    w = E.array('w', n)
    i = E.idx(n)
    E.assume(w.at((i,)) < 0)
    E.raises('a negative weight is refused', lambda: kde(E, data, weights=w, **(kw if given else {})))


def weights_zero(E, D, given):
    n, data, kw = fixed(E, D, 4)
    w = E.build((n,), lambda j: 0)
    E.raises('all-zero weights are refused', lambda: kde(E, data, weights=w, **(kw if given else {})))


def weights_shape(E, D, form):
    n, data, kw = fixed(E, D)
    if form == 'other':
        k = E.dim('k', 0)
        E.assume(k != n)
        shape = (k,)
    else:
        shape = (2, n) if form == 'matrix' else (1, n)
    w = E.array('w', shape, pos=True)
    E.raises('weights that are not one per datum are refused', lambda: kde(E, data, weights=w, **kw))


def weights_good(E, D, form):
    n, data, kw = fixed(E, D)
    if form == 'list':
        v = [E.real('w%d' % j, nonneg=True) for j in range(3)]
        E.assume(n == 3)
        E.assume(E.lor(*[x > 0 for x in v]))
        w = v
    else:
        w = E.array('w', n, nonneg=True)
        E.assume(w.at((E.idx(n),)) > 0)
    k = kde(E, data, weights=w, **kw)
    got = E.asarr(k.weights)
    E.shape_is('weights', got, [n])
    j = 1 if form == 'list' else E.idx(n)
    E.eq('weights', got.at((j,)), w[j] if form == 'list' else w.at((j,)))


def empty(E, D):
    quiet(E)
    data = E.build((D, 0), lambda *i: 0)
    cov = E.asarr(spd(E, D, 'cov'))
    E.raises('no data is refused', lambda: kde(E, data, covariance=cov, bandwidth=1.0))
    E.raises('no data is refused', lambda: kde(E, data))
    if D == 1:
        E.raises('no data is refused', lambda: kde(E, E.build((0,), lambda i: 0), covariance=cov, bandwidth=1.0))


def kernels(E, bad):
    n, data, kw = fixed(E, 1)
    E.raises('unknown kernel', lambda: kde(E, data, kernel=bad, **kw))
    E.raises('unknown kernel', lambda: E.call('kernels.get_distribution_class', bad))


def rules(E, D, bad):
    n, data, kw = fixed(E, D)
    kw['bandwidth'] = bad
    E.raises('unknown bandwidth rule', lambda: kde(E, data, **kw))
    if D > 1:
        kw['bandwidth'] = ['scott'] * (D - 1) + [bad]
        E.raises('unknown bandwidth rule', lambda: kde(E, data, **kw))
        kw['bandwidth'] = [['scott'] * D] * (D - 1) + [['scott'] * (D - 1) + [bad]]
        E.raises('unknown bandwidth rule', lambda: kde(E, data, **kw))


def bandwidth_shape(E, D, rank):
    """any one- or two-dimensional shape other than (1), (D) and (D, D)"""
    n, data, kw = fixed(E, D)
    s = [E.dim('s%d' % k, 1) for k in range(rank)]
    p = 1
    for x in s:
        p = p * x
    E.assume(p != 1)
    E.assume(E.lor(*[x != D for x in s]) if rank < 3 else True)
    kw['bandwidth'] = E.array('b', s, pos=True)
    E.raises('a bandwidth of another shape is refused', lambda: kde(E, data, **kw))


def order(E, D, where, form):
    """a lower bound at or above the upper one"""
    n, data, kw = fixed(E, D)
    lo, hi = E.real('lo'), E.real('hi')
    E.assume(lo >= hi)
    r = [None] * D
    r[where] = (lo, hi) if form == 'tuple' else [lo, hi]
    if form == 'tuple':
        r = tuple(r)
    E.raises('boundaries out of order are refused', lambda: kde(E, data, reflect=r, **kw))
    k = kde(E, data, **kw)
    pts = E.array('pts', 3 if D == 1 else (D, 3))
    E.raises('boundaries out of order are refused (density)', lambda: k.density(pts, reflect=r))
    E.raises('boundaries out of order are refused (resampling)', lambda: k.resample(5, reflect=r))
    if D == 1:
        E.raises('boundaries out of order are refused (pair)', lambda: kde(E, data, reflect=[lo, hi], **kw))


def entries(E, D, form):
    n, data, kw = fixed(E, D)
    lo, hi = E.real('lo'), E.real('hi')
    E.assume(lo < hi)
    bad = {'short': [[lo, hi]] + [None] * (D - 2), 'long': [[lo, hi]] + [None] * D, 'one': [[lo]] + [None] * (D - 1),
           'three': [[lo, hi, hi + 1]] + [None] * (D - 1), 'number': [lo] + [None] * (D - 1)}[form]
    E.raises('boundaries that do not match the dimensions are refused', lambda: kde(E, data, reflect=bad, **kw))
    k = kde(E, data, **kw)
    pts = E.array('pts', 3 if D == 1 else (D, 3))
    E.raises('boundaries that do not match are refused (density)', lambda: k.density(pts, reflect=bad))
    E.raises('boundaries that do not match are refused (resampling)', lambda: k.resample(5, reflect=bad))


def good_bounds(E, D, form):
    from kern import bounds
    n, data, kw = fixed(E, D)
    r = bounds(E, ['b', 'bn', 'lbu'][D - 1])
    arg = tuple(x if x is None else tuple(x) for x in r) if form == 'tuple' else [x if x is None else E.asarr(x) for x in r] if form == 'array' else r
    if form == 'array' and D == 3:
        arg = [r[0], E.asarr(r[1]), r[2]]
    k = kde(E, data, reflect=arg, **kw)
    for a, b in zip(k.reflect, r):
        E.prove('boundary', (a is None) == (b is None))
        for x, y in zip(a or [], b or []):
            E.prove('boundary', (x is None) == (y is None))
            if y is not None:
                E.eq('boundary', x, y)


def point_dims(E, D, q, form):
    """points of another dimension"""
    n, data, kw = fixed(E, D)
    k = kde(E, data, **kw)
    m = E.dim('m', 2)
    if form == 'grid':
        bad = [E.array('p%d' % a, E.dim('m%d' % a, 1)) for a in range(q)]
        E.raises('a grid of another dimension is refused', lambda: k.density(bad, grid=True))
        return
    if form == 'any':
        s = E.dim('q', 1)
        E.assume(s != D)
        bad = E.array('pts', (s, m))
    elif form == 'flat':
        bad = E.array('pts', m)
    else:
        bad = [[E.real('x%d%d' % (a, j)) for j in range(2)] for a in range(q)]
    E.raises('points of another dimension are refused', lambda: k.density(bad))
    E.raises('points of another dimension are refused (pdf)', lambda: k.pdf(bad))


def params_dims(E, D, params, q):
    n, data, kw = fixed(E, D)
    k = kde(E, data, **kw)
    m = E.dim('m', 2)
    bad = E.array('pts', (q, m))
    E.raises('points that do not match the parameters are refused', lambda: k.density(bad, params=params))


def sample_dims(E, D, what):
    """edges, density and mass that do not match"""
    n, x, d, m = grid(E, D, False)
    if what == 'size':
        k = E.dim('k', 1)
        E.assume(k != n[D - 1])
        bad = list(x)
        bad[D - 1] = E.array('bad', k, inc=True)
        E.raises('edges that do not match the density are refused', lambda: E.call('sample.sample_grid', bad, d, nsamp=3))
        E.raises('edges that do not match the density are refused (outliers)', lambda: E.call('sample.sample_outliers', bad, d, 1.0))
        E.raises('edges that do not match the density are refused (mass)', lambda: E.call('utils.trapz_dens_to_mass', d, bad))
    elif what == 'dims':
        bad = list(x) + [E.array('bad', 2, inc=True)]
        E.raises('edges of another dimension are refused', lambda: E.call('sample.sample_grid', bad, d, nsamp=3))
        E.raises('edges of another dimension are refused (mass)', lambda: E.call('utils.trapz_dens_to_mass', d, bad))
        if D > 1:
            E.raises('edges of another dimension are refused', lambda: E.call('sample.sample_grid', x[:-1], d, nsamp=3))
    else:
        s = [E.dim('s%d' % a, 1) for a in range(D)]
        E.assume(E.lor(*[s[a] != n[a] - 1 for a in range(D)]))
        bad = E.array('mass', s, pos=True)
        E.raises('a mass of another shape is refused', lambda: E.call('sample.sample_grid', x, d, nsamp=3, mass=bad))


def fractions(E, how, weights):
    """a requested fraction outside of zero to one"""
    n = E.dim('n', 2)
    v = E.array('v', n)
    kw = dict(weights=E.array('w', n, pos=True)) if weights else {}
    p = E.real('p')
    E.assume(E.lor(p < 0, p > 1))
    if how == 'array' and E.concrete:
        ps = [p] + [0.25] * int(E.dim('k', 1))
    elif how == 'array':
        k = E.dim('k', 1)
        ps = E.array('ps', k)
        E.assume(ps.at((E.idx(k),)) == p)
    else:
        ps = {'scalar': p, 'list': [0.5, p], 'first': [p, 0.5]}[how]
    E.raises('a fraction outside of zero to one is refused', lambda: E.call('utils.quantiles', v, percs=ps, **kw))


def quantile_weights(E):
    n, k = E.dim('n', 2), E.dim('k', 1)
    E.assume(k != n)
    E.assume(k > 1)
    v, w = E.array('v', n), E.array('w', k, pos=True)
    E.raises('weights that do not match the values are refused', lambda: E.call('utils.quantiles', v, percs=[0.5], weights=w))


for D in (1, 2):
    for given in (False, True):
        spec('C08', 'negative weight %dD %s' % (D, given), D=D, given=given)(weights_negative)
        spec('C08', 'zero weights %dD %s' % (D, given), D=D, given=given)(weights_zero)
    for form in ('other', 'matrix', 'row'):
        spec('C08', 'weights shape %dD %s' % (D, form), D=D, form=form)(weights_shape)
    for form in ('list', 'array'):
        spec('C08', 'weights accepted %dD %s' % (D, form), D=D, form=form)(weights_good)
for D in (1, 2, 3):
    spec('C08', 'no data %dD' % D, D=D)(empty)
    for bad in ('', 'scot', 'auto', 'Silvermann'):
        spec('C08', 'rule %r %dD' % (bad, D), D=D, bad=bad)(rules)
    for rank in (1, 2, 3):
        spec('C08', 'bandwidth shape %dD rank %d' % (D, rank), D=D, rank=rank)(bandwidth_shape)
    for where in range(D):
        for form in ('list', 'tuple'):
            spec('C08', 'order of boundaries %dD %d %s' % (D, where, form), D=D, where=where, form=form)(order)
    for form in ('short', 'long', 'one', 'three', 'number'):
        if form == 'short' and D == 1 or form == 'short' and D == 2 or form == 'long' and D == 1:
            continue
        spec('C08', 'entries of boundaries %dD %s' % (D, form), D=D, form=form)(entries)
    for form in ('list', 'tuple', 'array'):
        spec('C08', 'boundaries accepted %dD %s' % (D, form), D=D, form=form)(good_bounds)
    spec('C08', 'points %dD any' % D, D=D, q=0, form='any')(point_dims)
    if D > 1:
        spec('C08', 'points %dD flat' % D, D=D, q=0, form='flat')(point_dims)
        spec('C08', 'points %dD list' % D, D=D, q=D + 1, form='list')(point_dims)
        spec('C08', 'grid %dD of %d' % (D, D - 1), D=D, q=D - 1, form='grid')(point_dims)
        spec('C08', 'points for parameters %dD' % D, D=D, params=list(range(D - 1)), q=D)(params_dims)
        spec('C08', 'points for all parameters %dD' % D, D=D, params=list(range(D)), q=D - 1 if D > 2 else 3)(params_dims)
    spec('C08', 'grid %dD of %d' % (D, D + 1), D=D, q=D + 1, form='grid')(point_dims)
    for what in ('size', 'dims', 'mass'):
        spec('C08', 'sample grid %dD %s' % (D, what), D=D, what=what)(sample_dims)
for bad in ('', 'gausian', 'boxx', 'tri', 'Normal', 'parabolic', 'gauss', 3, 0.5):
    spec('C08', 'kernel %r' % (bad,), bad=bad)(kernels)
for how in ('scalar', 'list', 'first', 'array'):
    for weights in (False, True):
        spec('C08', 'fractions %s%s' % (how, ' weighted' if weights else ''), how=how, weights=weights)(fractions)
spec('C08', 'quantile weights')(quantile_weights)
