"""Contracts on what calls leave behind: arguments of every operation, and the state of estimators, kernels and samplers.

For one object the histories are covered by induction: the states that are reachable by any calls are enumerated up to
provable equality of everything the object consists of, and every call is made in every one of them, with new arguments."""
from pydv.spec import spec
from kern import spd, bounds
from kdec import quiet, dataset


def untouched(E, f, *args, again=True, **kw):
    """the arguments are left alone, and the answer is the same when the call is repeated"""
    old = E.keep((args, kw))
    r = E.keep(E.call(f, *args, **kw))
    E.kept('arguments', old)
    if again:
        r2 = E.keep(E.call(f, *args, **kw))
        E.same('the same answer again', r, r2)
        E.kept('arguments', old)


def lists(x):
    return [x.at((i,)) for i in range(int(x.shape[0]))]


def axes(E, D, lo=2):
    n = [E.dim('n%d' % a, lo) for a in range(D)]
    return n, [E.array('x%d' % a, n[a], inc=True) for a in range(D)]


# ------------------------------------------------------------------ utilities
def integrate(E, D, f, form):
    n, x = axes(E, D)
    y = E.array('y', n, nonneg=True)
    kw = dict(axis=D - 1) if form == 'axis' else dict(axis=[0, D - 1]) if form == 'axes' else {}
    e = x[D - 1] if form == 'axis' and f == 'utils.cumtrapz' else tuple(x) if form == 'tuple' else x
    untouched(E, f, y, x[0] if D == 1 and form != 'tuple' else e, **kw)


for f in ('utils.trapz_nd', 'utils.trapz_dens_to_mass'):
    for D in (1, 2, 3):
        spec('C20', '%s %dD' % (f[6:], D), D=D, f=f, form='all')(integrate)
    spec('C20', '%s axis' % f[6:], D=2, f=f, form='axis')(integrate)
spec('C20', 'trapz_dens_to_mass axes', D=3, f='utils.trapz_dens_to_mass', form='axes')(integrate)
for D in (1, 2):
    spec('C20', 'cumtrapz %dD' % D, D=D, f='utils.cumtrapz', form='all', depth=3)(integrate)


def cumulative(E, D, axis):
    n = [E.dim('n%d' % a, 1) for a in range(D)]
    untouched(E, 'utils.cumsum', E.array('y', n), **({} if axis is None else dict(axis=axis)))


for D, axis in ((1, None), (2, None), (2, 1), (3, 0)):
    spec('C20', 'cumsum %dD axis %s' % (D, axis), D=D, axis=axis)(cumulative)


def middle(E, D, axis, log):
    n = [E.dim('n%d' % a, 2) for a in range(D)]
    untouched(E, 'utils.midpoints', E.array('y', n, pos=log), log=log, **({} if axis == 'default' else dict(axis=axis)))


for D, axis, log in ((1, 'default', False), (1, 'default', True), (2, 0, False), (2, 1, True), (2, None, False)):
    spec('C20', 'midpoints %dD axis %s%s' % (D, axis, ' log' if log else ''), D=D, axis=axis, log=log)(middle)


def extremes(E, how):
    n = E.dim('n', 1)
    x = E.array('x', n, pos=how in ('log', 'positive'))
    kw = {}
    if how == 'previous':
        kw = dict(prev=[None, E.real('p')])
    if how == 'limit':
        kw = dict(limit=[E.real('l'), None])
    if how == 'stretch':
        kw = dict(stretch=[E.real('s', nonneg=True), E.real('t', nonneg=True)])
    if how == 'log':
        kw = dict(log_stretch=[E.real('s', nonneg=True), E.real('t', nonneg=True)])
    if how == 'positive':
        kw = dict(positive=True)
    untouched(E, 'utils.minmax', x, **kw)


for how in ('plain', 'previous', 'limit', 'stretch', 'log', 'positive'):
    spec('C20', 'minmax %s' % how, how=how)(extremes)


def divide(E, log):
    n = E.dim('n', 2)
    untouched(E, 'utils.subdivide', E.array('x', n, inc=True, pos=log), num=2, log=log)


for log in (False, True):
    spec('C20', 'subdivide%s' % (' log' if log else ''), log=log)(divide)


def covariance(E, D, how):
    cov = E.asarr(spd(E, D, 'cov'))
    if how == 'inverse':
        untouched(E, 'utils.matrix_invert', cov, helper=False)
    elif how == 'colour':
        untouched(E, 'utils.add_cov', E.array('z', (D, E.dim('m', 1))), cov)
    elif how == 'keep all':
        untouched(E, 'utils.cov_keep_vars', cov, True)
    else:
        keep = [D - 1]
        untouched(E, 'utils.cov_keep_vars', cov, keep, **(dict(reflect=[[E.real('lo'), None]] + [None] * (D - 1)) if how == 'reflect' else {}))


for D in (1, 2):
    for how in ('inverse', 'colour', 'keep', 'keep all') + (('reflect',) if D > 1 else ()):
        spec('C20', 'covariance %s %dD' % (how, D), D=D, how=how)(covariance)


def inside(E, D, outside):
    n = E.dim('n', 1)
    b = bounds(E, {1: 'l', 2: 'bn', 3: 'unb'}[D])
    untouched(E, 'utils.bound_indices', E.array('x', (D, n)), b, outside=outside)


for D in (1, 2, 3):
    for outside in (False, True):
        spec('C20', 'bound_indices %dD%s' % (D, ' outside' if outside else ''), D=D, outside=outside)(inside)


def centre(E, D):
    n, x = axes(E, D)
    untouched(E, 'utils.centroids', x if D > 1 else [x[0]], E.array('y', n, pos=True))


for D in (1, 2):
    spec('C20', 'centroids %dD' % D, D=D)(centre)


def limits(E, D, form):
    n, data = dataset(E, D, lo=1)
    data = data if D > 1 else E.array('data1', (1, n))
    lo, hi = E.real('lo'), E.real('hi')
    E.assume(lo < hi)
    e = {'none': None, 'pair': [lo, hi], 'partial': [None, hi], 'each': [[lo, None]] + [None] * (D - 1), 'one': [[lo, hi]] * D}[form]
    untouched(E, 'utils._parse_extrema', data, e)


for D in (1, 2):
    for form in ('none', 'pair', 'partial', 'each', 'one'):
        spec('C20', 'extrema %s %dD' % (form, D), D=D, form=form)(limits)


def reflection(E, D, kinds, tup):
    n = E.dim('n', 1)
    data = E.array('data', (D, n))
    r = bounds(E, kinds)
    if tup == 'auto':
        E.assume(E.any(n, lambda j: data.at((0, j)) != 0))
        r[0] = [True, None]
    untouched(E, 'kernels._check_reflect', tuple(None if q is None else tuple(q) for q in r) if tup == 'tuple' else r, data)


for D, kinds, tup in ((1, 'b', ''), (1, 'l', 'auto'), (2, 'bn', ''), (2, 'lu', 'tuple'), (3, 'nbl', '')):
    spec('C20', 'boundaries %s %s' % (kinds, tup), D=D, kinds=kinds, tup=tup)(reflection)


# ------------------------------------------------------------------ histories
class Op:
    """an operation of an object: the arguments (new ones every time), and whether the answer is determined by them"""
    def __init__(self, name, args, run, answer=True):
        self.name, self.args, self.run, self.answer = name, args, run, answer


def pure(E, name):
    """a function of its arguments, otherwise unknown"""
    calls = []

    def f(args, shape, **kw):
        k = E.keep(args)
        for k0, z in calls:
            if E.known(E.alike(k, k0)):
                return z.copy()
        z = E.array('%s%d' % (name, len(calls)), shape, **kw)
        calls.append((k, z))
        return z.copy()
    return f


def histories(E, make, public, ops, top=8, alone=None):
    """every call in every reachable state: arguments, public state, answer as on a new object

    alone: the other operations of the object have contracts of their own, so this one must not add a state"""
    new = E.keep(public(make()))
    if E.concrete:
        o = make()
        for op in [ops[int(i)] for i in E.rng.integers(0, len(ops), 8)]:
            once(E, o, op, make, public, new)
        return
    states = [(E.keep(make()), [])]
    s = 0
    while s < len(states):
        reached = []
        for op in ops:
            def step():
                o = make()
                for q in states[s][1]:
                    q.run(o, q.args())
                if not E.known(E.alike(E.keep(o), states[s][0])):
                    return
                reached.append(op)
                once(E, o, op, make, public, new)
                k = E.keep(o)
                if not any(E.known(E.alike(k, t)) for t, _ in states):
                    if len(states) == top:
                        E.cannot('more than %d states: %s' % (top, [q.name for q in states[s][1] + [op]]))
                    if op is alone:
                        E.cannot('%s adds a state' % op.name)
                    states.append((k, states[s][1] + [op]))
            E.each(step)
        if len(set(q.name for q in reached)) < len(ops):
            E.cannot('the state after %s depends on arguments' % [q.name for q in states[s][1]])
        s += 1
    E.prove('finitely many states', True)


def once(E, o, op, make, public, new):
    a = op.args()
    old = E.keep(a)
    try:
        r = E.keep(op.run(o, a))
    except RuntimeError:
        if not E.concrete:
            raise
        E.assume(False)         # boundaries that leave nothing to draw
    E.kept('arguments of %s' % op.name, old)
    E.same('state after %s' % op.name, new, E.keep(public(o)))
    if op.answer:
        r0 = E.keep(op.run(make(), a))
        E.same('answer of %s as on a new object' % op.name, r, r0)
        E.kept('arguments of %s' % op.name, old)


def fresh_args(E):
    """arrays with new names"""
    c = [0]

    def f(kind, name, *a, **kw):
        c[0] += 1
        return getattr(E, kind)('%s_%d' % (name, c[0]), *a, **kw)
    return f


def kernel_state(E, D, weights, kinds):
    """Kernel: densities, resampling and lazily computed quantities in any order"""
    cov, h = E.asarr(spd(E, D, 'cov')), E.real('h', pos=True)
    F = fresh_args(E)
    if not E.concrete:
        val = pure(E, 'sum')
        E.stub('kernels._evaluate_numba', lambda white, data, points, weights, kfunc: val(
            (E.asarr(white), E.asarr(data), E.asarr(points), weights, kfunc), E.np.shape(points)[1]))

    def make():
        return E.call('kernels.Kernel', E.fn('kernels.Gaussian'), h, cov)

    def public(k):
        return (k.matrix, k.bandwidth, k.covariance, k.FINITE, k.distribution if not E.concrete else 0)

    def refl():
        r = []
        for q in kinds:
            lo, hi = F('real', 'lo'), F('real', 'hi')
            E.assume(lo < hi)
            r.append(None if q == 'n' else [lo if q in 'bl' else None, hi if q in 'bu' else None])
        return r

    def density(reflect=False):
        n, m = F('dim', 'n', 1), F('dim', 'm', 1)
        return (F('array', 'pts', (D, m)), F('array', 'data', (D, n)), F('array', 'w', n, nonneg=True) if weights else None,
                refl() if reflect else None)

    def one():
        n, m = F('dim', 'n', 1), F('dim', 'm', 1)
        return F('array', 'pts', (1, m)), F('array', 'data', (1, n)), F('array', 'w', n, nonneg=True) if weights else None, [D - 1]

    def draws():
        n = F('dim', 'n', 1)
        w = F('array', 'w', n, nonneg=True) if weights else None
        if weights:
            E.assume(E.sum(n, lambda j: w.at((j,))) > 0)
        return F('array', 'data', (D, n)), w, F('dim', 'size', 1)
    ops = [Op('density', density, lambda k, a: k.density(a[0], a[1], weights=a[2])),
           Op('density with boundaries', lambda: density(True), lambda k, a: k.density(a[0], a[1], weights=a[2], reflect=a[3])),
           Op('inverse', lambda: (), lambda k, a: k.matrix_inv), Op('norm', lambda: (), lambda k, a: k.norm),
           Op('resample', draws, lambda k, a: k.resample(a[0], weights=a[1], size=a[2]), answer=False)]
    if D > 1:
        ops.append(Op('density of a parameter', one, lambda k, a: k.density(a[0], a[1], weights=a[2], params=a[3])))
        ops.append(Op('resample keeping', lambda: draws() + ([0],), lambda k, a: k.resample(a[0], weights=a[1], size=a[2], keep=a[3]), answer=False))
    histories(E, make, public, ops)


for D, kinds in ((1, 'b'), (2, 'bn')):
    for weights in (False, True):
        spec('C20', 'kernel %dD%s' % (D, ' weighted' if weights else ''), D=D, weights=weights, kinds=kinds, budget=30.0)(kernel_state)


def estimator_state(E, D, form, part):
    """KDE: densities, cumulative distribution, points and resampling in any order"""
    quiet(E)
    F = fresh_args(E)
    n, data = dataset(E, D, lo=4)
    w = E.array('w', n, nonneg=True) if 'w' in form else None
    if w is not None:
        E.assume(E.sum(n, lambda j: w.at((j,))) > 0)
    cov = spd(E, D, 'cov')
    bw = E.real('bw', pos=True)
    own = bounds(E, 'bn'[:D]) if 'r' in form else None
    g = [E.dim('g%d' % a, 2) for a in range(D)]
    x = [E.array('x%d' % a, g[a], inc=True) for a in range(D)]
    if not E.concrete:
        dens, table = pure(E, 'dens'), pure(E, 'table')

        def density(self, points, data, weights=None, reflect=None, params=None):
            # contract of Kernel.density ('kernel ..'): a function of the kernel and the arguments, which are left alone
            p = E.asarr(points) if E.np.ndim(points) == 2 else E.np.atleast_2d(points)
            return dens((self.matrix, p, data, weights, reflect, params), E.np.shape(p)[1], nonneg=True)

        def cumtrapz(pdf, edges, prepend=True, axis=None):
            # contract of cumtrapz (C12, C16): zero in the first entries and increasing along each dimension
            zero = lambda v, i: [E.imp(E.lor(*[j == 0 for j in i]), v == 0)]
            up = lambda a, i, b, j: [E.imp(E.land(*[p <= q for p, q in zip(i, j)]), a <= b)]
            T = table((pdf, edges, prepend, axis), E.np.shape(pdf), nonneg=True, fact=zero, pairfact=up)
            E.assume(T.at(tuple(a - 1 for a in E.np.shape(pdf))) > 0)
            return T

        def resample(self, data, weights=None, size=None, keep=None, reflect=None, squeeze=True):
            # contract of Kernel.resample ('kernel ..'): the arguments are left alone
            return F('array', 'drawn', (D, E.dim('drawn', 1)))

        def edges(data, *a, **kw):
            # contract of parse_edges (C18)
            r = [table((data, a, kw, k), g[k], inc=True) for k in range(D)]
            return r[0] if D == 1 and E.np.ndim(data) == 1 else r
        E.stub('kernels.Kernel.density', density)
        E.stub('kernels.Kernel.resample', resample)
        E.stub('utils.cumtrapz', cumtrapz)
        E.stub('utils.parse_edges', edges)
        E.stub('kernels._check_reflect', lambda reflect, data, weights=None, helper=False: None if reflect is None else [b if b is None else list(b) for b in reflect])
    given = dict(points=x if D > 1 else x[0]) if 'p' in form else {}
    everything = E.keep((data, w, bw, cov, own, x))

    def make():
        return E.call('kde.KDE', data, bandwidth=bw, covariance=E.asarr(cov), weights=w, reflect=own, helper=False, **given)

    def public(k):
        return (k.dataset, k.weights, k.kernel.matrix, k.kernel.covariance, k.bandwidth, k.covariance, k.reflect, k.extrema, k.ndim, k.ndata, k.neff)

    def at():
        m = F('dim', 'm', 1)
        return (F('array', 'pts', (D, m) if D > 1 else m),)

    def refl():
        lo, hi = F('real', 'lo'), F('real', 'hi')
        E.assume(lo < hi)
        return [[lo, hi]] + [None] * (D - 1)

    def grids():
        return ([F('array', 'grid', F('dim', 'm', 1)) for a in range(D)],)
    P = lambda r: r[1]
    ops = dict(
        density=Op('density', at, lambda k, a: k.density(a[0])),
        pdf=Op('pdf', at, lambda k, a: k.pdf(a[0])),
        probability=Op('probability', at, lambda k, a: k.density(a[0], probability=True)),
        boundaries=Op('density with boundaries', lambda: at() + (refl(),), lambda k, a: k.density(a[0], reflect=a[1])),
        grid=Op('density on a grid', grids, lambda k, a: k.density(a[0], grid=True)),
        auto=Op('density at automatic points', lambda: (), lambda k, a: k.density()),
        points=Op('points', lambda: (), lambda k, a: k.points),
        cdf=Op('cumulative distribution', at, lambda k, a: k.cdf(a[0])),
        resample=Op('resample', lambda: (F('dim', 'size', 1),), lambda k, a: k.resample(a[0]), answer=False),
        reflected=Op('resample with boundaries', lambda: (F('dim', 'size', 1), refl()), lambda k, a: k.resample(a[0], reflect=a[1]), answer=False))
    if D > 1:
        ops['params'] = Op('density of a parameter', lambda: ([F('array', 'pts', F('dim', 'm', 1))], [D - 1]), lambda k, a: k.density(a[0], params=a[1]))
        ops['keep'] = Op('resample keeping', lambda: (F('dim', 'size', 1), [1]), lambda k, a: k.resample(a[0], keep=a[1]), answer=False)
    histories(E, make, public, list(ops.values()) if part is None else [ops[q] for q in part])
    E.kept('arguments of the constructor', everything)


for D in (1, 2):
    for form in ('', 'p', 'wr', 'wrp'):
        spec('C20', 'estimator %dD %s' % (D, form), D=D, form=form, part=None, budget=30.0)(estimator_state)


def sampler_state(E, D, mass, outliers, part=None):
    """samplers: any draws, in any order"""
    from samplec import grid, cells
    E.elsewhere = True          # indices in bounds: C13, C14, C15
    n, x, d, m = grid(E, D, mass)
    F = fresh_args(E)
    sc = None if outliers else E.array('sc', n)
    if not E.concrete:
        if outliers:
            com = pure(E, 'centroids')
            E.stub('utils.centroids', lambda edges, data: [com((edges, data, k), E.np.shape(data), nonneg=True)[tuple(slice(None, -1) for _ in n)] for k in range(D)])
        tab = pure(E, 'tab')

        def cumulative(mass, *a, **k):
            # contract of _data_to_cumulative (C13): a function of the masses, which are left alone
            N = cells(n)
            csum = tab((mass, 0), N + 1, nondec=True)
            E.assume(csum.at((0,)) == 0)
            E.assume(csum.at((N,)) == 1)
            return tab((mass, 1), N, kind='i', fact=lambda v, i: [v >= 0, v < N]), csum
        E.stub('sample._data_to_cumulative', cumulative)
    thr = E.real('thr', pos=True) if outliers else None
    old = E.keep((x, d, m, sc))
    if E.concrete:
        tot = E.np.sum(E.call('utils.trapz_dens_to_mass', d, x)) if m is None else E.np.sum(m)
        if not 0 < tot < 1e4:
            E.assume(False)

    def make():
        if outliers:
            return E.call('sample.Sample_Outliers', x, d, thr, mass=m)
        return E.call('sample.Sample_Grid', x, d, mass=m, scalar_dens=sc)
    N = lambda: (F('dim', 'nsamp', 1),)
    if outliers:
        ops = [Op('sample', lambda: (), lambda k, a: k.sample(), answer=False),
               Op('sample, random numbers of points', lambda: (), lambda k, a: k.sample(poisson_inside=True, poisson_outside=True), answer=False),
               Op('sample without interpolation', lambda: (), lambda k, a: k.sample(interpolate=False), answer=False)]
    else:
        ops = [Op('sample', N, lambda k, a: k.sample(a[0]), answer=False),
               Op('sample without interpolation', N, lambda k, a: k.sample(a[0], interpolate=False), answer=False),
               Op('sample without scalars', N, lambda k, a: k.sample(a[0], return_scalar=False), answer=False)]
    alone = None if part is None else ops[part]
    if part is not None and not E.concrete:
        ops = [alone]
    ops.append(Op('grid', lambda: (), lambda k, a: k.grid))
    histories(E, make, lambda k: (), ops, alone=alone)
    E.kept('arguments of the constructor', old)


for D in (1, 2):
    for mass in (False, True):
        spec('C20', 'sampler %dD%s' % (D, ' mass' if mass else ''), D=D, mass=mass, outliers=False, budget=30.0)(sampler_state)
        for part in (0, 1, 2):
            spec('C20', 'sampler %dD outliers%s %d' % (D, ' mass' if mass else '', part), D=D, mass=mass, outliers=True, part=part,
                 budget=30.0, tier='thorough' if D == 2 and not mass else 'quick')(sampler_state)
