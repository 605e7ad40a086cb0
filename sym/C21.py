"""Contracts for boundary specifications (kernels._check_reflect, kde.KDE.__init__)."""
from fractions import Fraction as Fr
from pydv.spec import spec
from kern import spd
from kdec import quiet, datum, dataset

# entries: n None, T true, b both given, l/u one side given and the other None, e neither, t/s true on the lower/upper side and a number on
# the other, p/q true on the lower/upper side and None on the other, B true on both sides


def entry(E, k, c):
    """-> argument, wanted lower and upper: None, a number, or 'data'"""
    lo = E.real('lo%d' % k) if c in 'bls' else None
    hi = E.real('hi%d' % k) if c in 'but' else None
    if c == 'b':
        E.assume(lo < hi)
    return {'n': (None, None), 'T': (True, ['data', 'data']), 'b': ([lo, hi], [lo, hi]), 'l': ([lo, None], [lo, None]), 'u': ([None, hi], [None, hi]),
            'e': ([None, None], [None, None]), 't': ([True, hi], ['data', hi]), 's': ([lo, True], [lo, 'data']), 'p': ([True, None], ['data', None]),
            'q': ([None, True], [None, 'data']), 'B': ([True, True], ['data', 'data'])}[c]


def enclosing(E, got, side, n, x):
    """beyond every datum, by no more than a relative rounding margin from one of them"""
    i = E.idx(n)
    eps = Fr(1, 10 ** 6) if not E.concrete else 1e-6
    if side == 0:
        E.prove('every datum is enclosed', got <= x(i))
        E.prove('margin', E.any(n, lambda j: got >= x(j) - eps * E.abs(x(j))))
    else:
        E.prove('every datum is enclosed', got >= x(i))
        E.prove('margin', E.any(n, lambda j: got <= x(j) + eps * E.abs(x(j))))


def result(E, got, want, D, n, x):
    if want is None:
        E.prove('no boundaries', got is None)
        return
    E.prove('one entry per dimension', got is not None and len(got) == D)
    for a in range(D):
        g, w = got[a], want[a]
        if w is None:
            E.prove('no boundary', g is None)
            continue
        E.prove('a pair', g is not None and len(g) == 2)
        for side in range(2):
            if w[side] is None:
                E.prove('no boundary on that side', g[side] is None)
            elif isinstance(w[side], str):
                E.prove('a number', g[side] is not None and g[side] is not True)
                enclosing(E, g[side], side, n, lambda j: x(a, j))
            else:
                E.prove('a number', g[side] is not None and g[side] is not True)
                E.eq('the given number', g[side], w[side])


def check(E, D, kinds, form='list'):
    n = E.dim('n', 1)
    data = E.array('data', (D, n))
    x = lambda a, j: data.at((a, j))
    if kinds in ('all', 'none', 'no'):
        arg = {'all': True, 'none': None, 'no': False}[kinds]
        want = [['data', 'data']] * D if kinds == 'all' else None
        kinds = 'T' * D if kinds == 'all' else ''
    else:
        es = [entry(E, k, c) for k, c in enumerate(kinds)]
        arg, want = [e[0] for e in es], [e[1] for e in es]
        if form == 'tuple':
            arg = tuple(tuple(e) if isinstance(e, list) else e for e in arg)
        elif form == 'pair':
            arg = arg[0]
    for a, c in enumerate(kinds):
        # the filled-in bounds have to be in order: some datum on the inner side of a given bound, and not all data are zero
        i = E.idx(n)
        if c == 't':
            E.assume(want[a][1] > x(a, i))
        elif c == 's':
            E.assume(want[a][0] < x(a, i))
        elif c in 'TB':
            E.assume(x(a, i) != 0)
    keep = [e if not isinstance(e, list) else list(e) for e in arg] if isinstance(arg, (list, tuple)) else arg
    got = E.call('kernels._check_reflect', arg, data)
    result(E, got, want, D, n, x)
    if isinstance(arg, list):
        for e, f in zip(arg, keep):
            same = e is f or isinstance(e, list) and len(e) == len(f) and all(u is v for u, v in zip(e, f))
            E.prove('the specification is not modified', same)
    E.unchanged('frame', data)


def of_estimator(E, D, kinds, form='list'):
    quiet(E)
    n, data = dataset(E, D)
    x = lambda a, j: datum(data, a, j, D)
    cov = E.asarr(spd(E, D, 'cov'))
    if kinds in ('all', 'none', 'no'):
        arg = {'all': True, 'none': None, 'no': False}[kinds]
        want = [['data', 'data']] * D if kinds == 'all' else None
        kinds = 'T' * D if kinds == 'all' else ''
    else:
        es = [entry(E, k, c) for k, c in enumerate(kinds)]
        arg, want = [e[0] for e in es], [e[1] for e in es]
        if form == 'pair':
            arg = arg[0]
    for a, c in enumerate(kinds):
        i = E.idx(n)
        if c == 't':
            E.assume(want[a][1] > x(a, i))
        elif c == 's':
            E.assume(want[a][0] < x(a, i))
        elif c in 'TB':
            E.assume(x(a, i) != 0)
    k = E.call('kde.KDE', data, bandwidth=1.0, covariance=cov, reflect=arg, helper=False)
    E.under('kde.KDE.__init__')
    result(E, k.reflect, want, D, n, x)
    E.unchanged('frame', data)


KINDS = {1: 'n T b l u e t s p q B'.split(), 2: 'TT nT bT bn tq sn Bp lu ne'.split(), 3: 'nTb TnT pqB'.split()}
for D in (1, 2, 3):
    for kinds in ('all', 'none', 'no'):
        spec('C21', 'specification %s %dD' % (kinds, D), D=D, kinds=kinds, budget=30.0)(check)
        spec('C21', 'estimator %s %dD' % (kinds, D), D=D, kinds=kinds, budget=30.0)(of_estimator)
    for kinds in KINDS[D]:
        spec('C21', 'specification %s' % kinds, D=D, kinds=kinds, budget=30.0)(check)
        if D == 1 and kinds not in 'nT':
            spec('C21', 'specification %s as a pair' % kinds, D=D, kinds=kinds, form='pair', budget=30.0)(check)
            spec('C21', 'estimator %s as a pair' % kinds, D=D, kinds=kinds, form='pair', budget=30.0)(of_estimator)
        else:
            spec('C21', 'estimator %s' % kinds, D=D, kinds=kinds, budget=30.0)(of_estimator)
        spec('C21', 'specification %s as tuples' % kinds, D=D, kinds=kinds, form='tuple', budget=30.0)(check)
