"""Contracts for bound_indices (utils.py)."""
import itertools
from pydv.spec import spec

SIDES = ['both', 'lo', 'hi', 'none', 'None', '[None]']


def bound(E, d, form):
    lo = E.real('lo%d' % d) if form in ('both', 'lo') else None
    hi = E.real('hi%d' % d) if form in ('both', 'hi') else None
    b = None if form == 'None' else [None] if form == '[None]' else [lo, hi]
    return b, lo, hi


def inside(E, at, bs):
    t = [E.land(True)]
    for d, (b, lo, hi) in enumerate(bs):
        if lo is not None:
            t.append(lo < at(d))
        if hi is not None:
            t.append(at(d) < hi)
    return E.land(*t)


def outside(E, at, bs):
    t = [E.lor(False)]
    for d, (b, lo, hi) in enumerate(bs):
        if lo is not None:
            t.append(at(d) < lo)
        if hi is not None:
            t.append(at(d) > hi)
    return E.lor(*t)


def main(E, forms):
    D = len(forms)
    n = E.dim('n', 1)
    data = E.array('data', (D, n))
    bs = [bound(E, d, f) for d, f in enumerate(forms)]
    b = [x[0] for x in bs]
    at = lambda i: (lambda d: data.at((d, i)))
    r = E.call('utils.bound_indices', data, b)
    E.arr_eq('inside', r, (n,), lambda i: inside(E, at(i), bs))
    o = E.call('utils.bound_indices', data, b, outside=True)
    E.arr_eq('outside', o, (n,), lambda i: outside(E, at(i), bs))
    i = E.idx(n)
    E.prove('no point is in both', E.lnot(E.land(r.at((i,)), o.at((i,)))))
    on = E.lor(False, *[v == x[k] for d, x in enumerate(bs) for v in [data.at((d, i))] for k in (1, 2) if x[k] is not None])
    ordered = E.land(True, *[x[1] <= x[2] for x in bs if x[1] is not None and x[2] is not None])
    E.prove('only points on a bound are in neither', E.imp(E.lnot(E.lor(r.at((i,)), o.at((i,)))), on))
    E.unchanged('frame', data)


for f in SIDES:
    if f == '[None]':
        continue
    spec('C25', 'bounds 1D %s' % f, forms=(f,))(main)
for f in itertools.product(SIDES, repeat=2):
    spec('C25', 'bounds 2D %s' % ','.join(f), forms=f, tier='quick' if len(set(f)) > 1 or f[0] == 'both' else 'thorough')(main)
for f in itertools.product(['both', 'lo', 'hi', 'None'], repeat=3):
    spec('C25', 'bounds 3D %s' % ','.join(f), forms=f, tier='quick' if f[0] != f[1] and f[1] != f[2] else 'thorough')(main)


def flat(E, form):
    """one-dimensional data, a single pair"""
    n = E.dim('n', 1)
    data = E.array('data', n)
    x = bound(E, 0, form)
    at = lambda i: (lambda d: data.at((i,)))
    r = E.call('utils.bound_indices', data, x[0])
    E.arr_eq('inside', r, (n,), lambda i: inside(E, at(i), [x]))
    o = E.call('utils.bound_indices', data, x[0], outside=True)
    E.arr_eq('outside', o, (n,), lambda i: outside(E, at(i), [x]))
    E.unchanged('frame', data)


for f in SIDES:
    spec('C25', 'single pair %s' % f, form=f)(flat)


@spec('C25', 'bounds shared by fewer dimensions')
def fewer(E):
    n = E.dim('n', 1)
    data = E.array('data', (3, n))
    bs = [bound(E, 0, 'both'), bound(E, 1, 'lo')]
    r = E.call('utils.bound_indices', data, [b[0] for b in bs])
    E.arr_eq('inside', r, (n,), lambda i: inside(E, lambda d: data.at((d, i)), bs))
