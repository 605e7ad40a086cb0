"""Contracts for centroids (utils.py)."""
import itertools
from pydv.spec import spec


def setup(E, D, as_list=False):
    n = [E.dim('n%d' % k, 2) for k in range(D)]
    x = [E.array('x%d' % k, n[k], inc=True) for k in range(D)]
    d = E.array('d', n, nonneg=True)
    return n, x, d


def faces(E, d, idx, k, D):
    """corner densities summed over the other dimensions, on the lower and on the upper face along k"""
    y = [0, 0]
    for c in itertools.product((0, 1), repeat=D):
        y[c[k]] = y[c[k]] + d.at(tuple(i + o for i, o in zip(idx, c)))
    return y


def com(E, D, k, wrap):
    n, x, d = setup(E, D)
    r = E.call('utils.centroids', x[0] if wrap == 'flat' else x, d)
    E.shape_is('one array per dimension', r, [D] + [a - 1 for a in n])
    idx = [E.idx(a - 1) for a in n]
    y1, y2 = faces(E, d, idx, k, D)
    lo, hi = x[k].at((idx[k],)), x[k].at((idx[k] + 1,))
    c = r.at(tuple([k] + idx))
    if E.concrete and not y1 + y2 > 0:
        return
    E.assume(y1 + y2 > 0)
    E.eq('centre of mass of the linear density', c * (y1 + y2) * 3, lo * (y1 + y2) * 3 + (hi - lo) * (y1 + 2 * y2))
    E.unchanged('frame', d, *x)


def inside(E, D, k):
    n, x, d = setup(E, D)
    r = E.call('utils.centroids', x, d)
    idx = [E.idx(a - 1) for a in n]
    y1, y2 = faces(E, d, idx, k, D)
    lo, hi = x[k].at((idx[k],)), x[k].at((idx[k] + 1,))
    c = r.at(tuple([k] + idx))
    E.prove('inside the cell (also when all densities vanish)', E.land(lo < c, c < hi))
    E.prove('toward the denser face', E.land(E.imp(y1 < y2, c > (lo + hi) / 2), E.imp(y2 < y1, c < (lo + hi) / 2)))
    E.prove('midpoint when equal and nonzero', E.imp(E.land(y1 > 0, y1 == y2), E.abs(c - (lo + hi) / 2) <= (hi - lo) / 10 ** 9))


for D in (1, 2, 3):
    for k in range(D):
        spec('C17', 'centroid %dD dimension %d' % (D, k), D=D, k=k, wrap='list', budget=40.0)(com)
        spec('C17', 'inside %dD dimension %d' % (D, k), D=D, k=k, budget=40.0)(inside)
spec('C17', 'centroid 1D flat edges', D=1, k=0, wrap='flat')(com)
