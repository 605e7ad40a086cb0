"""Contracts for grid sampling: position inside the cell, scalars (sample.py)."""
from pydv.spec import spec
from samplec import drawn, faces, grid, cells
import itertools


def interp(E):
    """_intrabin_linear_interp: inverse of the cumulative distribution of 1 + grad * (t - 1/2) on [0, 1]"""
    n, ns = E.dim('n', 2), E.dim('ns', 1)
    edge = E.array('edge', n, inc=True)
    wid = E.np.diff(edge)
    b = E.array('b', ns, kind='i', fact=lambda v, i: [v >= 0, v < n - 1])
    loc = E.array('loc', ns, fact=lambda v, i: [v >= 0, v <= 1])
    g = E.array('g', ns, fact=lambda v, i: [v >= -2, v <= 2])
    v = E.call('sample._intrabin_linear_interp', edge, wid, loc, b, g)
    E.shape_is('one value per sample', v, [ns])
    i = E.idx(ns)
    c = b.at((i,))
    lo, hi = edge.at((c,)), edge.at((c + 1,))
    t = (v.at((i,)) - lo) / (hi - lo)
    gi, u = g.at((i,)), loc.at((i,))
    F = t * (1 - gi / 2) + gi * t * t / 2
    if E.concrete:
        E.prove('in the cell', -1e-6 <= t <= 1 + 1e-6)
        E.prove('inverse', abs(F - u) < 1e-6)
    else:
        E.prove('in the cell', E.land(t >= 0, t <= 1))
        E.prove('inverse: not above', F - u <= E.real_const(10, -8))
        E.prove('inverse: not below', u - F <= E.real_const(10, -8))
        E.prove('exact for a gradient that is not negligible', E.imp(E.abs(gi) > E.real_const(10, -6), F == u))
    E.unchanged('frame', edge, loc, b, g)


spec('C14', 'linear interpolation in a cell', budget=60.0)(interp)


def position(E, D, mass, scalar=None):
    """sample() passes the relative difference of the face averages of the chosen cell; the corner average is theirs"""
    box = []
    if E.concrete:
        orig = E.fn('sample._intrabin_linear_interp')

        def spy(edge, wid, loc, bidx, grad):
            out = orig(edge, wid, loc, bidx, grad)
            box.append([E.asarr(v).copy() for v in (edge, wid, loc, bidx, grad)] + [E.asarr(out)])
            return out
    else:
        def spy(edge, wid, loc, bidx, grad):
            nsn = E.asarr(loc).shape[0]
            ge, gb = E.asarr(edge).snap(), E.asarr(bidx).snap()
            o = E.array('pos%d' % len(box), nsn, fact=lambda v, i: [ge((gb((i[0],)),)) <= v, v <= ge((gb((i[0],)) + 1,))])
            box.append([E.asarr(v).copy() for v in (edge, wid, loc, bidx, grad)] + [o])
            return o.copy()
    E.stub('sample._intrabin_linear_interp', spy)
    kw = {}
    if scalar:
        kw['sd'] = lambda n: E.array('q', n)
        if scalar == 'asked':
            kw['return_scalar'] = True
    n, x, d, m, r, c, loc, i, ns, args = drawn(E, D, mass, True, **kw)
    v = r
    if scalar:
        E.prove('samples and scalars', type(r) is tuple and len(r) == 2)
        v, sc = r
        E.shape_is('one scalar per sample', sc, [ns])
    E.prove('one interpolation per dimension', len(box) == D)
    E.shape_is('one value per dimension and sample', v, [D, ns])
    for k in range(D):
        edge, wid, lo_, b, g, o = box[k]
        y0, y1 = faces(d, c, k, D)
        ave = (y0 + y1) / 2
        gi = E.asarr(g).at((i,))
        E.eq('edges of this dimension', edge.at((c[k],)), x[k].at((c[k],)))
        E.eq('edges of this dimension', edge.at((c[k] + 1,)), x[k].at((c[k] + 1,)))
        E.eq('width of the cell', wid.at((c[k],)), x[k].at((c[k] + 1,)) - x[k].at((c[k],)))
        E.eq('cell of the sample', b.at((i,)), c[k])
        E.eq('its uniform number', lo_.at((i,)), loc[k])
        E.eq('value', E.asarr(v).at((k, i)), o.at((i,)))
        if E.concrete:
            if ave > 0:
                E.eq('relative difference of the faces', gi * ave, y1 - y0)
        else:
            E.prove('relative difference of the faces', E.imp(ave > 0, gi * ave == y1 - y0))
            # so that ave * (t (1 - g/2) + g t^2 / 2) = y0 t + (y1 - y0) t^2 / 2
            E.assume(E.imp(ave > 0, gi * ave == y1 - y0))
            E.prove('gradient in range', E.imp(ave > 0, E.land(gi * ave <= 2 * ave, gi * ave >= -2 * ave)))
            E.prove('flat where there is no density', E.imp(E.lnot(ave > 0), gi == 0))
    if scalar:
        q = args['scalar_dens']
        want = 0
        for o in itertools.product((0, 1), repeat=D):
            want = want + q.at(tuple(a + e for a, e in zip(c, o)))
        want = want / 2 ** D
        for k in range(D):
            y0, y1 = faces(q, c, k, D)
            lo, hi = x[k].at((c[k],)), x[k].at((c[k] + 1,))
            want = want + (y1 - y0) * ((E.asarr(v).at((k, i)) - lo) / (hi - lo) - E.real_const(1, 0) / 2)
        E.eq('cell average plus the linear change from the centre to the sample', E.asarr(sc).at((i,)), want)
        E.unchanged('frame', q)
    E.unchanged('frame', d, *(x + ([m] if mass else [])))


for D in (1, 2, 3):
    for mass in (False, True):
        spec('C14', 'gradient %dD%s' % (D, ', mass given' if mass else ''), D=D, mass=mass, budget=40.0)(position)
    spec('C14', 'scalar %dD' % D, D=D, mass=False, scalar='default', budget=40.0)(position)
spec('C14', 'scalar 2D, asked for', D=2, mass=True, scalar='asked', budget=40.0)(position)


def plain(E, D, mass, scalar=False):
    """without interpolation: uniform inside the cell; scalars are the cell average"""
    kw = dict(sd=lambda n: E.array('q', n)) if scalar else {}
    n, x, d, m, r, c, loc, i, ns, args = drawn(E, D, mass, False, **kw)
    v = r
    if scalar:
        v, sc = r
        want = 0
        for o in itertools.product((0, 1), repeat=D):
            want = want + args['scalar_dens'].at(tuple(a + e for a, e in zip(c, o)))
        E.eq('cell average', E.asarr(sc).at((i,)), want / 2 ** D)
    for k in range(D):
        lo, hi = x[k].at((c[k],)), x[k].at((c[k] + 1,))
        E.eq('uniform in the cell', E.asarr(v).at((k, i)), lo + (hi - lo) * loc[k])


for D in (1, 2, 3):
    spec('C14', 'uniform %dD' % D, D=D, mass=False, budget=40.0)(plain)
    spec('C14', 'uniform with scalar %dD' % D, D=D, mass=True, scalar=True, budget=40.0)(plain)


def default_scalar_off(E):
    """scalars can be left out, and are not returned when there are none"""
    n, x, d, m, r, c, loc, i, ns, args = drawn(E, 1, False, False, sd=lambda n: E.array('q', n), return_scalar=False)
    E.shape_is('only the samples', r, [1, ns])


spec('C14', 'scalars left out', budget=20.0)(default_scalar_off)
