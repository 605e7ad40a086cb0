"""The numpy / scipy / numba contracts seen by the verified code."""
import math
import types
import z3
from fractions import Fraction as Fr
from . import core
from .core import (C, Sym, Unsupported, term, val, num, real, boolt, ite, cast, kindof, sbin, sun, exact, decide, assume,
                   isscalar, isnum, nonfinite, binop, fresh_idx)
from . import arrays as A
from .arrays import Arr, asarr, new, ew1, ew2, truth, simp, same, prod, Buf


# ------------------------------------------------------------------ types
class DType:
    def __init__(self, kind):
        self.kind = kind
        self.type = {'f': float64, 'i': int64, 'b': bool_, 'O': object_}[kind]
        self.name = {'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object'}[kind]

    def __eq__(self, o):
        try:
            return kind_of_dtype(o) == self.kind
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return self.name


class generic: pass
class number(generic): pass
class integer(number): pass
class floating(number): pass
class float64(floating): pass
class int64(integer): pass
class bool_(generic): pass
class object_(generic): pass
import numbers
numbers.Integral.register(int64)


def dtype_of_kind(k):
    return DType(k)


def kind_of_dtype(ty):
    if isinstance(ty, DType):
        return ty.kind
    if ty is None:
        return 'f'
    if isinstance(ty, str):
        return {'f': 'f', 'i': 'i', 'b': 'b', 'o': 'O', 'u': 'i'}[ty[0].lower()]
    if ty in (float, float64, floating) or getattr(ty, '__name__', '') in ('float', 'p_float'):
        return 'f'
    if ty in (int, int64, integer) or getattr(ty, '__name__', '') in ('int', 'p_int'):
        return 'i'
    if ty in (bool, bool_) or getattr(ty, '__name__', '') in ('bool', 'p_bool'):
        return 'b'
    if ty in (object, object_):
        return 'O'
    raise Unsupported("dtype %r" % (ty,))


def sc(v):
    """0-d arrays to scalars"""
    if isinstance(v, Arr) and v.ndim == 0:
        return v.at(())
    return v


def isarrlike(v):
    return isinstance(v, (Arr, list, tuple, A.Flat, range))


def lift1(f, kind='f'):
    def g(x, out=None, where=None, dtype=None):
        x = sc(x)
        if isarrlike(x):
            x = asarr(x)
            r = ew1(None, x, f=f, kind=kind if kind != 'same' else x.kind)
            if out is not None:
                out[...] = r
                return out
            return r
        if hasattr(x, '__pydv_sympy__') or type(x).__module__.startswith('sympy'):
            return f(x)
        return f(exact(x))
    return g


def lift2(f, kind=None):
    def g(x, y, out=None, where=None, dtype=None):
        x, y = sc(x), sc(y)
        if dtype is not None and dtype not in (float, 'float', 'f8', 'float64'):
            raise Unsupported("dtype of a ufunc")
        if isarrlike(x) or isarrlike(y) or where is not None:
            r = ew2(None, x, y, f=f, kind=kind or A.promote(asarr(x).kind, asarr(y).kind))
            if out is not None:
                if where is not None:
                    w = where
                    o = out.copy()
                    r = np_where(w, r, o)
                out[...] = r
                return out
            if where is not None:
                raise Unsupported("where without out")
            return r
        return f(exact(x), exact(y))
    return g


def _max(a, b):
    c = simp(sbin('>=', a, b))
    if c is True: return a
    if c is False: return b
    return ite(c, a, b)


def _min(a, b):
    c = simp(sbin('<=', a, b))
    if c is True: return a
    if c is False: return b
    return ite(c, a, b)


def _isfinite(v):
    if isinstance(v, Sym):
        return True      # numbers are mathematical: every symbolic value is finite
    if v is None or isinstance(v, str):
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    return math.isfinite(v) if isinstance(v, float) else True


def _isnan(v):
    if v is None or isinstance(v, str):
        raise TypeError("ufunc 'isnan' not supported")
    return isinstance(v, float) and math.isnan(v)


class _UFunc:
    def __init__(self, f, identity=None):
        self.f = f
        self.identity = identity
        self.__name__ = 'ufunc'

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def reduce(self, xs, axis=0):
        xs = list(xs)
        r = xs[0]
        for x in xs[1:]:
            r = self.f(r, x)
        return r


def uf2(op, kind=None):
    return _UFunc(lambda x, y, **k: lift2(lambda a, b: sbin(op, a, b),
                                          kind or ('f' if op == '/' else None))(x, y, **k))


# ------------------------------------------------------------------ shapes
def shape_of(x):
    x = x._arr() if isinstance(x, A.Flat) else x
    if isinstance(x, Arr):
        return x.shape
    if isscalar(x) or x is None or isinstance(x, str):
        return ()
    return asarr(x).shape


def np_ndim(x):
    if hasattr(x, 'ndim') and not isinstance(x, A.Flat):
        return x.ndim
    return len(shape_of(x))


def np_size(x, axis=None):
    s = shape_of(x)
    return prod(s) if axis is None else s[axis]


def array(x, dtype=None, copy=True, ndmin=0):
    k = None if dtype is None else kind_of_dtype(dtype)
    x = x.plain() if isinstance(x, Masked) else x
    if k == 'O' and isinstance(x, (list, tuple)):
        try:
            a = asarr(x, 'O')
        except ValueError:
            a = A.objarr(x)
        return a
    a = asarr(x, k)
    a = a.copy() if a.ndim or True else a
    return a


def asarray(x, dtype=None):
    k = None if dtype is None else kind_of_dtype(dtype)
    if k == 'O':
        return array(x, dtype)
    if isinstance(x, Arr):
        return asarr(x, k)
    return asarr(x, k)


def atleast_1d(x):
    a = asarr(x)
    if a.ndim == 0:
        v = a.at(())
        return new((1,), lambda i: v, a.kind)
    return a


def atleast_2d(x):
    a = asarr(x)
    if a.ndim == 0:
        v = a.at(())
        return new((1, 1), lambda i: v, a.kind)
    if a.ndim == 1:
        return a[None, :]
    return a


def _shape_arg(s):
    s = sc(s)
    if isinstance(s, Arr):
        s = tuple(s)
    if isinstance(s, (int, Sym)) or isscalar(s):
        s = (s,)
    out = []
    for d in s:
        d = sc(d)
        if isinstance(d, Sym):
            d = simp(d)
        if isinstance(d, (Fr, float)) or (isinstance(d, Sym) and d.kind == 'f'):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(d, Sym) and not core.nonneg(d.t) and truth(sbin('<', d, 0)) or (isinstance(d, int) and d < 0):
            raise ValueError("negative dimensions are not allowed")
        out.append(d)
    return tuple(out)


def full_(v, kind):
    def f(shape, dtype=None, order='C'):
        k = kind if dtype is None else kind_of_dtype(dtype)
        x = cast(v, k) if k != 'O' else v
        return new(_shape_arg(shape), lambda i: x, k)
    return f


def full(shape, v, dtype=None):
    v = sc(v)
    k = kindof(exact(v)) if dtype is None else kind_of_dtype(dtype)
    return new(_shape_arg(shape), lambda i: v, k)


def empty(shape, dtype=None):
    k = 'f' if dtype is None else kind_of_dtype(dtype)
    if k == 'O':
        return new(_shape_arg(shape), lambda i: None, 'O')
    shape = _shape_arg(shape)
    # arbitrary contents
    return A.uf_array(C.fresh("empty"), shape, k).copy() if shape else new((), lambda i: Fr(0), k)


def like(v):
    def f(a, dtype=None):
        a = asarr(a)
        k = a.kind if dtype is None else kind_of_dtype(dtype)
        if k == 'O':
            return new(a.shape, lambda i: v, k)
        return new(a.shape, lambda i: cast(v, k), k)
    return f


def arange(*args, dtype=None):
    args = [sc(a) for a in args]
    if any(isinstance(exact(a), Fr) for a in args):
        args = [Fr(a) if not isinstance(a, Sym) else a for a in args]
        if all(a.denominator == 1 for a in args):
            r = arange(*[int(a) for a in args])
            return r.astype('f')
        raise Unsupported("arange with fractions")
    lo, hi, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], 1) if len(args) == 2 else args
    if not isinstance(st, int) or st not in (1, -1):
        if all(isinstance(x, int) for x in (lo, hi, st)):
            return asarr(list(range(lo, hi, st)), 'i')
        raise Unsupported("arange step")
    n = simp(sbin('-', hi, lo)) if st == 1 else simp(sbin('-', lo, hi))
    if isinstance(n, int):
        n = max(n, 0)
    elif not truth(sbin('>=', n, 0)):
        n = 0
    return new((n,), lambda i: sbin('+', lo, sbin('*', st, i[0])), 'i')


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    start, stop, num = sc(start), sc(stop), sc(num)
    num = simp(num) if isinstance(num, Sym) else num
    if isinstance(num, Sym) and num.kind == 'f' or isinstance(num, (Fr, float)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isarrlike(start) or isarrlike(stop):
        raise Unsupported("linspace of arrays")
    start, stop = cast(start, 'f'), cast(stop, 'f')
    if (isinstance(num, int) and num < 0) or (isinstance(num, Sym) and truth(sbin('<', num, 0))):
        raise ValueError("Number of samples must be non-negative.")
    div = sbin('-', num, 1) if endpoint else num
    div = simp(div)
    if isinstance(div, int) and div <= 0:
        return new((num,), lambda i: start, 'f')
    if isinstance(div, Sym) and not truth(sbin('>', div, 0)):
        return new((num,), lambda i: start, 'f')
    step = sbin('/', sbin('-', stop, start), div)

    def get(i):
        v = sbin('+', start, sbin('*', cast(i[0], 'f'), step))
        if endpoint:
            c = simp(sbin('==', i[0], div))
            return stop if c is True else v if c is False else ite(c, stop, v)
        return v
    return new((num,), get, 'f')


def logspace(start, stop, num=50, endpoint=True, base=10):
    y = linspace(start, stop, num, endpoint)
    if base != 10:
        raise Unsupported("logspace base")
    return power(10, y)


def eye(n, m=None):
    return new((n, n if m is None else m), lambda i: cast(sbin('==', i[0], i[1]), 'f'), 'f')


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarr(a)
    if prepend is not None or append is not None:
        raise Unsupported("diff with prepend")
    if a.ndim == 0:
        raise ValueError("diff requires input that is at least one dimensional")
    x = int(axis)
    if not (-a.ndim <= x < a.ndim):
        raise IndexError("axis out of bounds")
    x %= a.ndim
    for _ in range(n):
        hi = [slice(None)] * a.ndim
        lo = [slice(None)] * a.ndim
        hi[x], lo[x] = slice(1, None), slice(0, -1)
        a = ew2('-', a[tuple(hi)], a[tuple(lo)])
    return a


def _red(what):
    def f(a, axis=None, keepdims=False, dtype=None, out=None, initial=None, where=None):
        if type(a).__name__ == 'generator':
            a = list(a)
        return A.reduce(a, what, axis, keepdims)
    f.__name__ = 'np_' + what
    return f


np_sum, np_min, np_max, np_any, np_all = [_red(w) for w in ('sum', 'min', 'max', 'any', 'all')]


def count_nonzero(a, axis=None):
    a = asarr(a)
    return A.reduce(ew2('!=', a, 0) if a.kind != 'b' else a, 'sum', axis)


def average(a, axis=None, weights=None):
    if weights is None:
        return A.mean(a, axis)
    return binop('/', np_sum(ew2('*', a, weights), axis=axis), np_sum(weights, axis=axis))


def argmin(a, axis=None):
    return _argext(a, axis, '<')


def argmax(a, axis=None):
    return _argext(a, axis, '>')


def _argext(a, axis, op):
    a = asarr(a)
    if axis is None:
        a = A.ravel(a)
        axis = 0
    x = axis % a.ndim
    n = a.shape[x]
    if not isinstance(n, int):
        raise Unsupported("argmin along a symbolic axis")
    g = a.snap()
    shape = a.shape[:x] + a.shape[x + 1:]

    def get(idx):
        at = lambda k: g(tuple(idx[:x]) + (k,) + tuple(idx[x:]))
        best, bi = at(0), 0
        for k in range(1, n):
            v = at(k)
            c = simp(sbin(op, v, best))
            bi = ite(c, k, bi)
            best = ite(c, v, best)
        return bi
    if not shape:
        return get(())
    return new(shape, get, 'i')


def np_where(c, x=None, y=None):
    if x is None:
        c = asarr(c)
        m = c if c.kind == 'b' else ew2('!=', c, 0)
        s = A.mask_sel(m)
        return tuple(new((s.count,), (lambda i, a=a: s.sel(i[0])[a]), 'i') for a in range(m.ndim))
    c, x, y = asarr(c), asarr(x), asarr(y)
    sh = A.bshape(A.bshape(c.shape, x.shape), y.shape)
    gc, gx, gy = c.snap(), x.snap(), y.snap()
    k = A.promote(x.kind, y.kind)

    def get(i):
        cc = gc(A.bidx_for(c.shape, sh, i))
        cc = simp(cast(cc, 'b'))
        if cc is True: return gx(A.bidx_for(x.shape, sh, i))
        if cc is False: return gy(A.bidx_for(y.shape, sh, i))
        return ite(cc, cast(gx(A.bidx_for(x.shape, sh, i)), k), cast(gy(A.bidx_for(y.shape, sh, i)), k))
    if not sh:
        return get(())
    return new(sh, get, k)


def clip(a, lo=None, hi=None, a_min=None, a_max=None):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def np_append(a, b, axis=None):
    a, b = asarr(a), asarr(b)
    if axis is None:
        return A.concatenate([A.ravel(a), A.ravel(b)])
    return A.concatenate([a, b], axis)


def vstack(xs):
    xs = [atleast_2d(x) for x in xs]
    return A.concatenate(xs, 0)


def hstack(xs):
    if isinstance(xs, Arr):
        if xs.ndim in (1, 2):
            return A.ravel(xs)
        raise Unsupported("hstack of an array")
    xs = [atleast_1d(x) for x in xs]
    return A.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def stack(xs, axis=0):
    xs = [asarr(x) for x in xs]
    r = asarr(xs)
    if axis == 0:
        return r
    return moveaxis(r, 0, axis)


def delete(a, k, axis=None):
    a = asarr(a)
    k = sc(k)
    if a.ndim != 1 or not isinstance(a.shape[0], int) or not isinstance(k, int):
        raise Unsupported("delete")
    n = a.shape[0]
    if not -n <= k < n:
        raise IndexError("out of bounds")
    keep = [j for j in range(n) if j != k % n]
    return asarr([a.at((j,)) for j in keep], a.kind) if keep else new((0,), lambda i: 0, a.kind)


def moveaxis(a, src, dst):
    a = asarr(a)
    n = a.ndim
    order = [k for k in range(n) if k != src % n]
    order.insert(dst % n, src % n)
    return a.transpose(*order)


def pad(a, pw, mode='constant', constant_values=0, **kw):
    a = asarr(a)
    if mode != 'constant' or kw:
        raise Unsupported("pad mode")
    if isinstance(pw, (int, Sym)):
        pw = [[pw, pw]] * a.ndim
    else:
        pw = [list(p) if isarrlike(p) else p for p in pw]
        if len(pw) == 2 and not isarrlike(pw[0]):
            pw = [pw] * a.ndim
        elif len(pw) == 1:
            pw = pw * a.ndim
    if len(pw) != a.ndim:
        raise ValueError("operands could not be broadcast together")
    cv = sc(constant_values)
    g = a.snap()
    sh = tuple(simp(sbin('+', sbin('+', d, p[0]), p[1])) for d, p in zip(a.shape, pw))
    old = a.shape

    def get(i):
        c = True
        j = []
        for k in range(len(sh)):
            x = simp(sbin('-', i[k], pw[k][0]))
            j.append(x)
            if not (isinstance(pw[k][0], int) and pw[k][0] == 0):
                c = sbin('&', c, simp(sbin('<=', 0, x)))
            if not (isinstance(pw[k][1], int) and pw[k][1] == 0):
                c = sbin('&', c, simp(sbin('<', x, old[k])))
            if c is False:
                return cast(cv, a.kind)
        c = simp(c)
        if c is True:
            return g(tuple(j))
        return ite(c, g(tuple(j)), cast(cv, a.kind))
    return new(sh, get, a.kind)


class Masked(Arr):
    """a masked array: contents and mask (only what is needed to pass it on)"""
    hidden = None

    def plain(self):
        return Arr(self.buf, self.shape, self.maps)


def masked_where(cond, a, copy=True):
    if isinstance(a, Masked) or isinstance(cond, Masked):
        raise Unsupported("masked array operations")
    cond, a = asarr(cond), asarr(a)
    if len(cond.shape) != len(a.shape) or not all(same(x, y) or truth(sbin('==', x, y)) for x, y in zip(cond.shape, a.shape)):
        raise IndexError("Inconsistent shape between the condition and the input")
    b = a.copy()
    m = Masked(b.buf, b.shape, b.maps)
    m.hidden = cond.astype('b')
    return m


def _masked_no(name):
    def f(self, *a, **k):
        raise Unsupported("masked array: " + name)
    return f


for _n in ['__getitem__', '__setitem__', '__neg__', '__invert__', '__iter__', 'sum', 'min', 'max', 'mean', 'snap', 'at', 'any', 'all', 'reshape', 'astype', 'copy'] + \
        ['__%s%s__' % (q, o) for o in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'pow', 'mod', 'and', 'or', 'xor') for q in ('', 'r', 'i')] + \
        ['__%s__' % o for o in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')]:
    setattr(Masked, _n, _masked_no(_n))


def np_histogram(a, bins=10, range=None, density=None, weights=None):
    """counts (or summed weights) of the values between given edges; automatic edges: increasing, around all values"""
    C.assumed.add("numpy.histogram: (weighted) number of values in [edge, next edge), the last interval closed")
    a = A.ravel(asarr(a))
    if range is not None or isinstance(a, Masked):
        raise Unsupported("histogram range")
    w = None
    if weights is not None:
        w = asarr(weights)
        if w.ndim != a.ndim or not (same(w.shape[0], a.shape[0]) or truth(sbin('==', w.shape[0], a.shape[0]))):
            raise ValueError("weights should have the same shape as a.")
    if isinstance(bins, str) or isinstance(bins, (int, Sym)):
        if isinstance(bins, str):
            m = Sym(z3.FreshInt('bins!'))
            assume(m.t >= 1)
        else:
            m = bins
            if not truth(sbin('>=', m, 1)):
                raise ValueError("`bins` must be positive")
        nm = C.fresh("edges_").replace('!', '_')
        ne = simp(sbin('+', m, 1))
        n1 = term(ne)

        def pf(x, y):
            i, j = x.arg(0), y.arg(0)
            return [z3.Implies(z3.And(0 <= i, i < j, j < n1), x < y), z3.Implies(z3.And(0 <= j, j < i, i < n1), y < x)]
        e = A.uf_array(nm, (ne,), 'f', pairfacts=pf)
        C.assumed.add("numpy.histogram_bin_edges: increasing")
    else:
        e = asarr(bins)
        if e.ndim != 1:
            raise ValueError("`bins` must be 1d, when an array")
        k = A.fresh_range('k', simp(sbin('-', e.shape[0], 1)))
        ge = e.snap()
        C.side.append(("numpy.histogram requires increasing edges", list(core.path().hyps) + [k.t >= 0, k.t + 1 < term(e.shape[0])],
                       real(ge((k,))) <= real(ge((simp(sbin('+', k, 1)),)))))
        e = e.copy()
    g, ga = e.snap(), a.snap()
    gw = None if w is None else w.snap()
    nb = simp(sbin('-', e.shape[0], 1))

    def get(i):
        lo, hi = g((i[0],)), g((simp(sbin('+', i[0], 1)),))
        last = sbin('==', i[0], sbin('-', nb, 1))

        def one(j):
            j = j if isinstance(j, int) else Sym(term(j))
            x = ga((j,))
            c = sbin('&', sbin('<=', lo, x), sbin('|', sbin('<', x, hi), sbin('&', last, sbin('<=', x, hi))))
            return ite(c, 1 if gw is None else gw((j,)), 0)
        return core.mk_sum(a.shape[0], one)
    h = new((nb,), get, 'i' if gw is None else 'f')
    if density:
        h = ew2('/', h, ew2('*', diff(e), np_sum(h)))
    return h, e


def broadcast_to(a, shape):
    a = asarr(a)
    g = A.bget(a, tuple(shape))
    return new(tuple(shape), g, a.kind)


def meshgrid(*xs, indexing='xy', sparse=False, copy=True):
    xs = [asarr(x) for x in xs]
    xs = [atleast_1d(x) for x in xs]
    xs = [A.ravel(x) for x in xs]
    if indexing == 'xy' and len(xs) > 1:
        sh = [x.shape[0] for x in xs]
        sh[0], sh[1] = sh[1], sh[0]
        pos = list(range(len(xs)))
        pos[0], pos[1] = 1, 0
    elif indexing in ('ij', 'xy'):
        sh = [x.shape[0] for x in xs]
        pos = list(range(len(xs)))
    else:
        raise ValueError("Valid values for `indexing` are 'xy' and 'ij'.")
    out = []
    for x, p in zip(xs, pos):
        g = x.snap()
        out.append(new(tuple(sh), (lambda i, g=g, p=p: g((i[p],))), x.kind))
    return out


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list, Arr)):
        shape = tuple(shape[0])
    shape = tuple(simp(s) for s in shape)
    if not A.concrete(shape):
        raise Unsupported("ndindex over a symbolic shape")
    return iter(A.all_idx(shape))


def ndenumerate(a):
    a = asarr(a)
    return iter([(i, a.at(i)) for i in A.all_idx(a.shape)])


def unravel_index(k, shape):
    k = asarr(k)
    shape = _shape_arg(shape)
    g = k.snap()
    # obligation: in range
    n = prod(shape)
    A.safety_index(k, n)
    return tuple(new(k.shape, (lambda i, a=a: A.unrav(shape, g(i))[a]), 'i') for a in range(len(shape)))


def ravel_multi_index(idx, shape):
    idx = [asarr(i) for i in idx]
    gs = [i.snap() for i in idx]
    return new(idx[0].shape, lambda i: A.rav(tuple(shape), tuple(g(i) for g in gs)), 'i')


def ix_(*args):
    args = [asarr(a) for a in args]
    n = len(args)
    return tuple(a[tuple([None] * k + [slice(None)] + [None] * (n - k - 1))] for k, a in enumerate(args))


def tri_indices(lower):
    def f(n, k=0):
        prs = [(i, j) for i in range(n) for j in range(n) if (j - i <= k if lower else j - i >= k)]
        if not prs:
            e = new((0,), lambda i: 0, 'i')
            return (e, e)
        return (asarr([p[0] for p in prs], 'i'), asarr([p[1] for p in prs], 'i'))
    return f


def interp(x, xp, fp, left=None, right=None):
    """numpy.interp contract: piecewise linear through (xp, fp), constant outside"""
    xp, fp = asarr(xp), asarr(fp)
    if xp.ndim != 1 or fp.ndim != 1:
        raise ValueError("object too deep for desired array")
    n = xp.shape[0]
    if not same(n, fp.shape[0]) and not truth(sbin('==', n, fp.shape[0])):
        raise ValueError("fp and xp are not of the same length.")
    if (isinstance(n, int) and n == 0) or (not isinstance(n, int) and not truth(sbin('>', n, 0))):
        raise ValueError("array of sample points is empty")
    if left is not None or right is not None:
        raise Unsupported("interp with fill values")
    gx, gf = xp.snap(), fp.snap()
    C.assumed.add("numpy.interp: linear interpolation between the tabulated points, end values outside")
    nt = term(n)
    # the same table gives the same segment function
    ph, ct = A._canon1(gx, n)
    ps = [p for p in core._idx_params(ct, z3.Int("none!")) if not p.eq(ph)]
    ct = z3.substitute(ct, (ph, core._placeholder(1000)))
    key = ('interp', ct.get_id(), nt.get_id())
    if key not in C.memo or ps:
        C.keep += [ct, ph, nt]
        C.memo[key] = z3.Function(C.fresh("seg"), z3.RealSort(), z3.IntSort())
    SEG = C.memo[key]
    name = SEG.name()
    C.nonneg_names.add(name)

    def seg_facts(app):
        x = app.arg(0)
        s = Sym(app)
        xs, xs1 = real(gx((s,))), real(gx((sbin('+', s, 1),)))
        x0, xl = real(gx((0,))), real(gx((simp(sbin('-', n, 1)),)))
        mid = z3.And(x0 < x, x < xl)
        return [z3.Implies(mid, z3.And(0 <= app, app + 1 < nt, xs <= x, x < xs1))]
    C.facts[name] = seg_facts
    # monotone segments
    C.pairfacts[name] = lambda a, b: []

    def f(v):
        v = cast(v, 'f')
        x0, xl = gx((0,)), gx((simp(sbin('-', n, 1)),))
        if isinstance(n, int) and n == 1:
            return cast(gf((0,)), 'f')
        s = Sym(SEG(real(v)))
        a, b = gx((s,)), gx((sbin('+', s, 1),))
        fa, fb = gf((s,)), gf((sbin('+', s, 1),))
        lin = sbin('+', fa, sbin('/', sbin('*', sbin('-', fb, fa), sbin('-', v, a)), sbin('-', b, a)))
        return ite(sbin('<=', v, x0), cast(gf((0,)), 'f'),
                   ite(sbin('>=', v, xl), cast(gf((simp(sbin('-', n, 1)),)), 'f'), lin))
    return lift1(f)(x)


def searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)
    g = a.snap()
    n = a.shape[0]
    C.assumed.add("numpy.searchsorted: the insertion position in a sorted array")
    # precondition: a is sorted
    k, l = A.fresh_range('s', n), A.fresh_range('s', n)
    hy = [k.t >= 0, k.t <= l.t, l.t < term(n)]
    C.side.append(("searchsorted requires a sorted array", list(core.path().hyps) + hy,
                   real(g((k,))) <= real(g((l,)))))
    name = C.fresh("ss_").replace('!', '_')
    F = z3.Function(name, z3.RealSort(), z3.IntSort())
    nt = term(n)
    strict = side == 'left'

    def facts(app):
        x = app.arg(0)
        lo = real(g((Sym(app - 1),)))
        hi = real(g((Sym(app),)))
        return [app >= 0, app <= nt, z3.Implies(app > 0, lo < x if strict else lo <= x),
                z3.Implies(app < nt, hi >= x if strict else hi > x)]
    C.facts[name] = facts

    def f(x):
        t = real(x)
        t = z3.simplify(t)
        return Sym(F(t))
    r = lift1(f, 'i')(v)
    return r


# ------------------------------------------------------------------ cov
def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None):
    """weighted sample covariance (numpy.cov definition)"""
    m = asarr(m)
    if m.ndim > 2:
        raise ValueError("m has more than 2 dimensions")
    X = m[None, :] if m.ndim == 1 else m
    if not rowvar and X.shape[0] != 1:
        X = X.T
    d, n = X.shape
    if not isinstance(d, int):
        raise Unsupported("cov of a symbolic number of variables")
    g = X.snap()
    if aweights is None:
        w = lambda j: 1
    else:
        aw = asarr(aweights)
        if not same(aw.shape[0], n) and not truth(sbin('==', aw.shape[0], n)):
            raise RuntimeError("incompatible numbers of samples and aweights")
        gw = aw.snap()
        w = lambda j: gw((j,))
    J = lambda j: j if isinstance(j, int) else Sym(term(j))
    W = core.mk_sum(n, lambda j: cast(w(J(j)), 'f'))
    mean = [sbin('/', core.mk_sum(n, lambda j: sbin('*', w(J(j)), cast(g((k, J(j))), 'f'))), W) for k in range(d)]
    dd = 0 if (bias and ddof is None) else (1 if ddof is None else ddof)
    if aweights is None or dd == 0:
        fact = sbin('-', W, dd)
    else:
        W2 = core.mk_sum(n, lambda j: sbin('*', w(J(j)), w(J(j))))
        fact = sbin('-', W, sbin('/', sbin('*', dd, W2), W))
    cells = {}
    for a in range(d):
        for b in range(a, d):
            s = core.mk_sum(n, lambda j: sbin('*', w(J(j)), sbin('*', sbin('-', g((a, J(j))), mean[a]),
                                                                    sbin('-', g((b, J(j))), mean[b]))))
            cells[a, b] = cells[b, a] = sbin('/', s, fact)
    r = new((d, d), lambda i: cells[i], 'f')
    return r if d > 1 else r.squeeze()


# ------------------------------------------------------------------ linear algebra
class LinAlgError(ValueError):
    pass


def _mat(a):
    a = asarr(a)
    if a.ndim != 2 or not A.concrete(a.shape):
        raise Unsupported("matrix of symbolic size")
    return [[cast(a.at((i, j)), 'f') for j in range(a.shape[1])] for i in range(a.shape[0])]


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = 0
    for j in range(n):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = sbin('*', m[0][j], _det(minor))
        r = sbin('+', r, t) if j % 2 == 0 else sbin('-', r, t)
    return r


def det(a):
    m = _mat(a)
    if len(m) != len(m[0]):
        raise LinAlgError("Last 2 dimensions of the array must be square")
    return _det(m)


def inv(a):
    m = _mat(a)
    n = len(m)
    if n != len(m[0]):
        raise LinAlgError("Last 2 dimensions of the array must be square")
    d = _det(m)
    if truth(sbin('==', d, 0)):
        raise LinAlgError("Singular matrix")
    if n == 1:
        return new((1, 1), lambda i: sbin('/', Fr(1), d), 'f')
    cells = {}
    for i in range(n):
        for j in range(n):
            minor = [row[:i] + row[i + 1:] for k, row in enumerate(m) if k != j]
            c = _det(minor)
            c = c if (i + j) % 2 == 0 else sun('-', c)
            cells[i, j] = sbin('/', c, d)
    return new((n, n), lambda i: cells[i], 'f')


def pinv(a):
    m = _mat(a)
    if len(m) == 1 and truth(sbin('==', m[0][0], 0)):
        return new((1, 1), lambda i: Fr(0), 'f')
    raise Unsupported("pinv")


def cholesky(a, lower=False, **kw):
    """R with R^T R = A (upper triangle of A is read), positive diagonal"""
    if set(kw) - {'check_finite'}:
        raise Unsupported("cholesky(%s)" % ', '.join(kw))
    m = _mat(a)
    n = len(m)
    if n != len(m[0]):
        raise ValueError("expected square matrix")
    if lower:
        m = [[m[j][i] for j in range(n)] for i in range(n)]
    for k in range(1, n + 1):
        s = [[m[min(i, j)][max(i, j)] for j in range(k)] for i in range(k)]
        if not truth(sbin('>', _det(s), 0)):
            raise LinAlgError("the leading minor is not positive definite")
    key = ('chol', tuple(term(m[i][j]).get_id() for i in range(n) for j in range(i, n)))
    C.keep += [term(m[i][j]) for i in range(n) for j in range(i, n)]
    if key not in C.memo:
        C.memo[key] = "chol%d" % len(C.memo)
    nm = C.memo[key]
    r = {}
    for i in range(n):
        for j in range(n):
            r[i, j] = Sym(z3.Real("%s_%d%d" % (nm, i, j))) if j >= i else Fr(0)
    for i in range(n):
        assume(r[i, i].t > 0)
        for j in range(i, n):
            s = 0
            for k in range(i + 1):
                s = sbin('+', s, sbin('*', r[k, i], r[k, j]))
            assume(real(s) == real(m[i][j]))
    C.assumed.add("scipy.linalg.cholesky: upper triangular, positive diagonal, R^T R = A")
    if lower:
        return new((n, n), lambda i: r[i[1], i[0]], 'f')
    return new((n, n), lambda i: r[i], 'f')


def norm(a, ord=None, axis=None, keepdims=False):
    a = asarr(a)
    if ord is not None:
        raise Unsupported("norm order")
    return np_sqrt(np_sum(ew2('*', a, a), axis=axis, keepdims=keepdims))


# ------------------------------------------------------------------ random
def event(kind, out, **kw):
    C.events.append(dict(kind=kind, out=out, **kw))
    C.assumed.add("numpy.random.%s: independent draws from the named distribution" % kind)
    return out


def _rand(kind, size, ek, facts=None, **kw):
    name = C.fresh("rnd_" + kind)
    sh = () if size is None else _shape_arg(size)
    if ek == 'i':
        C.nonneg_names.add(name)
    a = A.uf_array(name, sh, ek, facts=facts)
    if not sh:
        c = a.at(())
        if facts is not None:
            for f in facts(term(c)):
                assume(f)
        event(kind, c, **kw)
        return c
    event(kind, a, size=size, **kw)
    return a.copy()


def r_uniform(low=0, high=1, size=None):
    low, high = exact(sc(low)), exact(sc(high))
    lo, hi = real(low), real(high)
    return _rand('uniform', size, 'f', lambda a: [a >= lo, a < hi], low=low, high=high)


def r_random(size=None):
    return r_uniform(0, 1, size)


def r_normal(loc=0, scale=1, size=None):
    return _rand('normal', size, 'f', loc=loc, scale=scale)


def r_mvn(mean, cov, size=None):
    mean, cv = asarr(mean), asarr(cov)
    n = mean.shape[0]
    if size is None:
        sh = (n,)
    else:
        sh = _shape_arg(size) + (n,)
    return _rand('multivariate_normal', sh, 'f', mean=mean, cov=cv)


def r_beta(a, b, size=None):
    return _rand('beta', size, 'f', lambda t: [t >= 0, t <= 1], a=a, b=b)


def r_poisson(lam=1, size=None):
    lam = sc(lam)
    if isinstance(lam, Arr):
        size = lam.shape
    return _rand('poisson', size, 'i', lambda t: [t >= 0], lam=lam)


def r_choice(a, size=None, replace=True, p=None):
    a = sc(a)
    if isinstance(a, Arr):
        raise Unsupported("choice from an array")
    n = a
    if p is not None:
        p = asarr(p)
        if p.ndim != 1:
            raise ValueError("'p' must be 1-dimensional")
        if not same(p.shape[0], n) and not truth(sbin('==', p.shape[0], n)):
            raise ValueError("'a' and 'p' must have same size")
        g = p.snap()
        tot = core.mk_sum(n, lambda j: g((j if isinstance(j, int) else Sym(term(j)),)))
        C.side.append(("choice requires probabilities that sum to one", list(core.path().hyps),
                       real(tot) == 1))
        k = A.fresh_range('s', n)
        C.side.append(("choice requires non-negative probabilities",
                       list(core.path().hyps) + [k.t >= 0, k.t < term(n)], real(g((k,))) >= 0))
    nt = term(n)

    def facts(t):
        out = [t >= 0, t < nt]
        if p is not None:
            out.append(real(g((Sym(t),))) > 0)
        return out
    return _rand('choice', size, 'i', facts, n=n, p=p, replace=replace)


def r_seed(*a):
    return None


# ------------------------------------------------------------------ scipy
F_GAMMA = z3.Function('Gamma', z3.RealSort(), z3.RealSort())
F_BETA = z3.Function('Beta', z3.RealSort(), z3.RealSort(), z3.RealSort())
F_NCDF = z3.Function('normcdf', z3.RealSort(), z3.RealSort())
F_NPPF = z3.Function('normppf', z3.RealSort(), z3.RealSort())
core.BASE_FACTS['normcdf'] = lambda a: [a > 0, a < 1]
core.BASE_PAIR['normcdf'] = core._monoall
core.BASE_FACTS['Gamma'] = lambda a: [z3.Implies(a.arg(0) > 0, a > 0)]
core.BASE_FACTS['Beta'] = lambda a: [z3.Implies(z3.And(a.arg(0) > 0, a.arg(1) > 0), a > 0)]


def _pair_gamma(a, b):
    x, y = a.arg(0), b.arg(0)
    return [z3.Implies(z3.And(x > 0, y == x + 1), b == x * a), z3.Implies(z3.And(y > 0, x == y + 1), a == y * b),
            z3.Implies(x == y, a == b)]


core.BASE_PAIR['Gamma'] = _pair_gamma


def gamma(v):
    """Gamma function: exact at positive multiples of 1/2"""
    v = core.exact(v)
    if not isinstance(v, Sym) and not core.nonfinite(v) and v > 0 and (Fr(v) * 2).denominator == 1 and v < 60:
        v = Fr(v)
        r, x = Fr(1), v - 1
        while x > 0:
            r, x = r * x, x - 1
        return r if v.denominator == 1 else sbin('*', r, core.sqrt(Sym(core.PI)))
    return Sym(F_GAMMA(z3.simplify(real(v))))


def beta(a, b):
    """Beta function: B(m, y) = (m-1)! / (y (y+1) ... (y+m-1)) for a positive integer m"""
    a, b = core.exact(a), core.exact(b)
    for m, y in ((a, b), (b, a)):
        if not isinstance(m, Sym) and not core.nonfinite(m) and Fr(m).denominator == 1 and 0 < m < 20:
            r = Fr(math.factorial(int(m) - 1))
            for k in range(int(m)):
                r = sbin('/', r, sbin('+', y, k))
            return r
    if not isinstance(a, Sym) and not isinstance(b, Sym) and a > 0 and b > 0:
        return sbin('/', sbin('*', gamma(a), gamma(b)), gamma(sbin('+', a, b)))
    return Sym(F_BETA(real(a), real(b)))


def _ppf_facts(a):
    x = a.arg(0)
    return [z3.Implies(x > z3.RealVal("1/2"), a > 0), z3.Implies(x == z3.RealVal("1/2"), a == 0),
            z3.Implies(x < z3.RealVal("1/2"), a < 0)]


core.BASE_FACTS['normppf'] = _ppf_facts


def ppf(q):
    def f(v):
        if not isinstance(v, Sym):
            if v == 0: return -math.inf
            if v == 1: return math.inf
            if v == Fr(1, 2): return Fr(0)
            if v < 0 or v > 1: return math.nan
        return Sym(F_NPPF(real(v)))
    return lift1(f)(q)


def ncdf(x):
    def f(v):
        if not isinstance(v, Sym) and v == 0:
            return Fr(1, 2)
        return Sym(F_NCDF(z3.simplify(real(v))))
    return lift1(f)(x)


class Interp1d:
    """scipy.interpolate.interp1d (linear)"""

    def __init__(self, x, y, kind='linear', bounds_error=None, fill_value=None, **kw):
        self.x, self.y = asarr(x).copy(), asarr(y).copy()
        self.bounds_error, self.kind = bounds_error, kind
        self._inc = None
        Interp1d.count += 1
        self.name = 'interp1d_%d' % Interp1d.count

    count = 0

    def __call__(self, v):
        if self.kind != 'linear':
            raise Unsupported("interp1d(kind=%r)" % (self.kind,))
        C.events.append(dict(kind='interp1d', table=self, out=None))
        F = z3.Function(self.name, z3.RealSort(), z3.RealSort())
        if self.increasing():
            lo, hi = real(self.y.at((0,))), real(self.y.at((self.y.shape[0] - 1,)))
            C.facts[F.name()] = lambda a: [a >= lo, a <= hi]
            C.pairfacts[F.name()] = lambda a, b: [z3.Implies(a.arg(0) <= b.arg(0), a <= b),
                                                  z3.Implies(b.arg(0) <= a.arg(0), b <= a)]
        C.assumed.add("scipy.interpolate.interp1d: linear interpolation between the knots")
        return lift1(lambda t: Sym(F(z3.simplify(real(t)))))(v)

    def increasing(self):
        """known when the table is a constant"""
        if self._inc is None:
            n = self.x.shape[0]
            x = [self.x.at((k,)) for k in range(n)] if isinstance(n, int) else [Sym(None)]
            y = [self.y.at((k,)) for k in range(n)] if isinstance(n, int) else [Sym(None)]
            self._inc = not any(isinstance(v, Sym) for v in x + y) and all(a < b for a, b in zip(x, x[1:])) and \
                all(a <= b for a, b in zip(y, y[1:]))
        return self._inc


class RegularGridInterpolator:
    """multilinear interpolation on a grid (scipy contract); the stub keeps its arguments for the specification"""

    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=math.nan):
        self.points = [asarr(p) for p in points]
        self.values = asarr(values)
        self.bounds_error, self.fill_value, self.method = bounds_error, fill_value, method
        if len(self.points) != self.values.ndim:
            raise ValueError("There are %d point arrays, but values has %d dimensions" % (
                len(self.points), self.values.ndim))
        for k, p in enumerate(self.points):
            if p.ndim != 1:
                raise ValueError("The points in dimension %d must be 1-dimensional" % k)
            if not same(p.shape[0], self.values.shape[k]) and \
                    not truth(sbin('==', p.shape[0], self.values.shape[k])):
                raise ValueError("There are %s points and %s values in dimension %d" % (0, 0, k))
        if method != 'linear':
            raise Unsupported("RegularGridInterpolator(method=%r)" % (method,))
        self.D = len(self.points)
        self.gp = [p.snap() for p in self.points]
        self.gv = self.values.snap()
        C.assumed.add("scipy.interpolate.RegularGridInterpolator: multilinear interpolation inside the grid")
        self.seg = []
        for k in range(self.D):
            q = z3.Int('rgi_i')
            key = (z3.simplify(term(self.points[k].shape[0])).sexpr(), z3.simplify(real(self.gp[k]((Sym(q),)))).sexpr())
            nm = C.rgis.setdefault(key, 'rgi_cell%d' % len(C.rgis))      # the cell depends on the grid and the point
            S = z3.Function(nm, z3.RealSort(), z3.IntSort())
            C.nonneg_names.add(nm)
            n = self.points[k].shape[0]
            g = self.gp[k]

            def facts(app, n=n, g=g):
                x = app.arg(0)
                a, b = real(g((Sym(app),))), real(g((Sym(app + 1),)))
                nt = term(n)
                x0, xl = real(g((0,))), real(g((simp(sbin('-', n, 1)),)))
                return [0 <= app, app <= nt - 2,
                        z3.Implies(z3.And(x0 <= x, x <= xl), z3.And(a <= x, x <= b))]
            C.facts[nm] = facts
            self.seg.append(S)

    def value(self, xs):
        """multilinear interpolation at the point xs; outside of the grid an error, extrapolation, or the fill value"""
        r = self.inside(xs)
        if self.bounds_error or self.fill_value is not None:
            ok = z3.And(*[boolt(sbin('<=', *q)) for k, x in enumerate(xs) for q in (
                (self.gp[k]((0,)), x), (x, self.gp[k]((simp(sbin('-', self.points[k].shape[0], 1)),))))])
            if self.bounds_error:
                C.side.append(('points inside of the grid', list(core.path().hyps), ok))
            else:
                if core.nonfinite(self.fill_value):
                    raise Unsupported("RegularGridInterpolator(fill_value=%r)" % (self.fill_value,))
                r = ite(Sym(ok), r, self.fill_value)
        return r

    def inside(self, xs):
        segs = [Sym(S(z3.simplify(real(x)))) for S, x in zip(self.seg, xs)]
        r = 0
        for corner in A.all_idx((2,) * self.D):
            w = Fr(1)
            idx = []
            for k, c in enumerate(corner):
                a = self.gp[k]((segs[k],))
                b = self.gp[k]((sbin('+', segs[k], 1),))
                u = sbin('/', sbin('-', xs[k], a), sbin('-', b, a))
                w = sbin('*', w, u if c else sbin('-', 1, u))
                idx.append(sbin('+', segs[k], c))
            r = sbin('+', r, sbin('*', w, self.gv(tuple(idx))))
        return r

    def __call__(self, xi):
        xi = asarr(xi)
        C.events.append(dict(kind='rgi', rgi=self, xi=xi, out=None))
        if xi.ndim == 1 and self.D == 1:
            g = xi.snap()
            return new(xi.shape, lambda i: self.value([g(i)]), 'f')
        if xi.ndim == 1:
            if not same(xi.shape[0], self.D):
                raise ValueError("The requested sample points xi have dimension %s but this "
                                 "RegularGridInterpolator has dimension %d" % (xi.shape[-1], self.D))
            g = xi.snap()
            return new((1,), lambda i: self.value([g((k,)) for k in range(self.D)]), 'f')
        if xi.ndim == 2 and self.D == 1 and not (isinstance(xi.shape[1], int) and xi.shape[1] == 1):
            raise ValueError("The requested sample points xi have the wrong dimension")
        g = xi.snap()
        if not same(xi.shape[-1], self.D):
            raise ValueError("The requested sample points xi have the wrong dimension")
        return new(xi.shape[:-1], lambda i: self.value([g(tuple(i) + (k,)) for k in range(self.D)]), 'f')


def njit(*args, **kw):
    if len(args) == 1 and callable(args[0]) and not kw:
        return args[0]
    return lambda f: f


# ------------------------------------------------------------------ assembling the modules
np_sqrt = lift1(core.sqrt)
np_exp = lift1(core.exp)
np_log = lift1(core.log)
np_log10 = lift1(core.log10)
np_log2 = lift1(core.log2)
power = lift2(core.spow, None)
maximum = lift2(_max)
minimum = lift2(_min)


def np_power(x, y, **k):
    x, y = sc(x), sc(y)
    kx, ky = asarr(x).kind, asarr(y).kind
    if kx == 'i' and ky == 'i' and isinstance(y, int) and y < 0:
        raise ValueError("Integers to negative integer powers are not allowed.")
    return lift2(core.spow, A.promote(kx, ky))(x, y, **k)


def median(a, axis=None):
    a = asarr(a)
    x = axis % a.ndim
    n = a.shape[x]
    if n != 3:
        raise Unsupported("median of other than three values")
    g = a.snap()

    def get(i):
        v = [g(tuple(i[:x]) + (k,) + tuple(i[x:])) for k in range(3)]
        return _max(_min(v[0], v[1]), _min(_max(v[0], v[1]), v[2]))
    return new(a.shape[:x] + a.shape[x + 1:], get, a.kind)


def isclose(a, b, rtol=Fr(1, 10 ** 5), atol=Fr(1, 10 ** 8)):
    d = unabs(binop('-', a, b))
    lim = binop('+', atol, binop('*', rtol, unabs(b)))
    return binop('<=', d, lim)


def unabs(x):
    return core.unop('abs', exact(sc(x)) if not isarrlike(x) else x)


def trapz(y, x=None, dx=1, axis=-1):
    y = asarr(y)
    ax = int(axis) % y.ndim
    if x is None:
        raise Unsupported("trapz without x")
    x = asarr(x)
    d = diff(x)
    if d.ndim == 1:
        key = [None] * y.ndim
        key[ax] = slice(None)
        d = d[tuple(key)]
    hi = [slice(None)] * y.ndim
    lo = [slice(None)] * y.ndim
    hi[ax], lo[ax] = slice(1, None), slice(None, -1)
    s = ew2('+', y[tuple(hi)], y[tuple(lo)])
    return np_sum(ew2('/', ew2('*', d, s), 2), axis=ax)


def np_cumsum(a, axis=None, out=None, dtype=None):
    r = A.cumsum(a, axis)
    if out is not None:
        out[...] = r
        return out
    return r


def isscalar_np(x):
    if isinstance(x, (Sym, int, float, Fr, complex, bool, str)):
        return True
    return False


def iterable(x):
    if isinstance(x, Arr):
        return x.ndim > 0
    if isinstance(x, (list, tuple, str, dict, set, A.Flat)):
        return True
    return hasattr(x, '__iter__') and not isinstance(x, Sym)


def histogram(data, bins=10, range=None, density=None, weights=None):
    """contract: counts (or weight) of the data in each bin of the returned edges"""
    data = asarr(data)
    C.assumed.add("numpy.histogram: total weight of the data in each bin")
    if isarrlike(bins):
        edges = asarr(bins)
    else:
        nb = Sym(z3.Int(C.fresh("nbins")))
        assume(nb.t >= 1)
        nm = C.fresh("hedges")
        edges = A.uf_array(nm, (simp(sbin('+', nb, 1)),), 'f',
                           pairfacts=lambda a, b: [z3.Implies(a.arg(0) < b.arg(0), a < b),
                                                   z3.Implies(b.arg(0) < a.arg(0), b < a)]).copy()
    if density:
        raise Unsupported("histogram density")
    nm = C.fresh("hcount")
    h = A.uf_array(nm, (simp(sbin('-', edges.shape[0], 1)),), 'i' if weights is None else 'f',
                   facts=(lambda a: [a >= 0]) if weights is None else None).copy()
    C.events.append(dict(kind='histogram', data=data, weights=weights, hist=h, edges=edges, out=None, bins=bins))
    return h, edges


def np_percentile(*a, **k):
    raise Unsupported("percentile")


class FakeModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported("%s.%s" % (self.__name__, k))


def build():
    np = FakeModule('numpy')
    d = dict(
        pi=Sym(core.PI), inf=math.inf, nan=math.nan, newaxis=None, e=Sym(core.F_EXP(z3.RealVal(1))),
        ndarray=Arr, float64=float64, int64=int64, bool_=bool_, integer=integer, floating=floating, number=number,
        generic=generic, dtype=DType, object_=object_,
        array=array, asarray=asarray, atleast_1d=atleast_1d, atleast_2d=atleast_2d, ascontiguousarray=asarray,
        shape=shape_of, ndim=np_ndim, size=np_size, isscalar=isscalar_np, iterable=iterable,
        zeros=full_(0, 'f'), ones=full_(1, 'f'), empty=empty, full=full, zeros_like=like(0), ones_like=like(1),
        empty_like=lambda a, dtype=None: empty(asarr(a).shape, dtype or asarr(a).dtype),
        full_like=lambda a, v, dtype=None: full(asarr(a).shape, v, dtype or asarr(a).dtype),
        arange=arange, linspace=linspace, logspace=logspace, eye=eye, identity=eye, diff=diff,
        sum=np_sum, min=np_min, max=np_max, amin=np_min, amax=np_max, any=np_any, all=np_all, mean=A.mean,
        average=average, count_nonzero=count_nonzero, cumsum=np_cumsum, argmin=argmin, argmax=argmax,
        prod=lambda a, axis=None: _prod_np(a, axis), product=lambda a, axis=None: _prod_np(a, axis),
        sqrt=np_sqrt, exp=np_exp, log=np_log, log10=np_log10, log2=np_log2, power=np_power, float_power=np_power,
        square=lambda x: core.sbin('*', x, x) if isscalar(sc(x)) else ew2('*', x, x),
        abs=unabs, fabs=lambda x: _tofloat(unabs(x)), absolute=unabs,
        sign=lift1(lambda v: _sign(v), 'same'),
        floor=lift1(lambda v: sun('floor', v)), ceil=lift1(lambda v: sun('ceil', v)),
        around=lift1(lambda v: sun('rint', v)), round=lift1(lambda v: sun('rint', v)), rint=lift1(lambda v: sun('rint', v)),
        maximum=maximum, minimum=minimum, clip=clip, isfinite=lift1(_isfinite, 'b'), isnan=lift1(_isnan, 'b'),
        isinf=lift1(lambda v: not _isfinite(v) and not _isnan(v), 'b'),
        add=uf2('+'), subtract=uf2('-'), multiply=uf2('*'), divide=uf2('/'), true_divide=uf2('/'),
        logical_and=uf2('&', 'b'), logical_or=uf2('|', 'b'), logical_not=lift1(lambda v: sun('~', cast(v, 'b')), 'b'),
        less=uf2('<', 'b'), greater=uf2('>', 'b'), less_equal=uf2('<=', 'b'), greater_equal=uf2('>=', 'b'),
        equal=uf2('==', 'b'), not_equal=uf2('!=', 'b'), negative=lift1(lambda v: sun('-', v), 'same'),
        dot=A.dot, matmul=A.dot, where=np_where, nonzero=np_where, append=np_append, concatenate=A.concatenate,
        vstack=vstack, hstack=hstack, stack=stack, delete=delete, pad=pad, meshgrid=meshgrid, ndindex=ndindex,
        ndenumerate=ndenumerate, unravel_index=unravel_index, ravel_multi_index=ravel_multi_index, ix_=ix_,
        triu_indices=tri_indices(False), tril_indices=tri_indices(True), ravel=A.ravel, reshape=A.reshape,
        transpose=lambda a, axes=None: asarr(a).transpose(*(axes or ())), squeeze=lambda a, axis=None: asarr(a).squeeze(axis),
        copy=lambda a: asarr(a).copy(), moveaxis=moveaxis, swapaxes=lambda a, x, y: _swap(a, x, y),
        expand_dims=lambda a, axis: _expand_dims(a, axis),
        argsort=A.argsort, sort=A.sort, take_along_axis=A.take_along_axis, searchsorted=searchsorted, interp=interp,
        take=lambda a, i, axis=None: A.ravel(a)[i] if axis is None else asarr(a)[tuple([slice(None)] * (axis % asarr(a).ndim) + [i])],
        broadcast_to=broadcast_to, median=median, isclose=isclose, trapz=trapz, cov=cov, histogram=histogram,
        allclose=lambda a, b, **k: np_all(isclose(a, b, **k)), percentile=np_percentile,
        diagonal=lambda a: asarr(a).diagonal(), diag=lambda a: _diag(a), outer=lambda a, b: ew2('*', asarr(a)[:, None], asarr(b)[None, :]),
        issubdtype=lambda a, b: issubclass(a.type if isinstance(a, DType) else a, b),
        array_equal=lambda a, b: _array_equal(a, b), repeat=_repeat, tile=_unsup('tile'), unique=_unsup('unique'),
        std=_unsup('std'), var=_unsup('var'), VisibleDeprecationWarning=Warning, errstate=_Null, seterr=lambda **k: None,
        flip=lambda a, axis=None: asarr(a)[::-1], einsum=_unsup('einsum'), cumprod=_unsup('cumprod'),
    )
    for k, v in d.items():
        setattr(np, k, v)
    la = FakeModule('numpy.linalg')
    for k, v in dict(inv=inv, pinv=pinv, det=det, norm=norm, LinAlgError=LinAlgError, cholesky=lambda a: cholesky(a, lower=True)).items():
        setattr(la, k, v)
    np.linalg = la
    rn = FakeModule('numpy.random')
    for k, v in dict(uniform=r_uniform, random=r_random, random_sample=r_random, normal=r_normal, multivariate_normal=r_mvn,
                     beta=r_beta, poisson=r_poisson, choice=r_choice, seed=r_seed,
                     rand=lambda *s: r_uniform(0, 1, s), randn=lambda *s: r_normal(0, 1, s),
                     standard_normal=lambda size=None: r_normal(0, 1, size)).items():
        setattr(rn, k, v)
    np.random = rn
    np.ma = FakeModule('numpy.ma')
    np.ma.masked_where = masked_where
    np.histogram = np_histogram
    sp = FakeModule('scipy')
    st = FakeModule('scipy.stats')
    nm = FakeModule('scipy.stats.norm')
    nm.ppf, nm.cdf = ppf, ncdf
    st.norm = nm
    sl = FakeModule('scipy.linalg')
    sl.cholesky, sl.inv, sl.det, sl.LinAlgError = cholesky, inv, det, LinAlgError
    si = FakeModule('scipy.interpolate')
    si.interp1d = Interp1d
    si.RegularGridInterpolator = RegularGridInterpolator
    ss = FakeModule('scipy.special')
    ss.gamma = lift1(gamma)
    ss.gammaln = ss.loggamma = lift1(lambda v: core.log(gamma(v)))
    ss.beta = lift2(beta, 'f')
    ss.factorial = lift1(lambda v: gamma(sbin('+', v, 1)))
    sn = FakeModule('scipy.ndimage')
    sp.stats, sp.linalg, sp.interpolate, sp.special, sp.ndimage = st, sl, si, ss, sn
    nb = FakeModule('numba')
    nb.njit = nb.jit = njit
    nb.prange = None
    six = FakeModule('six')
    six.string_types = (str,)
    return {'numpy': np, 'numpy.linalg': la, 'numpy.random': rn, 'scipy': sp, 'scipy.stats': st, 'scipy.linalg': sl,
            'scipy.interpolate': si, 'scipy.special': ss, 'scipy.ndimage': sn, 'numba': nb, 'six': six}


class _Null:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def _unsup(name):
    def f(*a, **k):
        raise Unsupported("numpy." + name)
    return f


def _sign(v):
    if isinstance(v, Sym):
        return ite(sbin('>', v, 0), 1, ite(sbin('<', v, 0), -1, 0))
    return (v > 0) - (v < 0)


def _tofloat(x):
    return x.astype('f') if isinstance(x, Arr) else cast(x, 'f')


def _prod_np(a, axis=None):
    a = asarr(a)
    if axis is not None or not A.concrete(a.shape):
        raise Unsupported("prod")
    r = 1
    for i in A.all_idx(a.shape):
        r = sbin('*', r, a.at(i))
    return r


def _swap(a, x, y):
    a = asarr(a)
    o = list(range(a.ndim))
    o[x], o[y] = o[y], o[x]
    return a.transpose(*o)


def _expand_dims(a, axis):
    a = asarr(a)
    n = a.ndim + 1
    key = [slice(None)] * a.ndim
    key.insert(axis % n, None)
    return a[tuple(key)]


def _diag(a):
    a = asarr(a)
    if a.ndim == 2:
        return a.diagonal()
    n = a.shape[0]
    g = a.snap()
    return new((n, n), lambda i: ite(sbin('==', i[0], i[1]), g((i[0],)), cast(0, a.kind)), a.kind)


def _array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if len(a.shape) != len(b.shape) or not all(same(x, y) or truth(sbin('==', x, y)) for x, y in zip(a.shape, b.shape)):
        return False
    return np_all(ew2('==', a, b))


def _repeat(a, n, axis=None):
    a = asarr(a)
    if a.ndim != 1 or not isinstance(n, int):
        raise Unsupported("repeat")
    g = a.snap()
    return new((simp(sbin('*', a.shape[0], n)),), lambda i: g((simp(sbin('//', i[0], n)),)), a.kind)
