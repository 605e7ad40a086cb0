"""Symbolic arrays: element functions over symbolic index tuples, views, masks and in-place writes.

An `Arr` is a view on a `Buf`.  A `Buf` has a shape (ints or symbolic ints) and an element function `get`, which maps
a tuple of (possibly symbolic) indices to an element value; a write replaces the element function by one that
case-splits on the written region, so aliasing between views of one buffer is exact.
"""
import z3
import math
from fractions import Fraction as Fr
from . import core
from .core import (C, Sym, Unsupported, term, val, num, boolt, ite, cast, kindof, sbin, sun, fresh_idx, exact,
                   decide, assume, isscalar, is_idx)

MATERIALIZE = 3000


def same(a, b):
    """are two dimensions known to be equal (without forking)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = term(a), term(b)
    if a.eq(b):
        return True
    return z3.is_true(z3.simplify(a == b))


def known_eq(a, b):
    """is the equality of two dimensions already decided on this path"""
    c = z3.simplify(term(a) == term(b))
    return any(h.eq(c) for h in core.path().hyps)


def truth(v):
    v = val(v)
    return decide(boolt(v)) if isinstance(v, Sym) else bool(v)


def simp(v):
    if isinstance(v, Sym):
        return val(z3.simplify(v.t))
    return v


def prod(dims):
    r = 1
    for d in dims:
        r = sbin('*', r, d)
    return simp(r)


class Buf:
    __slots__ = ('shape', 'get', 'kind', 'name', 'version')

    def __init__(self, shape, get, kind, name=None):
        self.shape = tuple(shape)
        self.get = get
        self.kind = kind
        self.name = name
        self.version = 0


def memoized(get):
    cache = {}

    def g(idx):
        key = tuple(i if isinstance(i, int) else ('t', i.t.get_id()) for i in idx)
        r = cache.get(key)
        if r is None:
            v = get(idx)
            cache[key] = r = (v, idx)      # keep idx alive: ids are reused otherwise
        return r[0]
    return g


def concrete(shape):
    return all(isinstance(d, int) for d in shape)


def cells_get(shape, cells):
    """element function over an explicit table"""
    strides = []
    s = 1
    for d in reversed(shape):
        strides.insert(0, s)
        s *= d

    def get(idx):
        if all(isinstance(i, int) for i in idx):
            return cells[sum(i * s for i, s in zip(idx, strides))]

        def rec(k, off):
            if k == len(shape):
                return cells[off]
            i = idx[k]
            if isinstance(i, int):
                return rec(k + 1, off + i * strides[k])
            r = None
            for j in range(shape[k] - 1, -1, -1):
                v = rec(k + 1, off + j * strides[k])
                r = v if r is None else ite(sbin('==', i, j), v, r)
            return r
        return rec(0, 0)
    return get


def all_idx(shape):
    out = [()]
    for d in shape:
        out = [o + (k,) for o in out for k in range(d)]
    return out


def new(shape, get, kind, name=None):
    """new array from an element function (evaluated now if the shape is concrete and small)"""
    shape = tuple(simp(d) for d in shape)
    if concrete(shape):
        n = 1
        for d in shape:
            n *= d
        if n <= MATERIALIZE:
            cells = [cast(get(i), kind) if kind != 'O' else get(i) for i in all_idx(shape)]
            return Arr(Buf(shape, cells_get(shape, cells), kind, name))
    g0 = get
    if kind != 'O':
        def g1(idx):
            return cast(g0(idx), kind)
    else:
        g1 = g0
    return Arr(Buf(shape, memoized(g1), kind, name))


def promote(*kinds):
    for k in ('O', 'f', 'i', 'b'):
        if k in kinds:
            return k
    return 'f'


def norm_index(i, n):
    """index value -> non-negative index (negative indices count from the end)"""
    if isinstance(i, int) and not isinstance(i, bool):
        if i < 0:
            return simp(sbin('+', n, i))
        return i
    if isinstance(i, Sym) and i.kind == 'i':
        t = i.t
        if is_idx(t) or getattr(C, 'nonneg', {}).get(t.get_id()):
            return i
        lo = core.nonneg(t)
        if lo:
            return i
        return ite(sbin('<', i, 0), sbin('+', n, i), i)
    raise Unsupported("index %r" % (i,))


class Arr:
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, buf, shape=None, maps=None):
        self.buf = buf
        self.shape = tuple(shape) if shape is not None else buf.shape
        self.maps = maps     # None: identity; else per buffer axis: ('fix', k) | ('ax', view_axis, start, step)

    # ------------------------------------------------------------ element access
    def _bidx(self, idx):
        if self.maps is None:
            return tuple(idx)
        out = []
        for m in self.maps:
            if m[0] == 'fix':
                out.append(m[1])
            else:
                i = idx[m[1]]
                if m[3] != 1:
                    i = sbin('*', i, m[3])
                if not (isinstance(m[2], int) and m[2] == 0):
                    i = sbin('+', i, m[2])
                out.append(simp(i))
        return tuple(out)

    def at(self, idx):
        return self.buf.get(self._bidx(tuple(idx)))

    def snap(self):
        """element function of the current contents"""
        g = self.buf.get
        if self.maps is None:
            return g
        b = self._bidx
        return lambda idx: g(b(idx))

    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        from . import fakenp
        return fakenp.dtype_of_kind(self.kind)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return prod(self.shape)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return Flat(self)

    def transpose(self, *axes):
        n = self.ndim
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(range(n))[::-1]
        # new axis k is old axis axes[k]
        inv = {old: k for k, old in enumerate(axes)}
        maps = self.maps if self.maps is not None else [('ax', a, 0, 1) for a in range(n)]
        maps = [m if m[0] == 'fix' else ('ax', inv[m[1]], m[2], m[3]) for m in maps]
        return Arr(self.buf, [self.shape[a] for a in axes], maps)

    # ------------------------------------------------------------ writing
    def write(self, cond, value):
        """for every view index i with cond(i): element = value(i)"""
        b = self.buf
        old = b.get
        kind = b.kind
        if b.name is not None:
            C.written.add(b.name)
        maps = self.maps if self.maps is not None else [('ax', a, 0, 1) for a in range(self.ndim)]
        vshape = self.shape

        def locate(bidx):
            """buffer index -> (condition that it is in the view, view index)"""
            conds = []
            vidx = [None] * len(vshape)
            for i, m in zip(bidx, maps):
                if m[0] == 'fix':
                    conds.append(sbin('==', i, m[1]))
                else:
                    start, step = m[2], m[3]
                    n = vshape[m[1]]
                    d = sbin('-', i, start)
                    if step == 1:
                        v = simp(d)
                    elif step == -1:
                        v = simp(sun('-', d))
                    else:
                        raise Unsupported("write through a strided view")
                    full = isinstance(start, int) and start == 0 and step == 1
                    if not full:
                        conds.append(sbin('<=', 0, v))
                        conds.append(sbin('<', v, n))
                    elif not same(n, b.shape[list(maps).index(m)]):
                        conds.append(sbin('<', v, n))
                    vidx[m[1]] = v
            vidx = [0 if v is None else v for v in vidx]
            return conds, tuple(vidx)

        def get(bidx):
            conds, vidx = locate(bidx)
            c = True
            for x in conds:
                c = sbin('&', c, simp(x))
                if c is False:
                    return old(bidx)
            k = cond(vidx) if cond is not None else True
            c = sbin('&', c, k)
            c = simp(c)
            if c is False:
                return old(bidx)
            new = cast(value(vidx), kind)
            if c is True:
                return new
            return ite(c, new, old(bidx))

        if concrete(b.shape) and prod(b.shape) <= MATERIALIZE:
            cells = [get(i) for i in all_idx(b.shape)]
            b.get = cells_get(b.shape, cells)
        else:
            b.get = memoized(get)
        b.version += 1

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key):
        if isinstance(key, str):
            raise TypeError("field access")
        key = self._expand(key)
        if any(_advanced(k) for k in key):
            return self._fancy_get(key)
        shape, maps = self._basic(key)
        a = Arr(self.buf, shape, maps)
        if len(shape) == 0:
            return a.at(())
        return a

    def _expand(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = [_as_index(k) for k in key]
        used = sum(_uses(k) for k in key)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + [slice(None)] * (self.ndim - used) + key[p + 1:]
        else:
            key = key + [slice(None)] * (self.ndim - used)
        used = sum(_uses(k) for k in key)
        if used > self.ndim:
            raise IndexError("too many indices for array")
        return key

    def _basic(self, key):
        base = list(self.maps) if self.maps is not None else [('ax', a, 0, 1) for a in range(self.ndim)]
        shape = []
        axmap = {}      # old view axis -> ('fix', k) or (new axis, start, step)
        ax = 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self.shape[ax]
            if isinstance(k, slice):
                start, step, ln = slice_of(k, n)
                axmap[ax] = (len(shape), start, step)
                shape.append(ln)
            else:
                check_bounds(k, n)
                axmap[ax] = ('fix', norm_index(k, n))
            ax += 1
        maps = []
        for m in base:
            if m[0] == 'fix':
                maps.append(m)
                continue
            r = axmap[m[1]]
            if r[0] == 'fix':
                i = r[1]
                if m[3] != 1:
                    i = sbin('*', i, m[3])
                maps.append(('fix', simp(sbin('+', i, m[2]))))
            else:
                na, start, step = r
                s = start if m[3] == 1 else sbin('*', start, m[3])
                maps.append(('ax', na, simp(sbin('+', s, m[2])), step * m[3]))
        return shape, maps

    def _fancy_plan(self, key):
        """-> (result shape, function: result index -> view index)"""
        # boolean masks become index arrays
        sels = []
        ax = 0
        exp = []
        for k in key:
            if k is None:
                exp.append((None, None))
            elif isinstance(k, Arr) and k.kind == 'b':
                m = k.ndim
                for a in range(m):
                    if not same(k.shape[a], self.shape[ax + a]):
                        if not truth(sbin('==', k.shape[a], self.shape[ax + a])):
                            raise IndexError("boolean index did not match indexed array")
                s = mask_sel(k)
                for a in range(m):
                    exp.append((ax + a, ('sel', s, a)))
                ax += m
            elif isinstance(k, Arr):
                exp.append((ax, ('arr', k)))
                ax += 1
            elif isinstance(k, slice):
                exp.append((ax, k))
                ax += 1
            else:
                exp.append((ax, ('arr', asarr(k))))
                ax += 1
        adv = [i for i, (a, k) in enumerate(exp) if isinstance(k, tuple)]
        # broadcast shape of the advanced indices
        ashape = ()
        for i in adv:
            k = exp[i][1]
            sh = (k[1].count,) if k[0] == 'sel' else k[1].shape
            ashape = bshape(ashape, sh)
        contiguous = adv == list(range(adv[0], adv[-1] + 1))
        pos = 0 if not contiguous else sum(1 for i in range(adv[0]) if not isinstance(exp[i][1], tuple))
        # result axes
        rest = []
        for i, (a, k) in enumerate(exp):
            if isinstance(k, tuple):
                continue
            rest.append((a, k))
        shape = []
        roles = []
        for r, (a, k) in enumerate(rest):
            if r == pos:
                roles += [('adv', j) for j in range(len(ashape))]
                shape += list(ashape)
            if a is None:
                roles.append(('new',))
                shape.append(1)
            else:
                start, step, ln = slice_of(k, self.shape[a])
                roles.append(('sl', a, start, step))
                shape.append(ln)
        if pos >= len(rest):
            roles += [('adv', j) for j in range(len(ashape))]
            shape += list(ashape)
        snaps = {}
        for i in adv:
            a, k = exp[i]
            if k[0] == 'arr':
                if k[1].kind not in ('i', 'O'):
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                n = self.shape[a]
                safety_index(k[1], n)
                snaps[a] = ('arr', k[1].snap(), k[1].shape, n)
            else:
                snaps[a] = ('sel', k[1], k[2])

        def index(ridx):
            vidx = [None] * self.ndim
            aidx = [None] * len(ashape)
            for r, i in zip(roles, ridx):
                if r[0] == 'adv':
                    aidx[r[1]] = i
                elif r[0] == 'sl':
                    i2 = i if r[3] == 1 else sbin('*', i, r[3])
                    vidx[r[1]] = simp(sbin('+', i2, r[2]))
            for a, s in snaps.items():
                if s[0] == 'sel':
                    vidx[a] = s[1].sel(aidx[-1])[s[2]]
                else:
                    _, g, sh, n = s
                    sub = bidx_for(sh, ashape, aidx)
                    vidx[a] = norm_index(g(sub), n)
            return tuple(vidx)
        return shape, index

    def _fancy_get(self, key):
        shape, index = self._fancy_plan(key)
        g = self.snap()
        r = new(shape, lambda i: g(index(i)), self.kind)
        if len(shape) == 0:
            return r.at(())
        return r

    def __setitem__(self, key, value):
        key = self._expand(key)
        v = value if isscalar(value) or value is None or isinstance(value, str) else asarr(value)
        if isinstance(v, Arr) and v.ndim == 0:
            v = v.at(())
        if not any(_advanced(k) for k in key):
            shape, maps = self._basic(key)
            view = Arr(self.buf, shape, maps)
            if isinstance(v, Arr):
                g = bget(v, tuple(shape))
                view.write(None, g)
            else:
                view.write(None, lambda i: v)
            return
        adv = [k for k in key if _advanced(k)]
        if len(adv) == 1 and isinstance(adv[0], Arr) and adv[0].kind == 'b':
            m = adv[0]
            p = [i for i, k in enumerate(key) if k is m][0]
            if any(not (isinstance(k, slice) and k == slice(None)) for i, k in enumerate(key) if i != p):
                raise Unsupported("mask write with other indices")
            for a in range(m.ndim):
                if not same(m.shape[a], self.shape[p + a]) and \
                        not truth(sbin('==', m.shape[a], self.shape[p + a])):
                    raise IndexError("boolean index did not match indexed array")
            mg = m.snap()
            nm = m.ndim
            if not isinstance(v, Arr):
                self.write(lambda i: mg(i[p:p + nm]), lambda i: v)
                return
            s = mask_sel(m)
            shape = list(self.shape[:p]) + [s.count] + list(self.shape[p + nm:])
            g = bget(v, tuple(shape))
            self.write(lambda i: mg(i[p:p + nm]),
                       lambda i: g(tuple(i[:p]) + (s.rank(i[p:p + nm]),) + tuple(i[p + nm:])))
            return
        # integer index arrays: only with concrete result shapes
        shape, index = self._fancy_plan(key)
        if not concrete(shape):
            raise Unsupported("write through a symbolic index array")
        g = bget(v, tuple(shape)) if isinstance(v, Arr) else (lambda i: v)
        for i in all_idx(shape):
            vi = index(i)
            x = g(i)
            k = tuple(vi)
            Arr(self.buf, self.shape, self.maps).write(
                lambda j, k=k: _conj([sbin('==', a, b) for a, b in zip(j, k)]), lambda j, x=x: x)

    # ------------------------------------------------------------ python protocol
    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported("iteration over a symbolic axis")
        return iter([self[k] for k in range(n)])

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len of a symbolic axis")

    def __bool__(self):
        n = self.size
        if isinstance(n, int):
            if n == 1:
                return truth(self.at((0,) * self.ndim))
            if n == 0:
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        if truth(sbin('==', n, 1)):
            return truth(self.at((0,) * self.ndim))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __contains__(self, x):
        return truth(reduce_any(ew2('==', self, x)))

    def __repr__(self):
        return "Arr%r%s" % (self.shape, self.kind)

    def __format__(self, spec):
        return repr(self)

    __str__ = __repr__

    # ------------------------------------------------------------ operators
    def __add__(s, o): return ew2('+', s, o)
    def __radd__(s, o): return ew2('+', o, s)
    def __sub__(s, o): return ew2('-', s, o)
    def __rsub__(s, o): return ew2('-', o, s)
    def __mul__(s, o): return ew2('*', s, o)
    def __rmul__(s, o): return ew2('*', o, s)
    def __truediv__(s, o): return ew2('/', s, o)
    def __rtruediv__(s, o): return ew2('/', o, s)
    def __floordiv__(s, o): return ew2('//', s, o)
    def __mod__(s, o): return ew2('%', s, o)
    def __pow__(s, o): return ew2('**', s, o)
    def __rpow__(s, o): return ew2('**', o, s)
    def __lt__(s, o): return ew2('<', s, o)
    def __le__(s, o): return ew2('<=', s, o)
    def __gt__(s, o): return ew2('>', s, o)
    def __ge__(s, o): return ew2('>=', s, o)
    def __eq__(s, o): return ew2('==', s, o)
    def __ne__(s, o): return ew2('!=', s, o)
    def __and__(s, o): return ew2('&', s, o)
    def __rand__(s, o): return ew2('&', o, s)
    def __or__(s, o): return ew2('|', s, o)
    def __ror__(s, o): return ew2('|', o, s)
    def __xor__(s, o): return ew2('^', s, o)
    def __neg__(s): return ew1('-', s)
    def __pos__(s): return s
    def __abs__(s): return ew1('abs', s)
    def __invert__(s): return ew1('~', s)
    def __matmul__(s, o): return dot(s, o)

    def _inplace(self, op, o):
        r = ew2(op, self, o)
        if not isinstance(r, Arr):
            r = asarr(r)
        if r.kind == 'f' and self.kind in ('i', 'b') or (r.kind == 'i' and self.kind == 'b'):
            raise TypeError("Cannot cast ufunc output from float to int with casting rule 'same_kind'")
        if len(r.shape) > self.ndim:
            raise ValueError("non-broadcastable output operand")
        for x, y in zip(r.shape[::-1], self.shape[::-1]):
            if not same(x, y) and not truth(sbin('==', x, y)):
                raise ValueError("non-broadcastable output operand")
        g = bget(r, self.shape)
        self.write(None, g)
        return self

    def __iadd__(s, o): return s._inplace('+', o)
    def __isub__(s, o): return s._inplace('-', o)
    def __imul__(s, o): return s._inplace('*', o)
    def __itruediv__(s, o): return s._inplace('/', o)
    def __ior__(s, o): return s._inplace('|', o)
    def __iand__(s, o): return s._inplace('&', o)
    def __ipow__(s, o): return s._inplace('**', o)

    # ------------------------------------------------------------ methods
    def copy(self, order=None):
        return new(self.shape, self.snap(), self.kind)

    def astype(self, ty, copy=True):
        from . import fakenp
        k = fakenp.kind_of_dtype(ty)
        g = self.snap()
        return new(self.shape, lambda i: cast(g(i), k), k)

    def flatten(self, order='C'):
        return ravel(self)

    ravel = flatten

    def reshape(self, *shape, order='C'):
        if order != 'C':
            raise Unsupported("order of the elements")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, Arr)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def squeeze(self, axis=None):
        key = []
        for d in self.shape:
            key.append(0 if truth(sbin('==', d, 1)) else slice(None))
        if axis is not None:
            key = [k if a == axis else slice(None) for a, k in enumerate(key)]
        if not key:
            return self
        shape, maps = self._basic(key)
        return Arr(self.buf, shape, maps)

    def sum(self, axis=None, keepdims=False, dtype=None, out=None):
        return reduce(self, 'sum', axis, keepdims)

    def min(self, axis=None, keepdims=False):
        return reduce(self, 'min', axis, keepdims)

    def max(self, axis=None, keepdims=False):
        return reduce(self, 'max', axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return mean(self, axis, keepdims)

    def all(self, axis=None):
        return reduce(self, 'all', axis, False)

    def any(self, axis=None):
        return reduce(self, 'any', axis, False)

    def cumsum(self, axis=None):
        return cumsum(self, axis)

    def diagonal(self):
        n = self.shape[0]
        g = self.snap()
        return new((n,), lambda i: g((i[0], i[0])), self.kind)

    def tolist(self):
        if self.ndim == 0:
            return self.at(())
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def item(self):
        if truth(sbin('==', self.size, 1)):
            return self.at((0,) * self.ndim)
        raise ValueError("can only convert an array of size 1")

    def sort(self, axis=-1):
        if self.ndim != 1:
            raise Unsupported("sort")
        s = sort(self)
        g = s.snap()
        self.write(None, g)

    def argsort(self, axis=-1, kind=None):
        return argsort(self, axis)

    def dot(self, o):
        return dot(self, o)

    def clip(self, lo=None, hi=None):
        from . import fakenp
        return fakenp.clip(self, lo, hi)

    def fill(self, v):
        self[...] = v

    def nonzero(self):
        from . import fakenp
        return fakenp.where(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()


class Flat:
    """a.flat"""

    def __init__(self, a):
        self.a = a

    def __getitem__(self, key):
        return ravel(self.a)[key]

    def __array_arr__(self):
        return ravel(self.a)

    def _arr(self):
        return ravel(self.a)

    @property
    def shape(self):
        raise AttributeError("shape")

    def __iter__(self):
        return iter(ravel(self.a))

    def __len__(self):
        return len(ravel(self.a))

    def __gt__(s, o): return ew2('>', s._arr(), o)
    def __lt__(s, o): return ew2('<', s._arr(), o)
    def __ge__(s, o): return ew2('>=', s._arr(), o)
    def __le__(s, o): return ew2('<=', s._arr(), o)


def _conj(cs):
    r = True
    for c in cs:
        r = sbin('&', r, c)
    return simp(r)


def _as_index(k):
    if isinstance(k, Flat):
        k = k._arr()
    if isinstance(k, Sym):
        if k.kind == 'b':
            return bool(k)
        if k.kind == 'f':
            raise IndexError("only integers are valid indices")
        return k
    if isinstance(k, (list,)):
        a = asarr(k)
        if a.size == 0:
            a = a.astype(int)
        return a
    if isinstance(k, Fr) or isinstance(k, float):
        raise IndexError("only integers are valid indices")
    if isinstance(k, Arr) and k.ndim == 0:
        return k.at(())
    return k


def _advanced(k):
    return isinstance(k, Arr)


def _uses(k):
    if k is None or k is Ellipsis:
        return 0
    if isinstance(k, Arr) and k.kind == 'b':
        return k.ndim
    return 1


def check_bounds(k, n):
    """IndexError, as an explicit outcome of the path"""
    if isinstance(k, bool):
        raise Unsupported("boolean scalar index")
    if isinstance(k, int):
        ok = sbin('<', k, n) if k >= 0 else sbin('<=', -k, n)
    else:
        if is_idx(k.t) and C.idxrange.get(k.t.decl().name()) is not None and \
                same(C.idxrange[k.t.decl().name()], n):
            return
        ok = sbin('&', sbin('<', k, n), sbin('<=', sun('-', n), k))
    ok = simp(ok)
    if ok is True:
        return
    if ok is False or not truth(ok):
        raise IndexError("index out of bounds")


def safety_index(a, n):
    """side obligation: every element of an index array is within bounds"""
    if concrete(a.shape) and isinstance(n, int):
        for i in all_idx(a.shape):
            v = a.at(i)
            if isinstance(v, int) and not (-n <= v < n):
                raise IndexError("index %d is out of bounds for axis with size %d" % (v, n))
        if all(isinstance(a.at(i), int) for i in all_idx(a.shape)):
            return
    idx = tuple(fresh_range('s', d) if not isinstance(d, int) else d for d in a.shape)
    hyp = []
    for i, d in zip(idx, a.shape):
        if isinstance(d, int):
            return      # mixed: not recorded
        hyp += [i.t >= 0, i.t < term(d)]
    v = a.at(idx)
    t = num(v)
    C.side.append(("index in bounds", list(core.path().hyps) + hyp,
                   z3.And(t < term(n), t >= -term(n))))


def fresh_range(base, n):
    c = fresh_idx(base)
    C.idxrange[c.decl().name()] = n
    return Sym(c)


def slice_of(s, n):
    """-> start, step, length"""
    step = 1 if s.step is None else s.step
    if isinstance(step, Sym) or step not in (1, -1):
        if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)):
            a, b, c = s.indices(n)
            return a, c, len(range(a, b, c))
        raise Unsupported("slice step")

    def clean(x):
        x = simp(x) if isinstance(x, Sym) else x
        if isinstance(x, (Fr, float)):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        if isinstance(x, Sym) and x.kind == 'f':
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        return x
    a, b = clean(s.start), clean(s.stop)
    if isinstance(n, int) and (a is None or isinstance(a, int)) and (b is None or isinstance(b, int)):
        a, b, c = slice(a, b, step).indices(n)
        return a, c, len(range(a, b, c))
    if step == -1:
        if a is None and b is None:
            return simp(sbin('-', n, 1)), -1, n
        raise Unsupported("reversed slice with limits")

    def wrap(x):
        if isinstance(x, int):
            if x >= 0:
                return x if (x == 0 or truth(sbin('<=', x, n))) else n
            y = simp(sbin('+', n, x))
            return y if truth(sbin('>=', y, 0)) else 0
        if truth(sbin('<', x, 0)):
            y = simp(sbin('+', n, x))
            return y if truth(sbin('>=', y, 0)) else 0
        return x if truth(sbin('<=', x, n)) else n
    a = 0 if a is None else wrap(a)
    b = n if b is None else wrap(b)
    ln = simp(sbin('-', b, a))
    if isinstance(ln, int):
        ln = max(ln, 0)
    elif not (isinstance(a, int) and a == 0):
        if not truth(sbin('>=', ln, 0)):
            ln = 0
    return a, 1, ln


# ------------------------------------------------------------------ conversion
def asarr(x, kind=None):
    if isinstance(x, Flat):
        x = x._arr()
    if isinstance(x, Arr):
        if kind is not None and kind != x.kind:
            return x.astype(kind)
        return x
    if isinstance(x, (list, tuple, range)) or type(x).__name__ in ('dict_values', 'dict_keys', 'generator'):
        return stack_list(list(x), kind)
    if isscalar(x) or x is None or isinstance(x, str):
        x = exact(x)
        k = kind or kindof(x)
        if k != 'O':
            x = cast(x, k)
        return Arr(Buf((), lambda i: x, k))
    if hasattr(x, '__pydv_arr__'):
        return asarr(x.__pydv_arr__(), kind)
    v = x
    return Arr(Buf((), lambda i: v, 'O'))


def stack_list(xs, kind=None):
    if len(xs) == 0:
        return Arr(Buf((0,), lambda i: 0, kind or 'f'))
    subs = [asarr(x) for x in xs]
    sh = subs[0].shape
    for s in subs[1:]:
        if len(s.shape) != len(sh) or not all(
                same(a, b) or truth(sbin('==', a, b)) for a, b in zip(s.shape, sh)):
            if kind == 'O':
                return objarr(xs)
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous "
                             "shape after 1 dimensions.")
    k = promote(*[s.kind for s in subs])
    if kind is not None:
        k = kind
    gs = [s.snap() for s in subs]
    n = len(gs)

    def get(idx):
        i, rest = idx[0], tuple(idx[1:])
        if isinstance(i, int):
            return cast(gs[i](rest), k)
        r = cast(gs[n - 1](rest), k)
        for j in range(n - 2, -1, -1):
            r = ite(sbin('==', i, j), cast(gs[j](rest), k), r)
        return r
    return new((n,) + tuple(sh), get, k)


def objarr(xs):
    xs = list(xs)
    return Arr(Buf((len(xs),), cells_get((len(xs),), xs), 'O'))


# ------------------------------------------------------------------ broadcasting
def bdim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        if a == 1:
            return b
        if b == 1:
            return a
        raise ValueError("operands could not be broadcast together")
    if same(a, b):
        return a
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if truth(sbin('==', a, b)):
        return a
    if truth(sbin('==', a, 1)):
        return b
    if truth(sbin('==', b, 1)):
        return a
    raise ValueError("operands could not be broadcast together")


def bshape(s1, s2):
    n = max(len(s1), len(s2))
    s1 = (1,) * (n - len(s1)) + tuple(s1)
    s2 = (1,) * (n - len(s2)) + tuple(s2)
    return tuple(bdim(a, b) for a, b in zip(s1, s2))


def bidx_for(sh, full, idx):
    """index into an array of shape sh, broadcast to shape full"""
    off = len(full) - len(sh)
    out = []
    for k, d in enumerate(sh):
        if isinstance(d, int) and d == 1 and not (isinstance(full[off + k], int) and full[off + k] == 1):
            out.append(0)
        elif not isinstance(d, int) and not same(d, full[off + k]) and not known_eq(d, full[off + k]) and truth(sbin('==', d, 1)):
            out.append(0)
        else:
            out.append(idx[off + k])
    return tuple(out)


def bget(a, shape):
    g = a.snap()
    sh = a.shape
    if len(sh) > len(shape):
        lead = sh[:len(sh) - len(shape)]
        if all(isinstance(d, int) and d == 1 for d in lead):
            n = len(lead)
            g0 = g
            sh = sh[n:]
            g = lambda i: g0((0,) * n + tuple(i))
        else:
            raise ValueError("could not broadcast input array")
    full = bshape(sh, shape)
    for x, y in zip(full, shape):
        if not same(x, y) and not truth(sbin('==', x, y)):
            raise ValueError("could not broadcast input array")
    sh2 = sh
    return lambda i: g(bidx_for(sh2, shape, i))


def ew1(op, a, f=None, kind=None):
    a = asarr(a)
    g = a.snap()
    f = f or (lambda v: sun(op, v))
    if kind is None:
        kind = a.kind
        if op == 'abs' and kind == 'b':
            kind = 'b'
    return new(a.shape, lambda i: f(g(i)), kind)


_CMP = ('<', '<=', '>', '>=', '==', '!=')


def ew2(op, a, b, f=None, kind=None):
    a, b = asarr(a), asarr(b)
    sh = bshape(a.shape, b.shape) if op not in ('==', '!=') else _eqshape(a, b)
    if sh is None:
        return op == '!='
    ga, gb = a.snap(), b.snap()
    sa, sb = a.shape, b.shape
    f = f or (lambda x, y: sbin(op, x, y))
    if kind is None:
        if op in _CMP:
            kind = 'b'
        elif op == '/':
            kind = 'f'
        else:
            kind = promote(a.kind, b.kind)
            if op in ('+', '-', '*') and kind == 'b':
                kind = 'b' if op != '-' else 'i'
                if op == '+':
                    f0 = f
                    f = lambda x, y: sbin('|', x, y)
                if op == '*':
                    f = lambda x, y: sbin('&', x, y)
            if op == '**' and kind in ('i',) and b.kind == 'i':
                kind = 'i'
    if len(sh) == 0:
        v = f(ga(()), gb(()))
        return cast(v, kind) if kind != 'O' else v
    return new(sh, lambda i: f(ga(bidx_for(sa, sh, i)), gb(bidx_for(sb, sh, i))), kind)


def _eqshape(a, b):
    return bshape(a.shape, b.shape)      # numpy >= 1.25: comparison of mismatched shapes raises


# ------------------------------------------------------------------ reductions
def _axes(axis, n):
    if axis is None:
        return list(range(n))
    if isinstance(axis, (tuple, list)):
        return sorted(int(a) % n for a in axis)
    if isinstance(axis, Arr):
        return sorted(int(a) % n for a in axis)
    axis = int(axis)
    if not (-n <= axis < n):
        raise IndexError("axis %d is out of bounds for array of dimension %d" % (axis, n))
    return [axis % n]


def reduce(a, what, axis=None, keepdims=False):
    a = asarr(a)
    g = a.snap()
    shape = a.shape
    kind = a.kind
    if what == 'sum' and kind == 'b':
        kind = 'i'
    if what in ('all', 'any'):
        kind = 'b'
    axes = _axes(axis, a.ndim)
    if what in ('min', 'max'):
        n = prod([shape[x] for x in axes])
        if (isinstance(n, int) and n == 0) or (not isinstance(n, int) and not truth(sbin('>', n, 0))):
            raise ValueError("zero-size array to reduction operation which has no identity")
    if len(axes) == a.ndim and a.ndim > 1 and not concrete(shape):
        pass
    for x in reversed(axes):
        g = _reduce1(g, shape, x, what, kind)
        shape = shape[:x] + shape[x + 1:]
    if len(shape) == 0 and not keepdims:
        return cast(g(()), kind) if kind != 'O' else g(())
    r = new(shape, g, kind)
    if keepdims:
        key = tuple(None if x in axes else slice(None) for x in range(a.ndim))
        r = r[key]
    return r


def _reduce1(g, shape, x, what, kind):
    n = shape[x]

    def get(idx):
        def body(j):
            j = j if isinstance(j, int) else Sym(term(j))
            v = g(tuple(idx[:x]) + (j,) + tuple(idx[x:]))
            return cast(v, kind) if kind != 'O' else v
        if what == 'sum':
            return core.mk_sum(n, body)
        if what == 'any':
            return core.mk_any(n, body)
        if what == 'all':
            return core.mk_all(n, body)
        if isinstance(n, int):
            r = body(0)
            for j in range(1, n):
                v = body(j)
                r = _ext2(what, r, v)
            return r
        return core.mk_ext(what.upper(), n, body)
    return get


def _ext2(what, r, v):
    c = sbin('<' if what == 'min' else '>', v, r)
    c = simp(c)
    if c is True:
        return v
    if c is False:
        return r
    return ite(c, v, r)


def reduce_any(a):
    return reduce(a, 'any')


def mean(a, axis=None, keepdims=False):
    a = asarr(a)
    axes = _axes(axis, a.ndim)
    n = prod([a.shape[x] for x in axes])
    s = reduce(a, 'sum', axis, keepdims)
    return core.binop('/', s, cast(n, 'f'))


def cumsum(a, axis=None):
    a = asarr(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    x = _axes(axis, a.ndim)[0]
    g = a.snap()
    kind = 'i' if a.kind == 'b' else a.kind

    def get(idx):
        k = idx[x]
        return core.mk_sum(simp(sbin('+', k, 1)),
                           lambda j: cast(g(tuple(idx[:x]) + (j if isinstance(j, int) else Sym(term(j)),)
                                            + tuple(idx[x + 1:])), kind))
    return new(a.shape, get, kind)


# ------------------------------------------------------------------ flattening
def shape_key(shape):
    return "_".join(str(d) if isinstance(d, int) else "t%d" % term(d).get_id() for d in shape)


def rav(shape, idx):
    """flat index of a multi index (row-major)"""
    if len(shape) == 1:
        return idx[0]
    ints = all(isinstance(d, int) for d in shape[1:])
    if len(shape) == 0:
        return 0
    if ints:
        r = 0
        for d, i in zip(shape, idx):
            r = sbin('+', sbin('*', r, d), i)
        r = simp(r)
        if isinstance(r, int) or all(isinstance(i, int) for i in idx[1:]):
            return r
    name = "rav_" + shape_key(shape)
    for d in shape:
        if not isinstance(d, int):
            C.keep.append(term(d))
    F = z3.Function(name, *([z3.IntSort()] * (len(shape) + 1)))
    # rav(unrav(k)) = k
    ts = [term(i) for i in idx]
    ks = set()
    for a, t in enumerate(ts):
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() == "unrav%d_" % a + shape_key(shape):
            ks.add(t.arg(0).get_id())
        else:
            ks.add(None)
    if len(ks) == 1 and None not in ks:
        return val(ts[0].arg(0))
    dims = [term(d) for d in shape]
    sk = shape_key(shape)
    un = [z3.Function("unrav%d_%s" % (a, sk), z3.IntSort(), z3.IntSort()) for a in range(len(shape))]
    N = term(prod(shape))

    def facts(app):
        inr = z3.And(*[z3.And(0 <= app.arg(a), app.arg(a) < dims[a]) for a in range(len(dims))])
        out = [z3.Implies(inr, z3.And(0 <= app, app < N))]
        out += [z3.Implies(inr, un[a](app) == app.arg(a)) for a in range(len(dims))]
        return out
    C.facts[name] = facts
    return Sym(F(*ts))


def unrav(shape, k):
    if len(shape) == 1:
        return (k,)
    if isinstance(k, int) and concrete(shape[1:]):
        out = []
        for d in reversed(shape[1:]):
            out.insert(0, k % d)
            k //= d
        return tuple([k] + out)
    if concrete(shape[1:]):
        rest, out = term(k), []
        for d in reversed(shape[1:]):
            rest, r = core.polydiv(rest, z3.IntVal(d))
            r = val(z3.simplify(r))
            if not (isinstance(r, int) and 0 <= r < d):
                break
            out.insert(0, r)
        else:
            return tuple([simp(val(rest))] + out)
    sk = shape_key(shape)
    C.ravshapes[sk] = tuple(shape)
    t = term(k)
    if z3.is_app(t) and t.num_args() == len(shape) and t.decl().name() == "rav_" + sk:
        return tuple(val(t.arg(a)) for a in range(len(shape)))
    for d in shape:
        if not isinstance(d, int):
            C.keep.append(term(d))
    I = z3.IntSort()
    N = term(prod(shape))
    dims = [term(d) for d in shape]
    R = z3.Function("rav_" + sk, *([I] * (len(shape) + 1)))
    out = []
    for a in range(len(shape)):
        name = "unrav%d_%s" % (a, sk)
        F = z3.Function(name, I, I)

        def facts(app, a=a):
            x = app.arg(0)
            us = [z3.Function("unrav%d_%s" % (b, sk), I, I)(x) for b in range(len(dims))]
            inr = z3.And(0 <= x, x < N)
            fs = [z3.Implies(inr, z3.And(0 <= app, app < dims[a])), z3.Implies(inr, R(*us) == x)]
            # uniqueness of division with remainder, for the syntactic decomposition x = q * d + r
            qs = []
            rest = x
            for d in reversed(dims[1:]):
                rest, r = core.polydiv(rest, d)
                qs.insert(0, r)
            qs.insert(0, rest)
            if not all(z3.is_int_value(q) and q.as_long() == 0 for q in qs[:-1]):
                dr = z3.And(*[z3.And(0 <= q, q < d) for q, d in zip(qs, dims)])
                fs.append(z3.Implies(dr, z3.And(*[u == q for u, q in zip(us, qs)])))
            elif len(dims) > 1:
                fs.append(z3.Implies(z3.And(0 <= x, x < dims[-1], N > 0), z3.And(*([us[-1] == x] + [u == 0 for u in us[:-1]]))))
            return fs
        C.facts[name] = facts
        out.append(Sym(F(t)))
    return tuple(out)


def ravel(a):
    a = asarr(a)
    if a.ndim == 1:
        return a.copy()
    g = a.snap()
    shape = a.shape
    if a.ndim == 0:
        return new((1,), lambda i: g(()), a.kind)
    return new((prod(shape),), lambda i: g(unrav(shape, i[0])), a.kind)


def reshape(a, shape, order='C'):
    if order != 'C':
        raise Unsupported("order of the elements")
    a = asarr(a)
    shape = [shape] if isscalar(shape) else shape
    shape = [simp(s) if isinstance(s, Sym) else s for s in shape]
    if any(isinstance(s, int) and s == -1 for s in shape):
        known = prod([s for s in shape if not (isinstance(s, int) and s == -1)])
        total = a.size
        if isinstance(known, int) and isinstance(total, int):
            m = total // known
        elif isinstance(known, int) and known == 1:
            m = total
        else:
            raise Unsupported("reshape -1")
        shape = [m if isinstance(s, int) and s == -1 else s for s in shape]
    shape = tuple(shape)
    n = prod(shape)
    if not same(n, a.size) and not truth(sbin('==', n, a.size)):
        raise ValueError("cannot reshape array")
    g = a.snap()
    old = a.shape
    if len(old) == len(shape) and all(same(x, y) for x, y in zip(old, shape)):
        return new(shape, g, a.kind)
    # dropping / adding unit axes
    core_old = [(k, d) for k, d in enumerate(old) if not (isinstance(d, int) and d == 1)]
    core_new = [(k, d) for k, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    if len(core_old) == len(core_new) and all(same(x[1], y[1]) for x, y in zip(core_old, core_new)):
        def get(idx):
            out = [0] * len(old)
            for (ko, _), (kn, _) in zip(core_old, core_new):
                out[ko] = idx[kn]
            return g(tuple(out))
        return new(shape, get, a.kind)
    return new(shape, lambda i: g(unrav(old, rav(shape, i)) if len(old) else ()), a.kind)


# ------------------------------------------------------------------ masks
class MaskSel:
    """the increasing enumeration of the true cells of a mask"""

    def __init__(self, mask):
        self.shape = mask.shape
        g = mask.snap()
        self.g = g
        nd = len(self.shape)
        self.conc = None
        if concrete(self.shape):
            cells = [(i, simp(g(i))) for i in all_idx(self.shape)]
            if all(isinstance(v, bool) for _, v in cells):
                self.conc = [i for i, v in cells if v]
                self.count = len(self.conc)
                return
        # canonical name: depends on the mask term only
        ph = [fresh_range('c', self.shape[a]).t for a in range(nd)]
        t = z3.simplify(boolt(core.closed_body(lambda _: g(tuple(Sym(p) for p in ph)), None)))
        ps = [p for p in core._idx_params(t, z3.Int("none!")) if not any(p.eq(q) for q in ph)]
        sub = [(p, core._placeholder(2000 + k)) for k, p in enumerate(ps)]
        sub += [(p, core._placeholder(1000 + k)) for k, p in enumerate(ph)]
        named = core.ordered(z3.substitute(t, *sub) if sub else t, full=True)
        t = z3.substitute(named, *[(b, a) for a, b in sub]) if sub else named
        key = ('mask', named.get_id(), len(ps), shape_key(self.shape))
        C.keep += [t, named]
        for d in self.shape:
            if not isinstance(d, int):
                C.keep.append(term(d))
        if key not in C.memo and not ps and not z3.is_true(t) and not z3.is_false(t):
            o = self._same_as(ph, t)
            if o is not None:
                self.everything, self.id, self.ps, self.np, self.F, self.R, self.count = False, o.id, o.ps, o.np, o.F, o.R, o.count
                return
        if key not in C.memo:
            C.memo[key] = "m%d" % len(C.memo)
        self.id = C.memo[key]
        self.ps = ps
        self.ph, self.t = ph, t
        I = z3.IntSort()
        self.np = len(ps)
        self.F = [z3.Function("sel%d_%s" % (a, self.id), *([I] * (self.np + 2))) for a in range(nd)]
        self.R = z3.Function("rank_%s" % self.id, *([I] * (self.np + nd + 1)))
        self.everything = z3.is_true(t)
        if self.everything:
            self.count = prod(self.shape)
        else:
            self.count = self._count(g)
        body = t

        def inst(params, idx):
            return z3.substitute(body, *([(p, q) for p, q in zip(ps, params)] + list(zip(ph, idx))))
        cnt = self.count
        cparams = ps

        def countof(params):
            c = term(cnt)
            return z3.substitute(c, *list(zip(cparams, params))) if cparams else c
        dims = [term(d) for d in self.shape]
        for a in range(nd):
            def facts(app, a=a):
                params = [app.arg(k) for k in range(self.np)]
                k = app.arg(self.np)
                idx = [f(*(params + [k])) for f in self.F]
                r = z3.And(0 <= k, k < countof(params))
                out = [z3.Implies(r, z3.And(0 <= app, app < dims[a])), z3.Implies(r, inst(params, idx)),
                       z3.Implies(r, self.R(*(params + idx)) == k)]
                if nd == 1:
                    out.append(z3.Implies(r, app >= k))
                return out
            C.facts["sel%d_%s" % (a, self.id)] = facts
        if nd == 1:
            def pf(x, y):
                k, l = x.arg(self.np), y.arg(self.np)
                params = [x.arg(j) for j in range(self.np)]
                if any(not x.arg(j).eq(y.arg(j)) for j in range(self.np)):
                    return []
                n = countof(params)
                return [z3.Implies(z3.And(0 <= k, k < l, l < n), x < y),
                        z3.Implies(z3.And(0 <= l, l < k, k < n), y < x)]
            C.pairfacts["sel0_%s" % self.id] = pf

        def rfacts(app):
            params = [app.arg(k) for k in range(self.np)]
            idx = [app.arg(self.np + a) for a in range(nd)]
            c = z3.And(*([z3.And(0 <= i, i < d) for i, d in zip(idx, dims)] + [inst(params, idx)]))
            out = [z3.Implies(c, z3.And(0 <= app, app < countof(params)))]
            out += [z3.Implies(c, self.F[a](*(params + [app])) == idx[a]) for a in range(nd)]
            return out
        C.facts["rank_%s" % self.id] = rfacts
        ct = self.count.t if isinstance(self.count, Sym) else None
        C.masks[self.id] = dict(obj=self, sk=shape_key(self.shape), R=self.R, np=self.np, nd=nd, ps=ps, sel=[f.name() for f in self.F],
                                count={x.decl().name() for x in core.subterms([ct])
                                       if z3.is_app(x) and x.decl().name() in C.sumdefs} if ct is not None else set())

    def _same_as(self, ph, t):
        """an earlier mask that is true at the same cells under the conditions of this path: the same enumeration"""
        from . import prover
        for m in list(C.masks.values()):
            o = m['obj']
            if m['sk'] != shape_key(self.shape) or o.np or len(o.ph) != len(ph):
                continue
            ot = z3.substitute(o.t, *list(zip(o.ph, ph)))
            hy = list(core.path().hyps)
            for p, d in zip(ph, self.shape):
                hy += [p >= 0, p < term(d)]
            if z3.is_true(z3.simplify(ot == t)) or prover.attempt(prover.flat(hy), z3.simplify(ot == t), [], 0.7, quick=True)[0] == 'proved':
                return o
        return None

    def _count(self, g):
        shape = self.shape
        gg = lambda i: cast(g(i), 'i')
        for x in reversed(range(len(shape))):
            gg = _reduce1(gg, shape, x, 'sum', 'i')
            shape = shape[:x] + shape[x + 1:]
        n = gg(())
        if isinstance(n, Sym):
            assume(z3.And(n.t >= 0, n.t <= term(prod(self.shape))))
        return n

    def sel(self, k):
        if self.conc is not None:
            if isinstance(k, int):
                return self.conc[k]
            out = []
            for a in range(len(self.shape)):
                r = self.conc[-1][a] if self.conc else 0
                for j in range(len(self.conc) - 2, -1, -1):
                    r = ite(sbin('==', k, j), self.conc[j][a], r)
                out.append(r)
            return tuple(out)
        if self.everything:
            return unrav(self.shape, k)
        t = term(k)
        if z3.is_app(t) and t.decl().name() == self.R.name():
            ok = all(t.arg(j).eq(p) for j, p in enumerate(self.ps))
            if ok:
                return tuple(val(t.arg(self.np + a)) for a in range(len(self.shape)))
        return tuple(Sym(f(*(self.ps + [t]))) for f in self.F)

    def rank(self, idx):
        if self.conc is not None:
            if all(isinstance(i, int) for i in idx):
                return self.conc.index(tuple(idx)) if tuple(idx) in self.conc else 0
            r = 0
            for j, c in enumerate(self.conc):
                r = ite(_conj([sbin('==', a, b) for a, b in zip(idx, c)]), j, r)
            return r
        if self.everything:
            return rav(self.shape, tuple(idx))
        ts = [term(i) for i in idx]
        names = ["sel%d_%s" % (a, self.id) for a in range(len(ts))]
        if all(z3.is_app(t) and t.decl().name() == n for t, n in zip(ts, names)) and \
                len({t.arg(self.np).get_id() for t in ts}) == 1:
            return val(ts[0].arg(self.np))
        return Sym(self.R(*(self.ps + ts)))


def mask_sel(m):
    return MaskSel(m)


# ------------------------------------------------------------------ sorting
def _canon1(g, n):
    ph = fresh_range('c', n).t
    t = z3.simplify(num(core.closed_body(lambda _: g((Sym(ph),)), None)))
    return ph, t


def argsort(a, axis=-1):
    a = asarr(a)
    if axis is None:
        a = ravel(a)
        axis = -1
    if a.ndim != 1:
        x = axis % a.ndim
        lead = [d for k, d in enumerate(a.shape) if k != x]
        if not concrete(lead):
            raise Unsupported("argsort along an axis of a symbolic array")
        table = {}
        for li in all_idx(lead):
            key = tuple(list(li[:x]) + [slice(None)] + list(li[x:]))
            table[li] = argsort(a[key]).snap()
        return new(a.shape, lambda i: table[tuple(i[:x]) + tuple(i[x + 1:])]((i[x],)), 'i')
    n = a.shape[0]
    g = a.snap()
    if isinstance(n, int) and all(not isinstance(g((k,)), Sym) for k in range(n)):
        vals = [g((k,)) for k in range(n)]
        order = sorted(range(n), key=lambda k: vals[k])
        return asarr(order)
    P, Q, ps = perm_of(g, n)
    return new((n,), lambda i: Sym(P(*(ps + [term(i[0])]))), 'i')


def perm_of(g, n):
    ph, t = _canon1(g, n)
    ps = [p for p in core._idx_params(t, z3.Int("none!")) if not p.eq(ph)]
    sub = [(p, core._placeholder(2000 + k)) for k, p in enumerate(ps)] + [(ph, core._placeholder(1000))]
    ct = z3.substitute(t, *sub) if sub else t
    C.keep += [t, ct, term(n)]
    key = ('perm', ct.get_id(), term(n).get_id(), len(ps))
    if key not in C.memo:
        C.memo[key] = "p%d" % len(C.memo)
    pid = C.memo[key]
    I = z3.IntSort()
    m = len(ps)
    P = z3.Function("perm_" + pid, *([I] * (m + 2)))
    Q = z3.Function("permi_" + pid, *([I] * (m + 2)))
    nt = term(n)

    def body(params, k):
        return z3.substitute(t, *([(p, q) for p, q in zip(ps, params)] + [(ph, k)]))

    def pf(app):
        params = [app.arg(j) for j in range(m)]
        k = app.arg(m)
        r = z3.And(0 <= k, k < nt)
        return [z3.Implies(r, z3.And(0 <= app, app < nt)), z3.Implies(r, Q(*(params + [app])) == k)]

    def qf(app):
        params = [app.arg(j) for j in range(m)]
        k = app.arg(m)
        r = z3.And(0 <= k, k < nt)
        return [z3.Implies(r, z3.And(0 <= app, app < nt)), z3.Implies(r, P(*(params + [app])) == k)]

    def pair(x, y):
        if any(not x.arg(j).eq(y.arg(j)) for j in range(m)):
            return []
        params = [x.arg(j) for j in range(m)]
        k, l = x.arg(m), y.arg(m)
        bx, by = body(params, x), body(params, y)
        return [z3.Implies(z3.And(0 <= k, k <= l, l < nt), bx <= by),
                z3.Implies(z3.And(0 <= l, l <= k, k < nt), by <= bx),
                z3.Implies(z3.And(0 <= k, k < nt, 0 <= l, l < nt, k != l), x != y)]
    C.facts["perm_" + pid] = pf
    C.facts["permi_" + pid] = qf
    C.pairfacts["perm_" + pid] = pair
    C.perms["perm_" + pid] = (P, Q, ps, n, lambda k: g((k,)))
    C.assumed.add("numpy.argsort: a permutation of the indices that puts the values in nondecreasing order")
    return P, Q, ps


def sort(a, axis=-1):
    a = asarr(a)
    idx = argsort(a, axis)
    if a.ndim == 1:
        return a[idx]
    return take_along_axis(a, idx, axis)


def take_along_axis(a, idx, axis):
    a, idx = asarr(a), asarr(idx)
    if axis is None:
        return ravel(a)[idx]
    x = axis % a.ndim
    if a.ndim != idx.ndim:
        raise ValueError("`indices` and `arr` must have the same number of dimensions")
    g, gi = a.snap(), idx.snap()
    n = a.shape[x]
    # the other axes broadcast
    shape = []
    for k in range(a.ndim):
        shape.append(idx.shape[k] if k == x else bdim(a.shape[k], idx.shape[k]))
    shape = tuple(shape)

    def get(i):
        j = norm_index(gi(bidx_for(idx.shape, shape, i)), n)
        ii = bidx_for(a.shape[:x] + (shape[x],) + a.shape[x + 1:], shape, i)
        return g(tuple(ii[:x]) + (j,) + tuple(ii[x + 1:]))
    return new(shape, get, a.kind)


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew2('*', a, b)
    ga, gb = a.snap(), b.snap()
    n = a.shape[-1]
    m = b.shape[-2] if b.ndim > 1 else b.shape[0]
    if not same(n, m) and not truth(sbin('==', n, m)):
        raise ValueError("shapes not aligned")
    la = a.shape[:-1]
    lb = (b.shape[:-2] + b.shape[-1:]) if b.ndim > 1 else ()
    shape = tuple(la) + tuple(lb)

    def get(i):
        ia = tuple(i[:len(la)])
        ib = tuple(i[len(la):])

        def body(j):
            j = j if isinstance(j, int) else Sym(term(j))
            bi = (tuple(ib[:-1]) + (j,) + tuple(ib[-1:])) if b.ndim > 1 else (j,)
            return sbin('*', ga(ia + (j,)), gb(bi))
        return core.mk_sum(n, body)
    kind = promote(a.kind, b.kind)
    if not shape:
        return get(())
    return new(shape, get, kind)


def concatenate(xs, axis=0):
    xs = [asarr(x) for x in xs]
    if axis is None:
        xs = [ravel(x) for x in xs]
        axis = 0
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    x = axis % nd
    for s in xs:
        if s.ndim != nd:
            raise ValueError("all the input array dimensions must match")
    base = xs[0]
    for s in xs[1:]:
        for k in range(nd):
            if k != x and not same(s.shape[k], base.shape[k]) and \
                    not truth(sbin('==', s.shape[k], base.shape[k])):
                raise ValueError("all the input array dimensions except for the concatenation axis must match")
    kind = promote(*[s.kind for s in xs])
    gs = [s.snap() for s in xs]
    lens = [s.shape[x] for s in xs]
    offs = [0]
    for l in lens:
        offs.append(simp(sbin('+', offs[-1], l)))
    shape = tuple(base.shape[:x]) + (offs[-1],) + tuple(base.shape[x + 1:])

    def get(idx):
        i = idx[x]
        r = None
        for k in range(len(gs) - 1, -1, -1):
            if isinstance(lens[k], int) and lens[k] == 0:
                continue
            if isinstance(i, int) and isinstance(offs[k], int) and isinstance(offs[k + 1], int):
                if offs[k] <= i < offs[k + 1]:
                    return cast(gs[k](tuple(idx[:x]) + (i - offs[k],) + tuple(idx[x + 1:])), kind)
                continue
            if isinstance(i, int) and isinstance(offs[k], int) and i < offs[k]:
                continue
            c = True if r is None else simp(sbin('>=', i, offs[k]))
            if r is None:
                j = simp(sbin('-', i, offs[k]))
                r = cast(gs[k](tuple(idx[:x]) + (j,) + tuple(idx[x + 1:])), kind)
                continue
            lt = simp(sbin('<', i, offs[k + 1]))
            if lt is False:
                continue
            j = simp(sbin('-', i, offs[k]))
            v = cast(gs[k](tuple(idx[:x]) + (j,) + tuple(idx[x + 1:])), kind)
            r = v if lt is True else ite(lt, v, r)
        return r
    return new(shape, get, kind)


def uf_array(name, shape, kind, facts=None, pairfacts=None, params=()):
    """array of unknown elements"""
    I = z3.IntSort()
    S = {'f': z3.RealSort(), 'i': I, 'b': z3.BoolSort()}[kind]
    shape = tuple(shape)
    if facts is not None:
        C.facts[name] = facts
    if pairfacts is not None:
        C.pairfacts[name] = pairfacts
    if len(shape) == 0:
        c = z3.Const(name, S)
        return Arr(Buf((), lambda i: Sym(c), kind, None))
    F = z3.Function(name, *([I] * len(shape) + [S]))
    C.arrays[name] = (F, shape, kind)

    def get(idx):
        return Sym(F(*[term(i) for i in idx]))
    return Arr(Buf(shape, memoized(get), kind, None))
