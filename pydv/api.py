"""The specification language: arrays of unknown contents, calls of the real functions, and obligations."""
import time
import traceback
import inspect
import z3
from fractions import Fraction as Fr
from . import core, arrays, fakenp, prover, loops
from .core import (C, Sym, Unsupported, PydvAbort, PathAbort, term, val, real, num, boolt, sbin, fresh_idx, assume, decide,
                   ite)
from .arrays import Arr, asarr, simp

_WORLD = [None]


def world():
    if _WORLD[0] is None:
        from . import loader
        C.reset()
        C.paths.append(core.Path([]))
        _WORLD[0] = loader.World()
        C.paths.pop()
        for w in _WORLD[0].kale.values():
            pass
        base = dict(facts=dict(C.facts), pair=dict(C.pairfacts))
        _WORLD[0].base = base
    return _WORLD[0]


def z(v):
    """value -> real z3 term"""
    return real(core.exact(v) if not isinstance(v, Sym) else v)


def zb(v):
    return boolt(v)


class Missing(Exception):
    """the function under contract does not exist (any more)"""


class E:
    """one obligation set: run `spec(E)` on every path"""

    def __init__(self, spec, name, tier='quick', budget=20.0, depth=2):
        self.spec, self.name = spec, name
        self.results = []      # dict(name, status, backend, s)
        self.inputs = {}
        self.called = []
        self.budget = budget
        self.depth = depth
        self.tier = tier

    # ---------------------------------------------------------------- inputs
    def dim(self, name, lo=1, hi=None):
        c = z3.Int(name)
        assume(c >= lo)
        if hi is not None:
            assume(c <= hi)
        C.nonneg_names.add(name)
        self.inputs[name] = ('dim', c)
        return Sym(c)

    def real(self, name, pos=False, nonneg=False):
        c = z3.Real(name)
        if pos:
            assume(c > 0)
        if nonneg:
            assume(c >= 0)
        self.inputs[name] = ('real', c)
        return Sym(c)

    def int(self, name, lo=None, hi=None):
        c = z3.Int(name)
        if lo is not None:
            assume(c >= lo)
        if hi is not None:
            assume(c <= term(hi))
        self.inputs[name] = ('int', c)
        return Sym(c)

    def bool(self, name):
        return Sym(z3.Bool(name))

    def array(self, name, shape, pos=False, nonneg=False, inc=False, nondec=False, kind='f', fact=None, pairfact=None):
        """array with arbitrary elements; inc: strictly increasing (1D)"""
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        shape = tuple(simp(s) for s in shape)

        def facts(app):
            out = []
            if pos:
                out.append(app > 0)
            if nonneg:
                out.append(app >= 0)
            if fact is not None:
                out += fact(Sym(app), [Sym(app.arg(i)) for i in range(app.num_args())])
            rng = z3.And(*[z3.And(app.arg(i) >= 0, app.arg(i) < term(d)) for i, d in enumerate(shape)])
            return [z3.Implies(rng, zb(o)) for o in out]

        def pf(a, b):
            if pairfact is not None:
                rng = z3.And(*[z3.And(t.arg(i) >= 0, t.arg(i) < term(d)) for t in (a, b) for i, d in enumerate(shape)])
                ia, ib = ([Sym(t.arg(i)) for i in range(t.num_args())] for t in (a, b))
                return [z3.Implies(rng, zb(o)) for o in pairfact(Sym(a), ia, Sym(b), ib) + pairfact(Sym(b), ib, Sym(a), ia)]
            x, y = a.arg(0), b.arg(0)
            n = term(shape[0])
            if inc:
                return [z3.Implies(z3.And(0 <= x, x < y, y < n), a < b), z3.Implies(z3.And(0 <= y, y < x, x < n), b < a)]
            return [z3.Implies(z3.And(0 <= x, x < y, y < n), a <= b), z3.Implies(z3.And(0 <= y, y < x, x < n), b <= a)]
        a = arrays.uf_array(name, shape, kind, facts=facts if (pos or nonneg or fact) else None,
                            pairfacts=pf if (inc or nondec or pairfact) else None)
        if arrays.concrete(shape):
            g = a.snap()
            b = arrays.Buf(shape, arrays.cells_get(shape, [g(i) for i in arrays.all_idx(shape)]), kind, name)
        else:
            b = arrays.Buf(shape, a.buf.get, kind, name)
        self.inputs[name] = ('array', name, shape, kind)
        return Arr(b)

    def const(self, x, kind=None):
        return asarr(x, kind).copy()

    def idx(self, n, base='i', lo=0):
        """an arbitrary index 0 <= i < n"""
        n = simp(n)
        if isinstance(n, int) and False:
            pass
        s = arrays.fresh_range(base, n)
        if isinstance(n, int) and n <= 0:
            raise PathAbort("empty range")
        assume(z3.And(s.t >= lo, s.t < term(n)))
        return s

    def forall_idx(self, shape):
        """tuple of arbitrary indices; concrete small dimensions are enumerated by branching"""
        return tuple(self.idx(d) for d in shape)

    def assume(self, c):
        assume(c)

    # ---------------------------------------------------------------- calls
    def fn(self, dotted):
        w = world()
        try:
            f = w.get(dotted)
        except (AttributeError, FileNotFoundError):
            raise Missing(dotted)
        return f

    def call(self, dotted, *args, **kw):
        f = self.fn(dotted) if isinstance(dotted, str) else dotted
        if isinstance(dotted, str) and dotted not in self.called:
            self.called.append(dotted)
        return f(*args, **kw)

    def loop(self, function, rule):
        """rule(L) for the while loop of this function: havoc, assume the invariant; run the body and prove it (True) or leave (False)"""
        loops.WHILE[function] = rule

    def cannot(self, why):
        """the code is written in a way that this contract does not cover"""
        raise Unsupported(why)

    def under(self, *names):
        """functions that are verified as part of this obligation (inlined bodies)"""
        for n in names:
            self.fn(n)
            if n not in self.called:
                self.called.append(n)

    def stub(self, dotted, f):
        """replace a callee by its contract for the rest of this obligation set"""
        w = world()
        parts = dotted.split('.')
        o = w.get('.'.join(parts[:-1])) if len(parts) > 2 else w.mod(parts[0])
        if not hasattr(o, parts[-1]):
            raise Missing(dotted)
        if (o, parts[-1]) not in [(a, b) for a, b, _ in self._stubs]:
            self._stubs.append((o, parts[-1], o.__dict__[parts[-1]]))
        setattr(o, parts[-1], f)

    @property
    def np(self):
        """the array library, for ghost computations"""
        return world().mods['numpy']

    def real_const(self, base, e):
        return Sym(z3.RealVal(str(Fr(base) ** e)))

    def unravel(self, k, shape):
        """index tuple of position k in row-major order"""
        return tuple(arrays.unrav(tuple(simp(d) for d in shape), k))

    def flat(self, shape, idx):
        """row-major position of an index tuple"""
        return arrays.rav(tuple(simp(d) for d in shape), tuple(idx))

    @property
    def cdf(self):
        return fakenp.ncdf

    @property
    def pi(self):
        return Sym(core.PI)

    def gamma(self, x):
        return fakenp.gamma(x)

    def pow(self, x, y):
        return core.spow(x, y)

    @property
    def ppf(self):
        return fakenp.ppf

    # ---------------------------------------------------------------- specification terms
    concrete = False

    def exp(self, x):
        return core.exp(x)

    def close(self, a, b):
        """equality (up to rounding when run on floats)"""
        return core.sbin('==', a, b)

    def sq(self, x):
        return x * x

    def build(self, shape, f, kind='f'):
        """array of this shape with element f(*i)"""
        return arrays.new(tuple(simp(d) for d in shape), lambda idx: f(*idx), kind)

    def function(self, name, n=1):
        """an arbitrary function of n numbers"""
        f = z3.Function(name, *([z3.RealSort()] * (n + 1)))
        return lambda *t: core.Sym(f(*[core.real(x) for x in t]))

    def log(self, x):
        return core.log(x)

    def log10(self, x):
        return core.log10(x)

    def p10(self, x):
        return core.pow10(x)

    def sqrt(self, x):
        return core.sqrt(x)

    def max(self, a, b):
        return ite(sbin('>=', a, b), a, b)

    def min(self, a, b):
        return ite(sbin('<=', a, b), a, b)

    def abs(self, a):
        return core.sun('abs', a)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def land(self, *cs):
        return Sym(z3.And(*[zb(c) for c in cs]))

    def lor(self, *cs):
        return Sym(z3.Or(*[zb(c) for c in cs]))

    def lnot(self, c):
        return Sym(z3.Not(zb(c)))

    def imp(self, a, b):
        return Sym(z3.Implies(zb(a), zb(b)))

    def iff(self, a, b):
        return Sym(zb(a) == zb(b))

    def asarr(self, x):
        return x.plain() if isinstance(x, fakenp.Masked) else asarr(x)

    def hidden(self, x):
        """the mask of a masked array (None: not masked)"""
        return x.hidden if isinstance(x, fakenp.Masked) else None

    def le(self, name, a, b):
        self.prove(name, sbin('<=', fakenp.sc(a), fakenp.sc(b)))

    def is_inf(self, a):
        return core.nonfinite(a)

    def sum(self, n, f):
        return core.mk_sum(simp(n), lambda j: f(j if isinstance(j, int) else Sym(term(j))))

    def any(self, n, f):
        return core.mk_any(simp(n), lambda j: f(j if isinstance(j, int) else Sym(term(j))))

    def all(self, n, f):
        return core.mk_all(simp(n), lambda j: f(j if isinstance(j, int) else Sym(term(j))))

    def prove(self, name, goal):
        p = core.path()
        g = zb(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        self._check(name, list(p.hyps), g)

    def lemma(self, name, goal):
        """proved here, used afterwards"""
        self.prove(name, goal)
        assume(zb(goal) if not isinstance(goal, bool) else z3.BoolVal(goal))

    def rule(self, name, args, when, then):
        """for all numbers x: when(x) implies then(x) (proved on its own); used at these arguments"""
        xs = [Sym(z3.FreshReal('r!')) for _ in args]
        self._check(name + ': rule', [zb(h) for h in when(*xs)], zb(then(*xs)))
        for h in when(*args):
            self.prove(name, h)
        assume(zb(then(*args)))

    def eq(self, name, a, b):
        a, b = fakenp.sc(a), fakenp.sc(b)
        if core.nonfinite(a) or core.nonfinite(b):
            self._check(name, list(core.path().hyps), z3.BoolVal(core.nonfinite(a) and core.nonfinite(b) and a == b))
            return
        if isinstance(a, Sym) and a.kind == 'b' or isinstance(b, Sym) and b.kind == 'b' or isinstance(a, bool) or isinstance(b, bool):
            self._check(name, list(core.path().hyps), zb(a) == zb(b))
            return
        x, y = core.pair(core.exact(a), core.exact(b))
        self._check(name, list(core.path().hyps), x == y)

    def arr_eq(self, name, a, shape, f):
        """a has this shape and element i is f(*i)"""
        a = asarr(a)
        if len(a.shape) != len(shape):
            self._check(name + ": shape", list(core.path().hyps), z3.BoolVal(False))
            return
        for x, y in zip(a.shape, shape):
            self.eq(name + ": shape", x, y)
        i = [self.idx(d) if not isinstance(simp(d), int) else None for d in shape]
        conc = [range(simp(d)) if isinstance(simp(d), int) else [None] for d in shape]
        import itertools
        for c in itertools.product(*conc):
            ix = tuple(k if k is not None else s for k, s in zip(c, i))
            self.eq(name, a.at(ix), f(*ix))

    def shape_is(self, name, a, shape):
        a = asarr(a)
        ok = len(a.shape) == len(shape)
        if not ok:
            self._check(name, list(core.path().hyps), z3.BoolVal(False))
            return
        for x, y in zip(a.shape, shape):
            self.eq(name, x, y)

    def unchanged(self, name, *arrs):
        """frame: no input buffer was written"""
        bad = [a.buf.name for a in arrs if a.buf.name in C.written]
        self._check(name, list(core.path().hyps), z3.BoolVal(not bad))

    # ---------------------------------------------------------------- whole values
    def keep(self, x, memo=None):
        """a copy of a value and of everything it consists of"""
        memo = {} if memo is None else memo
        if isinstance(x, Arr):
            return ('array', x, x.buf, x.buf.version, x.shape, x.kind, x.snap())
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, x, [self.keep(v, memo) for v in x])
        if isinstance(x, dict):
            return ('dict', x, {k: self.keep(v, memo) for k, v in x.items()})
        if isinstance(x, fakenp.RegularGridInterpolator):
            return ('tuple', x, [self.keep(v, memo) for v in (x.points, x.values, x.bounds_error, x.fill_value, x.method)])
        if hasattr(x, '__dict__') and not isinstance(x, (type, Sym)) and type(x).__module__.startswith('kalepy'):
            if id(x) in memo:
                return ('again', x, memo[id(x)])
            memo[id(x)] = len(memo)
            return ('object', x, type(x).__name__, {k: self.keep(v, memo) for k, v in x.__dict__.items()})
        return ('value', x)

    def alike(self, a, b):
        """what has to hold for two kept values to be equal (None: they are of different structure)"""
        if a[0] != b[0]:
            return None
        if a[0] == 'array':
            if len(a[4]) != len(b[4]) or a[5] != b[5]:
                return None
            if any(isinstance(simp(x), int) and isinstance(simp(y), int) and simp(x) != simp(y) for x, y in zip(a[4], b[4])):
                return None
            if a[2] is b[2] and a[3] == b[3] and a[1] is b[1]:
                return []
            out = [sbin('==', x, y) for x, y in zip(a[4], b[4])]
            conc = [range(simp(d)) if isinstance(simp(d), int) and simp(d) <= 8 else None for d in a[4]]
            new = [None if c is not None else self.idx(d) for c, d in zip(conc, a[4])]
            import itertools
            for ix in itertools.product(*[c if c is not None else [v] for c, v in zip(conc, new)]):
                g = self._equal(a[6](ix), b[6](ix))
                if g is None:
                    return None
                out += g
            return out
        if a[0] in ('list', 'tuple'):
            if len(a[2]) != len(b[2]):
                return None
            return self._all([self.alike(x, y) for x, y in zip(a[2], b[2])])
        if a[0] == 'dict':
            if list(a[2]) != list(b[2]):
                return None
            return self._all([self.alike(a[2][k], b[2][k]) for k in a[2]])
        if a[0] == 'object':
            if a[2] != b[2] or set(a[3]) != set(b[3]):
                return None
            return self._all([self.alike(a[3][k], b[3][k]) for k in a[3]])
        if a[0] == 'again':
            return [] if a[2] == b[2] else None
        return self._equal(a[1], b[1])

    def _all(self, parts):
        out = []
        for g in parts:
            if g is None:
                return None
            out += g
        return out

    def _equal(self, x, y):
        if x is y:
            return []
        if isinstance(x, Arr) and isinstance(y, Arr):
            return self.alike(self.keep(x), self.keep(y))
        x, y = fakenp.sc(x), fakenp.sc(y)
        num = lambda v: isinstance(v, (Sym, int, float)) or type(v).__name__ in ('Fraction', 'bool')
        if num(x) and num(y):
            if core.nonfinite(x) or core.nonfinite(y):
                return [] if core.nonfinite(x) and core.nonfinite(y) and (x == y or x != x and y != y) else None
            isb = lambda v: isinstance(v, bool) or isinstance(v, Sym) and v.kind == 'b'
            if isb(x) or isb(y):
                return [Sym(zb(x) == zb(y))] if isb(x) and isb(y) else None
            a, b = core.pair(core.exact(x), core.exact(y))
            return [Sym(a == b)]
        if type(x) is not type(y):
            return None
        if isinstance(x, (list, tuple, dict)):
            return self.alike(self.keep(x), self.keep(y))
        try:
            return [] if bool(x == y) else None
        except Exception:
            return None

    def known(self, goals):
        """do these hold on this path (a quick test; False when in doubt)"""
        if goals is None:
            return False
        gs = [z3.simplify(zb(g)) if not isinstance(g, bool) else z3.BoolVal(g) for g in goals]
        if any(z3.is_false(g) for g in gs):
            return False
        gs = [g for g in gs if not z3.is_true(g)]
        if not gs:
            return True
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(*[h for h in core.path().hyps])
        s.add(z3.Not(z3.And(*gs)))
        return s.check() == z3.unsat

    def same(self, name, a, b):
        """two kept values are equal"""
        gs = self.alike(a, b)
        if gs is None:
            self._check(name, list(core.path().hyps), z3.BoolVal(False))
            return
        gs = [zb(g) if not isinstance(g, bool) else z3.BoolVal(g) for g in gs]
        self._check(name, list(core.path().hyps), z3.simplify(z3.And(*gs)) if gs else z3.BoolVal(True))

    def kept(self, name, old):
        """the value is still what it was"""
        self.same(name, old, self.keep(old[1]))

    def events(self, kind=None):
        return [e for e in C.events if kind is None or e['kind'] == kind]

    def largest(self, m, last):
        """the nested maximum m is at least the entry last[0], last[1], .. and is one of the entries (instances of the definition of max)"""
        from .core import is_binder, binder_body
        up = lo = m.t if isinstance(m, Sym) else m
        k = 0
        ws = []
        while is_binder(up, 'MAX'):
            n = up.arg(up.num_args() - 1)
            b = binder_body(up, core.term(last[k]))
            w = z3.Function('wit_' + lo.decl().name(), *([z3.IntSort()] * lo.num_args() + [z3.IntSort()]))(*lo.children())
            c = binder_body(lo, w)
            assume(z3.Implies(z3.And(core.term(last[k]) >= 0, core.term(last[k]) < n), up >= b))
            assume(z3.Implies(lo.arg(lo.num_args() - 1) > 0, z3.And(w >= 0, w < lo.arg(lo.num_args() - 1), lo == c)))
            up, lo, k = z3.simplify(b), z3.simplify(c), k + 1
            ws.append(Sym(w))
        return ws

    def let(self, x):
        """a name for a real expression"""
        v = z3.FreshReal('let!')
        assume(v == core.real(x))
        return Sym(v)

    def interpolation(self, event, i):
        """the cell, the coordinate and the ends of the cell (per dimension) and the corner values used at point i"""
        r, xi = event['rgi'], event['xi']
        g = xi.snap()
        xs = [g((i,))] if xi.ndim == 1 and r.D == 1 else [g((i, k)) for k in range(r.D)]
        seg = [Sym(S(z3.simplify(core.real(x)))) for S, x in zip(r.seg, xs)]
        at = [(x, r.gp[k]((seg[k],)), r.gp[k]((sbin('+', seg[k], 1),))) for k, x in enumerate(xs)]
        return seg, at, lambda c: r.gv(tuple(sbin('+', s, q) for s, q in zip(seg, c)))

    def raises(self, name, f):
        try:
            f()
        except PydvAbort:
            raise
        except Exception as e:
            self._check(name, list(core.path().hyps), z3.BoolVal(True))
            return e
        self._check(name, list(core.path().hyps), z3.BoolVal(False))

    def _check(self, name, hyps, goal):
        t = time.time()
        self._reach.append(name)
        r = prover.prove(hyps, goal, depth=self.depth, budget=self.budget)
        d = time.time() - t
        self.results.append(dict(name=name, status=r[0], backend=str(r[1]) if r[0] == 'proved' else '', s=round(d, 3),
                                 weak=r[0] == 'refuted' and self._weak(hyps, goal),
                                 info='' if r[0] == 'proved' else str(r[1])[:300], path=len(core.path().hyps),
                                 model=self._model(r[1]) if r[0] == 'refuted' else None,
                                 goal=None if r[0] == 'proved' else str(z3.simplify(goal))[:600]))

    def _weak(self, hyps, goal):
        """does the counterexample rest on functions of which the solver knows only instances of facts?"""
        names = {v[1] for v in self.inputs.values() if v[0] == 'array'}
        try:
            for t in prover.subterms(list(hyps) + [goal]):
                if z3.is_quantifier(t):
                    return True
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                    F = t.decl().name()
                    if not any(n in C.arrays and C.arrays[n][0].name() == F for n in names):
                        return True
        except Exception:
            return True
        return False

    def _model(self, m):
        """values of the inputs in the counterexample"""
        out = {}
        try:
            for k, v in self.inputs.items():
                if v[0] in ('dim', 'int', 'real'):
                    x = val(m.eval(v[1], model_completion=True))
                    out[k] = str(x) if not isinstance(x, Sym) else None
                else:
                    _, nm, shape, kind = v
                    dims = [val(m.eval(term(d), model_completion=True)) for d in shape]
                    if any(not isinstance(d, int) or d > 6 or d < 0 for d in dims):
                        out[k] = None
                        continue
                    F = C.arrays[nm][0]
                    cells = []
                    for i in arrays.all_idx(tuple(dims)):
                        x = val(m.eval(F(*[z3.IntVal(q) for q in i]), model_completion=True))
                        cells.append(str(x) if not isinstance(x, Sym) else None)
                    out[k] = dict(shape=dims, cells=cells)
        except Exception as e:      # the model is only used to suggest an input
            out['error'] = str(e)[:100]
        return out

    # ---------------------------------------------------------------- driver
    def run(self):
        w = world()
        self._stubs = []
        self._reach = []
        C.reset()
        C.facts.update(w.base['facts'])
        C.pairfacts.update(w.base['pair'])
        loops.WHILE.clear()
        t = time.time()
        status = 'ok'
        info = ''
        paths = 0
        try:
            outs = core.explore(lambda: self.spec(self), after=self._ended)
            for p, kind, v in outs:
                paths += 1
                if kind == 'exc':
                    if isinstance(v, Missing):
                        status, info = 'missing', str(v)
                    elif isinstance(v, TypeError) and 'argument' in str(v):
                        status, info = 'undecided', 'signature: ' + str(v)
                elif kind == 'cut' and not self._reach:
                    info = v
        except Unsupported as e:
            status, info = 'undecided', 'outside of the supported subset: %s' % e
            tb = traceback.extract_tb(e.__traceback__)
            fr = [f for f in tb if '/kalepy/' in f.filename]
            if fr:
                info += ' (%s:%d)' % (fr[-1].filename, fr[-1].lineno)
        except Missing as e:
            status, info = 'missing', str(e)
        except PydvAbort as e:
            status, info = 'undecided', str(e)
        except Exception as e:
            status, info = 'error', traceback.format_exc()[-1200:]
        finally:
            for o, k, v in reversed(self._stubs):
                setattr(o, k, v)
        return dict(name=self.name, status=status, info=info, paths=paths, results=self.results, s=round(time.time() - t, 2),
                    functions=self.called, assumed=sorted(x for x in C.assumed if x))

    def _ended(self, p, kind, v):
        """side obligations of a path, and its exception: on a feasible path that is a failed obligation"""
        todo = list(C.side)
        del C.side[:]
        for nm, hy, g in todo:
            if not self.elsewhere:
                self._side(nm, hy, g)
        if kind != 'exc' or isinstance(v, Missing) or isinstance(v, TypeError) and 'argument' in str(v):
            return
        tb = ''.join(traceback.format_exception(type(v), v, v.__traceback__)[-3:])
        feas = self._strict_feasible(p.hyps)
        if feas != 'unsat':
            self.results.append(dict(name='no exception', weak=True, status='refuted' if feas == 'sat' else 'unknown',
                                     backend='', s=0, info=tb[-700:], path=len(p.hyps), model=None, goal=repr(v)[:300]))

    elsewhere = False      # the safety obligations of these bodies belong to other contracts

    def each(self, fn):
        """fn on every path through it; what it adds to this path is forgotten"""
        for p, kind, v in core.explore(fn, parent=core.path(), after=self._ended):
            if kind == 'exc' and (isinstance(v, Missing) or isinstance(v, TypeError) and 'argument' in str(v)):
                raise v

    def _strict_feasible(self, hyps):
        r = prover.prove(list(hyps), z3.BoolVal(False), depth=2, budget=min(10.0, self.budget))
        return {'proved': 'unsat', 'refuted': 'sat'}.get(r[0], 'unknown')

    def _side(self, nm, hy, g):
        t = time.time()
        r = prover.prove(hy, g, depth=1, budget=min(8.0, self.budget))
        self.results.append(dict(name='safety: ' + nm, status=r[0], backend=str(r[1]) if r[0] == 'proved' else '',
                                 s=round(time.time() - t, 3), info='' if r[0] == 'proved' else str(r[1])[:300], path=len(hy),
                                 model=None, goal=None if r[0] == 'proved' else str(z3.simplify(g))[:400]))


from .spec import SPECS, spec   # noqa: E402,F401
