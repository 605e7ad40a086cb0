"""The specification language of api.E interpreted on concrete values, with the real package and the real numpy.

Used (a) to replay the counterexample of a refuted obligation against the real code, and (b) to run every contract on
random inputs, which compares the verifier's semantics and its contracts of numpy/scipy with the real libraries.
Runs under the interpreter of the repository (no solvers there)."""
import importlib
import itertools
import json
import math
import os
import sys
import traceback
import warnings
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import logging
logging.disable(logging.CRITICAL)


class Reject(BaseException):
    """the generated input does not satisfy a precondition"""


class NoReplay(BaseException):
    """the contract cannot be interpreted on concrete values"""


class Missing(Exception):
    pass


class CArr(np.ndarray):
    def at(self, ix):
        v = np.asarray(self)[tuple(int(i) for i in ix)]
        return v

    def snap(self):
        c = np.array(self)
        return lambda ix: c[tuple(int(i) for i in ix)]


def arr(x):
    return np.asarray(x).view(CArr)


class _N:
    """ghost snapshots"""


class CE:
    concrete = True

    def __init__(self, spec, name, rng, model=None, tol=1e-6):
        self.spec, self.name, self.rng, self.model, self.tol = spec, name, rng, model or {}, tol
        self.failed = []
        self.checked = 0
        self.inputs = {}
        self.arrays_ = []
        self._stubs = []
        self.ev = []

    # inputs
    def _given(self, name):
        v = self.model.get(name)
        return v

    def _num(self, s):
        from fractions import Fraction
        s = str(s)
        if s in ('True', 'False'):
            return s == 'True'
        s = s.replace('?', '')
        return float(Fraction(s)) if '/' in s or 'e' not in s.lower() and '.' not in s else float(s)

    def dim(self, name, lo=1, hi=None):
        g = self._given(name)
        if g is not None:
            v = int(self._num(g))
        else:
            top = lo + int(self.rng.integers(0, 5))
            v = top if hi is None else min(top, hi)
        if v < lo or (hi is not None and v > hi):
            raise Reject(name)
        self.inputs[name] = v
        return v

    def _rand(self, shape=(), pos=False, nonneg=False):
        x = self.rng.normal(size=shape) * self.rng.choice([0.5, 1.0, 3.0])
        if self.rng.random() < 0.3:
            x = np.round(x * 2) / 2
        if pos:
            x = np.abs(x) + 0.05
        if nonneg:
            x = np.abs(x)
        return x

    def real(self, name, pos=False, nonneg=False):
        g = self._given(name)
        v = np.float64(self._num(g)) if g is not None else np.float64(self._rand((), pos, nonneg))
        if pos and not v > 0 or nonneg and not v >= 0:
            raise Reject(name)
        self.inputs[name] = float(v)
        return v

    def int(self, name, lo=None, hi=None):
        g = self._given(name)
        if g is not None:
            v = int(self._num(g))
        else:
            a = -4 if lo is None else int(lo)
            b = a + 9 if hi is None else int(hi)
            v = int(self.rng.integers(a, max(a, min(b, a + 12)) + 1))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject(name)
        self.inputs[name] = v
        return v

    def bool(self, name):
        return bool(self.rng.random() < 0.5)

    def array(self, name, shape, pos=False, nonneg=False, inc=False, nondec=False, kind='f', fact=None):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        shape = tuple(int(s) for s in shape)
        g = self._given(name)
        a = None
        if isinstance(g, dict) and tuple(g['shape']) == shape and all(c is not None for c in g['cells']):
            a = np.array([self._num(c) for c in g['cells']], dtype=float).reshape(shape)
        if a is None:
            for _ in range(60):
                a = self._rand(shape, pos, nonneg)
                if kind == 'i':
                    a = np.round(a * 2)
                if inc or nondec:
                    step = np.abs(self._rand(shape)) + (0.03 if inc else 0)
                    if nondec:
                        step = step * (self.rng.random(shape) < 0.7)
                    a = np.cumsum(step) + (0.1 if pos or nonneg else self._rand(()))
                    if kind == 'i':
                        a = np.cumsum(np.round(step) + (1 if inc else 0))
                if fact is None or self._fact_ok(a, fact):
                    break
        if kind == 'i':
            a = a.astype(int)
        if kind == 'b':
            a = a > 0
        if (pos and not (a > 0).all()) or (nonneg and not (a >= 0).all()) or (fact and not self._fact_ok(a, fact)):
            raise Reject(name)
        if inc and not (np.diff(a) > 0).all() or nondec and not (np.diff(a) >= 0).all():
            raise Reject(name)
        self.inputs[name] = a.tolist()
        a = arr(a)
        self.arrays_.append((name, a, np.array(a)))
        return a

    def _fact_ok(self, a, fact):
        for i in np.ndindex(*a.shape):
            if not all(bool(c) for c in fact(a[i], list(i))):
                return False
        return True

    def const(self, x, kind=None):
        return arr(np.array(x, dtype=float if kind in (None, 'f') else int if kind == 'i' else bool))

    def idx(self, n, base='i', lo=0):
        n = int(n)
        if n - lo <= 0:
            raise Reject('index')
        return int(self.rng.integers(lo, n))

    def forall_idx(self, shape):
        return tuple(self.idx(d) for d in shape)

    def assume(self, c):
        if not bool(c):
            raise Reject('assume')

    # calls
    def _mod(self, name):
        return importlib.import_module('kalepy.' + name) if name != 'kalepy' else importlib.import_module('kalepy')

    def fn(self, dotted):
        parts = dotted.split('.')
        try:
            o = self._mod(parts[0])
            for p in parts[1:]:
                o = getattr(o, p)
        except (AttributeError, ImportError):
            raise Missing(dotted)
        return o

    def call(self, dotted, *args, **kw):
        f = self.fn(dotted) if isinstance(dotted, str) else dotted
        plain = lambda x: np.asarray(x) if isinstance(x, CArr) else [plain(y) for y in x] if isinstance(x, list) else \
            tuple(plain(y) for y in x) if isinstance(x, tuple) and type(x) is tuple else x
        return self._wrap(f(*[plain(a) for a in args], **{k: plain(v) for k, v in kw.items()}))

    def _wrap(self, r):
        if isinstance(r, np.ndarray) and r.dtype != object:
            return arr(r)
        if type(r) in (tuple, list):
            return type(r)(self._wrap(x) for x in r)
        return r

    np = np

    def real_const(self, base, e):
        return float(base) ** e

    def flat(self, shape, idx):
        return int(np.ravel_multi_index(tuple(int(i) for i in idx), tuple(int(d) for d in shape)))

    def build(self, shape, f, kind='f'):
        shape = tuple(int(d) for d in shape)
        out = np.zeros(shape, dtype=dict(f=float, i=int, b=bool)[kind])
        for i in np.ndindex(*shape):
            out[i] = f(*i)
        return self.wrap(out) if hasattr(self, 'wrap') else self.asarr(out)

    def unravel(self, k, shape):
        return tuple(int(i) for i in np.unravel_index(int(k), tuple(int(d) for d in shape)))

    pi = float(np.pi)

    def gamma(self, x):
        import scipy.special
        return scipy.special.gamma(float(x))

    def pow(self, x, y):
        return float(x) ** float(y)

    def ppf(self, x):
        import scipy.stats
        return scipy.stats.norm.ppf(x)

    def cdf(self, x):
        import scipy.stats
        return scipy.stats.norm.cdf(x)

    def asarr(self, x):
        return arr(np.ma.getdata(x))

    def hidden(self, x):
        return arr(np.ma.getmaskarray(x)) if isinstance(x, np.ma.MaskedArray) else None

    def loop(self, function, rule):
        pass

    def cannot(self, why):
        raise NoReplay(why)

    def under(self, *names):
        for n in names:
            self.fn(n)

    def stub(self, dotted, f):
        parts = dotted.split('.')
        o = self.fn('.'.join(parts[:-1])) if len(parts) > 2 else self._mod(parts[0])
        if not hasattr(o, parts[-1]):
            raise Missing(dotted)
        self._stubs.append((o, parts[-1], o.__dict__[parts[-1]]))
        setattr(o, parts[-1], f)

    def restub(self):
        raise NoReplay('stub')

    def events(self, kind=None):
        return [e for e in self.ev if kind is None or e['kind'] == kind]

    def _record(self):
        """log the draws from numpy.random, with the names of the contracts"""
        def rec(name, kind, keys):
            f = getattr(np.random, name)

            def g(*a, **k):
                r = f(*a, **k)
                d = dict(zip(keys, a))
                d.update(k)
                if kind == 'uniform':
                    d.setdefault('low', 0), d.setdefault('high', 1)
                self.ev.append(dict(d, kind=kind, out=arr(np.array(r))))
                return r
            self._stubs.append((np.random, name, f))
            setattr(np.random, name, g)
        rec('uniform', 'uniform', ('low', 'high', 'size'))
        rec('random', 'uniform', ('size',))
        rec('normal', 'normal', ('loc', 'scale', 'size'))
        rec('multivariate_normal', 'multivariate_normal', ('mean', 'cov', 'size'))
        rec('beta', 'beta', ('a', 'b', 'size'))
        rec('choice', 'choice', ('n', 'size', 'replace', 'p'))
        rec('random_sample', 'uniform', ('size',))
        rec('standard_normal', 'normal', ('size',))
        for nm, kind in (('rand', 'uniform'), ('randn', 'normal')):
            def h(*sh, f=getattr(np.random, nm), kind=kind):
                r = f(*sh)
                self.ev.append(dict(kind=kind, low=0, high=1, out=arr(np.array(r)), size=sh))
                return r
            self._stubs.append((np.random, nm, getattr(np.random, nm)))
            setattr(np.random, nm, h)
        rec('poisson', 'poisson', ('lam', 'size'))

    def fresh(self, *a, **k):
        raise NoReplay('fresh')

    # terms
    def close(self, a, b):
        return abs(a - b) <= 1e-6 * (abs(a) + abs(b)) + 1e-12

    def sq(self, x):
        return x * x

    def function(self, name, n=1):
        import numba
        assert n == 1
        return numba.njit(lambda t: 1.0 / (1.0 + t * t) + t)

    def sum(self, n, f):
        return sum((f(j) for j in range(int(n))), 0.0)

    def any(self, n, f):
        return any(bool(f(j)) for j in range(int(n)))

    def all(self, n, f):
        return all(bool(f(j)) for j in range(int(n)))

    exp = staticmethod(np.exp)
    log = staticmethod(np.log)
    log10 = staticmethod(np.log10)
    sqrt = staticmethod(np.sqrt)
    pow = staticmethod(np.power)

    def p10(self, x):
        return 10.0 ** x

    def max(self, a, b):
        return a if a >= b else b

    def min(self, a, b):
        return a if a <= b else b

    def abs(self, a):
        return abs(a)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def land(self, *cs):
        return all(bool(c) for c in cs)

    def lor(self, *cs):
        return any(bool(c) for c in cs)

    def lnot(self, c):
        return not bool(c)

    def imp(self, a, b):
        return (not bool(a)) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def is_inf(self, a):
        return not np.isfinite(a)

    # obligations
    def _check(self, name, ok, what=''):
        self.checked += 1
        if not ok:
            self.failed.append((name, what))

    def prove(self, name, goal):
        self._check(name, bool(goal), 'condition is false')

    def lemma(self, name, goal):
        self.prove(name, goal)

    def rule(self, name, args, when, then):
        for h in when(*args):
            self.prove(name, h)
        self.prove(name, then(*args))

    def le(self, name, a, b):
        a, b = float(a), float(b)
        self._check(name, a <= b + self.tol * (1 + abs(a) + abs(b)), '%r > %r' % (a, b))

    def close(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == bool or b.dtype == bool:
            return bool((a == b).all())
        a, b = a.astype(float), b.astype(float)
        with np.errstate(all='ignore'):
            return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) |
                               (np.abs(a - b) <= self.tol * (1 + np.abs(a) + np.abs(b)))))

    def eq(self, name, a, b):
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.shape != b_.shape and a_.size == b_.size == 1:
            a_, b_ = a_.reshape(()), b_.reshape(())
        self._check(name, self.close(a_, b_), '%r != %r' % (a, b))

    def arr_eq(self, name, a, shape, f):
        a = np.asarray(a)
        shape = tuple(int(s) for s in shape)
        self._check(name + ': shape', a.shape == shape, 'shape %s, expected %s' % (a.shape, shape))
        if a.shape != shape:
            return
        want = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            want[i] = f(*i)
            ok = self.close(a[i], np.asarray(want[i]).reshape(()))
            if not ok:
                self._check(name, False, 'element %s is %r, expected %r' % (list(i), a[i], want[i]))
                return
        self._check(name, True)

    def shape_is(self, name, a, shape):
        sh = np.shape(a)
        self._check(name, tuple(sh) == tuple(int(s) for s in shape), 'shape %s, expected %s' % (sh, shape))

    # whole values
    def keep(self, x, memo=None):
        memo = {} if memo is None else memo
        if isinstance(x, np.ndarray):
            return ('array', x, [self.keep(v, memo) for v in x.ravel()] if x.dtype == object else np.array(x))
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, x, [self.keep(v, memo) for v in x])
        if isinstance(x, dict):
            return ('dict', x, {k: self.keep(v, memo) for k, v in x.items()})
        if hasattr(x, '__dict__') and not isinstance(x, type) and type(x).__module__.startswith('kalepy'):
            if id(x) in memo:
                return ('again', x, memo[id(x)])
            memo[id(x)] = len(memo)
            return ('object', x, type(x).__name__, {k: self.keep(v, memo) for k, v in x.__dict__.items()})
        return ('value', x)

    def alike(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == 'array':
            if a[1].dtype != b[1].dtype or np.shape(a[1]) != np.shape(b[1]):
                return False
            if a[1].dtype == object:
                return len(a[2]) == len(b[2]) and all(self.alike(x, y) for x, y in zip(a[2], b[2]))
            return a[2].shape == b[2].shape and bool(np.array_equal(a[2], b[2], equal_nan=a[2].dtype.kind == 'f'))
        if a[0] in ('list', 'tuple'):
            return len(a[2]) == len(b[2]) and all(self.alike(x, y) for x, y in zip(a[2], b[2]))
        if a[0] in ('dict', 'object'):
            return (a[0] == 'dict' or a[2] == b[2]) and set(a[-1]) == set(b[-1]) and all(self.alike(a[-1][k], b[-1][k]) for k in a[-1])
        if a[0] == 'again':
            return a[2] == b[2]
        x, y = a[1], b[1]
        if x is y:
            return True
        try:
            return bool(x == y) or bool(x != x and y != y) or callable(x) and callable(y)
        except Exception:
            return type(x) is type(y)

    def each(self, fn):
        fn()

    def known(self, r):
        return bool(r)

    def same(self, name, a, b):
        self._check(name, self.alike(a, b), 'values differ')

    def kept(self, name, old):
        self.same(name, old, self.keep(old[1]))

    def unchanged(self, name, *arrs):
        for nm, a, c in self.arrays_:
            if any(a is x for x in arrs):
                self._check(name, bool(np.array_equal(np.asarray(a), c, equal_nan=a.dtype.kind == 'f')), nm + ' was modified')

    def raises(self, name, f):
        try:
            f()
        except Exception as e:
            self._check(name, True)
            return e
        self._check(name, False, 'no exception')

    def run(self):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    self._record()
                    self.spec(self)
            return 'ok'
        except Reject:
            return 'reject'
        except NoReplay:
            return 'noreplay'
        except Missing:
            return 'missing'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inside = any('/kalepy/' in f.filename for f in tb)
            if inside:
                self._check('no exception', False, '%s: %s' % (type(e).__name__, e))
                return 'ok'
            self.err = traceback.format_exc()
            return 'error'
        finally:
            for o, k, v in reversed(self._stubs):
                setattr(o, k, v)


def load(prop):
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(HERE, 'sym'))
    import importlib.util
    p = os.path.join(HERE, 'sym', prop + '.py')
    sp = importlib.util.spec_from_file_location('sym_' + prop, p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    from pydv import spec
    return spec.SPECS.get(prop, [])


def main():
    """conc_e.py PROP OUT seed n [jobs.json]: run contracts on random inputs / replay models {name: [model..]}"""
    prop, out, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    jobs = json.load(open(sys.argv[5])) if len(sys.argv) > 5 else None
    res = {}
    import zlib
    import time
    t0 = time.time()
    tmax = float(os.environ.get('KV_CONC_TMAX', '120'))
    for i, s in enumerate(load(prop)):
        name, f = s[0], s[1]
        if jobs is not None and name not in jobs:
            continue
        r = dict(ok=0, reject=0, noreplay=0, missing=0, error=0, checked=0, fails=[])
        todo = [(None, k) for k in range(n)] if jobs is None else \
            [(m, 0) for m in jobs[name]] + [(None, k) for k in range(n)]
        for m, k in todo:
            if time.time() - t0 > tmax:
                r['cut'] = True
                break
            rng = np.random.default_rng([seed, zlib.crc32(name.encode()), k])
            np.random.seed(seed * 1000 + k)
            e = CE(f, name, rng, m)
            st = e.run()
            r[st] += 1
            r['checked'] += e.checked
            if st == 'error':
                r['err'] = e.err[-800:]
            if e.failed and len(r['fails']) < 5:
                r['fails'].append(dict(inputs=e.inputs, failed=e.failed[:5], seed=seed, k=k, from_model=m is not None, model=m))
            if st in ('noreplay', 'missing'):
                break
        res[name] = r
    json.dump(res, open(out, 'w'), default=str)


def replay(prop, case):
    """run one recorded input through its contract on the real code"""
    import zlib
    for s in load(prop):
        if s[0] == case['contract']:
            np.random.seed(case['seed'] * 1000 + case['k'])
            e = CE(s[1], s[0], np.random.default_rng([case['seed'], zlib.crc32(s[0].encode()), case['k']]), case.get('model'))
            st = e.run()
            return st, e.failed
    return 'missing', []


if __name__ == '__main__':
    main()
