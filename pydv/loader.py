"""Load the real kalepy sources into the symbolic interpreter.

The text of every function is read from /repo on every run and executed as it is, after a fixed mechanical rewriting:
  * a decimal literal becomes the exact fraction it denotes, `a / b` and `a ** b` become calls that keep exact
    fractions (floats are treated as mathematical reals);
  * a branch that does nothing but report (assign a message text, call logging.* or warnings.warn) is not a case
    distinction when its condition is symbolic: the report is dropped;
  * a bare `except:` becomes `except Exception:`;
  * a `for v in range(n)` / `while` loop becomes a conditional: an ordinary loop when its bounds are concrete, and
    a call of the loop rule (see loops.py) when they are symbolic.
Imports of numpy, scipy, numba, six are mapped to the contracts in fakenp; matplotlib, logging, warnings to no-ops.
"""
import ast
import z3
import builtins
import os
import types
import copy as _copy
from fractions import Fraction as Fr
from . import core, arrays, fakenp, loops
from .core import Sym, Unsupported, C, sbin, simp_scalar as simp
from .arrays import Arr, asarr

REPO = os.environ.get("PYDV_REPO", "/repo")


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.uid = 0
        self.names = []

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name("__F__", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        return ast.copy_location(ast.Constant("<message>"), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: "__div__", ast.Pow: "__pow__", ast.Mod: "__mod__"}.get(type(n.op))
        if f is None:
            return n
        return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        f = {ast.Div: "__idiv__", ast.Pow: "__ipow__"}.get(type(n.op))
        if f is None or not isinstance(n.target, ast.Name):
            return n
        return ast.copy_location(ast.Assign([n.target], ast.Call(
            ast.Name(f, ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name("Exception", ast.Load())
        return n

    def visit_If(self, n):
        """a branch that does nothing but report (message, logging.*, warnings.warn) causes no case distinction"""
        quiet = self.depth and not n.orelse and all(_reports(s) for s in n.body)
        self.generic_visit(n)
        if not quiet:
            return n
        self.uid += 1
        t = "__rep%d" % self.uid
        names = [x for s in n.body if isinstance(s, ast.Assign) for x in s.targets]
        poison = [ast.Assign([_clone(x)], ast.Name("__MESSAGE__", ast.Load())) for x in names] or [ast.Pass()]
        res = [ast.Assign([ast.Name(t, ast.Store())], n.test),
               ast.If(ast.Call(ast.Name("__undecided__", ast.Load()), [ast.Name(t, ast.Load())], []), poison,
                      [ast.If(ast.Name(t, ast.Load()), n.body, [])])]
        for r in res:
            ast.copy_location(r, n)
            ast.fix_missing_locations(r)
        return res

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.names.append(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.generic_visit(n)
        self.names.pop()
        self.depth -= 1
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if not self.depth or len(n.generators) != 1:
            return n
        g = n.generators[0]
        if g.ifs or g.is_async or any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)):
            return n
        if isinstance(g.target, ast.Name):
            names, star = [g.target.id], False
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            names, star = [e.id for e in g.target.elts], True
        else:
            return n
        lam = ast.Lambda(ast.arguments([], [ast.arg(a) for a in names], None, [], [], None, []), n.elt)
        return ast.fix_missing_locations(ast.copy_location(ast.Call(
            ast.Name("__listcomp__", ast.Load()), [g.iter, lam, ast.Constant(star)], []), n))

    def visit_For(self, n):
        jumps, info = _jumps(n.body), (_assigned(n.body), _reads(n))
        self.generic_visit(n)
        if not self.depth or n.orelse or not isinstance(n.target, ast.Name):
            return n
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range"):
            return n
        if jumps:
            return n
        self.uid += 1
        return self._loop(n, "for", info)

    def visit_While(self, n):
        jumps, info = _jumps(n.body), (_assigned(n.body), _reads(n))
        self.generic_visit(n)
        if not self.depth or n.orelse or jumps:
            return n
        self.uid += 1
        return self._loop(n, "while", info)

    def _loop(self, n, kind, info):
        assigned = sorted(info[0] | ({n.target.id} if kind == "for" else set()))
        reads = sorted(info[1])
        u = self.uid
        rng = "__rng%d" % u
        fn = "__body%d" % u
        tgt = n.target.id if kind == "for" else None
        body = [_clone(s) for s in n.body]
        env = "__env%d" % u
        # the body as a function of an environment dictionary
        params = sorted(set(assigned) | set(reads))
        ins = []
        for v in params:
            ins.append(ast.parse("if %r in %s: %s = %s[%r]" % (v, env, v, env, v)).body[0])
        outs = []
        for v in assigned:
            outs.append(ast.parse("try: %s[%r] = %s\nexcept (NameError, UnboundLocalError): pass" % (env, v, v)).body[0])
        pre = ast.parse("%s = dict()" % env).body
        f = ast.parse("def %s(%s):\n pass" % (fn, env)).body[0]
        f.body = ins + body + outs
        load = []
        for v in params:
            load.append(ast.parse("try: %s[%r] = %s\nexcept (NameError, UnboundLocalError): pass" % (env, v, v)).body[0])
        back = []
        for v in assigned:
            back.append(ast.parse("if %r in %s: %s = %s[%r]" % (v, env, v, env, v)).body[0])
        if kind == "for":
            sym = ast.parse("%s = range(%s)" % (rng, "")).body[0]
            sym.value = n.iter
            test = ast.parse("__issym__(%s)" % rng).body[0].value
            call = ast.parse("__forloop__(%s, %r, %s, %s)" % (rng, tgt, fn, env)).body
            plain = ast.For(n.target, ast.Name(rng, ast.Load()), n.body, [], None)
            res = [sym, ast.If(test, pre + load + [f] + call + back, [plain])]
        else:
            cf = ast.parse("def __cond%d(%s):\n return 0" % (u, env)).body[0]
            cf.body = ins + [ast.Return(_clone(n.test))]
            call = ast.parse("__whileloop__(%r, __cond%d, %s, %r, %s)" % (self.names[-1], u, fn, assigned, env)).body
            test = ast.parse("__whilesym__(%r)" % self.names[-1]).body[0].value
            res = [ast.If(test, pre + load + [cf, f] + call + back, [n])]
        for r in res:
            ast.copy_location(r, n)
            ast.fix_missing_locations(r)
        return res


def _reports(s):
    if isinstance(s, ast.Assign):
        return all(isinstance(t, ast.Name) for t in s.targets) and (
            isinstance(s.value, ast.JoinedStr) or isinstance(s.value, ast.Constant) and isinstance(s.value.value, str))
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
            and isinstance(s.value.func.value, ast.Name):
        f = s.value.func
        return (f.value.id == "logging" or f.value.id == "warnings" and f.attr == "warn") and all(
            isinstance(a, (ast.Name, ast.JoinedStr, ast.Constant)) for a in s.value.args)
    return isinstance(s, ast.Pass)


class _Message(str):
    """a message assigned under a condition that was not decided: may be reported or raised, nothing else"""
    def _no(self, *a, **k):
        raise Unsupported('use of a message text')
    __eq__ = __ne__ = __add__ = __radd__ = __len__ = __getitem__ = __contains__ = __iter__ = __mul__ = __mod__ = _no
    __hash__ = None


def _undecided(t):
    t = simp(t)
    return isinstance(t, Sym) and not (z3.is_true(t.t) or z3.is_false(t.t))


def _clone(n):
    return _copy.deepcopy(n)


def _jumps(body):
    for s in body:
        for m in ast.walk(s):
            if isinstance(m, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.FunctionDef, ast.Try)):
                return True
    return False


def _assigned(body):
    out = set()
    for s in body:
        for m in ast.walk(s):
            if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                out.add(m.id)
    return {v for v in out if not v.startswith("__")}


def _reads(n):
    return {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load)
            and not m.id.startswith("__") and not hasattr(builtins, m.id)}


# ------------------------------------------------------------------ runtime helpers
def p_div(a, b):
    if isinstance(a, (Sym, Arr, list, tuple)) or isinstance(b, (Sym, Arr, list, tuple)):
        return core.binop('/', a, b)
    if isinstance(a, (int, float, Fr)) and isinstance(b, (int, float, Fr)):
        if b == 0:
            if isinstance(a, (int, Fr)) and isinstance(b, (int, Fr)) :
                return core.pybin('/', a, b)
        return core.pybin('/', core.exact(a), core.exact(b))
    return a / b


def p_pow(a, b):
    if isinstance(a, (Sym, Arr, int, float, Fr)) and isinstance(b, (Sym, Arr, int, float, Fr)):
        return core.binop('**', a, b)
    return a ** b


def p_mod(a, b):
    if isinstance(a, str):
        return a
    return a % b


def p_idiv(a, b):
    if isinstance(a, Arr):
        a /= b
        return a
    return p_div(a, b)


def p_ipow(a, b):
    if isinstance(a, Arr):
        a **= b
        return a
    return p_pow(a, b)


def p_len(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        n = x.shape[0]
        return n
    if isinstance(x, arrays.Flat):
        return x._arr().shape[0]
    if isinstance(x, Sym):
        raise TypeError("object of type 'float' has no len()")
    return len(x)


class SymList(Arr):
    """a list of symbolic length (result of a comprehension)"""
    def _no(self, *a):
        raise Unsupported("list arithmetic on a list of symbolic length")
    __add__ = __radd__ = __mul__ = __rmul__ = __iadd__ = __imul__ = append = extend = _no


def p_listcomp(it, f, star):
    if isinstance(it, Arr) and it.ndim and not isinstance(it.shape[0], int) and not star:
        n, at = it.shape[0], (lambda i: it[i])
    elif isinstance(it, SymRange) and not star:
        n, at = simp(sbin('-', it.hi, it.lo)), (lambda i: sbin('+', it.lo, i))
    else:
        return [f(*x) for x in it] if star else [f(x) for x in it]
    ev = len(C.events)

    def elem(i, conv=lambda v: v):
        was = C.within
        C.within = (was or []) + [core.term(i) >= 0, core.term(i) < core.term(n)]
        C.nodecide += 1
        try:
            return conv(f(at(i)))
        finally:
            C.nodecide -= 1
            C.within = was
    r = elem(arrays.fresh_range('lc', n))
    if len(C.events) != ev:
        raise Unsupported("random draw in a comprehension over a symbolic axis")
    if isinstance(r, (list, tuple)) and r and all(core.isscalar(fakenp.sc(x)) for x in r):
        r = asarr(r)            # rows
    r = fakenp.sc(r)
    if isinstance(r, Arr):
        a = arrays.new((n,) + r.shape, lambda i: elem(i[0], asarr).at(tuple(i[1:])), r.kind)
    elif core.isscalar(r):
        a = arrays.new((n,), lambda i: elem(i[0], fakenp.sc), core.kindof(r))
    else:
        raise Unsupported("comprehension over a symbolic axis")
    return SymList(a.buf, a.shape, a.maps)


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range")


def p_range(*a):
    a = [fakenp.sc(x) for x in a]
    a = [simp(x) if isinstance(x, Sym) else x for x in a]
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(a[0], a[1])
        raise Unsupported("symbolic range with a step")
    return range(*a)


class p_int(int):
    def __new__(cls, x=0, *r):
        if isinstance(x, Arr):
            x = x.item()
        if isinstance(x, Sym):
            return core.cast(x, 'i')
        if isinstance(x, Fr):
            return int(x)
        return int(x, *r)


class p_float(float):
    def __new__(cls, x=0):
        if isinstance(x, Arr):
            x = x.item()
        if isinstance(x, (Sym, int, Fr)):
            return core.cast(x, 'f')
        return core.exact(float(x))


class p_bool:
    def __new__(cls, x=False):
        return bool(x)


p_bool.__name__ = 'p_bool'


def p_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for u in ts:
        if u in (p_int, int):
            if isinstance(x, int) or (isinstance(x, Sym) and x.kind == 'i'):
                return True
        elif u in (p_float, float):
            if isinstance(x, (float, Fr)) or (isinstance(x, Sym) and x.kind == 'f'):
                return True
        elif u in (p_bool, bool):
            if isinstance(x, bool) or (isinstance(x, Sym) and x.kind == 'b'):
                return True
        elif isinstance(u, tuple):
            if p_isinstance(x, u):
                return True
        elif isinstance(u, type) and issubclass(u, fakenp.generic):
            if isinstance(x, (Sym, Fr, int)):
                k = core.kindof(x)
                if issubclass({'f': fakenp.float64, 'i': fakenp.int64, 'b': fakenp.bool_}[k], u):
                    return True
        elif isinstance(x, u):
            return True
    return False


def _ext(f, op):
    def g(*a, **k):
        if len(a) == 1:
            a = list(a[0])
        if k or not a:
            return getattr(builtins, op)(*a, **k) if a else getattr(builtins, op)([], **k)
        r = a[0]
        for x in a[1:]:
            r = f(core.exact(r), core.exact(x))
        return r
    return g


def p_sum(xs, start=0):
    r = start
    for x in xs:
        r = core.binop('+', r, x)
    return r


def p_abs(x):
    return core.unop('abs', x) if isinstance(x, (Sym, Arr)) else abs(x)


class Quiet(types.ModuleType):
    """a module whose calls have no effect on the values"""
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return _Any()


class _Any:
    def __call__(self, *a, **k): return _Any()
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return _Any()
    def __getitem__(self, k): return _Any()
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __iter__(self): return iter(())
    def __mro_entries__(self, bases): return ()


class World:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = dict(fakenp.build())
        for m in ('logging', 'warnings', 'matplotlib', 'matplotlib.pyplot', 'matplotlib.patheffects'):
            self.mods[m] = Quiet(m)
        self.kale = {}
        self.src = {}
        b = dict(vars(builtins))
        b.update(__F__=lambda s: core.exact(float(s)) if 'inf' in s or 'nan' in s else Fr(s),
                 __div__=p_div, __pow__=p_pow, __mod__=p_mod, __idiv__=p_idiv, __ipow__=p_ipow,
                 __listcomp__=p_listcomp, __undecided__=_undecided, __MESSAGE__=_Message('<message>'), __issym__=lambda r: isinstance(r, SymRange), __forloop__=loops.for_rule,
                 __whileloop__=loops.while_rule, __whilesym__=loops.while_enabled,
                 len=p_len, range=p_range, int=p_int, float=p_float, bool=p_bool, isinstance=p_isinstance, sum=p_sum, abs=p_abs,
                 min=_ext(fakenp._min, 'min'), max=_ext(fakenp._max, 'max'), print=lambda *a, **k: None,
                 __import__=self._import)
        self.builtins = b
        pk = types.ModuleType('kalepy')
        pk.__path__ = [os.path.join(self.repo, 'kalepy')]
        self.mods['kalepy'] = pk
        self.kale['kalepy'] = pk
        self._exec(pk, os.path.join(self.repo, 'kalepy', '__init__.py'))

    def _exec(self, mod, path):
        with open(path) as f:
            text = f.read()
        self.src[path] = text
        tree = ast.parse(text, path)
        if path.endswith('plot.py') and False:
            pass
        tree = Rewrite().visit(tree)
        ast.fix_missing_locations(tree)
        mod.__dict__['__builtins__'] = self.builtins
        mod.__file__ = path
        exec(compile(tree, path, 'exec'), mod.__dict__)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name.split('.')[0] == 'kalepy':
            m = self._kale(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self._kale(name + '.' + f))
                        except FileNotFoundError:
                            pass
                return m
            return self.mods['kalepy']
        if name in self.mods:
            if fromlist:
                return self.mods[name]
            return self.mods[name.split('.')[0]]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _kale(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.repo, *name.split('.')) + '.py'
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        m = types.ModuleType(name)
        self.mods[name] = m
        self.kale[name] = m
        self._exec(m, path)
        setattr(self.mods['kalepy'], name.split('.')[-1], m)
        return m

    def mod(self, name):
        return self._kale('kalepy.' + name) if name != 'kalepy' else self.mods['kalepy']

    def get(self, dotted):
        """'utils.midpoints' -> function; 'kernels.Kernel._reflect_data' -> attribute"""
        parts = dotted.split('.')
        o = self._kale('kalepy.' + parts[0]) if parts[0] != 'kalepy' else self.mods['kalepy']
        for p in parts[1:]:
            o = getattr(o, p)
        return o
