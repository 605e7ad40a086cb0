"""Symbolic scalars, path exploration, uninterpreted terms with defining facts."""
import math
import z3
from fractions import Fraction as Fr


class PydvAbort(BaseException):
    pass


class PathAbort(PydvAbort):
    """the current path is infeasible, or has been cut by a loop rule"""


class Unsupported(PydvAbort):
    """the construct is outside of the supported subset: the obligation stays undecided"""


# ------------------------------------------------------------------ global state of one obligation
class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.counter = 0
        self.facts = {}        # decl name -> fn(app) -> [z3 bools]
        self.pairfacts = {}    # decl name -> fn(app1, app2) -> [z3 bools]
        self.quant = {}        # decl name -> fn(app, candidate_term) -> [z3 bools]
        self.idxconsts = {}    # name -> const (bindable integer constants)
        self.sums = {}         # key -> (decl)
        self.lemmas = {}
        self.skolems = {}
        self.sumdefs = {}      # decl name -> (params, bv, body, )
        self.paths = []        # stack of Path
        self.side = []         # side obligations (name, hyps, goal)
        self.masks = {}
        self.rgis = {}         # grid -> name of the function that finds the cell
        self.ravshapes = {}
        self.events = []       # ghost events (random draws)
        self.keep = []         # keep references to ASTs used by id
        self.assumed = set()   # names of library contracts used
        self.memo = {}
        self.idxrange = {}     # index constant -> dimension it ranges over
        self.written = set()   # names of input buffers that have been written
        self.arrays = {}       # input / random arrays: name -> (decl, shape, kind)
        self.perms = {}
        self.nodecide = 0
        self.within = None
        self.nofork = 0
        self.nonneg_names = set()

    def fresh(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)


C = Ctx()


# ------------------------------------------------------------------ terms
def isz(v):
    return isinstance(v, z3.ExprRef)


def term(v):
    """python value -> z3 term"""
    if isinstance(v, Sym):
        return v.t
    if isz(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fr):
        return z3.RealVal(v)
    if isinstance(v, float):
        if math.isfinite(v):
            return z3.RealVal(Fr(repr(v)))
        raise Unsupported("non-finite value in a term")
    raise Unsupported("cannot make a term of %r" % (type(v),))


def real(t):
    t = term(t)
    s = t.sort().kind()
    if s == z3.Z3_INT_SORT:
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if s == z3.Z3_BOOL_SORT:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return t


def num(t):
    t = term(t)
    if t.sort().kind() == z3.Z3_BOOL_SORT:
        if z3.is_true(t):
            return z3.IntVal(1)
        if z3.is_false(t):
            return z3.IntVal(0)
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def boolt(v):
    if isinstance(v, Sym):
        v = v.t
    if isz(v):
        if z3.is_bool(v):
            return v
        return v != 0
    return z3.BoolVal(bool(v))


def pair(a, b):
    a, b = num(a), num(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return a, b


def val(t):
    """z3 term -> python value (numerals become int/Fraction/bool)"""
    if isinstance(t, Sym):
        t = t.t
    if not isz(t):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fr(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return Sym(t)


def simp_scalar(v):
    if isinstance(v, Sym):
        return val(z3.simplify(v.t))
    return v


def isnum(v):
    return isinstance(v, (int, float, Fr)) and not isinstance(v, bool)


def isscalar(v):
    return isinstance(v, (int, float, Fr, Sym, bool, complex))


def nonfinite(v):
    return isinstance(v, float) and not math.isfinite(v)


def exact(v):
    if isinstance(v, float) and math.isfinite(v):
        return Fr(repr(v))
    return v


def ite(c, a, b):
    """python-level ite on element values"""
    c = val(boolt(c))
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if nonfinite(a) or nonfinite(b):
        if nonfinite(a) and nonfinite(b) and (a == b):
            return a
        raise Unsupported("non-finite value under a symbolic condition")
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        raise Unsupported("object under a symbolic condition")
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        ta, tb = pair(ta, tb)
    if ta.eq(tb):
        return val(ta)
    return val(z3.If(c.t, ta, tb))


class Sym:
    """symbolic scalar (also stands for a numpy scalar)"""
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # ---- numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def kind(self):
        k = self.t.sort().kind()
        return {z3.Z3_INT_SORT: 'i', z3.Z3_REAL_SORT: 'f', z3.Z3_BOOL_SORT: 'b'}[k]

    @property
    def dtype(self):
        from . import fakenp
        return fakenp.dtype_of_kind(self.kind)

    def astype(self, ty):
        from . import fakenp
        return cast(self, fakenp.kind_of_dtype(ty))

    def item(self):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    max = min = mean = squeeze = flatten = sum

    def __repr__(self):
        return "Sym(%s)" % str(self.t)[:80]

    def __format__(self, spec):
        return "<sym>"

    __str__ = lambda self: "<sym>"

    def __bool__(self):
        return decide(boolt(self))

    def __index__(self):
        v = val(z3.simplify(self.t))
        if isinstance(v, int):
            return v
        raise Unsupported("symbolic value used as a python index")

    def __hash__(self):
        return self.t.hash()

    # ---- arithmetic
    def __add__(self, o): return binop('+', self, o)
    def __radd__(self, o): return binop('+', o, self)
    def __sub__(self, o): return binop('-', self, o)
    def __rsub__(self, o): return binop('-', o, self)
    def __mul__(self, o): return binop('*', self, o)
    def __rmul__(self, o): return binop('*', o, self)
    def __truediv__(self, o): return binop('/', self, o)
    def __rtruediv__(self, o): return binop('/', o, self)
    def __floordiv__(self, o): return binop('//', self, o)
    def __rfloordiv__(self, o): return binop('//', o, self)
    def __mod__(self, o): return binop('%', self, o)
    def __rmod__(self, o): return binop('%', o, self)
    def __pow__(self, o): return binop('**', self, o)
    def __rpow__(self, o): return binop('**', o, self)
    def __lt__(self, o): return binop('<', self, o)
    def __le__(self, o): return binop('<=', self, o)
    def __gt__(self, o): return binop('>', self, o)
    def __ge__(self, o): return binop('>=', self, o)
    def __eq__(self, o): return binop('==', self, o)
    def __ne__(self, o): return binop('!=', self, o)
    def __and__(self, o): return binop('&', self, o)
    def __rand__(self, o): return binop('&', o, self)
    def __or__(self, o): return binop('|', self, o)
    def __ror__(self, o): return binop('|', o, self)
    def __xor__(self, o): return binop('^', self, o)
    def __neg__(self): return unop('-', self)
    def __pos__(self): return self
    def __abs__(self): return unop('abs', self)
    def __invert__(self): return unop('~', self)
    def __round__(self, n=None): return unop('rint', self)

    def __getitem__(self, key):
        if key is Ellipsis or key == ():
            return self
        from .arrays import asarr
        return asarr(self)[key]


def is_array(o):
    from .arrays import Arr
    return isinstance(o, (Arr, list, tuple))


def binop(op, a, b):
    from .arrays import Arr, ew2
    if isinstance(a, Arr) or isinstance(b, Arr) or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return ew2(op, a, b)
    return sbin(op, a, b)


_pyops = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
    '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
    '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
}


def sbin(op, a, b):
    """scalar binary operation"""
    a, b = exact(a), exact(b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str) or callable(a) or callable(b):
        if op == '==':
            return a is b or (isinstance(a, str) and isinstance(b, str) and a == b)
        if op == '!=':
            return not (a is b or (isinstance(a, str) and isinstance(b, str) and a == b))
        raise TypeError("unsupported operand type(s) for %s" % op)
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if not sa and not sb:
        return pybin(op, a, b)
    if nonfinite(a) or nonfinite(b):
        return infbin(op, a, b)
    if op in ('&', '|', '^'):
        ka = a.kind if sa else ('b' if isinstance(a, bool) else 'i')
        kb = b.kind if sb else ('b' if isinstance(b, bool) else 'i')
        if ka == 'b' and kb == 'b':
            x, y = boolt(a), boolt(b)
            if op == '&':
                if not sa: return b if a else False
                if not sb: return a if b else False
                return Sym(z3.And(x, y))
            if op == '|':
                if not sa: return True if a else b
                if not sb: return True if b else a
                return Sym(z3.Or(x, y))
            return val(z3.simplify(z3.Xor(x, y)))
        if ka == 'f' or kb == 'f':
            raise TypeError("ufunc 'bitwise' not supported for floats")
        raise Unsupported("bit operations on integers")
    if op == '==' and ((sa and a.kind == 'b') or (sb and b.kind == 'b')) and not (isnum(a) or isnum(b)):
        return val(z3.simplify(boolt(a) == boolt(b)))
    if op == '/':
        x, y = real(num(a)), real(num(b))
        if z3.is_rational_value(y):
            d = val(y)
            if d == 1:
                return val(x)
            if d == 0:
                raise Unsupported("division by a zero constant")
            return Sym(x * z3.RealVal(1 / Fr(d)))
        if not sa and a == 0:
            pass
        return Sym(x / y)
    if op == '**':
        return spow(a, b)
    if op in ('//', '%'):
        x, y = pair(a, b)
        if not z3.is_int(x):
            raise Unsupported("floor division of reals")
        return val(z3.simplify(x / y if op == '//' else x % y))
    x, y = pair(a, b)
    if op == '+':
        if not sa and a == 0: return up(b, x)
        if not sb and b == 0: return up(a, x)
        return Sym(x + y)
    if op == '-':
        if not sb and b == 0: return up(a, x)
        if x.eq(y): return val(z3.simplify(x - y))
        return Sym(x - y)
    if op == '*':
        if not sa:
            if a == 1: return up(b, x)
            if a == 0: return val(x * 0 if False else (z3.RealVal(0) if z3.is_real(x) else z3.IntVal(0)))
        if not sb:
            if b == 1: return up(a, x)
            if b == 0: return val(z3.RealVal(0) if z3.is_real(x) else z3.IntVal(0))
        return Sym(x * y)
    if x.eq(y):
        return op in ('<=', '>=', '==')
    r = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
         '==': lambda: x == y, '!=': lambda: x != y}[op]()
    return Sym(r)


def up(v, like):
    """keep the value, with the sort of `like` (numpy promotion)"""
    t = num(v)
    if t.sort() != like.sort():
        t = real(t)
    return val(t)


def pybin(op, a, b):
    if op in _pyops:
        return exact(_pyops[op](a, b))
    if op == '/':
        if nonfinite(a) or nonfinite(b):
            return a / b if b != 0 else math.nan
        if b == 0:
            if a == 0:
                return math.nan
            return math.inf if a > 0 else -math.inf
        return Fr(a) / Fr(b)
    if op == '//':
        return a // b
    if op == '%':
        return a % b
    if op == '**':
        return spow(a, b)
    if op == '&':
        return a & b
    if op == '|':
        return a | b
    if op == '^':
        return a ^ b
    raise Unsupported(op)


def infbin(op, a, b):
    if isinstance(a, float) and not math.isfinite(a):
        inf, s, left = a, b, True
    else:
        inf, s, left = b, a, False
    if math.isnan(inf):
        return {'!=': True}.get(op, False) if op in ('<', '<=', '>', '>=', '==', '!=') else inf
    if op in ('==',):
        return False
    if op == '!=':
        return True
    if op in ('<', '<='):
        return (inf < 0) if left else (inf > 0)
    if op in ('>', '>='):
        return (inf > 0) if left else (inf < 0)
    if op == '+':
        return inf
    if op == '-':
        return inf if left else -inf
    if op == '/' and not left:
        return Fr(0)
    if op in ('*', '/'):
        pos = decide(boolt(s > 0))
        if pos:
            return inf
        if decide(boolt(s < 0)):
            return -inf
        return math.nan
    raise Unsupported("infinity in %s" % op)


def spow(a, b):
    a, b = exact(a), exact(b)
    if isinstance(b, Fr) and b.denominator == 1:
        r = spow(a, int(b))
        return Fr(r) if isinstance(r, int) else (Sym(real(r)) if isinstance(r, Sym) else r)
    if isinstance(b, int) and not isinstance(b, bool):
        if not isinstance(a, Sym):
            if a == 0 and b < 0:
                return math.inf
            return exact(Fr(a) ** b if (b < 0 or isinstance(a, Fr)) else a ** b)
        if b == 0:
            return 1
        if abs(b) > 24:
            raise Unsupported("large power")
        r = a
        for _ in range(abs(b) - 1):
            r = sbin('*', r, a)
        return r if b > 0 else sbin('/', Fr(1), r)
    if isinstance(b, Fr) and b == Fr(1, 2):
        return sqrt(a)
    if isinstance(b, Fr) and (b * 2).denominator == 1:
        n = int((b * 2))
        return spow(sqrt(a), n)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return powu(a, b)
    if nonfinite(a) or nonfinite(b):
        return float(a) ** float(b)
    return powu(a, b)


def unop(op, a):
    from .arrays import Arr, ew1
    if isinstance(a, (Arr, list, tuple)):
        return ew1(op, a)
    return sun(op, a)


def sun(op, a):
    a = exact(a)
    if not isinstance(a, Sym):
        if op == '-': return -a
        if op == 'abs': return abs(a)
        if op == '~': return (not a) if isinstance(a, bool) else ~a
        if nonfinite(a) and op in ('floor', 'ceil', 'rint'):
            return a
        if op == 'floor': return Fr(math.floor(a))
        if op == 'ceil': return Fr(math.ceil(a))
        if op == 'rint': return Fr(round(a))
        if op == 'sign': return (a > 0) - (a < 0)
    t = a.t
    if op == '~':
        if a.kind == 'b':
            return val(z3.Not(t) if not z3.is_not(t) else t.arg(0))
        if a.kind == 'i':
            return Sym(-t - 1)
        raise TypeError("bad operand type for ~")
    t = num(t)
    if op == '-': return Sym(-t)
    if op == 'abs': return Sym(z3.If(t >= 0, t, -t))
    if op == 'floor': return Sym(real(z3.ToInt(real(t))))
    if op == 'ceil': return Sym(real(-z3.ToInt(-real(t))))
    if op == 'rint':
        r = real(t)
        k = z3.ToInt(r + z3.RealVal("1/2"))
        # round half to even
        tie = z3.And(real(k) == r + z3.RealVal("1/2"), k % 2 == 1)
        return Sym(real(z3.If(tie, k - 1, k)))
    raise Unsupported(op)


def cast(v, kind):
    """convert an element value to the kind of an array"""
    v = exact(v)
    if kind == 'O':
        return v
    if v is None or isinstance(v, str):
        raise TypeError("float() argument must be a string or a real number")
    if kind == 'f':
        if isinstance(v, bool): return Fr(int(v))
        if isinstance(v, int): return Fr(v)
        if isinstance(v, Sym): return val(real(v))
        return v
    if kind == 'i':
        if isinstance(v, bool): return int(v)
        if isinstance(v, Fr): return int(v)
        if isinstance(v, Sym):
            if v.kind == 'b': return Sym(num(v))
            if v.kind == 'f':
                t = v.t
                if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
                    return val(t.arg(0))
                return Sym(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        if nonfinite(v):
            raise Unsupported("cast of a non-finite value")
        return v
    if kind == 'b':
        if isinstance(v, Sym): return val(boolt(v))
        return bool(v)
    raise Unsupported("kind " + kind)


def kindof(v):
    if isinstance(v, Sym): return v.kind
    if isinstance(v, bool): return 'b'
    if isinstance(v, int): return 'i'
    if isinstance(v, (Fr, float)): return 'f'
    return 'O'


# ------------------------------------------------------------------ uninterpreted real functions
R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()
F_SQRT = z3.Function('sqrt', R, R)
F_EXP = z3.Function('exp', R, R)
F_LOG = z3.Function('log', R, R)
F_POW = z3.Function('pow', R, R, R)
F_P10 = z3.Function('pow10', R, R)
F_L10 = z3.Function('log10', R, R)
F_L2 = z3.Function('log2', R, R)
PI = z3.Real('pi')
GLOBAL_FACTS = [PI > z3.RealVal("3.14159265"), PI < z3.RealVal("3.14159266")]


def _f_sqrt(a):
    x = a.arg(0)
    return [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)), z3.Implies(x > 0, a > 0)]


def _f_exp(a):
    x = a.arg(0)
    return [a > 0, z3.Implies(x == 0, a == 1), z3.Implies(x > 0, a > 1), z3.Implies(x < 0, a < 1),
            a >= 1 + x] + ([x.arg(0) == F_LOG(a)] if False else [])


def _f_log(a):
    x = a.arg(0)
    return [z3.Implies(x == 1, a == 0), z3.Implies(x > 1, a > 0), z3.Implies(z3.And(x > 0, x < 1), a < 0),
            z3.Implies(x > 0, F_EXP(a) == x)]


def _f_l10(a):
    x = a.arg(0)
    return [z3.Implies(x == 1, a == 0), z3.Implies(x > 1, a > 0), z3.Implies(z3.And(x > 0, x < 1), a < 0),
            z3.Implies(x > 0, F_P10(a) == x)]


def _f_l2(a):
    x = a.arg(0)
    return [z3.Implies(x == 1, a == 0), z3.Implies(x > 1, a > 0), z3.Implies(z3.And(x > 0, x < 1), a < 0)]


def _f_p10(a):
    x = a.arg(0)
    fs = [a > 0, z3.Implies(x == 0, a == 1), z3.Implies(x > 0, a > 1), z3.Implies(x < 0, a < 1), F_L10(a) == x]
    return fs


def _f_pow(a):
    x, y = a.arg(0), a.arg(1)
    fs = [z3.Implies(x > 0, a > 0), z3.Implies(y == 0, a == 1), z3.Implies(x == 1, a == 1), z3.Implies(y == 1, a == x)]
    if z3.is_rational_value(y):
        n, d = y.numerator_as_long(), y.denominator_as_long()
        if n == 1 and 2 <= d <= 12:             # the d-th root
            p = a
            for _ in range(d - 1):
                p = p * a
            fs.append(z3.Implies(x >= 0, z3.And(a >= 0, p == x)))
        if n > 0:
            fs.append(z3.Implies(z3.And(x >= 0, x <= 1), z3.And(a >= 0, a <= 1)))
    return fs


def _mono(strict):
    def f(a, b):
        x, y = a.arg(0), b.arg(0)
        return [z3.Implies(z3.And(0 <= x, x < y), a < b), z3.Implies(z3.And(0 <= y, y < x), b < a)]
    return f


def _monoall(a, b):
    x, y = a.arg(0), b.arg(0)
    return [z3.Implies(x < y, a < b), z3.Implies(y < x, b < a)]


def _monopos(a, b):
    x, y = a.arg(0), b.arg(0)
    return [z3.Implies(z3.And(0 < x, x < y), a < b), z3.Implies(z3.And(0 < y, y < x), b < a)]


BASE_FACTS = {'sqrt': _f_sqrt, 'exp': _f_exp, 'log': _f_log, 'log10': _f_l10, 'log2': _f_l2,
              'pow10': _f_p10, 'pow': _f_pow}
BASE_PAIR = {'sqrt': _mono(True), 'exp': _monoall, 'log': _monopos, 'log10': _monopos, 'pow10': _monoall,
             'log2': _monopos}


def sqrt(a):
    a = exact(a)
    if not isinstance(a, Sym):
        if nonfinite(a):
            return math.sqrt(a) if a > 0 else math.nan
        if a < 0:
            return math.nan
        n, d = Fr(a).numerator, Fr(a).denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Fr(rn, rd)
        return Sym(F_SQRT(real(a)))
    return Sym(F_SQRT(z3.simplify(real(a))))


def _ufun(F, name, conc):
    def f(a):
        a = exact(a)
        if not isinstance(a, Sym):
            r = conc(a)
            if r is not None:
                return r
        return Sym(F(real(a)))
    f.__name__ = name
    return f


def _cexp(a):
    if a == 0: return Fr(1)
    if nonfinite(a): return math.exp(a) if a < 0 else math.inf
    return None


def _clog(a):
    if nonfinite(a): return a
    if a == 1: return Fr(0)
    if a == 0: return -math.inf
    if a < 0: return math.nan
    return None


def _cl10(a):
    r = _clog(a)
    if r is not None: return r
    a = Fr(a)
    for k in range(-30, 31):
        if a == Fr(10) ** k:
            return Fr(k)
    return None


def _cp10(a):
    if nonfinite(a): return 0.0 if a < 0 else a
    if Fr(a).denominator == 1 and abs(a) < 40: return Fr(10) ** int(a)
    return None


def _cl2(a):
    r = _clog(a)
    if r is not None: return r
    a = Fr(a)
    for k in range(-30, 31):
        if a == Fr(2) ** k:
            return Fr(k)
    return None


exp = _ufun(F_EXP, 'exp', _cexp)
log = _ufun(F_LOG, 'log', _clog)
log10 = _ufun(F_L10, 'log10', _cl10)
pow10 = _ufun(F_P10, 'pow10', _cp10)
log2 = _ufun(F_L2, 'log2', _cl2)


def powu(a, b):
    a, b = exact(a), exact(b)
    if not isinstance(a, Sym) and a == 10:
        return pow10(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if a == 1: return Fr(1)
        if a == 0: return Fr(0)
    return Sym(F_POW(real(a), real(b)))


# ------------------------------------------------------------------ index constants and paths
def fresh_idx(base='k'):
    n = C.fresh(base)
    c = z3.Int(n)
    C.idxconsts[n] = c
    return c


def is_idx(c):
    return z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.decl().name() in C.idxconsts


class Path:
    """one execution path: decisions to follow, the path condition and the assumptions"""

    def __init__(self, prefix, parent=None):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.hyps = list(parent.hyps) if parent is not None else []
        self.base = len(self.hyps)

    def assume(self, c):
        c = z3.simplify(boolt(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort("assumption is false")
        self.hyps.append(c)


def path():
    return C.paths[-1]


def assume(c):
    path().assume(c)


STATS = dict(feas=0, feas_s=0.0)
FEAS_MS = 400


def feasible(hyps):
    import time
    from . import prover
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', FEAS_MS)
    fs = list(hyps) + GLOBAL_FACTS
    s.add(*fs)
    s.add(*prover.instantiate(fs, rounds=2, limit=150))
    r = s.check()
    STATS['feas'] += 1
    STATS['feas_s'] += time.time() - t0
    return r != z3.unsat


def nonneg(t):
    """syntactically non-negative integer terms"""
    if z3.is_int_value(t):
        return t.as_long() >= 0
    if is_idx(t):
        return True
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        return all(nonneg(c) for c in t.children())
    if k == z3.Z3_OP_ITE:
        return nonneg(t.arg(1)) and nonneg(t.arg(2))
    if k == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.IntSort() and is_binder(t, 'SUM'):
        return nonneg(binder_body(t, z3.Int('nn_j')))
    if k == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        return n.startswith(('sel', 'rank_', 'perm', 'unrav', 'rav_', 'ss_', 'choice!')) or n in C.nonneg_names
    return False


def decide(cond):
    """branch on a symbolic condition"""
    c = z3.simplify(cond)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    if C.nodecide:
        if C.within is not None:
            # an element of a comprehension: the condition has the same value for every index in range
            hy = path().hyps + C.within
            ft = feasible(hy + [c])
            ff = feasible(hy + [z3.Not(c)])
            if not (ft and ff):
                return ft or not ff
        raise Unsupported("branch on a bound variable")
    p = path()
    for h in p.hyps:
        if h.eq(c):
            return True
        if (z3.is_not(c) and h.eq(c.arg(0))) or (z3.is_not(h) and h.arg(0).eq(c)):
            return False
    k = len(p.taken)
    if k < len(p.prefix):
        d = p.prefix[k]
        p.taken.append(d)
        if d is not None:
            p.hyps.append(c if d[0] else z3.Not(c))
            return d[0]
    if len(p.taken) > 400:
        raise Unsupported("too many decisions on one path")
    ft = feasible(p.hyps + [c])
    ff = feasible(p.hyps + [z3.Not(c)])
    if ft and ff:
        e = c.arg(0) if z3.is_not(c) else c
        if z3.is_app(e) and e.num_args() == 2 and e.arg(0).sort() == z3.IntSort() and 'SUM_' in str(e):
            # two counts, or the sign of one: a sum lemma may decide what instances of facts alone do not
            from . import prover
            k = e.decl().kind()
            if k == z3.Z3_OP_EQ and not z3.is_int_value(e.arg(0)) and not z3.is_int_value(e.arg(1)):
                if prover.prove(list(p.hyps), e, budget=6.0)[0] == 'proved':
                    ft, ff = (False, True) if z3.is_not(c) else (True, False)
            elif k in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE) and '0' in (str(e.arg(0)), str(e.arg(1))):
                weak = k in (z3.Z3_OP_LE, z3.Z3_OP_GE)
                if prover.prove(list(p.hyps), e if weak else z3.Not(e), budget=3.0)[0] == 'proved':
                    ft, ff = (True, False) if z3.is_not(c) != weak else (False, True)
    if ft and ff and C.nofork:
        raise Unsupported("branch on a condition of an arbitrary iteration")
    if ft and ff:
        p.alts.append(p.taken + [(False,)])
        p.taken.append((True,))
        p.hyps.append(c)
        return True
    if not ft and not ff:
        raise PathAbort("infeasible path")
    d = ft
    p.taken.append((d,))
    p.hyps.append(c if d else z3.Not(c))
    return d


def explore(fn, parent=None, max_paths=600, after=None):
    """run fn on every feasible path; returns [(path, outcome, value)]; after(path, outcome, value): at the end of every
    path, before the names of this path are used again"""
    work = [[]]
    out = []
    c0 = C.counter
    ev0 = len(C.events)
    while work:
        prefix = work.pop()
        p = Path(prefix, parent)
        if parent is None:
            C.counter = c0
        del C.events[ev0:]
        C.paths.append(p)
        try:
            r = ('ret', fn())
        except PathAbort as e:
            r = ('cut', str(e))
        except Unsupported:
            raise
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:     # an exception of the verified code
            r = ('exc', e)
        finally:
            C.paths.pop()
        work.extend(p.alts)
        out.append((p, r[0], r[1]))
        if after is not None:
            after(p, *r)
        if len(out) > max_paths:
            raise Unsupported("more than %d paths" % max_paths)
    return out


# ------------------------------------------------------------------ walking terms
def subterms(ts):
    seen = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen[i] = t
        stack.extend(t.children())
    return seen.values()


def contains(t, c):
    i = c.get_id()
    for s in subterms([t]):
        if s.get_id() == i:
            return True
    return False


# ------------------------------------------------------------------ sums, quantifiers
def _idx_params(t, but):
    ps = []
    seen = set()
    stack = [t]
    while stack:
        s = stack.pop()
        if s.get_id() in seen:
            continue
        seen.add(s.get_id())
        if is_idx(s) and not s.eq(but):
            ps.append(s)
        stack.extend(reversed(s.children()))
    return ps


_PH = {}


def _placeholder(k):
    if k not in _PH:
        _PH[k] = z3.Int("ph!%d" % k)
    return _PH[k]


BV = z3.Int("bv!")


def ordered(t, memo=None, full=False):
    """the arguments of conjunctions and disjunctions in a fixed order (z3 orders them by age)"""
    memo = {} if memo is None else memo
    i = t.get_id()
    if i in memo:
        return memo[i]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [ordered(c, memo, full) for c in t.children()]
        k = t.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ch.sort(key=lambda c: c.sexpr())
            r = z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch)
        elif k == z3.Z3_OP_ADD and (full or z3.is_int(t)):
            ch.sort(key=lambda c: c.sexpr())
            r = z3.Sum(*ch)
        elif k == z3.Z3_OP_MUL and full:
            ch.sort(key=lambda c: c.sexpr())
            r = z3.Product(*ch)
        elif any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = z3.substitute(t, *[(b, a) for a, b in zip(ch, t.children()) if not a.eq(b)])
    memo[i] = r
    return r


def binder(kind, j, t, n, sort):
    """canonical uninterpreted application standing for `kind_{0<=j<n} t`"""
    ps = _idx_params(t, j)
    sub = [(p, _placeholder(i)) for i, p in enumerate(ps)] + [(j, BV)]
    body = ordered(z3.substitute(t, *sub))
    key = (kind, body.get_id(), len(ps))
    if key not in C.sums:
        name = "%s_%d" % (kind, len(C.sums))
        decl = z3.Function(name, *([I] * (len(ps) + 1) + [sort]))
        C.sums[key] = decl
        C.sumdefs[name] = (kind, [_placeholder(i) for i in range(len(ps))], body)
        C.keep.append(body)
    decl = C.sums[key]
    return decl(*(list(ps) + [term(n)]))


def binder_body(app, j):
    """body of a binder application at index term j"""
    kind, ps, body = C.sumdefs[app.decl().name()]
    args = [app.arg(i) for i in range(app.num_args())]
    return z3.substitute(body, *(list(zip(ps, args[:-1])) + [(BV, term(j))]))


def is_binder(t, kind=None):
    if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return False
    d = C.sumdefs.get(t.decl().name())
    return d is not None and (kind is None or d[0] == kind)


def sum_term(j, t, n):
    """sum_{0<=j<n} t, normalised"""
    n = term(n)
    if not contains(t, j):
        nn = real(n) if z3.is_real(t) else n
        if z3.is_int_value(t) and t.as_long() == 0:
            return t
        if z3.is_rational_value(t) and val(t) == 0:
            return t
        return nn * t
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        ch = [sum_term(j, c, n) for c in t.children()]
        r = ch[0]
        for c in ch[1:]:
            r = r + c
        return r
    if k == z3.Z3_OP_SUB:
        ch = [sum_term(j, c, n) for c in t.children()]
        r = ch[0]
        for c in ch[1:]:
            r = r - c
        return r
    if k == z3.Z3_OP_UMINUS:
        return -sum_term(j, t.arg(0), n)
    if k == z3.Z3_OP_MUL:
        free, dep = [], []
        for c in t.children():
            (dep if contains(c, j) else free).append(c)
        if free:
            r = sum_term(j, _prod(dep), n)
            return _prod(free) * r
        for i, c in enumerate(dep):
            if c.decl().kind() == z3.Z3_OP_DIV and not contains(c.arg(1), j):
                return sum_term(j, _prod(dep[:i] + [c.arg(0)] + dep[i + 1:]), n) / c.arg(1)
    if k == z3.Z3_OP_ITE and _zero(t.arg(2)) and z3.is_real(t):
        a = t.arg(1)
        if a.decl().kind() == z3.Z3_OP_DIV and not contains(a.arg(1), j):
            return sum_term(j, z3.If(t.arg(0), a.arg(0), t.arg(2)), n) / a.arg(1)
        if a.decl().kind() == z3.Z3_OP_MUL:
            for i, c in enumerate(a.children()):
                if not contains(c, j):
                    return c * sum_term(j, z3.If(t.arg(0), _prod([x for m, x in enumerate(a.children()) if m != i]), t.arg(2)), n)
                if c.decl().kind() == z3.Z3_OP_DIV and not contains(c.arg(1), j):
                    return sum_term(j, z3.If(t.arg(0), _prod([c.arg(0) if m == i else x for m, x in enumerate(a.children())]), t.arg(2)), n) / c.arg(1)
    if k == z3.Z3_OP_DIV:
        a, b = t.children()
        if not contains(b, j):
            return sum_term(j, a, n) / b
    if k == z3.Z3_OP_TO_REAL:
        return z3.ToReal(sum_term(j, t.arg(0), n))
    if k == z3.Z3_OP_ITE and z3.is_eq(t.arg(0)) and _zero(t.arg(2)):
        a, b = t.arg(0).children()
        for x, y in ((a, b), (b, a)):
            if x.eq(j) and not contains(y, j):
                return z3.If(z3.And(y >= 0, y < n), z3.substitute(t.arg(1), (j, y)), t.arg(2))
    if k == z3.Z3_OP_ITE and not contains(t.arg(0), j):
        return z3.If(t.arg(0), sum_term(j, t.arg(1), n), sum_term(j, t.arg(2), n))
    return binder('SUM', j, t, n, t.sort())


def _zero(t):
    return (z3.is_int_value(t) or z3.is_rational_value(t)) and val(t) == 0


def _prod(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r


def closed_body(body, j):
    C.nodecide += 1
    try:
        return body(j)
    finally:
        C.nodecide -= 1


def mk_sum(n, body):
    """sum of body(j) for 0 <= j < n"""
    n = val(term(n)) if not isinstance(n, int) else n
    if isinstance(n, int):
        r = 0
        for j in range(n):
            r = sbin('+', r, body(j))
        return r
    j = fresh_idx('b')
    C.idxrange[j.decl().name()] = n
    v = closed_body(body, j)
    if nonfinite(v):
        raise Unsupported("sum of non-finite values")
    t = z3.simplify(num(v))
    return val(z3.simplify(sum_term(j, t, n)))


def mk_any(n, body):
    n = val(term(n)) if not isinstance(n, int) else n
    if isinstance(n, int):
        r = False
        for j in range(n):
            r = sbin('|', r, cast(body(j), 'b'))
        return r
    j = fresh_idx('b')
    C.idxrange[j.decl().name()] = n
    t = z3.simplify(boolt(closed_body(body, j)))
    if z3.is_false(t):
        return False
    if not contains(t, j):
        return val(z3.simplify(z3.And(term(n) > 0, t)))
    return Sym(binder('ANY', j, t, n, B))


def mk_all(n, body):
    r = mk_any(n, lambda j: sun('~', cast(body(j), 'b')))
    return sun('~', r)


def mk_ext(kind, n, body):
    """minimum / maximum over a non-empty symbolic range"""
    j = fresh_idx('b')
    C.idxrange[j.decl().name()] = n
    t = z3.simplify(num(closed_body(body, j)))
    if not contains(t, j):
        return val(t)
    return val(binder(kind, j, t, n, t.sort()))


def wit(app):
    """skolem witness of an ANY / MIN / MAX application"""
    d = app.decl()
    f = z3.Function("wit_" + d.name(), *([I] * app.num_args() + [I]))
    return f(*[app.arg(i) for i in range(app.num_args())])


def binder_facts(app):
    kind = C.sumdefs[app.decl().name()][0]
    n = app.arg(app.num_args() - 1)
    if kind == 'ANY':
        w = wit(app)
        return [z3.Implies(app, z3.And(0 <= w, w < n, binder_body(app, w)))]
    if kind in ('MIN', 'MAX'):
        w = wit(app)
        return [z3.Implies(n > 0, z3.And(0 <= w, w < n, app == binder_body(app, w)))]
    if kind == 'SUM':
        args = [app.arg(i) for i in range(app.num_args() - 1)]
        prev = app.decl()(*(args + [z3.simplify(n - 1)]))
        zero = z3.RealVal(0) if z3.is_real(app) else z3.IntVal(0)
        out = [z3.Implies(n <= 0, app == zero)]
        if not is_dim(n):
            out.append(z3.Implies(n >= 1, app == prev + binder_body(app, z3.simplify(n - 1))))
        return out
    return []


def is_dim(n):
    """an upper bound that is itself an array dimension (no unfolding needed)"""
    return z3.is_const(n) and not is_idx(n)


def binder_quant(app, c):
    kind = C.sumdefs[app.decl().name()][0]
    n = app.arg(app.num_args() - 1)
    rng = z3.And(0 <= c, c < n)
    if kind == 'ANY':
        return [z3.Implies(rng, z3.Implies(binder_body(app, c), app))]
    if kind == 'MIN':
        return [z3.Implies(rng, app <= binder_body(app, c))]
    if kind == 'MAX':
        return [z3.Implies(rng, app >= binder_body(app, c))]
    return []


# ------------------------------------------------------------------ polynomials over the integers
def ipoly(t, lim=200):
    """z3 int term -> {monomial (sorted tuple of atom ids): coefficient}, atoms in IATOM"""
    if z3.is_int_value(t):
        k = t.as_long()
        return {(): k} if k else {}
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        out = {}
        for i, c in enumerate(t.children()):
            sg = -1 if (k == z3.Z3_OP_SUB and i) else 1
            for m, v in ipoly(c).items():
                out[m] = out.get(m, 0) + sg * v
        return {m: v for m, v in out.items() if v}
    if k == z3.Z3_OP_UMINUS:
        return {m: -v for m, v in ipoly(t.arg(0)).items()}
    if k == z3.Z3_OP_MUL:
        out = {(): 1}
        for c in t.children():
            p = ipoly(c)
            nx = {}
            for m, v in out.items():
                for m2, v2 in p.items():
                    mm = tuple(sorted(m + m2))
                    nx[mm] = nx.get(mm, 0) + v * v2
            out = {m: v for m, v in nx.items() if v}
            if len(out) > lim:
                break
        return out
    IATOM[t.get_id()] = t
    return {(t.get_id(),): 1}


IATOM = {}


def _unpoly(p):
    if not p:
        return z3.IntVal(0)
    ts = []
    for m, v in sorted(p.items()):
        x = z3.IntVal(v)
        for a in m:
            x = x * IATOM[a]
        ts.append(x)
    return z3.simplify(z3.Sum(ts) if len(ts) > 1 else ts[0])


def polydiv(x, d):
    """(q, r) with x == q*d + r as polynomials (a valid identity; r is what the leading monomial of d does not divide)"""
    p, q = ipoly(x), {}
    dp = ipoly(d)
    if not dp:
        return z3.IntVal(0), x
    lead = max(dp, key=lambda m: (len(m), m))
    lc = dp[lead]
    r = {}
    n = 0
    while p and n < 200:
        n += 1
        m = max(p, key=lambda m: (len(m), m))
        v = p[m]
        rest = list(m)
        ok = True
        for a in lead:
            if a in rest:
                rest.remove(a)
            else:
                ok = False
                break
        c = v // lc if ok else 0
        if not ok or c == 0:
            r[m] = r.get(m, 0) + v
            del p[m]
            continue
        rest = tuple(rest)
        q[rest] = q.get(rest, 0) + c
        for m2, v2 in dp.items():
            mm = tuple(sorted(rest + m2))
            p[mm] = p.get(mm, 0) - c * v2
            if p[mm] == 0:
                del p[mm]
        if m in p:          # remaining part of the coefficient (v % lc)
            r[m] = r.get(m, 0) + p[m]
            del p[m]
    for m, v in p.items():
        r[m] = r.get(m, 0) + v
    return _unpoly({m: v for m, v in q.items() if v}), _unpoly({m: v for m, v in r.items() if v})
