"""Equalities by polynomial identity: a rational identity, or membership in the ideal of equality hypotheses."""
import signal
import z3
import sympy
from fractions import Fraction as Fr
from . import core


class Out(Exception):
    pass


def _alarm(*a):
    raise Out()


class Conv:
    def __init__(self):
        self.map = {}
        self.n = 0
        self.dens = []

    def sym(self, t):
        k = t.get_id()
        if k not in self.map:
            self.n += 1
            self.map[k] = (sympy.Symbol("x%d" % self.n), t)
        return self.map[k][0]

    def go(self, t):
        """-> sympy expression (denominators allowed)"""
        if z3.is_int_value(t):
            return sympy.Integer(t.as_long())
        if z3.is_rational_value(t):
            return sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_app(t):
            k = t.decl().kind()
            ch = t.children()
            if k == z3.Z3_OP_ADD:
                return sympy.Add(*[self.go(c) for c in ch])
            if k == z3.Z3_OP_MUL:
                return sympy.Mul(*[self.go(c) for c in ch])
            if k == z3.Z3_OP_SUB:
                r = self.go(ch[0])
                for c in ch[1:]:
                    r = r - self.go(c)
                return r
            if k == z3.Z3_OP_UMINUS:
                return -self.go(ch[0])
            if k == z3.Z3_OP_DIV:
                d = self.go(ch[1])
                self.dens.append((d, ch[1]))
                return self.go(ch[0]) / d
            if k == z3.Z3_OP_TO_REAL:
                return self.go(ch[0])
            if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and ch[1].as_long() >= 0:
                return self.go(ch[0]) ** ch[1].as_long()
        return self.sym(t)


def prove_eq(hyps, goal, secs):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return _prove_eq(hyps, goal)
    except Out:
        return False
    except Exception:
        return False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _prove_eq(hyps, goal):
    from . import prover
    cv = Conv()
    a, b = cv.go(goal.arg(0)), cv.go(goal.arg(1))
    num, den = sympy.fraction(sympy.together(a - b))
    num = sympy.expand(num)
    # every denominator must be known to be nonzero
    dens = list(cv.dens)
    facts = prover.instantiate(list(hyps) + [goal], rounds=2, limit=800)

    def nonzero():
        for d, t in dens:
            if d.is_number:
                if d == 0:
                    return False
                continue
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*hyps)
            s.add(*core.GLOBAL_FACTS)
            s.add(*facts)
            s.add(t == 0)
            r = s.check()
            if r != z3.unsat:
                if prover.nlsat(list(hyps) + core.GLOBAL_FACTS + facts + [t == 0], 1.5) != z3.unsat:
                    return False
        return True
    if num == 0:
        return nonzero()
    eqs = []
    for h in list(hyps) + facts:
        if z3.is_eq(h) and not z3.is_bool(h.arg(0)):
            c2 = cv
            k = len(cv.dens)
            x, y = cv.go(h.arg(0)), cv.go(h.arg(1))
            n2, _ = sympy.fraction(sympy.together(x - y))
            n2 = sympy.expand(n2)
            if n2 != 0:
                eqs.append(n2)
    if not eqs:
        return False
    syms = sorted(num.free_symbols, key=str)
    # connected equations only
    use, vs, ch = [], set(num.free_symbols), True
    rest = list(eqs)
    while ch:
        ch = False
        for e in list(rest):
            if e.free_symbols & vs:
                use.append(e)
                vs |= e.free_symbols
                rest.remove(e)
                ch = True
    if not use or len(use) > 14:
        use = [e for e in eqs if e.free_symbols <= set(num.free_symbols)] or use[:14]
    gens = sorted(vs, key=lambda s: -int(str(s)[1:]))
    for order in ('grevlex',):
        G = sympy.groebner(use, *gens, order=order)
        _, r = sympy.reduced(num, list(G.exprs), *gens, order=order)
        if r == 0:
            return nonzero()
    return False
