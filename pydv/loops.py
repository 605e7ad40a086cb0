"""Rules for loops with symbolic bounds.

for:  the body is run once, at an arbitrary index j, from an arbitrary state of every variable and array it may
      change.  The change is accepted when it is, for every cell, either `new = old + delta(j)` with delta
      independent of the changed state (accumulation; after n iterations: init + sum_{j<n} delta(j)), or
      `new = v(j) if cell is j else old` (assignment; after n iterations the cell holds v(cell)).  This is
      induction over the iterations with an inferred invariant; anything else is refused.
while: the invariant is supplied by the specification; entry and preservation are obligations.
"""
import z3
from . import core, arrays
from .core import C, Sym, Unsupported, PathAbort, term, val, real, num, sbin, fresh_idx, assume, path
from .arrays import Arr, new, simp

WHILE = {}     # name of the function -> rule for its while loop, set by a specification


class Poison:
    """a variable whose value after (or at the start of) an arbitrary iteration is not known"""

    def __init__(self, name):
        object.__setattr__(self, '_name', name)

    def _use(self, *a, **k):
        raise Unsupported("use of the loop variable %s after the loop" % object.__getattribute__(self, '_name'))


for _m in ("getattribute setattr add radd sub rsub mul rmul truediv rtruediv pow rpow neg lt le gt ge eq ne getitem setitem "
           "len iter bool call index int float contains mod rmod floordiv and or invert abs matmul").split():
    setattr(Poison, "__%s__" % _m, Poison._use)


def _mutable(env):
    return {k: (v, list(v.items()) if isinstance(v, dict) else list(v)) for k, v in env.items()
            if isinstance(v, (list, dict, set))}


def _mutated(m):
    for k, (v, old) in m.items():
        now = list(v.items()) if isinstance(v, dict) else list(v)
        if len(now) != len(old) or any(not (x is y or (isinstance(x, tuple) and len(x) == 2 and x[1] is y[1]))
                                       for x, y in zip(now, old)):
            raise Unsupported("container %s changed in a loop" % k)


def for_rule(rng, tgt, body, env):
    C.nofork += 1
    try:
        return _for_rule(rng, tgt, body, env)
    finally:
        C.nofork -= 1


def _for_rule(rng, tgt, body, env):
    ev0 = len(C.events)
    lo, hi = rng.lo, rng.hi
    n = simp(sbin('-', hi, lo)) if not (isinstance(lo, int) and lo == 0) else hi
    C.assumed.discard(None)
    j = fresh_idx('L')
    C.idxrange[j.decl().name()] = n
    bufs = []
    scal = {}
    for k, v in env.items():
        if isinstance(v, Arr):
            if v.kind != 'O' and all(v.buf is not b for b in bufs):
                bufs.append(v.buf)
        elif isinstance(v, (int, core.Fr, Sym)) and not isinstance(v, bool):
            scal[k] = v
    saved = [(b, b.get, b.version, b.shape) for b in bufs]
    before = dict(env)
    # which scalars does the body change?  dry run from the real state, to find the candidates
    ncheck = len(C.side)
    written0 = set(C.written)
    env1 = dict(env)
    env1[tgt] = sbin('+', lo, Sym(j)) if not (isinstance(lo, int) and lo == 0) else Sym(j)
    nh = len(path().hyps)
    assume(z3.And(j >= 0, j < term(n)))
    muts = _mutable(env)
    for pass_ in (0, 1):
        # havoc
        if pass_ == 0:
            for b, g, v, s in saved:
                b.get, b.version = g, v
            e = dict(env1)
            body(e)
            changed_b = [i for i, b in enumerate(bufs) if b.version != saved[i][2]]
            changed_s = [k for k in scal if k in e and not (e[k] is scal[k])]
            rebound = [k for k in e if k != tgt and k not in changed_s
                       and not (k in env1 and e[k] is env1[k])]
            _mutated(muts)
            if len(C.events) != ev0:
                raise Unsupported("random draw in a symbolic loop")
            continue
        for b, g, v, s in saved:
            b.get, b.version = g, v
        e = dict(env1)
        hv_b = {}
        for i in changed_b:
            b = bufs[i]
            S = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[b.kind]
            F = z3.Function(C.fresh("hav"), *([z3.IntSort()] * len(b.shape) + [S])) if b.shape else None
            if F is None:
                raise Unsupported("loop writing a 0-d array")
            hv_b[i] = F
            b.get = (lambda F: lambda idx: Sym(F(*[term(x) for x in idx])))(F)
        hv_s = {}
        for k in changed_s:
            c = z3.Real(C.fresh("hav_" + k)) if core.kindof(scal[k]) == 'f' or core.kindof(e[k]) == 'f' \
                else z3.Int(C.fresh("hav_" + k))
            hv_s[k] = c
            e[k] = Sym(c)
        for k in rebound:
            if k in e:
                e[k] = Poison(k)
        body(e)
        _mutated(muts)
        # scalars that turned out to be re-initialised in the body are temporaries
        hav_names = {F.name() for F in hv_b.values()} | {c.decl().name() for c in hv_s.values()}

        def clean(t):
            for s in core.subterms([t]):
                if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.decl().name() in hav_names:
                    return False
            return True
        res_s = {}
        for k, c in hv_s.items():
            t = num(e[k])
            if c.sort() != t.sort():
                t = real(t)
                c2 = real(c)
            else:
                c2 = c
            d = z3.simplify(t - c2)
            if clean(t) and not clean(d):
                res_s[k] = ('tmp', None)
                continue
            if not clean(d):
                raise Unsupported("loop-carried variable %s" % k)
            res_s[k] = ('acc', d)
        res_b = {}
        for i, F in hv_b.items():
            b = bufs[i]
            ids = [fresh_idx('c') for _ in b.shape]
            for x, d in zip(ids, b.shape):
                C.idxrange[x.decl().name()] = d
            newt = num(core.closed_body(lambda _: b.get(tuple(Sym(x) for x in ids)), None))
            old = F(*ids)
            if newt.sort() != old.sort():
                raise Unsupported("kind change in a loop")
            if not z3.is_bool(old):
                d = z3.simplify(newt - old)
                if not clean(d):
                    d = _split_ite(newt, old, ids)
                if clean(d):
                    res_b[i] = ('acc', ids, d)
                    continue
            # assignment: exactly one axis carries the loop index
            done = False
            for ax, x in enumerate(ids):
                at = z3.simplify(z3.substitute(newt, (x, j)))
                s = z3.Solver()
                s.set('timeout', 1000)
                s.add(x != j, newt != old)
                if clean(at) and s.check() == z3.unsat:
                    res_b[i] = ('set', ids, ax, at)
                    done = True
                    break
            if not done:
                raise Unsupported("loop effect on an array")
    del path().hyps[nh:]
    # state after the loop
    for i, (b, g, v, s) in enumerate(saved):
        b.get, b.version = g, v
    for i, r in res_b.items():
        b = bufs[i]
        g0 = saved[i][1]
        if b.name is not None:
            C.written.add(b.name)
        if r[0] == 'acc':
            _, ids, d = r

            def get(idx, g0=g0, ids=ids, d=d):
                sub = [(x, term(v)) for x, v in zip(ids, idx)]
                t = z3.substitute(d, *sub)
                return sbin('+', g0(idx), core.val(z3.simplify(core.sum_term(j, z3.simplify(t), n))))
            b.get = arrays.memoized(get)
        else:
            _, ids, ax, at = r

            def get(idx, g0=g0, ids=ids, ax=ax, at=at):
                sub = [(x, term(v)) for x, v in zip(ids, idx)]
                t = z3.substitute(z3.substitute(at, *[p for k, p in enumerate(sub) if k != ax]), (j, term(idx[ax])))
                c = z3.And(term(idx[ax]) >= 0, term(idx[ax]) < term(n))
                if arrays.same(n, b.shape[ax]):
                    return val(t)
                return core.ite(Sym(z3.simplify(c)), val(t), g0(idx))
            b.get = arrays.memoized(get)
        b.version += 1
    for k, r in res_s.items():
        if r[0] == 'acc':
            env[k] = sbin('+', scal[k], val(z3.simplify(core.sum_term(j, r[1], n))))
        else:
            env[k] = Poison(k)
    for k in rebound:
        env[k] = Poison(k)
    C.assumed.add("loop rule: induction over the iterations with the inferred invariant")


def _split_ite(t, old, ids):
    """(if c then old + d else old) - old"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, x, o = t.arg(0), t.arg(1), old
        if z3.is_eq(c):
            for u, v in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if any(u.eq(k) for k in ids) and not core.contains(v, u):
                    x, o = z3.substitute(x, (u, v)), z3.substitute(o, (u, v))
                    break
        a = _split_ite(z3.simplify(x), z3.simplify(o), ids)
        b = _split_ite(t.arg(2), old, ids)
        return z3.simplify(z3.If(c, a, b))
    return z3.simplify(t - old)


def while_enabled(k):
    return k in WHILE


class Loop:
    """a while loop at hand: the specification havocs the variables that the body may change, assumes the invariant, and
    either runs the body once (and proves the invariant again) or leaves the loop"""

    def __init__(self, cond, body, assigned, env):
        self._cond, self._body, self.assigned, self.env = cond, body, assigned, env
        self.known = set()

    def havoc(self, name, v):
        """the value of a variable at the start of an arbitrary iteration"""
        if name not in self.env:
            raise Unsupported("no variable %s at the loop" % name)
        if isinstance(self.env[name], Arr):
            o, a = self.env[name], arrays.asarr(v)
            if not arrays.same(o.ndim, a.ndim) or o.buf.shape != a.buf.shape:
                raise Unsupported("layout of %s" % name)
            o.buf.get = a.buf.get
            o.buf.version += 1
        else:
            self.env[name] = v
        self.known.add(name)

    def cond(self):
        return self._cond(self.env)

    def step(self):
        """the body, once; everything that it changes must have been havocked or is defined by it"""
        for k in self.assigned:
            if k not in self.known and k in self.env:
                self.env[k] = Poison(k)
        kept = [(k, v, v.buf.version) for k, v in self.env.items() if isinstance(v, Arr) and k not in self.known]
        self._body(self.env)
        bufs = [v.buf for k, v in self.env.items() if isinstance(v, Arr) and k in self.known]
        for k, v, n in kept:
            if v.buf.version != n and not any(v.buf is b for b in bufs):
                raise Unsupported("the loop changes %s" % k)

    def leave(self):
        for k in self.assigned:
            if k not in self.known:
                self.env[k] = Poison(k)


def while_rule(k, cond, body, assigned, env):
    L = Loop(cond, body, assigned, env)
    if not WHILE[k](L):
        L.leave()
        return
    raise PathAbort("end of an arbitrary iteration")
