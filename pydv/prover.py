"""Discharging obligations: ground instantiation, sum lemmas, z3, nlsat, ideal membership, cvc5."""
import time
import z3
from . import core
from .core import C, Sym, val, subterms, contains, is_binder, binder_body

STAT = dict(calls=0, z3=0.0, nl=0.0, alg=0.0, cvc5=0.0, backends={})
RL = 4000000


# ------------------------------------------------------------------ instantiation
def _apps(fs):
    by = {}
    for t in subterms(fs):
        if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            by.setdefault(t.decl().name(), []).append(t)
    return by


def has_placeholder(t):
    for s in subterms([t]):
        if z3.is_const(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = s.decl().name()
            if n.startswith('ph!') or n == 'bv!':
                return True
    return False


def instantiate(fs, rounds=3, limit=3000):
    out = []
    seen_f = set()
    apps_done = {}
    pair_done = set()
    quant_done = set()
    cur = list(fs)
    full = True
    allapps = {}
    ranks = rank_terms(fs)
    if ranks:
        cur += [r == r for r in ranks]
    for rnd in range(rounds):
        new = []
        by = _apps(cur)
        fresh = []
        for name, xs in by.items():
            known = apps_done.setdefault(name, {})
            for x in xs:
                if x.get_id() not in known:
                    known[x.get_id()] = x
                    fresh.append(x)
                    allapps.setdefault(name, []).append(x)
        if not fresh:
            break

        def add(ts):
            for t in ts:
                t = z3.simplify(t)
                if z3.is_true(t) or t.get_id() in seen_f:
                    continue
                seen_f.add(t.get_id())
                new.append(t)
        freshids = {x.get_id() for x in fresh}
        for x in fresh:
            n = x.decl().name()
            if n in core.BASE_FACTS:
                add(core.BASE_FACTS[n](x))
            if n in C.facts:
                add(C.facts[n](x))
            if n in C.sumdefs:
                add(core.binder_facts(x))
            if len(out) + len(new) > limit:
                full = False
                break
        for n in {x.decl().name() for x in fresh}:
            pf = C.pairfacts.get(n) or core.BASE_PAIR.get(n)
            if pf is None:
                continue
            xs = allapps[n]
            if len(xs) > 60:
                full = False
                xs = xs[:60]
            for i, a in enumerate(xs):
                for b in xs[i + 1:]:
                    if a.get_id() in freshids or b.get_id() in freshids:
                        add(pf(a, b))
            if len(out) + len(new) > limit:
                full = False
                break
        # bounded quantifiers
        binders = [x for n, xs in allapps.items() if n in C.sumdefs and C.sumdefs[n][0] != 'SUM' for x in xs]
        if binders and rnd < 3:
            cands = {}
            for n, xs in allapps.items():
                for x in xs:
                    if n in C.sumdefs:
                        continue
                    for a in x.children():
                        if z3.is_int(a):
                            cands[a.get_id()] = a
            cl = list(cands.values())
            if len(cl) > 40:
                full = False
                cl = sorted(cl, key=lambda t: len(t.sexpr()))[:40]
            for bapp in binders:
                for c in cl + _flat_candidates(bapp, cl):
                    k = (bapp.get_id(), c.get_id())
                    if k in quant_done:
                        continue
                    quant_done.add(k)
                    C.keep.append(c)
                    add(core.binder_quant(bapp, c))
        out += new
        C.keep += new
        cur = new
        if len(out) > limit:
            full = False
            break
    else:
        pass
    instantiate.full = full
    return out


instantiate.full = True


def rank_terms(fs):
    """the position of an arbitrary index in the enumeration of a mask that the formulas mention"""
    if not C.masks:
        return []
    names, todo, seen = set(), list(fs), set()
    consts = {}
    while todo:
        nxt = []
        for t in subterms(todo):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                names.add(n)
                if t.num_args() == 0 and z3.is_int(t) and core.is_idx(t) and not has_placeholder(t):
                    consts[t.get_id()] = t
                if n in C.sumdefs and n not in seen:
                    seen.add(n)
                    nxt.append(C.sumdefs[n][2])
        todo = nxt
    out = []
    cs = [c for c in list(consts.values()) if not c.eq(core.BV)][:6]
    for mid, m in C.masks.items():
        if m['nd'] != 1 or not (names & (set(m['sel']) | m['count'])):
            continue
        for c in cs:
            if any(c.eq(p) for p in m['ps']):
                continue
            out.append(m['R'](*(list(m['ps']) + [c])))
    return out[:24]


# ------------------------------------------------------------------ sum lemmas
def _sums(fs):
    return [t for t in subterms(fs) if is_binder(t, 'SUM')]


def _eqn(a, b):
    return a.eq(b) or z3.is_true(z3.simplify(a == b))


def skolem(tag, a, b, avoid):
    """an index that does not occur in `avoid`; the same one when the same lemma is asked for again"""
    key = (tag, a.get_id(), b.get_id())
    for k in C.skolems.get(key, ()):
        if not any(contains(f, k) for f in avoid):
            return k
    j = z3.Int(C.fresh('w'))
    C.idxconsts[j.decl().name()] = j
    C.skolems.setdefault(key, []).append(j)
    C.keep += [a, b]
    return j


def remembered(hyps, goal, depth, budget):
    """is the goal proved from the hypotheses; answers are kept for the path (a proof stays valid under more hypotheses)"""
    goal = z3.simplify(goal)
    ids = frozenset(h.get_id() for h in hyps)
    ent = C.lemmas.setdefault(goal.get_id(), (goal, []))[1]
    for known, ok, _ in ent:
        if (ok and known <= ids) or (not ok and known == ids):
            return ok
    ok = prove(hyps, goal, depth=depth, budget=budget)[0] == 'proved'
    ent.append((ids, ok, list(hyps)))
    return ok


def sum_lemmas(hyps, goal, depth, budget, use_all=False):
    """equalities (and signs) of sums, each proved at an arbitrary index"""
    out = []
    goalsums = _sums([goal])
    hs = _sums(hyps)
    sums = list(goalsums)
    for s in hs:
        if all(not s.eq(x) for x in sums):
            sums.append(s)
    partial = _sums(instantiate(list(hyps) + [goal], rounds=2, limit=800) + list(hyps) + [goal]) if use_all else sums
    if use_all:
        for c in partial:
            if any(c.decl().eq(s.decl()) for s in sums) and all(not c.eq(s) for s in sums) and len(sums) < 24:
                sums.append(c)
    for s in list(sums):
        extra = perm_sum(s) + mask_sum(s) + ravel_sum(s) + piece_sum(s)
        for e, s2 in extra:
            out.append(e)
            for x in _sums([s2]):
                if all(not x.eq(y) for y in sums):
                    sums.append(x)
    t_end = time.time() + budget
    gi = {s.get_id() for s in goalsums}
    for i, a in enumerate(sums):
        for b in sums[i + 1:]:
            if time.time() > t_end:
                return out
            if a.decl().name() == b.decl().name() and a.num_args() == 1:
                continue
            na, nb = a.arg(a.num_args() - 1), b.arg(b.num_args() - 1)
            if a.sort() != b.sort() or not _eqn(na, nb):
                continue
            j = skolem('eq', a, b, list(hyps) + [goal])
            ba, bb = binder_body(a, j), binder_body(b, j)
            hj = list(hyps) + [j >= 0, j < na]
            if remembered(hj, ba == bb, depth - 1, min(4.0, budget / 3)):
                out.append(a == b)
                continue
            if use_all and (a.get_id() in gi or b.get_id() in gi):
                if remembered(hj, ba <= bb, depth - 1, 2.0):
                    out.append(a <= b)
                if remembered(hj, bb <= ba, depth - 1, 2.0):
                    out.append(b <= a)
    sks = []
    if use_all:
        for a in sums[:6]:
            # a positive sum has a positive term
            n = a.arg(a.num_args() - 1)
            sk = z3.Int(C.fresh('w'))
            C.idxconsts[sk.decl().name()] = sk
            sks.append(sk)
            b = binder_body(a, sk)
            out.append(z3.Implies(a > 0, z3.And(sk >= 0, sk < n, b > 0)))
            flat_ = sk
            while is_binder(b, 'SUM') and len(sks) < 12:
                n = b.arg(b.num_args() - 1)
                sk = z3.Int(C.fresh('w'))
                C.idxconsts[sk.decl().name()] = sk
                sks.append(sk)
                c = binder_body(b, sk)
                out.append(z3.Implies(b > 0, z3.And(sk >= 0, sk < n, c > 0)))
                b, flat_ = c, flat_ * n + sk
            if not flat_.eq(sks[-1]):
                sks.append(flat_)
    for a in sums:
        if time.time() > t_end:
            break
        n = a.arg(a.num_args() - 1)
        j = skolem('sign', a, a, list(hyps) + [goal])
        b = binder_body(a, j)
        zero = z3.RealVal(0) if z3.is_real(a) else z3.IntVal(0)
        h2 = list(hyps) + [j >= 0, j < n]
        h3, b3 = list(h2), b
        while is_binder(b3, 'SUM'):
            # a nested sum is nonnegative when its terms are
            m3 = b3.arg(b3.num_args() - 1)
            j3 = skolem('sign', a, b3, h3 + [goal])
            h3 += [j3 >= 0, j3 < m3]
            b3 = binder_body(b3, j3)
        if remembered(h3, b3 >= 0, 0, 1.0):
            out.append(a >= zero)
            if remembered(h2, b > 0, 0, 1.0):
                out.append(z3.Implies(n > 0, a > zero))
            # one term is not larger than the sum
            for t in idx_candidates([goal]) + (idx_candidates(hyps)[:4] if z3.is_false(goal) else []) + sks:
                out.append(z3.Implies(z3.And(t >= 0, t < n), binder_body(a, t) <= a))
            if use_all:
                import itertools
                for t, u in itertools.combinations(idx_candidates([goal])[:5], 2):
                    out.append(z3.Implies(z3.And(t >= 0, t < n, u >= 0, u < n, t != u), binder_body(a, t) + binder_body(a, u) <= a))
            if remembered(h2, b <= 0, 0, 1.0):
                out.append(a == zero)
            done = set()
            for c in partial:
                # partial sums of nonnegative terms are ordered
                if c.decl().eq(a.decl()) and all(c.arg(k).eq(a.arg(k)) for k in range(a.num_args() - 1)) and not c.eq(a):
                    m = c.arg(c.num_args() - 1)
                    if m.get_id() in done or len(done) > 8:
                        continue
                    done.add(m.get_id())
                    # valid when every term below the larger bound is nonnegative: proved for j < n, so only for m <= n
                    out.append(z3.Implies(z3.And(0 <= m, m <= n), z3.And(c <= a, c >= zero)))
                    out.append(z3.Implies(z3.And(0 <= m, m < n), z3.And(c + binder_body(a, m) <= a, c + binder_body(a, n - 1) <= a)))
        elif remembered(h2, b <= 0, 0, 1.0):
            out.append(a <= zero)
    return out


def telescope(fs):
    """sum of f(j + 1) - sum of f(j) = f(n) - f(0), found syntactically"""
    sums = [s for s in _sums(fs) if z3.is_real(s) or z3.is_int(s)]
    out = []
    if len(sums) > 40:
        return out
    j = z3.Int('tele!')
    seen = {s.get_id() for s in sums}
    for s in list(sums):
        for t in _sums([binder_body(s, j)]):
            if t.get_id() not in seen and not contains(t, j) and not has_placeholder(t):
                seen.add(t.get_id())
                sums.append(t)
    bodies = []
    for s in sums:
        bodies.append((z3.simplify(binder_body(s, j)), z3.simplify(binder_body(s, j + 1))))
    for a, (ba, _) in zip(sums, bodies):
        for b, (_, bb1) in zip(sums, bodies):
            if a is b or not ba.eq(bb1):
                continue
            na, nb = a.arg(a.num_args() - 1), b.arg(b.num_args() - 1)
            if _eqn(na, nb):
                out.append(z3.Implies(na >= 0, a - b == binder_body(b, na) - binder_body(b, z3.IntVal(0))))
    return out


def expand_sums(t, deep=0, memo=None):
    """every sum rewritten as a combination of sums of monomials (distributivity; nested sums first)"""
    memo = {} if memo is None else memo
    if t.get_id() in memo:
        return memo[t.get_id()]
    sub = []
    seen = set()

    def top(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if is_binder(x, 'SUM'):
            sub.append(x)
            return
        for c in x.children():
            top(c)
    top(t)
    reps = []
    for a in sub:
        n = a.arg(a.num_args() - 1)
        j = core.fresh_idx('e')
        b = binder_body(a, j)
        if deep < 4:
            b = expand_sums(b, deep + 1)
        b = z3.simplify(b, som=True, som_blowup=5000)
        ts = b.children() if z3.is_add(b) else [b]
        if len(ts) > 300:
            continue
        r = None
        for c in ts:
            v = core.sum_term(j, c, n)
            r = v if r is None else r + v
        reps.append((a, r))
    out = z3.simplify(z3.substitute(t, *reps), som=True, som_blowup=5000) if reps else t
    C.keep += [t, out]
    memo[t.get_id()] = out
    return out


def _flat_candidates(b, cl):
    """flat indices of the rows an arbitrary index stands for, for a quantity over the cells of an array with few columns"""
    body = C.sumdefs[b.decl().name()][2]
    out = []
    for t in subterms([body]):
        if z3.is_app(t) and t.num_args() == 1 and t.arg(0).eq(core.BV) and t.decl().name().startswith('unrav0_'):
            sh = C.ravshapes.get(t.decl().name()[len('unrav0_'):])
            if sh is not None and len(sh) == 2 and isinstance(sh[1], int) and sh[1] <= 3:
                for c in cl:
                    if z3.is_app(c) and (z3.is_const(c) and core.is_idx(c) or c.decl().name().startswith('wit_')):
                        out.append(z3.simplify(c * sh[1]))
    return out[:12]


def idx_candidates(fs):
    c = {}
    for t in subterms(fs):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 \
                and t.decl().name() not in C.sumdefs:
            for a in t.children():
                if z3.is_int(a):
                    c[a.get_id()] = a
    return list(c.values())[:12]


def perm_sum(s):
    """sum over k of f(perm(k)) = sum over k of f(perm(n - 1 - k)) = sum over k of f(k)"""
    kind, ps, body = C.sumdefs[s.decl().name()]
    n = s.arg(s.num_args() - 1)
    out = []
    perms = [t for t in subterms([body]) if z3.is_app(t) and t.num_args() and t.decl().name() in C.perms
             and contains(t.arg(t.num_args() - 1), core.BV)]
    for p in perms:
        P, Q, pps, pn, g = C.perms[p.decl().name()]
        if not _eqn(core.term(pn), n):
            continue
        k = p.arg(p.num_args() - 1)
        if not k.eq(core.BV) and not z3.is_true(z3.simplify(k == core.term(pn) - 1 - core.BV, arith_lhs=True)):
            continue
        hole = z3.Int("hole!")
        rest = z3.substitute(body, (p, hole))
        if contains(rest, core.BV):
            continue
        j = core.fresh_idx('b')
        args = [s.arg(i) for i in range(s.num_args() - 1)]
        t = z3.substitute(rest, *(list(zip(ps, args)) + [(hole, j)]))
        s2 = core.sum_term(j, z3.simplify(t), n)
        out.append((s == s2, s2))
    return out


def mask_sum(s):
    """sum over the true cells k of a mask of f(k) = sum over all cells of (f if the mask is true there, else 0)"""
    kind, ps, body = C.sumdefs[s.decl().name()]
    n = s.arg(s.num_args() - 1)
    out = []
    for t in subterms([body]):
        if not (z3.is_app(t) and t.num_args() and t.decl().name().startswith('sel0_') and t.arg(t.num_args() - 1).eq(core.BV)):
            continue
        m = C.masks.get(t.decl().name()[5:])
        if m is None or m['nd'] != 1:
            continue
        o = m['obj']
        params = [t.arg(k) for k in range(t.num_args() - 1)]
        if any(contains(p, core.BV) for p in params):
            continue
        args = [s.arg(i) for i in range(s.num_args() - 1)]
        sub = list(zip(o.ps, params))
        cnt = core.term(o.count)
        cnt = z3.substitute(cnt, *sub) if sub else cnt
        here = list(zip(ps, args))
        if not _eqn(z3.substitute(cnt, *here) if here else cnt, n):
            continue
        hole = z3.Int("hole!")
        rest = z3.substitute(body, (t, hole))
        if contains(rest, core.BV):
            continue
        j = core.fresh_idx('b')
        mb = z3.substitute(o.t, *(sub + [(o.ph[0], hole)]))
        v = z3.If(mb, rest, z3.RealVal(0) if z3.is_real(rest) else z3.IntVal(0))
        v = z3.simplify(z3.substitute(v, *(here + [(hole, j)])))
        s2 = core.sum_term(j, v, core.term(o.shape[0]))
        out.append((s == s2, s2))
        break
    return out


def piece_sum(s):
    """sum over q n cells of an array made of q pieces of n cells = the sum over each piece"""
    n = z3.simplify(s.arg(s.num_args() - 1))
    if not (z3.is_mul(n) and n.num_args() == 2 and z3.is_int_value(n.arg(0)) and 2 <= n.arg(0).as_long() <= 8):
        return []
    q, m = n.arg(0).as_long(), n.arg(1)
    parts = []
    for k in range(q):
        i = core.fresh_idx('p')
        b = binder_body(s, i + k * m)
        sol = z3.Solver()
        sol.set('timeout', 500)
        sol.add(i >= 0, i < m)
        sub = []
        for t in subterms([b]):
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and contains(t, i) \
                    and z3.is_int(t.arg(0)):
                if sol.check(z3.Not(t)) == z3.unsat:
                    sub.append((t, z3.BoolVal(True)))
                elif sol.check(t) == z3.unsat:
                    sub.append((t, z3.BoolVal(False)))
        b = z3.simplify(z3.substitute(b, *sub) if sub else b)
        parts.append(core.sum_term(i, b, m))
    total = parts[0]
    for p in parts[1:]:
        total = total + p
    return [(z3.Implies(m >= 0, s == total), total)]


def ravel_sum(s):
    """sum over the flat positions of f(row, column, ..) = nested sum of f"""
    kind, ps, body = C.sumdefs[s.decl().name()]
    n = s.arg(s.num_args() - 1)
    un = [t for t in subterms([body]) if z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith('unrav')
          and t.arg(0).eq(core.BV)]
    keys = {t.decl().name().split('_', 1)[1] for t in un}
    if len(keys) != 1:
        return []
    shape = C.ravshapes.get(keys.pop())
    if shape is None:
        return []
    dims = [core.term(d) for d in shape]
    N = dims[0]
    for d in dims[1:]:
        N = N * d
    if not z3.is_true(z3.simplify(N == n)):
        return []
    js = [core.fresh_idx('r') for _ in dims]
    rest = z3.substitute(body, *[(t, js[int(t.decl().name()[5:].split('_')[0])]) for t in un])
    if contains(rest, core.BV):
        return []
    args = [s.arg(i) for i in range(s.num_args() - 1)]
    t = z3.simplify(z3.substitute(rest, *list(zip(ps, args)))) if ps else z3.simplify(rest)
    for j, d in reversed(list(zip(js, dims))):
        t = core.sum_term(j, t, d)
    return [(s == t, t)]


# ------------------------------------------------------------------ main entry
def flat(fs):
    out = []
    for f in fs:
        f = z3.simplify(f)
        if z3.is_and(f):
            out += flat(f.children())
        elif not z3.is_true(f):
            out.append(f)
    return out


def note(b):
    STAT['backends'][b] = STAT['backends'].get(b, 0) + 1


def named(goal):
    return any(z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('let!') for t in subterms([goal]))


_KEEP = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ,
         z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_ANUM}


def local(hyps, goal):
    """polynomial reasoning about named parts: every other term is replaced by an unknown, and only the hypotheses that share unknowns are used"""
    names, memo, facts = {}, {}, []

    def ab(t):
        i = t.get_id()
        if i in memo:
            return memo[i][0]
        if z3.is_int_value(t) or z3.is_rational_value(t):
            r = t
        elif z3.is_app(t) and t.decl().kind() in _KEEP and (t.num_args() == 0 or not z3.is_eq(t) or True):
            ch = [ab(c) for c in t.children()]
            r = t.decl()(*ch) if ch and t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                z3.And(*ch) if z3.is_and(t) else z3.Or(*ch) if z3.is_or(t) else _fold(t, ch) if ch else t
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            r = z3.If(*[ab(c) for c in t.children()])
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV:
            a, b = ab(t.arg(0)), ab(t.arg(1))
            r = z3.FreshReal('q')
            facts.append(z3.Implies(b != 0, r * b == a))
        else:
            k = t.sexpr() if False else i
            r = names.setdefault(k, z3.FreshConst(t.sort(), 'u'))
        memo[i] = (r, t)
        return r

    def _fold(t, ch):
        r = ch[0]
        for c in ch[1:]:
            r = r + c if t.decl().kind() == z3.Z3_OP_ADD else r * c
        return r
    hs = [ab(h) for h in hyps]
    g = ab(goal)
    vs = [frozenset(x.get_id() for x in subterms([h]) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED) for h in hs + facts]
    hs = hs + facts
    gv = frozenset(x.get_id() for x in subterms([g]) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED)
    reach = set(gv)
    size = -1
    for hop in range(3):
        for v in [v for v in vs if v & reach] if hop else []:
            reach |= v
        use = [h for h, v in zip(hs, vs) if v and v <= reach]
        if len(use) == size:
            continue
        size = len(use)
        s = z3.SolverFor('QF_NRA') if not any(z3.is_int(x) for f in use + [g] for x in subterms([f])) else z3.Solver()
        s.set('timeout', 250)
        s.add(*use)
        s.add(z3.Not(g))
        if s.check() == z3.unsat:
            return True
    return False


def prove(hyps, goal, depth=2, budget=20.0, want_model=False):
    """-> ('proved', backend) | ('refuted', model) | ('unknown', reason)"""
    t0 = time.time()
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return ('proved', 'rewriting')
    if z3.is_and(goal):
        worst = ('proved', 'rewriting')
        for g in goal.children():
            r = prove(hyps, g, depth, budget, want_model)
            if r[0] != 'proved':
                return r
            worst = r
        return worst
    if z3.is_implies(goal):
        return prove(list(hyps) + [goal.arg(0)], goal.arg(1), depth, budget, want_model)
    if z3.is_or(goal) and depth > 0:
        # prove the last disjunct from the negations of the others, numeric equalities last
        ch = goal.children()
        eqs = [c for c in ch if z3.is_eq(c)]
        if len(eqs) >= 1:
            e = eqs[-1]
            return prove(list(hyps) + [z3.Not(c) for c in ch if not c.eq(e)], e, depth, budget, want_model)
    STAT['calls'] += 1
    hyps = flat(hyps)
    for h in hyps:
        if z3.is_false(h):
            return ('proved', 'rewriting')
        if h.eq(goal):
            return ('proved', 'rewriting')
    neg = z3.Not(goal)
    extra = []
    if any(named(h) for h in [goal] + hyps) and (local(hyps, goal) or local(hyps + flat(instantiate([goal], rounds=2, limit=150)), goal)):
        note('nlsat (named parts)')
        return ('proved', 'nlsat (named parts)')
    hyps, goal2 = subst_eqs(hyps, goal)
    if not goal2.eq(goal):
        goal = z3.simplify(goal2)
        neg = z3.Not(goal)
        if z3.is_true(goal):
            return ('proved', 'rewriting')
    tl = telescope(hyps + [goal])
    C.keep += tl
    extra = extra + tl
    r = attempt(hyps, goal, extra, 1.5 if budget > 5 else budget / 2)
    if r[0] == 'proved':
        note(r[1])
        return r
    first = r
    if depth > 0 and z3.is_eq(goal) and _sums([goal]) and z3.is_real(goal.arg(0)) and not case_conds(goal):
        d = expand_sums(goal.arg(0) - goal.arg(1))
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            note('sum expansion')
            return ('proved', 'sum expansion')
    if depth > 0 and _sums([goal]):
        ls = sum_lemmas(hyps, goal, depth, budget / 2)
        if ls:
            C.keep += ls
            extra = extra + ls
            r = attempt(hyps, goal, extra, 3.0)
            if r[0] == 'proved':
                note(r[1] + '+sum lemmas')
                return (r[0], r[1] + '+sum lemmas')
    # algebra: hypotheses as an ideal
    if z3.is_eq(goal) and not z3.is_bool(goal.arg(0)):
        ta = time.time()
        from . import algebra
        ok = algebra.prove_eq(hyps + [e for e in extra], goal, max(1.0, min(8.0, budget / 2)))
        STAT['alg'] += time.time() - ta
        if ok:
            note('sympy-ideal')
            return ('proved', 'polynomial ideal (sympy)')
    ites = case_conds(goal)
    if depth > 0 and ites and time.time() - t0 < budget:
        c = ites[0]
        ra = prove(hyps + extra + [c], rewrite_cond(goal, c, True), depth, budget * 0.6, want_model)
        if ra[0] == 'proved':
            rb = prove(hyps + extra + [z3.Not(c)], rewrite_cond(goal, c, False), depth, budget * 0.6, want_model)
            if rb[0] == 'proved':
                return ('proved', 'case split: %s' % rb[1])
            return rb
        return ra
    if depth > 1 and (_sums([goal]) or _sums(hyps) or z3.is_false(goal)) and time.time() - t0 < budget:
        ls = sum_lemmas(hyps, goal, depth, budget / 2, use_all=True)
        extra = extra + ls
        r = attempt(hyps, goal, extra, 4.0)
        if r[0] == 'proved':
            note(r[1] + '+sum lemmas')
            return (r[0], r[1] + '+sum lemmas')
    r2 = attempt(hyps, goal, extra, max(1.0, budget - (time.time() - t0)), hard=True)
    if r2[0] == 'proved':
        note(r2[1])
        return r2
    if r2[0] == 'refuted':
        return r2
    return r2


def case_conds(goal):
    for t in subterms([goal]):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(t):
            if not has_placeholder(t.arg(0)):
                return [t.arg(0)]
    return []


def rewrite_cond(goal, c, v):
    return z3.simplify(z3.substitute(goal, (c, z3.BoolVal(v))))


def subst_eqs(hyps, goal):
    """use hypotheses `const = term` as substitutions"""
    sub = []
    rest = []
    for h in hyps:
        if z3.is_eq(h) and not z3.is_bool(h.arg(0)):
            a, b = h.arg(0), h.arg(1)
            for x, y in ((a, b), (b, a)):
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not contains(y, x) \
                        and x.decl().name() != 'pi' and not any(contains(y, s[0]) or x.eq(s[0]) for s in sub):
                    y2 = z3.substitute(y, *sub) if sub else y
                    sub = [(s, z3.substitute(t, (x, y2))) for s, t in sub]
                    sub.append((x, y2))
                    break
            else:
                rest.append(h)
        else:
            rest.append(h)
    if not sub:
        return hyps, goal
    rest = [z3.simplify(z3.substitute(h, *sub)) for h in rest]
    # the defining equations are kept: facts registered for arrays mention the constants
    eqs = [x == y for x, y in sub]
    return flat(rest) + eqs, z3.substitute(goal, *sub)


def attempt(hyps, goal, extra, secs, hard=False, quick=False):
    neg = z3.Not(goal)
    fs = list(hyps) + list(extra) + [neg] + core.GLOBAL_FACTS
    inst = instantiate(fs, rounds=5 if hard else 3, limit=6000 if hard else 2500)
    full = instantiate.full
    t = time.time()
    s = z3.Solver()
    s.set('timeout', int(secs * 1000))
    s.add(*fs)
    s.add(*inst)
    r = s.check()
    STAT['z3'] += time.time() - t
    if r == z3.unsat:
        return ('proved', 'z3')
    if r == z3.sat:
        return ('refuted' if full else 'unknown', s.model())
    if quick:
        return ('unknown', 'solvers gave no answer')
    # nonlinear: nlsat on the purified problem
    t = time.time()
    r = nlsat(fs + inst, secs)
    STAT['nl'] += time.time() - t
    if r == z3.unsat:
        return ('proved', 'z3-nlsat')
    if hard:
        t = time.time()
        r = cvc5_check(fs + inst, min(secs, 6.0))
        STAT['cvc5'] += time.time() - t
        if r == 'unsat':
            return ('proved', 'cvc5')
    return ('unknown', 'solvers gave no answer')


def purify(fs):
    """replace maximal uninterpreted applications and integer parts by constants (sound for unsat)"""
    cache = {}
    cnt = [0]

    def go(t):
        i = t.get_id()
        if i in cache:
            return cache[i][0]
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                cnt[0] += 1
                if z3.is_bool(t):
                    r = z3.Bool("pur!%d" % cnt[0])
                else:
                    r = z3.Real("pur!%d" % cnt[0])
            elif k == z3.Z3_OP_UNINTERPRETED and z3.is_int(t):
                r = z3.Real("puri!" + t.decl().name())
            elif k == z3.Z3_OP_TO_REAL:
                r = go(t.arg(0))
            elif k in (z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                cnt[0] += 1
                r = z3.Real("pur!%d" % cnt[0])
            elif z3.is_int_value(t):
                r = z3.RealVal(t.as_long())
            elif t.num_args() == 0:
                r = t
            else:
                ch = [go(c) for c in t.children()]
                r = rebuild(t, ch)
        else:
            r = t
        cache[i] = (r, t)
        return r

    def rebuild(t, ch):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD: return z3.Sum(ch)
        if k == z3.Z3_OP_MUL: return z3.Product(ch)
        if k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]: r = r - c
            return r
        if k == z3.Z3_OP_UMINUS: return -ch[0]
        if k == z3.Z3_OP_DIV: return ch[0] / ch[1]
        if k == z3.Z3_OP_LE: return ch[0] <= ch[1]
        if k == z3.Z3_OP_LT: return ch[0] < ch[1]
        if k == z3.Z3_OP_GE: return ch[0] >= ch[1]
        if k == z3.Z3_OP_GT: return ch[0] > ch[1]
        if k == z3.Z3_OP_EQ: return ch[0] == ch[1]
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*ch)
        if k == z3.Z3_OP_ITE: return z3.If(*ch)
        if k == z3.Z3_OP_AND: return z3.And(*ch)
        if k == z3.Z3_OP_OR: return z3.Or(*ch)
        if k == z3.Z3_OP_NOT: return z3.Not(ch[0])
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(*ch)
        if k == z3.Z3_OP_POWER: return ch[0] ** ch[1]
        return t.decl()(*ch)
    return [go(f) for f in fs]


def nlsat(fs, secs):
    try:
        ps = purify(fs)
        # relevance: keep the formulas connected to the negated goal
        t = z3.Then(z3.With('simplify', som=False), 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat')
        s = t.solver()
        s.set('timeout', int(secs * 1000))
        s.add(*ps)
        return s.check()
    except z3.Z3Exception:
        return z3.unknown


def cvc5_check(fs, secs):
    import subprocess
    s = z3.Solver()
    s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    import tempfile, os
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(secs * 1000), p], capture_output=True, text=True,
                           timeout=secs + 5)
        o = r.stdout.strip().split('\n')[0]
    except Exception:
        o = 'unknown'
    finally:
        os.unlink(p)
    return o
