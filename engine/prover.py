"""Discharging obligations: ring normaliser, case splits on if-then-else terms, z3, cvc5."""
import time
from .term import *
from . import smt, nonlin
from .ctx import Ctx, CTX, _syms, Obl
from .arr import inst_extrema

TIMEOUT = 8000          # ms per z3 query (first attempt); the last attempt gets 4 times as much
BACKENDS = {}


def _note(b):
    BACKENDS[b] = BACKENDS.get(b, 0) + 1


def split_goal(g):
    """list of (extra hypotheses, goal)"""
    if g.op == 'and':
        out = []
        for a in g.args:
            out += split_goal(a)
        return out
    if g.op == 'not' and g.args[0].op == 'and':
        # a disjunction: prove the last positive literal under the negation of the others
        lits = list(g.args[0].args)
        eqs = [l for l in lits if l.op == 'not']
        pick = None
        for l in eqs:
            if l.args[0].op in ('eq0', 'and') or (l.args[0].op == 'not'):
                pick = l
        if pick is None:
            pick = lits[-1]
        hyp = [l for l in lits if l is not pick]
        return [(hyp + h, q) for h, q in split_goal(not_(pick))]
    return [([], g)]


def ites(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == 'sum':
        return
    for a in t.args:
        ites(a, acc, seen)
    if t.op == 'ite' and t.args[0] not in acc:
        acc.append(t.args[0])


def simp_ite(t, m, cache, sums=False):
    """replace conditions known true or false (with sums: also below sums whose index they do not mention)"""
    r = cache.get(t)
    if r is not None:
        return r
    if t.sort == 'B' and t in m:
        r = m[t]
    elif t.op == 'sum' and sums and not any(t.args[0] in free_vars(k) for k in m):
        b, body, rng = t.args
        x = simp_ite(body, m, cache, True)
        r = t if x is body else sum_(b, rng.args[0], rng.args[1], x)
    elif not t.args or t.op == 'sum':
        r = t
    elif t.op == 'ite':
        c = simp_ite(t.args[0], m, cache, sums)
        if c is TRUE:
            r = simp_ite(t.args[1], m, cache, sums)
        elif c is FALSE:
            r = simp_ite(t.args[2], m, cache, sums)
        else:
            r = ite(c, simp_ite(t.args[1], m, cache, sums), simp_ite(t.args[2], m, cache, sums))
    else:
        args = [simp_ite(a, m, cache, sums) for a in t.args]
        r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
    cache[t] = r
    return r


_sn = {}


def _depth(t):
    return max([_depth(a) for a in t.args], default=0) + (t.op == 'sum') if has_sum(t) else 0




def sumnorm(t):
    """t with every sum in a canonical form: range conditions on the bound index dropped from its body, the index
    named by its range and nesting depth"""
    if not has_sum(t):
        return t
    r = _sn.get(t)
    if r is None:
        if t.op == 'sum':
            b, body, rng = t.args
            lo, hi = rng.args
            nb = binder(lo, hi, 300 + _depth(body))
            if nb is not b and nb not in free_vars(body):
                body = subst(body, {b: nb})
                b = nb
            known = {le(lo, b): TRUE, lt(b, hi): TRUE, TRUE: TRUE}
            r = sum_(b, lo, hi, sumnorm(simp_ite(body, known, {}, True)))
        else:
            a = [sumnorm(x) for x in t.args]
            r = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
        _sn[t] = r
    return r


def under(hyps, known):
    """the hypotheses, with simplified copies of those that branch on known conditions"""
    out = []
    for h in hyps:
        x = simp_ite(h, known, {}) if h not in known else h
        for y in (x.args if x.op == 'and' else (x,)):
            if y is not TRUE and y not in out:
                out.append(y)
        if x is not h and x is TRUE:
            out.append(h)
    return out


def eq_substs(hyps):
    """variable definitions among the hypotheses: v = e"""
    m = {}
    for h in hyps:
        if h.op != 'eq0':
            continue
        d = subst(h.args[0], m) if m else h.args[0]
        cand = None
        if d.op == 'var' and d is not PI:
            cand = (d, const(0, d.sort))
        elif d.op == 'lin':
            for c, a in zip(d.data[1], d.args):
                if (a.op == 'var' and a is not PI or a.op == 'uf' and a.data.startswith('$first')) and (a.sort == 'R' or abs(c) == 1):
                    rest = sub(d, scale(c, a))
                    if a not in (free_vars(rest) if a.op == 'var' else subterms(rest)) and (a.sort == 'R' or rest.sort == 'I'):
                        cand = (a, scale(-1 / c, rest))
                        break
        if cand is not None:
            v, e = cand
            m = {k: subst(x, {v: e}) for k, x in m.items()}
            m[v] = e
    return m


_ncache = {}


def _cmp(t):
    """(kind, polynomial) of a comparison of an expression with 0"""
    r = _ncache.get(t)
    if r is None:
        r = False
        pos = t.op != 'not'
        a = t if pos else t.args[0]
        if a.op in ('le0', 'lt0', 'eq0'):
            try:
                p = poly(canon(a.args[0]))
                if len(p) <= 400:
                    if a.op == 'eq0':
                        r = ('eq' if pos else 'ne', p)
                    elif pos:
                        r = ('le' if a.op == 'le0' else 'lt', p)
                    else:       # not p <= 0  is  -p < 0
                        r = ('lt' if a.op == 'le0' else 'le', {m: -c for m, c in p.items()})
            except TooBig:
                pass
        _ncache[t] = r
    return r


def _ratio(p, q):
    """k with p = k q, or None"""
    if len(p) != len(q) or not p:
        return None
    k = None
    for m, c in p.items():
        d = q.get(m)
        if d is None:
            return None
        if k is None:
            k = c / d
        elif c != k * d:
            return None
    return k


def from_hyps(g, hyps):
    """g is one of the hypotheses up to ring normalisation and scaling"""
    x = _cmp(g)
    if not x:
        return False
    for h in hyps:
        y = _cmp(h)
        if not y:
            continue
        if y[0] == 'ne' and x[0] != 'ne' or x[0] == 'eq' and y[0] != 'eq' or x[0] == 'lt' and y[0] != 'lt':
            continue
        k = _ratio(x[1], y[1])
        if k is None:
            continue
        if y[0] == 'eq':
            if x[0] in ('eq', 'le'):
                return True
        elif y[0] == 'ne':
            return True
        elif y[0] == 'lt':
            if x[0] == 'ne' or k > 0:
                return True
        elif y[0] == 'le' and x[0] == 'le' and k > 0:
            return True
    return False


class Prover:
    def __init__(self, deadline):
        self.deadline = deadline
        self.splits = 0
        self.model = None
        self.failed = None
        self.undecided = set()

    def query(self, hyps, g, timeout):
        fs = (relevant(hyps, g) if g is not FALSE else list(hyps)) + [not_(g)]
        fs = fs + inst_extrema(fs)
        timeout = int(min(timeout, max(200, (self.deadline - time.time()) * 1000)))
        return smt.check(fs, timeout, want_model=True)

    def prove(self, hyps, g, depth=0):
        """'unsat' (proved) | 'sat' | 'unknown'"""
        if g is TRUE or g in hyps:
            _note('simplifier')
            return 'unsat'
        if FALSE in hyps:
            _note('simplifier')
            return 'unsat'
        if g.op == 'and' or (g.op == 'not' and g.args[0].op == 'and'):
            for h, q in split_goal(g):
                if g.op == 'not' and q is g:
                    break
                r = self.prove(hyps + h, q, depth) if (q is not g) else 'unknown'
                if r != 'unsat':
                    return r
            else:
                return 'unsat'
        m = eq_substs(hyps)
        g2 = subst(g, m) if m else g
        if g2 is TRUE:
            _note('simplifier')
            return 'unsat'
        if g2.op == 'eq0' and ring_zero(g2.args[0]):
            _note('ring')
            return 'unsat'
        if g2.op == 'eq0' and has_sum(g2):
            # expansion brings in the lengths of ranges, whose signs are decided below
            try:
                q = poly(g2.args[0])
                if len(q) <= 60:
                    q = eq(from_poly(q), const(0))
                    if any(x not in subterms(g2) for x in subterms(q) if x.op == 'ite'):
                        g2 = q
            except TooBig:
                pass
        if from_hyps(g2, hyps) or nonlin.holds(g2, hyps):
            _note('ring')
            return 'unsat'
        conds = []
        ites(g2, conds, set())
        r, mod = None, None
        if not conds or depth == 0:
            r, mod = self.query(hyps, g2 if conds == [] else g, 400 if conds else TIMEOUT)
            if r == 'unsat':
                _note('z3')
                return 'unsat'
        if conds:
            # decide entailed conditions first
            c = CTX[-1]
            known = {}
            hk = frozenset(h.id for h in hyps)
            for q in conds[:40]:
                if (hk, q.id) in self.undecided:
                    continue
                for v, val_ in ((q, TRUE), (not_(q), FALSE)):
                    fs = relevant(hyps, v) + [not_(v)]
                    if smt.check(fs + inst_extrema(fs), 1500) == 'unsat':
                        known[q] = val_
                        break
                else:
                    self.undecided.add((hk, q.id))
            if known:
                g3 = simp_ite(g2, known, {}, True)
                if g3 is not g2:
                    return self.prove(under(hyps, known), g3, depth + 1)
            self.splits += 1
            if depth < 24 and self.splits < 400 and time.time() < self.deadline:
                conds.sort(key=lambda q: (len(_syms(q)), q.id))
                q = conds[0]
                for v, val_ in ((q, TRUE), (not_(q), FALSE)):
                    g3 = simp_ite(g2, {q: val_}, {}, True)
                    hs = under(hyps, {q: val_}) + ([x for x in v.args] if v.op == 'and' else [v])
                    rr = self.prove(hs, g3, depth + 1)
                    if rr != 'unsat':
                        return rr
                return 'unsat'
            r, mod = self.query(hyps, g2, TIMEOUT)
            if r == 'unsat':
                _note('z3')
                return 'unsat'
        if r == 'unknown':
            gn = norm_bool(g2)
            hn = [norm_bool(h) for h in relevant(hyps, g2)]
            if gn in hn or gn is TRUE:
                _note('ring')
                return 'unsat'
            r2, mod2 = self.query([subst(h, m) for h in hyps] if m else hyps, g2, TIMEOUT)
            if r2 == 'unsat':
                _note('z3')
                return 'unsat'
            fs = relevant(hyps, g2) + [not_(g2)]
            if time.time() < self.deadline and smt.cvc5_check(fs + inst_extrema(fs), 15) == 'unsat':
                _note('cvc5')
                return 'unsat'
            r, mod = self.query(hyps, g2, 4 * TIMEOUT)
            if r == 'unsat':
                _note('z3')
                return 'unsat'
        if mod is not None and self.model is None:
            self.model = mod
        if self.failed is None:
            self.failed = (hyps, g2)
        return r


def relevant(hyps, goal):
    fv = set(_syms(goal))
    rest = [(c, _syms(c)) for c in hyps]
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for c, s in rest:
            if not s or s & fv:
                out.append(c)
                if not s <= fv:
                    fv |= s
                    changed = True
            else:
                nxt.append((c, s))
        rest = nxt
    return out


def discharge(o, budget=120):
    t0 = time.time()
    p = Prover(t0 + budget)
    c = Ctx()
    CTX.append(c)
    try:
        pc, goal = list(o.pc), o.goal
        if has_sum(goal):
            pc, goal = [sumnorm(h) for h in pc], sumnorm(goal)
        c.pc = list(pc)
        status = 'unsat'
        for h, g in split_goal(goal):
            status = p.prove(pc + h, g)
            if status != 'unsat':
                break
    finally:
        CTX.pop()
    o.time = time.time() - t0
    o.status = {'unsat': 'discharged', 'sat': 'refuted', 'unknown': 'unknown', None: 'unknown'}[status]
    o.model = p.model
    o.backend = p.failed
    return o
