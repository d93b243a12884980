"""Bounds of polynomials over integer boxes: eliminates one index at a time at the end of its range at which the
polynomial is largest (it is affine in the index and the sign of the coefficient is known)."""
from .term import *
from .term import _padd, RANGE


def bounds(hyps):
    """variable -> (lower bound terms, upper bound terms), both inclusive"""
    b = {}

    def put(v, k, t):
        b.setdefault(v, ([], []))[k].append(t)
    for h in hyps:
        if h.op not in ('le0', 'lt0') or h.args[0].sort != 'I':
            continue
        d = h.args[0]
        extra = ONE if h.op == 'lt0' else const(0)
        if d.op == 'var':
            put(d, 1, neg(extra))
        elif d.op == 'lin':
            for c, a in zip(d.data[1], d.args):
                if a.op == 'var' and abs(c) == 1:
                    rest = add(d, scale(-c, a), extra)      # c*a + rest <= 0
                    if a not in free_vars(rest):
                        if c > 0:
                            put(a, 1, neg(rest))
                        else:
                            put(a, 0, rest)
    return b


def _from(p):
    return from_poly(p, 'I')


def le0(t, hyps, fuel=200):
    """True only if t <= 0 follows from the hypotheses (integer polynomial)"""
    B = bounds(hyps)
    fuel = [fuel]
    memo = {}

    def bnd(v):
        lo, hi = B.get(v, ((), ()))
        lo, hi = list(lo), list(hi)
        r = RANGE.get(v)
        if r is not None:
            lo.append(r[0])
            hi.append(sub(r[1], ONE))
        return lo, hi

    def nonneg(a):
        if a.op == 'var':
            return any(x.op == 'const' and x.data >= 0 for x in bnd(a)[0]) or any(
                x.op == 'var' and x is not a and any(y.op == 'const' and y.data >= 0 for y in bnd(x)[0]) for x in bnd(a)[0])
        return a.op == 'imod'

    def go(t, seen):
        try:
            p = poly(t)
        except TooBig:
            return False
        if not p:
            return True
        if all(c <= 0 and all(e > 0 and (e % 2 == 0 or nonneg(a)) for a, e in m) for m, c in p.items()):
            return True
        if () in p and len(p) == 1:
            return False
        key = _from(p)
        if key in memo:
            return memo[key]
        if fuel[0] <= 0:
            return False
        fuel[0] -= 1
        memo[key] = False
        r = False
        atoms = sorted({a for m in p for a, e in m if a.op == 'var'}, key=lambda a: (a not in RANGE, -a.id))
        for v in atoms:
            if v in seen or any(a is v and e != 1 or a is not v and v in free_vars(a) for m in p for a, e in m):
                continue
            A, R = {}, {}
            for m, c in p.items():
                if any(a is v for a, e in m):
                    A[tuple(x for x in m if x[0] is not v)] = c
                else:
                    R[m] = c
            lo, hi = bnd(v)
            At, Rt = _from(A), _from(R)
            if hi and go(neg(At), seen):
                r = any(go(add(mul(At, h), Rt), seen | {v}) for h in hi if v not in free_vars(h))
            elif lo and go(At, seen):
                r = any(go(add(mul(At, l), Rt), seen | {v}) for l in lo if v not in free_vars(l))
            if r:
                break
        memo[key] = r
        return r
    return go(t, frozenset())


def nonlinear(t):
    try:
        return any(sum(e for a, e in m) > 1 for m in poly(t))
    except TooBig:
        return False


def holds(g, hyps):
    """g is an integer inequality with products that follows from the bounds among the hypotheses"""
    pos = g.op != 'not'
    a = g if pos else g.args[0]
    if a.op not in ('le0', 'lt0') or a.args[0].sort != 'I' or not nonlinear(a.args[0]):
        return False
    t = a.args[0]
    if pos:
        t = t if a.op == 'le0' else add(t, ONE)
    else:
        t = sub(ONE, t) if a.op == 'le0' else neg(t)
    return le0(t, hyps)
