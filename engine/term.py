"""Hash-consed first-order terms over reals, integers and booleans.

Numeric terms are kept in a light canonical form (linear combinations of
products of atoms); `poly` gives the full polynomial / rational normal form used
by the ring decision procedure.  Real arithmetic is exact (Fractions).
"""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count(1)


class T:
    __slots__ = ('op', 'args', 'sort', 'data', 'id', '_fv', '_poly', '_z3', '_size')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        return (str, (show(self),))


def mk(op, args=(), sort='R', data=None):
    key = (op, tuple(a.id for a in args), sort, data)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.data = op, tuple(args), sort, data
        t.id = next(_ids)
        t._fv = t._poly = t._z3 = t._size = None
        _table[key] = t
    return t


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise ValueError('not finite')
        return Fraction(repr(x))
    raise TypeError(type(x))


def const(x, sort=None):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    f = to_frac(x)
    if sort is None:
        sort = 'I' if isinstance(x, int) else 'R'
    return mk('const', (), sort, f)


def var(name, sort='R'):
    return mk('var', (), sort, name)


def uf(name, args, sort='R'):
    return mk('uf', tuple(args), sort, name)


ZERO = const(0)
ONE = const(1)
PI = var('$pi')


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.data


def free_vars(t):
    if t._fv is None:
        if t.op == 'var':
            t._fv = frozenset((t,))
        else:
            s = frozenset()
            for a in t.args:
                s |= free_vars(a)
            if t.op == 'sum':
                s -= {t.args[0]}
                s |= free_vars(t.args[2])
            t._fv = s
    return t._fv


# ---------------------------------------------------------------- linear form
# op 'lin': data = (const, coefs), args = terms (non-lin, non-const)
# op 'mul': data = exps, args = atoms

def _lin_parts(t):
    if t.op == 'const':
        return t.data, ()
    if t.op == 'lin':
        return t.data[0], tuple(zip(t.data[1], t.args))
    return Fraction(0), ((Fraction(1), t),)


def _mk_lin(c, d, sort):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return const(c, sort)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    items = sorted(d.items(), key=lambda p: p[0].id)
    return mk('lin', tuple(t for t, _ in items), sort, (c, tuple(k for _, k in items)))


def num_sort(*ts):
    return 'I' if all(t.sort == 'I' for t in ts) else 'R'


def add(*ts):
    c = Fraction(0)
    d = {}
    for t in ts:
        c0, ps = _lin_parts(t)
        c += c0
        for k, x in ps:
            d[x] = d.get(x, 0) + k
    return _mk_lin(c, d, num_sort(*ts))


def scale(k, t):
    k = Fraction(k)
    c0, ps = _lin_parts(t)
    s = t.sort if k.denominator == 1 else 'R'
    return _mk_lin(k * c0, {x: k * q for q, x in ps}, s)


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _mul_parts(t):
    """coefficient, {atom: exp}"""
    if t.op == 'const':
        return t.data, {}
    if t.op == 'mul':
        return Fraction(1), dict(zip(t.args, t.data))
    if t.op == 'lin' and t.data[0] == 0 and len(t.args) == 1:
        k, d = _mul_parts(t.args[0])
        return t.data[1][0] * k, d
    if t.op == 'lin':
        # pull out the leading coefficient so that c*(a+b) shares its atom
        k = t.data[1][0]
        if k != 1:
            s = 'I' if t.sort == 'I' and all((q / k).denominator == 1 for q in t.data[1]) and (t.data[0] / k).denominator == 1 else t.sort
            if s == t.sort and t.sort == 'R':
                return k, {scale(1 / k, t): 1}
            if t.sort == 'I' and k == -1:
                return k, {scale(-1, t): 1}
    return Fraction(1), {t: 1}


def mul(*ts):
    c = Fraction(1)
    d = {}
    for t in ts:
        k, ps = _mul_parts(t)
        c *= k
        for x, e in ps.items():
            d[x] = d.get(x, 0) + e
    s = num_sort(*ts)
    if c == 0:
        return const(0, s)
    d = {x: e for x, e in d.items() if e != 0}
    if not d:
        return const(c, s)
    if len(d) == 1:
        (x, e), = d.items()
        if e == 1:
            return scale(c, x) if c != 1 else x
    items = sorted(d.items(), key=lambda p: p[0].id)
    m = mk('mul', tuple(x for x, _ in items), s, tuple(e for _, e in items))
    return scale(c, m) if c != 1 else m


def inv(t):
    if t.op == 'const':
        if t.data == 0:
            return uf('$inv0', (), 'R')
        return const(1 / t.data, 'R')
    k, d = _mul_parts(t)
    d = {x: -e for x, e in d.items()}
    items = sorted(d.items(), key=lambda p: p[0].id)
    if len(items) == 1 and items[0][1] == 1:
        m = items[0][0]
    else:
        m = mk('mul', tuple(x for x, _ in items), 'R', tuple(e for _, e in items))
    return scale(1 / k, m) if k != 1 else m


def div(a, b):
    return mul(a, inv(b))


def ipow(t, n):
    if n == 0:
        return const(1, t.sort)
    if n < 0:
        return inv(ipow(t, -n))
    return mul(*([t] * n))


# ---------------------------------------------------------------- booleans

def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y is FALSE:
                return FALSE
            if y is TRUE or y.id in seen:
                continue
            if not_(y).id in seen:
                return FALSE
            seen.add(y.id)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', tuple(out), 'B')


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def _cmp_norm(d):
    """normalise d (compared with 0) up to positive scaling"""
    if d.op == 'lin':
        k = abs(d.data[1][0])
        if k != 1:
            if d.sort == 'I':
                from math import gcd
                g = 0
                for q in d.data[1]:
                    g = gcd(g, int(q))
                if g > 1 and d.data[0] % g == 0:
                    return scale(Fraction(1, g), d)
                return d
            return scale(1 / k, d)
    return d


def _unit(t):
    """products of sines and cosines lie in [-1, 1]"""
    if t.op == 'fn':
        return t.data in ('sin', 'cos')
    return t.op == 'mul' and all(e > 0 and a.op == 'fn' and a.data in ('sin', 'cos') for a, e in zip(t.args, t.data))


def interval(t):
    if _unit(t):
        return -1, 1
    if t.op == 'lin' and all(_unit(a) for a in t.args):
        m = sum(abs(k) for k in t.data[1])
        return t.data[0] - m, t.data[0] + m
    return None


def _const_ite(d):
    """(condition, constant, constant) when d takes just two constant values"""
    t, k, c0 = d, 1, 0
    if d.op == 'lin' and len(d.args) == 1:
        t, k, c0 = d.args[0], d.data[1][0], d.data[0]
    if t.op == 'ite' and t.args[1].op == 'const' and t.args[2].op == 'const':
        return t.args[0], c0 + k * t.args[1].data, c0 + k * t.args[2].data
    return None


def le(a, b):
    d = _cmp_norm(sub(a, b))
    if d.op == 'const':
        return TRUE if d.data <= 0 else FALSE
    ci = _const_ite(d)
    if ci:
        return ite(ci[0], TRUE if ci[1] <= 0 else FALSE, TRUE if ci[2] <= 0 else FALSE)
    iv = interval(d)
    if iv:
        if iv[1] <= 0:
            return TRUE
        if iv[0] > 0:
            return FALSE
    return mk('le0', (d,), 'B')


def lt(a, b):
    if a.sort == 'I' and b.sort == 'I':
        return le(add(a, ONE), b)
    d = _cmp_norm(sub(a, b))
    if d.op == 'const':
        return TRUE if d.data < 0 else FALSE
    ci = _const_ite(d)
    if ci:
        return ite(ci[0], TRUE if ci[1] < 0 else FALSE, TRUE if ci[2] < 0 else FALSE)
    iv = interval(d)
    if iv:
        if iv[1] < 0:
            return TRUE
        if iv[0] >= 0:
            return FALSE
    return mk('lt0', (d,), 'B')


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return and_(or_(not_(a), b), or_(not_(b), a))
    d = sub(a, b)
    if d.op == 'const':
        return TRUE if d.data == 0 else FALSE
    if d.op == 'lin' and d.data[1][0] < 0:
        d = neg(d)
    d = _cmp_norm(d)
    ci = _const_ite(d)
    if ci:
        return ite(ci[0], TRUE if ci[1] == 0 else FALSE, TRUE if ci[2] == 0 else FALSE)
    return mk('eq0', (d,), 'B')


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # inner simplification on the same condition
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), num_sort(a, b))


def max_(a, b):
    return ite(le(b, a), a, b)


def min_(a, b):
    return ite(le(a, b), a, b)


# ---------------------------------------------------------------- functions

def floor(t):
    if t.sort == 'I':
        return t
    if t.op == 'const':
        import math
        return const(math.floor(t.data), 'I')
    # pull out integer parts
    c0, ps = _lin_parts(t)
    ints = [(k, x) for k, x in ps if x.sort == 'I' and k.denominator == 1]
    if ints or (c0 != 0 and c0.denominator == 1):
        rest = {x: k for k, x in ps if not (x.sort == 'I' and k.denominator == 1)}
        ci = c0 if c0.denominator == 1 else Fraction(0)
        r = _mk_lin(c0 - ci, rest, 'R')
        ip = _mk_lin(ci, {x: k for k, x in ints}, 'I')
        return add(floor(r), ip)
    return mk('floor', (t,), 'I')


def ceil(t):
    return neg(floor(neg(t)))


def trunc(t):
    if t.sort == 'I':
        return t
    return ite(le(ZERO, t), floor(t), ceil(t))


def round_even(t):
    if t.sort == 'I':
        return t
    h = add(t, const(Fraction(1, 2), 'R'))
    f = floor(h)
    tie_odd = and_(eq(h, f), eq(imod(f, const(2)), ONE))
    return ite(tie_odd, sub(f, ONE), f)


def as_real(t):
    if t.sort == 'R':
        return t
    if t.op == 'const':
        return const(t.data, 'R')
    return mk('toreal', (t,), 'R') if False else t


def idiv(a, b):
    """floor division of integers"""
    if b.op == 'const' and b.data == 1:
        return a
    if a.op == 'const' and b.op == 'const' and b.data != 0:
        return const(int(a.data // b.data))
    if a.op == 'const' and a.data == 0:
        return a
    if a is b:
        return ONE
    if b.op == 'const' and b.data > 0:
        c0, ps = _lin_parts(a)
        whole = {x: k / b.data for k, x in ps if k % b.data == 0}
        if whole or c0 // b.data != 0:
            rest = {x: k for k, x in ps if k % b.data != 0}
            q = c0 // b.data
            r = _mk_lin(c0 - q * b.data, rest, 'I')
            w = _mk_lin(Fraction(q), whole, 'I')
            return add(w, idiv(r, b))
        if not ps:
            return const(int(c0 // b.data))
    return mk('idiv', (a, b), 'I')


def imod(a, b):
    if b.op == 'const' and b.data == 1:
        return const(0)
    if a.op == 'const' and b.op == 'const' and b.data != 0:
        return const(int(a.data % b.data))
    if a.op == 'const' and a.data == 0:
        return a
    if a is b:
        return const(0)
    if b.op == 'const' and b.data > 0:
        c0, ps = _lin_parts(a)
        r = _mk_lin(c0 % b.data, {x: k % b.data for k, x in ps}, 'I')
        if r is not a:
            return imod(r, b)
    return mk('imod', (a, b), 'I')


def sqrt(t):
    if t.op == 'const' and t.data >= 0:
        import math
        n, d = t.data.numerator, t.data.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fraction(rn, rd), 'R')
    return mk('fn', (t,), 'R', 'sqrt')


def abs_(t):
    if t.op == 'const':
        return const(abs(t.data), t.sort)
    return ite(le(ZERO, t), t, neg(t))


def _odd_sign(t):
    """t or -t with a canonical leading sign"""
    if t.op == 'lin':
        k = t.data[1][0]
        if k < 0:
            return neg(t), -1
    elif t.op == 'const' and t.data < 0:
        return neg(t), -1
    return t, 1


def fn(name, *args):
    """named real functions with a few exact simplifications"""
    if name == 'sqrt':
        return sqrt(args[0])
    if name in ('sin', 'cos', 'tan', 'arctan', 'arcsin', 'sinh', 'tanh'):
        a, s = _odd_sign(args[0])
        if a.op == 'const' and a.data == 0:
            return const(1 if name == 'cos' else 0, 'R')
        if name in ('sin', 'cos'):
            q = _pi_multiple(a)
            if q is not None and (q * 2).denominator == 1:
                m = int(q * 2) % 4
                v = {'sin': (0, 1, 0, -1), 'cos': (1, 0, -1, 0)}[name][m]
                return const(v * (s if name == 'sin' else 1), 'R')
        if name == 'tan':
            return mul(const(s, 'R'), mul(fn('sin', a), inv(fn('cos', a))))
        r = mk('fn', (a,), 'R', name)
        if name != 'cos' and s < 0:
            r = neg(r)
        return r
    if name == 'exp' and is_const(args[0]) and args[0].data == 0:
        return const(1, 'R')
    if name == 'log' and is_const(args[0]) and args[0].data == 1:
        return const(0, 'R')
    if name == 'arccos' and is_const(args[0]) and args[0].data == 1:
        return const(0, 'R')
    return mk('fn', tuple(args), 'R', name)


def _pi_multiple(t):
    if t is PI:
        return Fraction(1)
    if t.op == 'lin' and t.data[0] == 0 and len(t.args) == 1 and t.args[0] is PI:
        return t.data[1][0]
    return None


_binders = {}


def binder(lo, hi, level=0):
    """canonical bound variable for a range (one per range and nesting level)"""
    key = (lo.id, hi.id, level)
    b = _binders.get(key)
    if b is None:
        b = var('$b%d_%d_%d' % (lo.id, hi.id, level), 'I')
        _binders[key] = b
        RANGE[b] = (lo, hi)
    return b


RANGE = {}          # integer variables with a known half-open range


def sum_(b, lo, hi, body):
    """sum of body for b in [lo, hi)"""
    if body.op == 'const' and body.data == 0:
        return const(0, body.sort)
    if b not in free_vars(body):
        return mul(max_(sub(hi, lo), const(0)), body)
    return mk('sum', (b, body, mk('rng', (lo, hi), 'B')), body.sort)


def subst(t, m, cache=None):
    """replace terms (by identity) in t"""
    if cache is None:
        cache = {}
    if t in m:
        return m[t]
    r = cache.get(t)
    if r is not None:
        return r
    if not t.args:
        r = t
    else:
        if t.op == 'sum':
            b = t.args[0]
            m2 = {k: v for k, v in m.items() if k is not b}
            body0 = t.args[1]
            if any(b in free_vars(v) for v in m2.values()):
                fv = free_vars(body0)
                if any(b in free_vars(v) and free_vars(k) <= fv for k, v in m2.items()):
                    # avoid capture of b by the substituted terms
                    lvl = 70
                    used = fv.union(*[free_vars(v) for v in m2.values()])
                    rg = t.args[2]
                    nb0 = binder(rg.args[0], rg.args[1], lvl)
                    while nb0 in used:
                        lvl += 1
                        nb0 = binder(rg.args[0], rg.args[1], lvl)
                    body0 = subst(body0, {b: nb0})
                    b = nb0
            body = subst(body0, m2, cache if len(m2) == len(m) and body0 is t.args[1] else None)
            rng = t.args[2]
            lo = subst(rng.args[0], m, cache)
            hi = subst(rng.args[1], m, cache)
            if body is t.args[1] and lo is rng.args[0] and hi is rng.args[1]:
                r = t
            else:
                # avoid capture
                lvl = 0
                nb = binder(lo, hi, lvl)
                while nb is not b and nb in free_vars(body):
                    lvl += 1
                    nb = binder(lo, hi, lvl)
                if nb is not b:
                    body = subst(body, {b: nb})
                r = sum_(nb, lo, hi, body)
        else:
            args = [subst(a, m, cache) for a in t.args]
            if all(x is y for x, y in zip(args, t.args)):
                r = t
            else:
                r = rebuild(t, args)
    cache[t] = r
    return r


def rebuild(t, args):
    op = t.op
    if op == 'lin':
        return add(const(t.data[0], t.sort), *[scale(k, a) for k, a in zip(t.data[1], args)])
    if op == 'mul':
        return mul(*[ipow(a, e) for a, e in zip(args, t.data)])
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'le0':
        return le(args[0], const(0, args[0].sort))
    if op == 'lt0':
        return lt(args[0], const(0, args[0].sort))
    if op == 'eq0':
        return eq(args[0], const(0, args[0].sort))
    if op == 'ite':
        return ite(*args)
    if op == 'floor':
        return floor(args[0])
    if op == 'idiv':
        return idiv(*args)
    if op == 'imod':
        return imod(*args)
    if op == 'fn':
        return fn(t.data, *args)
    if op == 'sum':
        return sum_(args[0], args[2].args[0], args[2].args[1], args[1])
    return mk(op, tuple(args), t.sort, t.data)


def show(t, depth=6):
    if t.op == 'const':
        return str(t.data)
    if t.op == 'var':
        return str(t.data)
    if depth <= 0:
        return '..'
    if t.op == 'lin':
        s = ' + '.join(('%s*%s' % (k, show(a, depth - 1)) if k != 1 else show(a, depth - 1))
                       for k, a in zip(t.data[1], t.args))
        return '(' + s + (' + %s' % t.data[0] if t.data[0] else '') + ')'
    if t.op == 'mul':
        return '*'.join(show(a, depth - 1) + ('^%d' % e if e != 1 else '') for a, e in zip(t.args, t.data))
    if t.op in ('uf', 'fn'):
        return '%s(%s)' % (t.data, ', '.join(show(a, depth - 1) for a in t.args))
    if t.op == 'le0':
        return '%s <= 0' % show(t.args[0], depth - 1)
    if t.op == 'lt0':
        return '%s < 0' % show(t.args[0], depth - 1)
    if t.op == 'eq0':
        return '%s = 0' % show(t.args[0], depth - 1)
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) for a in t.args))


def subterms(t, acc=None):
    if acc is None:
        acc = set()
    st = [t]
    while st:
        x = st.pop()
        if x in acc:
            continue
        acc.add(x)
        st.extend(x.args)
    return acc


# ---------------------------------------------------------------- normal form
class TooBig(Exception):
    pass


LIMIT = 60000


def _padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda p: p[0].id))


def _reduce_mono(m):
    """rewrite cos(a)^2 -> 1 - sin(a)^2 and sqrt(a)^2 -> a; returns None or a poly"""
    for i, (a, e) in enumerate(m):
        if e >= 2 and a.op == 'fn':
            if a.data == 'cos':
                s = mk('fn', a.args, 'R', 'sin')
                rest = m[:i] + (((a, e - 2),) if e > 2 else ()) + m[i + 1:]
                p = {rest: Fraction(1)}
                return _padd(p, {_mmul(rest, ((s, 2),)): Fraction(1)}, -1)
            if a.data == 'sqrt':
                rest = m[:i] + (((a, e - 2),) if e > 2 else ()) + m[i + 1:]
                return _pmul({rest: Fraction(1)}, poly(a.args[0]))
        if e >= 2 and a.op == 'ite' and a.args[1] is ONE and a.args[2].op == 'const' and a.args[2].data == 0:
            # an indicator is idempotent
            return {m[:i] + ((a, 1),) + m[i + 1:]: Fraction(1)}
        if e <= -1 and a.op == 'fn' and a.data == 'sqrt' and e <= -2:
            rest = m[:i] + (((a, e + 2),) if e < -2 else ()) + m[i + 1:]
            return _pmul({rest: Fraction(1)}, _pinv(poly(a.args[0])))
    return None


def _pnorm(p):
    work = list(p.items())
    out = {}
    n = 0
    while work:
        m, c = work.pop()
        n += 1
        if n > LIMIT * 4:
            raise TooBig()
        r = _reduce_mono(m)
        if r is None:
            v = out.get(m, 0) + c
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
        else:
            work.extend((m2, c * c2) for m2, c2 in r.items())
    return out


def _pmul(p, q):
    if len(p) * len(q) > LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return _pnorm(r)


def _pinv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    if not p:
        return {((uf('$inv0', (), 'R'), 1),): Fraction(1)}
    # make the atom canonical: leading coefficient 1, common monomial factored out
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) if e > 0 or d.get(a, 0) > 0 else min(e, d.get(a, 0)) for a, e in common.items() if a in d}
            common = {a: e for a, e in common.items() if e > 0}
    cm = tuple(sorted(common.items(), key=lambda q: q[0].id)) if common else ()
    icm = tuple((a, -e) for a, e in cm)
    if cm:
        p = {_mmul(m, icm): c for m, c in p.items()}
    lead = min(p.keys(), key=lambda m: tuple((a.id, e) for a, e in m))
    c = p[lead]
    q = {m: v / c for m, v in p.items()}
    atom = mk('inv', (from_poly(q),), 'R')
    return {_mmul(icm, ((atom, 1),)): 1 / c}


def from_poly(p, sort=None):
    ts = []
    for m, c in p.items():
        fs = []
        for a, e in m:
            if a.op == 'inv':
                fs.append(ipow(inv(a.args[0]), e))
            else:
                fs.append(ipow(a, e))
        ts.append(scale(c, mul(*fs)) if fs else const(c, 'I' if c.denominator == 1 else 'R'))
    if not ts:
        return const(0)
    return add(*ts)


def norm(t):
    """canonical term equal to t (for numeric t)"""
    if t.sort == 'B':
        return norm_bool(t)
    return from_poly(poly(t))


_nb = {}


def norm_bool(t):
    r = _nb.get(t)
    if r is None:
        if t.op == 'not':
            r = not_(norm_bool(t.args[0]))
        elif t.op == 'and':
            r = and_(*[norm_bool(a) for a in t.args])
        elif t.op in ('le0', 'lt0', 'eq0'):
            r = rebuild(t, [norm(t.args[0])])
        else:
            r = t
        _nb[t] = r
    return r


def _atom_poly(a):
    return {((a, 1),): Fraction(1)}


def poly(t):
    p = t._poly
    if p is None:
        try:
            p = _poly(t)
        except TooBig:
            t._poly = 'big'
            raise
        t._poly = p
    elif p == 'big':
        raise TooBig()
    return p


def _poly(t):
    op = t.op
    if op == 'const':
        return {(): t.data} if t.data != 0 else {}
    if op in ('var',):
        return _atom_poly(t)
    if op == 'lin':
        r = {(): t.data[0]} if t.data[0] != 0 else {}
        for k, a in zip(t.data[1], t.args):
            r = _padd(r, poly(a), k)
        return r
    if op == 'mul':
        r = {(): Fraction(1)}
        for a, e in zip(t.args, t.data):
            pa = poly(a)
            if e < 0:
                pa = _pinv(pa)
            for _ in range(abs(e)):
                r = _pmul(r, pa)
        return r
    if op == 'inv':
        return _pinv(poly(t.args[0]))
    if op == 'sum':
        return _poly_sum(t)
    if op == 'uf':
        a = mk('uf', tuple(norm(x) for x in t.args), t.sort, t.data)
        return _atom_poly(a)
    if op == 'fn':
        args = [norm(x) for x in t.args]
        r = fn(t.data, *args)
        if r.op == 'fn':
            if r.data in ('sin', 'cos'):
                e = _angle_add(r)
                if e is not None:
                    return poly(e)
            return _atom_poly(r)
        return poly(r)
    if op == 'ite':
        r = ite(norm_bool(t.args[0]), norm(t.args[1]), norm(t.args[2]))
        if r.op == 'ite':
            return _atom_poly(r)
        return poly(r)
    if op in ('floor', 'idiv', 'imod'):
        r = rebuild(t, [norm(x) for x in t.args])
        if r.op == op:
            return _atom_poly(r)
        if r is t:
            return _atom_poly(r)
        return poly(r)
    return _atom_poly(t)


def _angle_add(r):
    """sin/cos of a sum: expand (integer coefficients of atoms only)"""
    a = r.args[0]
    if a.op != 'lin':
        return None
    parts = [(k, x) for k, x in zip(a.data[1], a.args)]
    if len(parts) == 1 and a.data[0] == 0:
        k, x = parts[0]
        if k.denominator == 1 and 2 <= k <= 4:
            h = scale(k - 1, x)
            s1, c1, s2, c2 = fn('sin', h), fn('cos', h), fn('sin', x), fn('cos', x)
        else:
            return None
    else:
        if a.data[0] != 0:
            x = const(a.data[0], 'R')
            h = sub(a, x)
        else:
            x = scale(parts[0][0], parts[0][1])
            h = sub(a, x)
        s1, c1, s2, c2 = fn('sin', h), fn('cos', h), fn('sin', x), fn('cos', x)
    if r.data == 'sin':
        return add(mul(s1, c2), mul(c1, s2))
    return sub(mul(c1, c2), mul(s1, s2))


_ivc = {}


def _indicator(c):
    """0/1 term of a condition as a polynomial in indicators of its atoms"""
    if c is TRUE:
        return const(1)
    if c is FALSE:
        return const(0)
    if c.op == 'not':
        return sub(const(1), _indicator(c.args[0]))
    if c.op == 'and':
        return mul(*[_indicator(x) for x in c.args])
    return mk('ite', (c, const(1), const(0)), 'I')


def iverson(t, b):
    """t with if-then-else on the bound index b written with indicators"""
    if not t.args or b not in free_vars(t):
        return t
    r = _ivc.get((t, b))
    if r is None:
        if t.op == 'ite' and t.sort != 'B' and b in free_vars(t.args[0]):
            c = norm_bool(t.args[0])
            x, y = iverson(t.args[1], b), iverson(t.args[2], b)
            if t.args[0].op not in ('and', 'not') and x.op == 'const' and y.op == 'const' and x.data == 1 and y.data == 0:
                r = mk('ite', (c, x, y), t.sort)
            else:
                r = add(y, mul(_indicator(c), sub(x, y)))
        elif t.op in ('lin', 'mul'):
            a = [iverson(x, b) for x in t.args]
            r = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
        else:
            r = t
        _ivc[(t, b)] = r
    return r


def _poly_sum(t):
    b, body, rng = t.args
    lo, hi = norm(rng.args[0]), norm(rng.args[1])
    p = poly(iverson(body, b))
    out = {}
    for m, c in p.items():
        outer = tuple((a, e) for a, e in m if b not in free_vars(a))
        inner = tuple((a, e) for a, e in m if b in free_vars(a))
        if not inner:
            cnt = poly(ite(le(lo, hi), sub(hi, lo), const(0)))
            out = _padd(out, _pmul({outer: c}, cnt))
            continue
        q = _delta(b, lo, hi, inner)
        if q is not None:
            out = _padd(out, _pmul({outer: c}, q))
            continue
        at = _sum_atom(b, lo, hi, inner)
        out = _padd(out, _pmul({outer: c}, {((at, 1),): Fraction(1)}))
    return out


def _delta(b, lo, hi, inner):
    """sum over b in [lo, hi) of a monomial with a factor [b = t]: its value at b = t when t lies in the range"""
    for a, e in inner:
        if a.op != 'ite' or a.args[0].op != 'eq0' or not (a.args[1].op == 'const' and a.args[1].data == 1 and a.args[2].op == 'const' and a.args[2].data == 0) or e < 1:
            continue
        d = a.args[0].args[0]
        p = poly(d)
        k = p.get(((b, 1),))
        if k is None or d.sort != 'I' or any(b in free_vars(x) for m, _ in p.items() for x, _ in m if m != ((b, 1),)):
            continue
        t = from_poly({m: -c / k for m, c in p.items() if m != ((b, 1),)}, 'I') if len(p) > 1 else const(0)
        if any((-c / k).denominator != 1 for c in p.values()):
            continue
        rg = RANGE.get(t)
        inside = TRUE if rg is not None and norm(rg[0]) is lo and norm(rg[1]) is hi else and_(le(lo, t), lt(t, hi))
        r = poly(_indicator(inside))
        for x, f in inner:
            if x is not a:
                q = poly(subst(x, {b: t}))
                if x.op == 'inv':
                    q = poly(inv(subst(x.args[0], {b: t})))
                if f < 0:
                    return None
                for _ in range(f):
                    r = _pmul(r, q)
        return r
    return None


def _sum_atom(b, lo, hi, inner):
    """canonical atom for sum over b of a monomial (nested sums re-ordered)"""
    binders = [(lo, hi, b)]
    # flatten nested single sums
    flat = []
    for a, e in inner:
        if a.op == 'sum' and e == 1 and all(x[2] is not a.args[0] for x in binders) \
                and not any(bb[2] in free_vars(a.args[2].args[0]) | free_vars(a.args[2].args[1]) for bb in binders):
            bb = a.args[0]
            # freshness: rename when the binder occurs elsewhere
            others = [x for x, _ in inner if x is not a]
            body = a.args[1]
            if any(bb in free_vars(x) for x in others):
                lvl = 5
                nb = binder(a.args[2].args[0], a.args[2].args[1], lvl)
                while any(nb in free_vars(x) for x in others) or any(nb is y[2] for y in binders):
                    lvl += 1
                    nb = binder(a.args[2].args[0], a.args[2].args[1], lvl)
                body = subst(body, {bb: nb})
                bb = nb
            q = poly(body)
            if len(q) == 1 and list(q.values())[0] == 1:
                binders.append((norm(a.args[2].args[0]), norm(a.args[2].args[1]), bb))
                flat.extend(list(q.keys())[0])
                continue
        flat.append((a, e))
    mono = ()
    for f in flat:
        mono = _mmul(mono, (f,))
    if len(binders) > 4:
        perms = [tuple(range(len(binders)))]
    else:
        perms = list(itertools.permutations(range(len(binders))))
    best = None
    for pm in perms:
        m = {}
        bs = []
        for lvl, i in enumerate(pm):
            l, h, v = binders[i]
            nb = var('$c%d' % lvl, 'I')
            m[v] = nb
            bs.append((l, h))
        fm = []
        for a, e in mono:
            a2 = subst(a, m)
            fm.append((a2, e))
        fm.sort(key=lambda q: q[0].id)
        key = (tuple((l.id, h.id) for l, h in bs), tuple((a.id, e) for a, e in fm))
        skey = (tuple((a.id, e) for a, e in fm), key[0])
        if best is None or skey < best[0]:
            best = (skey, bs, fm, pm)
    _, bs, fm, pm = best
    # rebuild as nested sum term with level binders
    m = {}
    rb = []
    for lvl, (l, h) in enumerate(bs):
        nb = binder(l, h, 100 + lvl)
        m[var('$c%d' % lvl, 'I')] = nb
        rb.append((l, h, nb))
    body = mul(*[ipow(inv(subst(a.args[0], m)), e) if a.op == 'inv' else ipow(subst(a, m), e) for a, e in fm])
    for l, h, nb in reversed(rb):
        body = mk('sum', (nb, body, mk('rng', (l, h), 'B')), body.sort)
    return body


_height = {}


def height(t):
    """nesting depth of sums"""
    h = _height.get(t)
    if h is None:
        h = max([height(a) for a in t.args], default=0) + (t.op == 'lin')
        _height[t] = h
    return h


def _opaque(t, k, cache):
    """t with every sum of nesting depth <= k replaced by an atom"""
    r = cache.get(t)
    if r is None:
        if t.op == 'lin' and height(t) <= k:
            r = var('$q%d' % t.id, t.sort)
        elif not t.args or t.op in ('sum', 'rmax', 'rmin'):
            r = t
        else:
            a = [_opaque(x, k, cache) for x in t.args]
            r = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
        cache[t] = r
    return r


def _canon(t, cache):
    """sub-expressions that are small polynomials in expanded form (equal ones become identical terms)"""
    r = cache.get(t)
    if r is None:
        if not t.args or t.op in ('sum', 'rmax', 'rmin'):
            r = t
        else:
            a = [_canon(x, cache) for x in t.args]
            r = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
            if r.op == 'lin' or (r.op == 'mul' and all(e > 0 for e in r.data)):
                try:
                    p = poly(r)
                    if len(p) <= 1500 and all(e > 0 and a.op != 'inv' for m in p for a, e in m):
                        r = from_poly(p)
                except TooBig:
                    pass
        cache[t] = r
    return r


_dn = {}


def deep_norm(t):
    """t with every sub-expression that is a small rational polynomial in expanded form"""
    r = _dn.get(t)
    if r is None:
        if not t.args or t.op in ('rmax', 'rmin'):
            r = t
        elif t.op == 'sum':
            r = t
            try:
                p = poly(t)
                if len(p) <= 300:
                    r = from_poly(p, t.sort)
            except TooBig:
                pass
        else:
            a = [deep_norm(x) for x in t.args]
            r = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
            if r.op in ('lin', 'mul'):
                try:
                    p = poly(r)
                    if len(p) <= 300:
                        r = from_poly(p, r.sort)
                except TooBig:
                    pass
            elif r.op in ('le0', 'lt0', 'eq0') and r.args[0].op == 'lin':
                d = r.args[0]
                k = d.data[1][0]
                if abs(k) != 1 and d.sort == 'R' or (r.op == 'eq0' and k < 0):
                    r = mk(r.op, (scale(1 / (k if r.op == 'eq0' else abs(k)), d),), 'B') if d.sort == 'R' else mk(r.op, (neg(d),), 'B')
        _dn[t] = r
    return r


_cglobal = {}


def canon(t):
    return _canon(t, _cglobal)


_rz = {}


def ring_zero(t):
    r = _rz.get(t)
    if r is None:
        r = False
        if height(t) > 2:
            t0, t = t, _canon(t, {})
            if t.op == 'const':
                _rz[t0] = t.data == 0
                return t.data == 0
        else:
            t0 = t
        H = height(t)
        for k in range(H - 1, 0, -1):
            # identities between the same sub-expressions need no expansion of those
            q = _opaque(t, k, {})
            if q is not t and _ring_zero(q):
                r = True
                break
        else:
            r = _ring_zero(t)
        _rz[t0] = r
    return r


def _ring_zero(t):
    """True if t is identically 0 as a rational expression (denominators non-zero)"""
    try:
        p = poly(t)
        for _ in range(8):
            if not p:
                return True
            invs = {}
            for m in p:
                for a, e in m:
                    if a.op == 'inv':
                        invs[a] = max(invs.get(a, 0), e)
                    elif e < 0:
                        invs[a] = max(invs.get(a, 0), -e)
            if not invs:
                return False
            # clear one denominator at a time, outermost (largest id) first
            a = max(invs, key=lambda x: x.id)
            E = invs[a]
            q = poly(a.args[0]) if a.op == 'inv' else None
            r = {}
            pows = [{(): Fraction(1)}]
            if q is not None:
                for _i in range(E - min([0] + [dict(m).get(a, 0) for m in p])):
                    pows.append(_pmul(pows[-1], q))
            for m, c in p.items():
                if q is not None:
                    e = dict(m).get(a, 0)
                    rest = tuple((x, k) for x, k in m if x is not a)
                    add_ = _pmul({rest: c}, pows[E - e])
                else:
                    add_ = {_mmul(m, ((a, E),)): c}
                for m2, c2 in add_.items():
                    v = r.get(m2, 0) + c2
                    if v == 0:
                        r.pop(m2, None)
                    else:
                        r[m2] = v
            p = _pnorm(r)
        return not p
    except TooBig:
        return False


_hs = {}


def has_sum(t):
    r = _hs.get(t)
    if r is None:
        r = _hs[t] = t.op == 'sum' or any(has_sum(a) for a in t.args)
    return r


_sc = {}


def sum_canon(t):
    """the formula t with comparisons between sums in expanded canonical form (equal sums become identical terms)"""
    if not has_sum(t):
        return t
    r = _sc.get(t)
    if r is None:
        r = t
        if t.op == 'eq0' and t.args[0].op == 'mul' and all(e > 0 for e in t.args[0].data):
            r = or_(*[sum_canon(eq(a, const(0))) for a in t.args[0].args])
        elif t.op in ('le0', 'lt0', 'eq0'):
            try:
                p = poly(t.args[0])
                if len(p) <= 200:
                    d = from_poly(p)
                    r = {'le0': le, 'lt0': lt, 'eq0': eq}[t.op](d, const(0))
            except TooBig:
                pass
        elif t.op in ('and', 'not'):
            r = rebuild(t, [sum_canon(a) for a in t.args])
        _sc[t] = r
    return r
