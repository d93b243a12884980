"""z3 back end: translation of terms, instantiation of function axioms, entailment."""
import time
import z3
from .term import *
from . import term as _t

_fun = {}
_sumconst = {}
PI_LO, PI_HI = '3.14159265', '3.14159266'
stats = {'z3_calls': 0, 'z3_time': 0.0, 'cvc5_calls': 0}


def _f(name, sorts, ret):
    k = (name, sorts, ret)
    if k not in _fun:
        m = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}
        if not sorts:
            _fun[k] = z3.Const(name, m[ret])
        else:
            _fun[k] = z3.Function(name + ('' if all(s == 'I' for s in sorts) else '/' + ''.join(sorts)),
                                  *[m[s] for s in sorts], m[ret])
    return _fun[k]


def _real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def z(t):
    r = t._z3
    if r is None:
        r = _z(t)
        t._z3 = r
    return r


def _num(fr, sort):
    if sort == 'I' and fr.denominator == 1:
        return z3.IntVal(int(fr))
    return z3.RealVal(str(fr))


def _z(t):
    op = t.op
    if op == 'true':
        return z3.BoolVal(True)
    if op == 'false':
        return z3.BoolVal(False)
    if op == 'const':
        return _num(t.data, t.sort)
    if op == 'var':
        return _f(t.data, (), t.sort)
    if op == 'uf':
        args = [z(a) for a in t.args]
        return _f(t.data, tuple(a.sort for a in t.args), t.sort)(*args) if args else _f(t.data, (), t.sort)
    if op == 'fn':
        args = [_real(z(a)) for a in t.args]
        return _f('$' + t.data, tuple('R' for a in t.args), t.sort)(*args)
    if op == 'lin':
        isint = t.sort == 'I'
        parts = []
        for k, a in zip(t.data[1], t.args):
            e = z(a)
            if not isint:
                e = _real(e)
            parts.append(e if k == 1 else _num(k, t.sort) * e)
        if t.data[0] != 0:
            parts.append(_num(t.data[0], t.sort))
        return z3.Sum(parts) if len(parts) > 1 else parts[0]
    if op == 'mul':
        isint = t.sort == 'I'
        numer, den = None, None
        for a, e in zip(t.args, t.data):
            x = z(a) if isint else _real(z(a))
            for _ in range(abs(e)):
                if e > 0:
                    numer = x if numer is None else numer * x
                else:
                    den = x if den is None else den * x
        if numer is None:
            numer = z3.RealVal(1)
        return numer if den is None else numer / den
    if op == 'inv':
        return z3.RealVal(1) / _real(z(t.args[0]))
    if op == 'not':
        return z3.Not(z(t.args[0]))
    if op == 'and':
        return z3.And(*[z(a) for a in t.args])
    if op == 'le0':
        return z(t.args[0]) <= 0
    if op == 'lt0':
        return z(t.args[0]) < 0
    if op == 'eq0':
        return z(t.args[0]) == 0
    if op == 'ite':
        a, b = z(t.args[1]), z(t.args[2])
        if z3.is_int(a) != z3.is_int(b):
            a, b = _real(a), _real(b)
        return z3.If(z(t.args[0]), a, b)
    if op == 'floor':
        return z3.ToInt(_real(z(t.args[0])))
    if op == 'idiv':
        a, b = z(t.args[0]), z(t.args[1])
        if t.args[1].op == 'const' and t.args[1].data > 0:
            return a / b
        return z3.If(b > 0, a / b, (-a) / (-b))
    if op == 'imod':
        a, b = z(t.args[0]), z(t.args[1])
        if t.args[1].op == 'const' and t.args[1].data > 0:
            return a % b
        return a - b * z(idiv(t.args[0], t.args[1]))
    if op == 'sum':
        # opaque: one constant (or function of its free variables) per canonical sum
        fv = sorted((v for v in free_vars(t)), key=lambda v: v.id)
        fv = [v for v in fv if v.data.startswith('$') or True]
        return _f('$sum%d' % t.id, (), t.sort)
    if op in ('rmax', 'rmin'):
        return _f('$%s%d' % (op, t.id), (), t.sort)
    raise NotImplementedError(op)


def axioms(terms, depth=3):
    """ground instances of the axioms of the real functions occurring in terms"""
    out = []
    seen = set()
    todo = set()
    for t in terms:
        todo |= subterms(t)
    rounds = 0
    while todo and rounds < depth:
        rounds += 1
        new = []
        fns = [t for t in todo if t not in seen and (t.op in ('fn', 'uf', 'var') or t.op in ('imod', 'idiv'))]
        for t in fns:
            if t.op == 'uf' and t.data in ASSUMED_PAIR:
                for o in seen:
                    if o.op == 'uf' and o.data == t.data:
                        new += ASSUMED_PAIR[t.data](o, t)
            seen.add(t)
            new += _ax(t)
        out += new
        todo = set()
        for t in new:
            todo |= subterms(t)
        todo -= seen
    return out


ASSUMED_PAIR = {}   # uf name -> function(term, term) -> list of axioms
ASSUMED_UF = {}     # uf name -> function(term) -> list of axioms


def _ax(t):
    r = []
    if t.op == 'var':
        if t is PI:
            r.append(lt(const(Fraction(PI_LO), 'R'), PI))
            r.append(lt(PI, const(Fraction(PI_HI), 'R')))
        if t in RANGE:
            lo, hi = RANGE[t]
            r.append(le(lo, t))
            r.append(lt(t, hi))
        return r
    if t.op == 'uf':
        f = ASSUMED_UF.get(t.data)
        if f:
            r += f(t)
        return r
    if t.op == 'idiv':
        a, b = t.args
        r.append(implies(lt(const(0), b), and_(le(mul(b, t), a), lt(a, add(mul(b, t), b)))))
        return r
    if t.op == 'imod':
        a, b = t.args
        r.append(implies(lt(const(0), b), and_(le(const(0), t), lt(t, b))))
        return r
    n = t.data
    a = t.args[0]
    half = scale(Fraction(1, 2), PI)
    one = const(1, 'R')
    zero = const(0, 'R')
    if n in ('sin', 'cos'):
        s, c = fn('sin', a), fn('cos', a)
        r.append(eq(add(mul(s, s), mul(c, c)), one))
        r += [le(s, one), le(neg(one), s), le(c, one), le(neg(one), c)]
        r.append(implies(and_(lt(neg(half), a), lt(a, half)), lt(zero, c)))
        r.append(implies(and_(lt(zero, a), lt(a, PI)), lt(zero, s)))
        r.append(implies(and_(lt(neg(PI), a), lt(a, zero)), lt(s, zero)))
        r.append(implies(and_(le(zero, a), le(a, PI)), le(zero, s)))
        r.append(implies(and_(le(neg(PI), a), le(a, zero)), le(s, zero)))
    elif n == 'arcsin':
        r.append(implies(and_(le(neg(one), a), le(a, one)),
                         and_(eq(mk('fn', (t,), 'R', 'sin'), a), le(neg(half), t), le(t, half))))
        if a.op == 'fn' and a.data == 'sin':
            x = a.args[0]
            r.append(implies(and_(le(neg(half), x), le(x, half)), eq(t, x)))
    elif n == 'arccos':
        r.append(implies(and_(le(neg(one), a), le(a, one)),
                         and_(eq(mk('fn', (t,), 'R', 'cos'), a), le(zero, t), le(t, PI))))
    elif n == 'arctan2':
        y, x = t.args
        r += [lt(neg(PI), t), le(t, PI)]
        h = fn('sqrt', add(mul(x, x), mul(y, y)))
        s, c = mk('fn', (t,), 'R', 'sin'), mk('fn', (t,), 'R', 'cos')
        nz = not_(and_(eq(x, zero), eq(y, zero)))
        r.append(implies(nz, and_(eq(mul(h, c), x), eq(mul(h, s), y), lt(zero, h))))
    elif n == 'arctan':
        r += [lt(neg(half), t), lt(t, half)]
    elif n == 'sqrt':
        r.append(implies(le(zero, a), and_(le(zero, t), eq(mul(t, t), a))))
    elif n == 'exp':
        r.append(lt(zero, t))
    elif n == 'arctan2pos':
        pass
    return r


_cache = {}


def check(fs, timeout=2000, want_model=False, extra=True):
    """satisfiability of the conjunction of terms: 'sat' / 'unsat' / 'unknown'"""
    fs = [sum_canon(f) for f in fs]
    fs = [f for f in fs if f is not TRUE]
    if FALSE in fs:
        return ('unsat', None) if want_model else 'unsat'
    key = (frozenset(f.id for f in fs), timeout)
    if not want_model and key in _cache:
        return _cache[key]
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in fs:
        s.add(z(f))
    if extra:
        for f in axioms(fs):
            s.add(z(f))
    t0 = time.time()
    r = str(s.check())
    stats['z3_calls'] += 1
    stats['z3_time'] += time.time() - t0
    if want_model:
        return r, (s.model() if r == 'sat' else None)
    _cache[key] = r
    return r


def to_smt2(fs):
    s = z3.Solver()
    for f in fs:
        s.add(z(f))
    for f in axioms(fs):
        s.add(z(f))
    return s.to_smt2()


def cvc5_check(fs, timeout=10):
    """second opinion from cvc5 on the same SMT-LIB text"""
    import subprocess
    txt = '(set-logic ALL)\n' + to_smt2(fs)
    stats['cvc5_calls'] += 1
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--nl-ext-tplanes', '--tlimit=%d' % (timeout * 1000)], input=txt,
                           capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split('\n')[0]
        return out if out in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
