"""Symbolic Python / numpy scalars."""
import numbers
import math as _math
from fractions import Fraction
from .term import *
from . import term as tm
from .ctx import ctx, Unsupported


class SymBool:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __repr__(self):
        return 'SymBool(%s)' % show(self.t)

    def __and__(self, o):
        o = as_boolt(o)
        return NotImplemented if o is None else wrapb(and_(self.t, o))
    __rand__ = __and__

    def __or__(self, o):
        o = as_boolt(o)
        return NotImplemented if o is None else wrapb(or_(self.t, o))
    __ror__ = __or__

    def __xor__(self, o):
        return wrapb(not_(eq(self.t, as_boolt(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return wrapb(not_(self.t))

    def __eq__(self, o):
        b = as_boolt(o)
        if b is None:
            return self.as_num() == o
        return wrapb(eq(self.t, b))

    def __ne__(self, o):
        return wrapb(not_((self == o).t if isinstance(self == o, SymBool) else const(bool(self == o))))

    __hash__ = None

    def as_num(self):
        return wrap(ite(self.t, const(1), const(0)))

    def all(self):
        return self

    def any(self):
        return self

    def max(self):
        return self

    def __add__(self, o):
        return self.as_num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.as_num() * o
    __rmul__ = __mul__

    def __rsub__(self, o):
        return o - self.as_num()

    def __sub__(self, o):
        return self.as_num() - o

    def __lt__(self, o):
        return self.as_num() < o

    def __gt__(self, o):
        return self.as_num() > o

    def __ge__(self, o):
        return self.as_num() >= o

    def __le__(self, o):
        return self.as_num() <= o


def wrapb(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return SymBool(t)


def as_boolt(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return None


NANV = (const(0, 'R'), TRUE)


def val(x):
    """(term, undefined) of a scalar, or None"""
    if isinstance(x, SymNum):
        return (x.t, x.u)
    if isinstance(x, bool):
        return (const(1 if x else 0), FALSE)
    if isinstance(x, int):
        return (const(x), FALSE)
    if isinstance(x, float):
        if x != x:
            return NANV
        if x in (float('inf'), float('-inf')):
            return (uf('$inf' if x > 0 else '$ninf', (), 'R'), FALSE)
        return (const(x, 'R'), FALSE)
    if isinstance(x, Fraction):
        return (const(x, 'R'), FALSE)
    if isinstance(x, SymBool):
        return (ite(x.t, const(1), const(0)), FALSE)
    if type(x).__name__ == 'Quantity' and hasattr(x, '_symq'):
        return None
    if hasattr(x, '_as_scalar'):
        return val(x._as_scalar())
    return None


def vt(x):
    v = val(x)
    if v is None:
        raise Unsupported('not a scalar: %r' % (type(x),))
    return v


def it(x):
    """integer term of an index-like scalar"""
    t = x if isinstance(x, T) else vt(x)[0]
    if t.sort != 'I':
        if t.op == 'const' and t.data.denominator == 1:
            return const(int(t.data))
        raise Unsupported('integer expected: %s' % show(t))
    return t


class SymNum(object):
    __slots__ = ('t', 'u', 'py', '_dtype')
    __array_priority__ = 1000

    def __init__(self, t, u=FALSE, py=False, dtype=None):
        self.t, self.u, self.py, self._dtype = t, u, py, dtype

    def __repr__(self):
        return 'Sym(%s)' % show(self.t)

    # ---- numpy-scalar like attributes
    @property
    def dtype(self):
        from . import arr
        return self._dtype or (arr.INT64 if self.t.sort == 'I' else arr.FLOAT64)

    @property
    def shape(self):
        if self.py:
            raise AttributeError('shape')
        return ()

    @property
    def ndim(self):
        if self.py:
            raise AttributeError('ndim')
        return 0

    @property
    def size(self):
        if self.py:
            raise AttributeError('size')
        return 1

    def astype(self, dt, **k):
        from . import arr
        if self.py:
            raise AttributeError('astype')
        return wrapv(arr.cast((self.t, self.u), arr.dt(dt)))

    def item(self):
        return SymNum(self.t, self.u, True)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def max(self, *a, **k):
        return self
    min = max
    sum = max
    mean = max
    squeeze = max

    def copy(self):
        return self

    def flatten(self):
        from . import arr
        return arr.asarr([self])
    ravel = flatten

    def __round__(self, n=None):
        if n is None:
            return wrapv((round_even(self.t), self.u), self.py)
        k = 10 ** n
        return wrapv((scale(Fraction(1) / k, round_even(scale(Fraction(k), self.t))), self.u), self.py)

    def __trunc__(self):
        return wrapv((trunc(self.t), self.u), True)

    def __floor__(self):
        return wrapv((floor(self.t), self.u), True)

    def __ceil__(self):
        return wrapv((ceil(self.t), self.u), True)

    def is_integer(self):
        return wrapb(eq(self.t, floor(self.t)))

    def __index__(self):
        if self.t.op == 'const' and self.t.data.denominator == 1:
            return int(self.t.data)
        # decided by the path condition?
        raise Unsupported('symbolic value used as a concrete index: %s' % show(self.t))

    def __int__(self):
        if self.t.op == 'const':
            return int(self.t.data)
        raise Unsupported('int() of symbolic value outside instrumented code')

    def __float__(self):
        if self.t.op == 'const':
            return float(self.t.data)
        raise Unsupported('float() of symbolic value outside instrumented code')

    def __hash__(self):
        if self.t.op == 'const':
            return hash(self.t.data)
        raise Unsupported('symbolic value hashed')

    def __bool__(self):
        return bool(self != 0)

    # ---- arithmetic
    def _bin(self, o, f, r=False):
        if hasattr(o, '_b'):
            return NotImplemented       # arrays: elementwise, by the array's reflected operator
        v = val(o)
        if v is None:
            return NotImplemented
        a, b = (v, (self.t, self.u)) if r else ((self.t, self.u), v)
        py = self.py and (isinstance(o, (int, float, SymBool)) or (isinstance(o, SymNum) and o.py))
        x = wrapv(f(a, b, py), py)
        if self._dtype is not None and self._dtype.kind == 'f' or getattr(o, '_dtype', None) is not None and o._dtype.kind == 'f':
            return floating(x)
        return x

    def __add__(self, o):
        return self._bin(o, lambda a, b, p: vadd(a, b))

    def __radd__(self, o):
        return self._bin(o, lambda a, b, p: vadd(a, b), True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b, p: vsub(a, b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b, p: vsub(a, b), True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            raise Unsupported('list repetition by symbolic count')
        return self._bin(o, lambda a, b, p: vmul(a, b))

    def __rmul__(self, o):
        return self._bin(o, lambda a, b, p: vmul(a, b), True)

    def __truediv__(self, o):
        return self._bin(o, sdiv)

    def __rtruediv__(self, o):
        return self._bin(o, sdiv, True)

    def __floordiv__(self, o):
        return self._bin(o, sfloordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, sfloordiv, True)

    def __mod__(self, o):
        return self._bin(o, smod)

    def __rmod__(self, o):
        return self._bin(o, smod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        return self._bin(o, lambda a, b, p: vpow(a, b))

    def __rpow__(self, o):
        return self._bin(o, lambda a, b, p: vpow(a, b), True)

    def __neg__(self):
        return wrapv((neg(self.t), self.u), self.py)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrapv((abs_(self.t), self.u), self.py)

    def _cmp(self, o, f, dflt=False):
        if hasattr(o, '_b'):
            return NotImplemented
        v = val(o)
        if v is None:
            return NotImplemented
        d = and_(not_(self.u), not_(v[1]))
        c = cmp_inf(f, self.t, v[0])
        return wrapb(or_(not_(d), c) if dflt else and_(d, c))

    def __lt__(self, o):
        return self._cmp(o, lt)

    def __le__(self, o):
        return self._cmp(o, le)

    def __gt__(self, o):
        return self._cmp(o, gt)

    def __ge__(self, o):
        return self._cmp(o, ge)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: not_(eq(a, b)), True)

    # numpy-ufunc style methods used by object arrays
    def sqrt(self):
        return wrapv(vfn('sqrt', (self.t, self.u)))

    def is_real_sort(self):
        return self.t.sort == 'R'


numbers.Number.register(SymNum)


def cmp_inf(f, a, b):
    def isinf(x):
        return x.op == 'uf' and x.data in ('$inf', '$ninf')
    if isinf(a) or isinf(b):
        if isinf(a) and isinf(b):
            A = const(1 if a.data == '$inf' else -1)
            B = const(1 if b.data == '$inf' else -1)
        elif isinf(a):
            A, B = const(1 if a.data == '$inf' else -1), const(0)
        else:
            A, B = const(0), const(1 if b.data == '$inf' else -1)
        return f(A, B)
    return f(a, b)


def wrap(t, u=FALSE, py=False):
    return wrapv((t, u), py)


def wrapv(v, py=False):
    t, u = v
    if t.sort == 'B':
        return wrapb(t)
    if t.op == 'const' and u is FALSE and t.sort == 'I':
        return int(t.data)
    return SymNum(t, u, py)


def floating(x):
    """a floating-point number, though its value may be known to be whole"""
    if isinstance(x, SymNum) and x._dtype is None and x.t.sort == 'I':
        from . import arr
        x._dtype = arr.FLOAT64
    return x


# ---- value level operations ------------------------------------------------

def vadd(a, b):
    return add(num(a[0]), num(b[0])), or_(a[1], b[1])


def num(t):
    return ite(t, const(1), const(0)) if t.sort == 'B' else t


def vsub(a, b):
    return sub(num(a[0]), num(b[0])), or_(a[1], b[1])


def vmul(a, b):
    return mul(num(a[0]), num(b[0])), or_(a[1], b[1])


def vdiv(a, b):
    x, y = num(a[0]), num(b[0])
    if y.op == 'uf' and y.data in ('$inf', '$ninf'):
        return const(0, 'R'), or_(a[1], b[1])
    z0 = eq(y, const(0))
    if z0 is not FALSE and z0 is not TRUE and ctx().entails(not_(z0)):
        z0 = FALSE
    r = div(x, y) if z0 is not TRUE else const(0, 'R')
    if r.sort == 'I':
        r = r if r.op != 'const' else const(r.data, 'R')
    return r, or_(a[1], b[1], z0)


def sdiv(a, b, py):
    if py:
        if ctx().branch(eq(num(b[0]), const(0))):
            raise ZeroDivisionError('division by zero')
    return vdiv(a, b)


def vfloordiv(a, b):
    x, y = num(a[0]), num(b[0])
    z0 = eq(y, const(0))
    if z0 is not FALSE and ctx().entails(not_(z0)):
        z0 = FALSE
    u = or_(a[1], b[1], z0)
    if x.sort == 'I' and y.sort == 'I':
        return simp_div(x, y), u
    f = floor(div(x, y))
    return f, u


def sfloordiv(a, b, py):
    if py and ctx().branch(eq(num(b[0]), const(0))):
        raise ZeroDivisionError('division by zero')
    return vfloordiv(a, b)


def vmod(a, b):
    x, y = num(a[0]), num(b[0])
    z0 = eq(y, const(0))
    if z0 is not FALSE and ctx().entails(not_(z0)):
        z0 = FALSE
    u = or_(a[1], b[1], z0)
    if x.sort == 'I' and y.sort == 'I':
        return simp_mod(x, y), u
    return sub(x, mul(y, floor(div(x, y)))), u


def smod(a, b, py):
    if py and ctx().branch(eq(num(b[0]), const(0))):
        raise ZeroDivisionError('modulo by zero')
    return vmod(a, b)


def vpow(a, b):
    x, y = num(a[0]), num(b[0])
    u = or_(a[1], b[1])
    if y.op == 'const':
        if y.data.denominator == 1:
            n = int(y.data)
            if abs(n) <= 12:
                if n >= 0:
                    return ipow(x, n), u
                return div(const(1, 'R'), ipow(x, -n)), or_(u, eq(x, const(0)))
        if (y.data * 2).denominator == 1 and abs(y.data) <= 6:
            s = vfn('sqrt', (x, u))
            k = int(y.data * 2)
            if k >= 0:
                return ipow(s[0], k), s[1]
            return div(const(1, 'R'), ipow(s[0], -k)), or_(s[1], eq(x, const(0)))
    return fn('pow', x, y), or_(u, lt(x, const(0)))


def vfn(name, *vs):
    ts = [num(v[0]) for v in vs]
    u = or_(*[v[1] for v in vs])
    if name == 'sqrt':
        c = le(const(0), ts[0])
        if c is not TRUE and not _nonneg(ts[0]):
            u = or_(u, not_(c))
    elif name == 'log' or name == 'log10' or name == 'log2':
        u = or_(u, le(ts[0], const(0)))
    elif name in ('arcsin', 'arccos'):
        r = and_(le(const(-1), ts[0]), le(ts[0], const(1)))
        if r is not TRUE:
            u = or_(u, not_(r))
    return _inverse(name, ts) or fn(name, *ts), u


def _inverse(name, ts):
    """inverse trigonometric functions of trigonometric functions, when the path condition fixes the branch"""
    def within(x, lo, hi):
        return ctx().entails(and_(le(lo, x), le(x, hi)))
    half = scale(Fraction(1, 2), tm.PI)
    if name == 'arcsin':
        k, a = (-1, neg(ts[0])) if ts[0].op == 'lin' and ts[0].data[1][0] == -1 else (1, ts[0])
        if a.op == 'fn' and a.data == 'sin' and within(a.args[0], neg(half), half):
            return scale(k, a.args[0])
    elif name == 'arccos':
        a = ts[0]
        if a.op == 'fn' and a.data == 'cos':
            x = a.args[0]
            if within(x, neg(tm.PI), tm.PI):
                return abs_(x)
    elif name == 'arctan2':
        y, x = ts
        for c in tm.subterms(x):
            if c.op == 'fn' and c.data == 'cos':
                m = mul(x, tm.inv(c))
                if tm.ring_zero(sub(mul(m, tm.fn('sin', c.args[0])), y)):
                    w = c.args[0]
                elif tm.ring_zero(add(mul(m, tm.fn('sin', c.args[0])), y)):
                    w = neg(c.args[0])
                else:
                    continue
                if ctx().entails(lt(const(0), m)) and ctx().entails(and_(lt(neg(tm.PI), w), le(w, tm.PI))):
                    return w
    return None


def _nonneg(t):
    """cheap syntactic sum-of-squares test"""
    if t.op == 'const':
        return t.data >= 0
    if t.op == 'mul':
        return all(e % 2 == 0 or (a.op == 'fn' and a.data in ('sqrt', 'exp')) for a, e in zip(t.args, t.data))
    if t.op == 'lin':
        return t.data[0] >= 0 and all(k >= 0 for k in t.data[1]) and all(_nonneg(a) for a in t.args)
    if t.op == 'ite':
        return _nonneg(t.args[1]) and _nonneg(t.args[2]) or (t.args[0].op == 'le0' and t.args[0].args[0] is neg(t.args[1]) and t.args[2] is neg(t.args[1]))
    if t.op == 'sum':
        return _nonneg(t.args[1])
    if t.op == 'fn':
        return t.data in ('sqrt', 'exp')
    return False


def simp_div(a, b):
    return _divmod(a, b)[0]


def simp_mod(a, b):
    return _divmod(a, b)[1]


_dm = {}


def _divmod(a, b):
    if a.op == 'const' and b.op == 'const' and b.data != 0:
        return idiv(a, b), imod(a, b)
    try:
        p = poly(a)
        pb = poly(b)
    except TooBig:
        return idiv(a, b), imod(a, b)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        q, r = {}, {}
        imb = tuple((x, -e) for x, e in mb)
        for m, c in p.items():
            mm = tm._mmul(m, imb)
            if all(e > 0 for _, e in mm) and (c / cb).denominator == 1:
                q[mm] = c / cb
            else:
                r[m] = c
        qt, rt = from_poly(q), from_poly(r)
        if qt.sort != 'I' or rt.sort != 'I':
            return idiv(a, b), imod(a, b)
        if ctx().entails(and_(le(const(0), rt), lt(rt, b))):
            return qt, rt
        # perhaps -b <= r < 0
        if q or r:
            if r and ctx().entails(and_(le(neg(b), rt), lt(rt, const(0)))):
                return sub(qt, const(1)), add(rt, b)
        return add(qt, idiv(rt, b)), imod(rt, b)
    # polynomial divisor: try a = b*k + r for linear divisors by a single exact match
    d = sub(a, b)
    if ctx().entails(and_(le(const(0), a), lt(a, b))):
        return const(0), a
    return idiv(a, b), imod(a, b)


def resimp(t):
    """t with quotients and remainders simplified again (after a substitution)"""
    c = {}

    def go(t):
        r = c.get(t)
        if r is None:
            if not t.args:
                r = t
            else:
                a = [go(x) for x in t.args]
                if t.op == 'idiv':
                    r = simp_div(*a)
                elif t.op == 'imod':
                    r = simp_mod(*a)
                else:
                    r = t if all(x is y for x, y in zip(a, t.args)) else tm.rebuild(t, a)
            c[t] = r
        return r
    if not any(x.op in ('idiv', 'imod') for x in tm.subterms(t)):
        return t
    return go(t)
