"""Symbolic n-d arrays: symbolic shape, element function, aliasing views."""
import math as _math
from .sym import *
from .term import *
from .ctx import ctx, Unsupported


# ------------------------------------------------------------------ dtypes
class DType:
    def __init__(self, name, kind, bits, signed=True):
        self.name, self.kind, self.bits, self.signed = name, kind, bits, signed
        self.itemsize = bits // 8
        self.__name__ = name
        self.char = name
        self.str = name

    @property
    def type(self):
        return self

    def __call__(self, x=0, *a):
        if isinstance(x, SymArr):
            return x.astype(self)
        if isinstance(x, (list, tuple)):
            return asarr(x).astype(self)
        if isinstance(x, str):
            x = float(x)
        v = val(x)
        if v is None:
            if hasattr(x, 'magnitude'):
                return self(x.magnitude)
            raise TypeError(x)
        r = wrapv(cast(v, self))
        if isinstance(r, SymNum):
            r._dtype = self
        return r

    def __eq__(self, o):
        try:
            return self is dt(o)
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'dtype(%s)' % self.name


FLOAT64 = DType('float64', 'f', 64)
FLOAT32 = DType('float32', 'f', 32)
FLOAT16 = DType('float16', 'f', 16)
INT64 = DType('int64', 'i', 64)
INT32 = DType('int32', 'i', 32)
INT16 = DType('int16', 'i', 16)
INT8 = DType('int8', 'i', 8)
UINT64 = DType('uint64', 'u', 64, False)
UINT32 = DType('uint32', 'u', 32, False)
UINT16 = DType('uint16', 'u', 16, False)
UINT8 = DType('uint8', 'u', 8, False)
BOOL = DType('bool', 'b', 8)
OBJECT = DType('object', 'O', 64)
COMPLEX128 = DType('complex128', 'c', 128)
COMPLEX64 = DType('complex64', 'c', 64)
ALL_DT = [FLOAT64, FLOAT32, FLOAT16, INT64, INT32, INT16, INT8, UINT64, UINT32, UINT16, UINT8, BOOL, OBJECT,
          COMPLEX128, COMPLEX64]
_DTN = {d.name: d for d in ALL_DT}
_DTN.update({'float': FLOAT64, 'int': INT64, 'uint': UINT64, 'double': FLOAT64, 'f8': FLOAT64, 'f4': FLOAT32,
             'i4': INT32, 'i2': INT16, 'u1': UINT8, 'u2': UINT16, 'u4': UINT32, 'i8': INT64, 'bool_': BOOL, 'd': FLOAT64,
             'f': FLOAT32, '<f8': FLOAT64})


def dt(x):
    if x is None:
        return FLOAT64
    if isinstance(x, DType):
        return x
    nm = getattr(x, '_pyname', None) or (x.__name__ if isinstance(x, type) else None)
    if x is float or nm == 'float':
        return FLOAT64
    if x is int or nm == 'int':
        return INT64
    if x is bool or nm == 'bool':
        return BOOL
    if x is object:
        return OBJECT
    if isinstance(x, str) and x in _DTN:
        return _DTN[x]
    raise Unsupported('dtype %r' % (x,))


def promote(*ds):
    ds = [d for d in ds if d is not None]
    if not ds:
        return FLOAT64
    order = {'b': 0, 'u': 1, 'i': 2, 'f': 3, 'c': 4, 'O': 5}
    k = max(ds, key=lambda d: (order[d.kind], d.bits))
    if k.kind == 'f' and any(d.kind in 'iu' and d.bits >= 32 for d in ds):
        return FLOAT64
    return k


def scalar_dtype(x):
    """dtype of a scalar; python scalars are weak"""
    if isinstance(x, (bool, SymBool)):
        return BOOL
    if isinstance(x, int):
        return INT64
    if isinstance(x, SymNum):
        return x.dtype
    return FLOAT64


def cast(v, d):
    t, u = v
    if d.kind == 'f' or d.kind == 'c' or d.kind == 'O':
        return (num(t), u) if d.kind != 'O' else (t, u)
    if d.kind == 'b':
        return ((t if t.sort == 'B' else not_(eq(t, const(0)))), FALSE)
    t = num(t)
    r = trunc(t)
    if d.bits <= 16 and r.op != 'const':
        lo, hi = (-(1 << d.bits - 1), (1 << d.bits - 1) - 1) if d.signed else (0, (1 << d.bits) - 1)
        if not ctx().entails(and_(le(const(lo), r), le(r, const(hi)))):
            r = add(imod(sub(r, const(lo)), const(1 << d.bits)), const(lo))
    elif r.op == 'const' and d.bits <= 16:
        lo = -(1 << d.bits - 1) if d.signed else 0
        r = const(int((r.data - lo) % (1 << d.bits) + lo))
    return (r, u)


# ------------------------------------------------------------------ buffers
class Buf:
    __slots__ = ('fn', 'shape', 'dtype', 'memo', 'name', 'version', '__weakref__')

    def __init__(self, fn, shape, dtype, name=None):
        self.shape, self.dtype, self.name = tuple(shape), dtype, name
        self.fn = memoize(fn)
        self.version = 0

    def get(self, idx):
        return self.fn(idx)

    def write(self, region, value):
        """element idx becomes value(idx) where region(idx)"""
        old = self.fn
        d = self.dtype

        def new(idx):
            c = region(idx)
            if c is FALSE:
                return old(idx)
            v = cast(value(idx), d)
            if c is TRUE:
                return v
            o = old(idx)
            return ite(c, v[0], o[0]), ite(c, v[1], o[1])
        c = ctx()
        if c.log is not None:
            c.log.append((self, region, value))
        self.fn = memoize(new)
        self.version += 1


def memoize(fn):
    if getattr(fn, '_memo', None) is not None:
        return fn
    memo = {}

    def f(idx):
        idx = tuple(idx)
        k = tuple(i.id for i in idx)
        r = memo.get(k)
        if r is None:
            c = ctx()
            c.nofork += 1
            try:
                r = fn(idx)
            finally:
                c.nofork -= 1
            memo[k] = r
        return r
    f._memo = memo
    return f


def tdim(d):
    if isinstance(d, T):
        return d
    return it(d)


def pdim(t):
    return int(t.data) if t.op == 'const' else SymNum(t, FALSE, True)


def prod(ts):
    r = const(1)
    for t in ts:
        r = mul(r, t)
    return r


class SymArr:
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, buf, tshape, fwd=None, inv=None, contig=True):
        self.buf, self.tshape, self.fwd, self.inv, self.contig = buf, tuple(tshape), fwd, inv, contig

    # -- basics
    @property
    def shape(self):
        return tuple(pdim(d) for d in self.tshape)

    @shape.setter
    def shape(self, s):
        r = reshape(self, s)
        self.buf, self.tshape, self.fwd, self.inv, self.contig = r.buf, r.tshape, r.fwd, r.inv, r.contig

    @property
    def ndim(self):
        return len(self.tshape)

    @property
    def size(self):
        return pdim(prod(self.tshape))

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def T(self):
        return transpose(self)

    @property
    def flat(self):
        return reshape(self, (-1,))

    @property
    def real(self):
        return self

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def __len__(self):
        # only reached outside instrumented code
        if not self.tshape:
            raise TypeError('len() of unsized object')
        return int(pdim(self.tshape[0])) if self.tshape[0].op == 'const' else _unsup('len() of symbolic array')

    def get(self, idx):
        idx = tuple(idx)
        return self.buf.fn(self.fwd(idx) if self.fwd else idx)

    def snap(self):
        """immutable element function of the present contents"""
        f, fw = self.buf.fn, self.fwd
        return f if fw is None else (lambda idx: f(fw(tuple(idx))))

    def __repr__(self):
        return 'SymArr(%s,%s)' % (', '.join(show(d) for d in self.tshape), self.dtype.name)

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)

    def __iter__(self):
        if not self.tshape:
            raise TypeError('iteration over a 0-d array')
        n = self.tshape[0]
        if n.op != 'const':
            raise Unsupported('iteration over symbolic array outside a for statement')
        for i in range(int(n.data)):
            yield self[i]

    def __contains__(self, x):
        return bool((self == x).any())

    def __bool__(self):
        if all(d is ONE for d in self.tshape) or not self.tshape:
            return bool(wrapv(self.get(tuple(const(0) for _ in self.tshape))))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def _as_scalar(self):
        if all(d is ONE for d in self.tshape):
            v = self.get(tuple(const(0) for _ in self.tshape))
            return SymNum(v[0], v[1]) if v[0].sort != 'B' else SymBool(v[0])
        raise TypeError('only size-1 arrays can be converted to Python scalars')

    def item(self, *a):
        if a:
            return self[a]
        s = self._as_scalar()
        return wrapv((s.t, s.u), True) if isinstance(s, SymNum) else s

    def __index__(self):
        s = self._as_scalar()
        return s.__index__()

    # -- methods delegating to functions
    def astype(self, d, copy=True, **k):
        d = dt(d)
        f = self.snap()
        return new(lambda i: cast(f(i), d), self.tshape, d)

    def copy(self, *a):
        return new(self.snap(), self.tshape, self.dtype)

    __copy__ = copy

    def __deepcopy__(self, m):
        return self.copy()

    def reshape(self, *s, **k):
        if len(s) == 1:
            s = s[0]
        return reshape(self, s, **k)

    def ravel(self, order='C'):
        return reshape(self, (-1,), order=order)

    def flatten(self, order='C'):
        return reshape(self, (-1,), order=order).copy()

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0] or ()
        return transpose(self, axes or None)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return transpose(self, ax)

    def sum(self, axis=None, **k):
        return reduce_sum(self, axis, **k)

    def mean(self, axis=None, **k):
        return reduce_mean(self, axis, **k)

    def max(self, axis=None, **k):
        return reduce_ext(self, 'rmax', axis)

    def min(self, axis=None, **k):
        return reduce_ext(self, 'rmin', axis)

    def any(self, axis=None):
        return reduce_bool(self, 'any', axis)

    def all(self, axis=None):
        return reduce_bool(self, 'all', axis)

    def dot(self, o):
        return matmul(self, o, dot=True)

    def fill(self, v):
        self[...] = v

    def clip(self, a_min=None, a_max=None, **k):
        from . import npshim
        return npshim.clip(self, k.get('min', a_min), k.get('max', a_max))

    def tolist(self):
        if any(d.op != 'const' for d in self.tshape):
            raise Unsupported('tolist of symbolic array')
        if self.ndim == 1:
            return [wrapv(self.get((const(i),)), True) for i in range(int(self.tshape[0].data))]
        return [r.tolist() for r in self]

    def round(self, n=0):
        from . import npshim
        return npshim.np_round(self, n)

    def view(self, *a):
        raise Unsupported('view')

    def tofile(self, *a, **k):
        from . import npshim
        npshim.FILES.tofile(self, *a, **k)

    # -- operators
    def _b(self, o, f, d=None, r=False):
        if isinstance(o, (str, type(None), dict)) or hasattr(o, '_symq') or type(o).__name__ == 'MaskedArr':
            return NotImplemented
        return elementwise((lambda a, b: f(b, a)) if r else f, d, self, o)

    def __add__(self, o): return self._b(o, vadd, 'arith')
    def __radd__(self, o): return self._b(o, vadd, 'arith', True)
    def __sub__(self, o): return self._b(o, vsub, 'arith')
    def __rsub__(self, o): return self._b(o, vsub, 'arith', True)
    def __mul__(self, o): return self._b(o, vmul, 'arith')
    def __rmul__(self, o): return self._b(o, vmul, 'arith', True)
    def __truediv__(self, o): return self._b(o, vdiv, 'float')
    def __rtruediv__(self, o): return self._b(o, vdiv, 'float', True)
    def __floordiv__(self, o): return self._b(o, vfloordiv, 'arith')
    def __rfloordiv__(self, o): return self._b(o, vfloordiv, 'arith', True)
    def __mod__(self, o): return self._b(o, vmod, 'arith')
    def __rmod__(self, o): return self._b(o, vmod, 'arith', True)
    def __pow__(self, o): return self._b(o, vpow, 'arith')
    def __rpow__(self, o): return self._b(o, vpow, 'arith', True)
    def __neg__(self): return elementwise(lambda a: (neg(num(a[0])), a[1]), 'arith', self)
    def __pos__(self): return self
    def __abs__(self): return elementwise(lambda a: (abs_(num(a[0])), a[1]), 'arith', self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __lt__(self, o): return self._b(o, vcmp(lt), BOOL)
    def __le__(self, o): return self._b(o, vcmp(le), BOOL)
    def __gt__(self, o): return self._b(o, vcmp(gt), BOOL)
    def __ge__(self, o): return self._b(o, vcmp(ge), BOOL)

    def __eq__(self, o):
        if o is None:
            return new(lambda i: (FALSE, FALSE), self.tshape, BOOL)
        if isinstance(o, str):
            return False
        return self._b(o, vcmp(eq), BOOL)

    def __ne__(self, o):
        if o is None:
            return new(lambda i: (TRUE, FALSE), self.tshape, BOOL)
        if isinstance(o, str):
            return True
        return self._b(o, vcmp(eq, True), BOOL)

    def __and__(self, o): return self._b(o, vbool(and_), BOOL)
    __rand__ = __and__
    def __or__(self, o): return self._b(o, vbool(or_), BOOL)
    __ror__ = __or__
    def __invert__(self):
        if self.dtype.kind != 'b':
            raise Unsupported('bitwise not')
        return elementwise(lambda a: (not_(asb(a[0])), FALSE), BOOL, self)

    def _inplace(self, o, f, d):
        r = elementwise(f, d, self, o)
        if r.dtype.kind == 'f' and self.dtype.kind in 'iub':
            raise TypeError('Cannot cast ufunc output from float to int with casting rule same_kind')
        self[...] = r
        return self

    def __iadd__(self, o): return self._inplace(o, vadd, 'arith')
    def __isub__(self, o): return self._inplace(o, vsub, 'arith')
    def __imul__(self, o): return self._inplace(o, vmul, 'arith')
    def __itruediv__(self, o): return self._inplace(o, vdiv, 'float')


def _unsup(m):
    raise Unsupported(m)


def asb(t):
    return t if t.sort == 'B' else not_(eq(t, const(0)))


def vcmp(f, negate=False):
    def g(a, b):
        d = and_(not_(a[1]), not_(b[1]))
        if a[0].sort == 'B' and b[0].sort == 'B' and f is eq:
            c = and_(d, eq(a[0], b[0]))
        else:
            c = and_(d, cmp_inf(f, num(a[0]), num(b[0])))
        return (not_(c) if negate else c), FALSE
    return g


def vbool(f):
    def g(a, b):
        if a[0].sort != 'B' or b[0].sort != 'B':
            raise Unsupported('bitwise operation on integers')
        return f(a[0], b[0]), FALSE
    return g


def new(fn, tshape, d, name=None):
    return SymArr(Buf(fn, tshape, d, name), tshape)


def is_arr(x):
    return isinstance(x, SymArr)


def select(items, i):
    """items[i] of Val list for a term index"""
    if i.op == 'const':
        k = int(i.data)
        return items[k] if -len(items) <= k < len(items) else items[0]
    r = items[-1]
    for k in range(len(items) - 2, -1, -1):
        c = eq(i, const(k))
        r = (ite(c, items[k][0], r[0]), ite(c, items[k][1], r[1]))
    return r


def asarr(x, d=None):
    if isinstance(x, SymArr):
        return x if d is None or dt(d) is x.dtype else x.astype(d)
    if type(x).__name__ == 'MaskedArr':
        raise Unsupported('masked array used as a plain array')
    if isinstance(x, IndexArrays1):
        return x.as_array()
    if hasattr(x, '_symq'):
        return asarr(x.magnitude, d)
    if hasattr(x, '_to_array'):
        return asarr(x._to_array(), d)
    v = val(x)
    if v is not None:
        dd = dt(d) if d is not None else scalar_dtype(x)
        v = cast(v, dd) if d is not None else v
        return new(lambda i: v, (), dd)
    if isinstance(x, (list, tuple, range)) or hasattr(x, '__next__'):
        items = [asarr(e) for e in x]
        if not items:
            return new(lambda i: (const(0, 'R'), FALSE), (const(0),), dt(d))
        s0 = items[0].tshape
        for e in items[1:]:
            if len(e.tshape) != len(s0):
                raise ValueError('inhomogeneous shape')
            for a, b in zip(e.tshape, s0):
                if not same_dim(a, b):
                    raise ValueError('inhomogeneous shape')
        dd = dt(d) if d is not None else promote(*[e.dtype for e in items])
        fs = [e.snap() for e in items]

        def f(idx):
            return cast(select_lazy(fs, idx[0], idx[1:]), dd)
        return new(f, (const(len(items)),) + s0, dd)
    if isinstance(x, SymRange):
        return x.to_array()
    if x is None or isinstance(x, str):
        return new(lambda i: _unsup('object array element'), (), OBJECT)
    if hasattr(x, 'magnitude'):
        return asarr(x.magnitude, d)
    raise Unsupported('cannot convert %s to array' % type(x).__name__)


def select_lazy(fs, i, rest):
    if i.op == 'const':
        k = int(i.data)
        return fs[k](rest) if -len(fs) <= k < len(fs) else fs[0](rest)
    return select([f(rest) for f in fs], i)


def same_dim(a, b):
    if a is b:
        return True
    if a.op == 'const' and b.op == 'const':
        return a.data == b.data
    if ring_zero(sub(a, b)):
        return True
    return ctx().branch(eq(a, b))


def broadcast_shapes(*shs):
    n = max(len(s) for s in shs)
    out = []
    for k in range(n):
        ds = [s[len(s) - n + k] for s in shs if len(s) - n + k >= 0]
        d = None
        for x in ds:
            if x is ONE:
                continue
            if d is None:
                d = x
            elif not same_dim(d, x):
                # symbolic dimension that may be one
                if x.op != 'const' and ctx().branch(eq(x, ONE)):
                    continue
                if d.op != 'const' and ctx().branch(eq(d, ONE)):
                    d = x
                    continue
                raise ValueError('operands could not be broadcast together')
        out.append(d if d is not None else ONE)
    return tuple(out)


def bget(f, sh, idx):
    """element of a broadcast operand"""
    k = len(idx) - len(sh)
    return f(tuple(const(0) if d is ONE else i for d, i in zip(sh, idx[k:])))


def elementwise(f, d, *xs):
    """apply Val-function f elementwise; d is a dtype, 'arith' or 'float'"""
    for x in xs:
        if hasattr(x, '_elementwise'):
            return x._elementwise(f, d, xs)
    anyarr = any(isinstance(x, (SymArr, list, tuple, SymRange, IndexArrays1)) or hasattr(x, '_to_array') for x in xs)
    if not anyarr:
        vs = [vt(x.magnitude if hasattr(x, '_symq') else x) for x in xs]
        return wrapv(f(*vs))
    arrs = [asarr(x) for x in xs]
    if any(a.dtype is OBJECT for a in arrs) and d is not BOOL:
        raise Unsupported('object array arithmetic')
    sh = broadcast_shapes(*[a.tshape for a in arrs])
    fs = [(a.snap(), a.tshape) for a in arrs]
    if d == 'arith':
        strong = [a.dtype for a, x in zip(arrs, xs) if isinstance(x, SymArr) and x.tshape]
        weak = [a.dtype for a, x in zip(arrs, xs) if not (isinstance(x, SymArr) and x.tshape)]
        order = {'b': 0, 'u': 1, 'i': 1, 'f': 2, 'c': 3, 'O': 4}
        if strong:
            rd = promote(*strong)
            if weak and max(order[w.kind] for w in weak) > order[rd.kind]:
                rd = promote(rd, *weak)
        else:
            rd = promote(*weak)
        if rd.kind == 'b':
            rd = INT64
    elif d == 'float':
        rd = promote(FLOAT32, *[a.dtype for a in arrs]) if all(a.dtype is FLOAT32 for a in arrs) else FLOAT64
    elif d == 'same':
        rd = promote(*[a.dtype for a in arrs])
    else:
        rd = d
    small = rd.kind in 'iu' and rd.bits <= 16

    def g(idx):
        r = f(*[bget(h, s, idx) for h, s in fs])
        return cast(r, rd) if small else r
    r = new(g, sh, rd)
    if not sh:
        v = r.get(())
        return SymNum(v[0], v[1], False, rd) if v[0].sort != 'B' else wrapb(v[0])
    return r


# ------------------------------------------------------------------ index arrays from np.where
class IndexArrays1:
    """one component of np.where(mask)"""
    def __init__(self, mask, axis):
        self.mask, self.axis = mask, axis

    def __len__(self):
        return _unsup('len of index array outside instrumented code')

    def _symlen(self):
        return count_true(self.mask)

    @property
    def size(self):
        return count_true(self.mask)

    @property
    def shape(self):
        return (count_true(self.mask),)

    def as_array(self):
        return nonzero_enum(self.mask, self.axis)

    def __getitem__(self, k):
        return self.as_array()[k]

    def _b(self, *a):
        raise Unsupported('arithmetic on index arrays')


def nonzero_enum(mask, axis):
    """abstract enumeration of the true positions of a 1-d mask in increasing order"""
    from . import enum_
    return enum_.enumerate_true(mask, axis)


class WhereResult(tuple):
    pass


def where1(mask):
    r = WhereResult(IndexArrays1(mask, k) for k in range(mask.ndim))
    return r


def count_true(mask):
    f = mask.snap()
    return wrapv(sum_over(lambda idx: (ite(asb(f(idx)[0]), const(1), const(0)), FALSE), mask.tshape))


# ------------------------------------------------------------------ sums
_lvl = [0]


def sum_over(f, tshape):
    """sum of f over the full index space tshape -> Val"""
    tshape = tuple(tshape)
    n = prod(tshape)
    if n.op == 'const' and n.data <= 64:
        import itertools
        ts, us = [], []
        for idx in itertools.product(*[range(int(d.data)) for d in tshape]):
            v = f(tuple(const(i) for i in idx))
            ts.append(num(v[0]))
            us.append(v[1])
        return (add(*ts) if ts else const(0)), or_(*us)
    # symbolic
    idx = []
    bs = []
    base = _lvl[0]
    for d in tshape:
        if d.op == 'const' and d.data <= 8:
            idx.append(None)
        else:
            b = binder(const(0), d, _lvl[0])
            _lvl[0] += 1
            idx.append(b)
            bs.append((b, d))
    try:
        import itertools
        cd = [range(int(d.data)) if i is None else (None,) for i, d in zip(idx, tshape)]
        ts, us = [], []
        for combo in itertools.product(*cd):
            full = tuple(i if i is not None else const(k) for i, k in zip(idx, combo))
            v = f(full)
            ts.append(num(v[0]))
            us.append(v[1])
    finally:
        _lvl[0] = base
    t, u = add(*ts), or_(*us)
    for b, d in reversed(bs):
        t = sum_(b, const(0), d, t)
    if u is not FALSE:
        bvars = {b for b, _ in bs}
        if bvars & free_vars(u):
            # undefined if any element is undefined: sound over-approximation via entailment
            if ctx().entails(not_(u)):
                u = FALSE
            else:
                for b, d in bs:
                    u = exists(b, d, u)
    return t, u


def exists(b, d, u):
    if b not in free_vars(u):
        return and_(u, lt(const(0), d))
    if u.op == 'const':
        return u
    v = var('$ex%d_%d' % (b.id, u.id), 'B')
    return v


def norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    return tuple(sorted(int(a) % nd for a in axis))


def reduce_sum(a, axis=None, dtype=None, keepdims=False, **k):
    a = asarr(a)
    ax = norm_axis(axis, a.ndim)
    f = a.snap()
    keep = [i for i in range(a.ndim) if i not in ax]
    rd = dt(dtype) if dtype is not None else (INT64 if a.dtype.kind in 'biu' else a.dtype)

    def g(idx):
        def h(r):
            full = [None] * a.ndim
            for i, x in zip(keep, idx):
                full[i] = x
            for i, x in zip(ax, r):
                full[i] = x
            return f(tuple(full))
        return sum_over(h, [a.tshape[i] for i in ax])
    if not keep and not keepdims:
        return wrapv(g(()))
    r = new(g, [a.tshape[i] for i in keep], rd)
    if keepdims:
        sh = [ONE if i in ax else a.tshape[i] for i in range(a.ndim)]
        return new(lambda idx: g(tuple(idx[i] for i in keep)), sh, rd)
    return r


def reduce_mean(a, axis=None, keepdims=False, **k):
    a = asarr(a)
    ax = norm_axis(axis, a.ndim)
    n = prod([a.tshape[i] for i in ax])
    s = reduce_sum(a, axis, keepdims=keepdims)
    if is_arr(s):
        return s / wrapv((n, FALSE))
    return wrapv(vdiv(vt(s), (n, FALSE)))


EXT = {}      # rmax/rmin atom -> (kind, fn, tshape)


def reduce_ext(a, kind, axis=None, nan=False):
    a = asarr(a)
    ax = norm_axis(axis, a.ndim)
    f = a.snap()
    keep = [i for i in range(a.ndim) if i not in ax]
    rsh = [a.tshape[i] for i in ax]

    def g(idx):
        def h(r):
            full = [None] * a.ndim
            for i, x in zip(keep, idx):
                full[i] = x
            for i, x in zip(ax, r):
                full[i] = x
            return f(tuple(full))
        return ext_over(h, rsh, kind, nan, a.dtype)
    n = prod(rsh)
    if n.op == 'const' and n.data == 0:
        raise ValueError('zero-size array to reduction operation')
    if n.op != 'const' and not ctx().entails(lt(const(0), n)):
        if ctx().branch(le(n, const(0))):
            raise ValueError('zero-size array to reduction operation')
    if not keep:
        return wrapv(g(()))
    return new(g, [a.tshape[i] for i in keep], a.dtype)


def ext_over(h, rsh, kind, nan, dtype):
    n = prod(rsh)
    mx = kind == 'rmax'
    if n.op == 'const' and n.data <= 32:
        import itertools
        best = None
        for idx in itertools.product(*[range(int(d.data)) for d in rsh]):
            v = h(tuple(const(i) for i in idx))
            if v[0].sort == 'B':
                best = v if best is None else ((or_ if mx else and_)(best[0], v[0]), FALSE)
                continue
            if best is None:
                best = v
            elif nan:
                t = ite(v[1], best[0], ite(best[1], v[0], (max_ if mx else min_)(best[0], v[0])))
                best = (t, and_(best[1], v[1]))
            else:
                best = ((max_ if mx else min_)(best[0], v[0]), or_(best[1], v[1]))
        return best
    bs = [binder(const(0), d, 40 + k) for k, d in enumerate(rsh)]
    v = h(tuple(bs))
    if v[0].sort == 'B':
        return (bool_red(('any' if mx else 'all'), h, rsh), FALSE)
    t = linked('$%s' % kind, v[0].sort, bs, [v[0], v[1]], rsh)
    if t.data not in EXT:
        EXT[t.data] = (kind, nan)
        from . import smt

        def ax(term, nan=nan):
            w = witness(term)
            el, ds = instance(term, w)
            dom = and_(*[and_(le(const(0), x), lt(x, d)) for x, d in zip(w, ds)])
            ne = and_(*[lt(const(0), d) for d in ds])
            r = [implies(ne, dom)]
            if nan:
                r.append(implies(and_(ne, not_(_allnan_of(term))), and_(eq(term, el[0]), not_(el[1]))))
            else:
                r.append(implies(ne, eq(term, el[0])))
            return r
        smt.ASSUMED_UF[t.data] = ax
    if nan:
        return t, allnan(h, rsh)
    u = FALSE
    if v[1] is not FALSE and not ctx().entails(not_(v[1])):
        u = bool_red('any', lambda i: (h(i)[1], FALSE), rsh)
    return t, u


# extremum and all/any atoms: the reduced elements are kept as closed terms, the atom's arguments are their parameters
LINK = {}


def _order_vars(ts, skip):
    out, seen = [], set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'var':
            if t is not PI and t in free and t not in skip:
                out.append(t)
            return
        for a in t.args:
            go(a)
    free = set()
    for t in ts:
        free |= free_vars(t)
    for t in ts:
        go(t)
    return out


def linked(prefix, sort, bs, bodies, rsh):
    bodies = [deep_norm(x) for x in bodies]
    vs = _order_vars(list(rsh) + list(bodies), set(bs))
    ren = {v: var('$p%d%s' % (i, v.sort), v.sort) for i, v in enumerate(vs)}
    crsh = [subst(d, ren) for d in rsh]
    cb = [binder(const(0), d, 40 + k) for k, d in enumerate(crsh)]
    ren.update(zip(bs, cb))
    canon = [subst(x, ren) for x in bodies]
    name = '%s_%s_%s' % (prefix, '_'.join(str(x.id) for x in canon), '_'.join(str(d.id) for d in crsh))
    LINK[name] = ([ren[v] for v in vs], cb, canon, crsh)
    from . import ctx as cx
    if name not in cx.LINKSYMS:
        s = set()
        for x in canon + crsh:
            s |= cx._syms(x)
        cx.LINKSYMS[name] = frozenset(q for q in s if not q.startswith(('$b', '$p')))
    return mk('uf', tuple(vs), sort, name)


def first_true(h, n):
    """term: least j in [0, n) with h(j), n when there is none (n >= 0)"""
    b = binder(const(0), n, 40)
    body = asb(h(b))
    if body.op == 'and':
        # conjuncts that do not depend on the index and are known here
        body = and_(*[x for x in body.args if b in free_vars(x) or not ctx().entails(x, 200)])
    if body is TRUE:
        return const(0)
    if body is FALSE:
        return n
    t = linked('$first', 'I', [b], [body], [n])
    if t.data not in FIRST:
        FIRST[t.data] = True
        from . import smt

        def ax(term):
            el, ds = instance(term, (term,))
            return [le(const(0), term), implies(le(const(0), ds[0]), le(term, ds[0])), implies(lt(term, ds[0]), asb(el[0]))]
        smt.ASSUMED_UF[t.data] = ax
    return t


FIRST = {}
PERM = {}       # permutation -> (inverse, length given the parameters)


def instance(term, idx):
    """([body terms], [dims]) of an atom at an index"""
    ps, cb, canon, crsh = LINK[term.data]
    m = dict(zip(ps, term.args))
    ds = [subst(d, m) for d in crsh]
    m2 = dict(m)
    m2.update(zip(cb, idx))
    return [deep_norm(subst(x, m2)) for x in canon], ds


def witness(term):
    return [mk('uf', term.args, 'I', '$w%d_%s' % (k, term.data[1:])) for k in range(len(LINK[term.data][1]))]


def deep_ufs(t, acc=None):
    """names of the uninterpreted symbols of t, those inside reductions included"""
    acc = set() if acc is None else acc
    for x in subterms(t):
        if x.op == 'uf' and x.data not in acc:
            acc.add(x.data)
            if x.data in LINK:
                for y in LINK[x.data][2]:
                    deep_ufs(y, acc)
    return acc


def _allnan_of(term):
    ps, cb, canon, crsh = LINK[term.data]
    m = dict(zip(ps, term.args))
    ds = [subst(d, m) for d in crsh]
    return allnan(lambda i: (None, instance(term, i)[0][1]), ds)


def allnan(h, rsh):
    bs = [binder(const(0), d, 40 + k) for k, d in enumerate(rsh)]
    u = h(tuple(bs))[1]
    if u is FALSE:
        return FALSE
    return bool_red('all', lambda i: (h(i)[1], FALSE), rsh)


BRED = {}


def bool_red(kind, h, rsh):
    """term for any/all of a boolean function"""
    n = prod(rsh)
    if n.op == 'const' and n.data <= 32:
        import itertools
        xs = [asb(h(tuple(const(i) for i in idx))[0]) for idx in
              itertools.product(*[range(int(d.data)) for d in rsh])]
        return or_(*xs) if kind == 'any' else and_(*xs)
    bs = [binder(const(0), d, 40 + k) for k, d in enumerate(rsh)]
    body = asb(h(tuple(bs))[0])
    if kind == 'any':
        return not_(bool_red('all', lambda i: (not_(asb(h(i)[0])), FALSE), rsh))
    if body is TRUE:
        return TRUE
    if body is FALSE:
        return le(n, const(0))
    t = linked('$all', 'B', bs, [body], rsh)
    if t.data not in BRED:
        BRED[t.data] = True
        from . import smt

        def ax(term):
            w = witness(term)
            el, ds = instance(term, w)
            rng = [and_(le(const(0), x), lt(x, d)) for x, d in zip(w, ds)]
            return [implies(not_(term), and_(*rng, not_(asb(el[0]))))]
        smt.ASSUMED_UF[t.data] = ax
    return t


def div_exact(d, m):
    if d is m:
        return const(1)
    if d.op == 'mul' and m in d.args:
        return mul(*[x for x, e in zip(d.args, d.data) for _ in range(e - (x is m))]) if all(e > 0 for e in d.data) else None
    return None


def matches(t, rank, apps, facts=None):
    """index tuples at which the element of a linked reduction mentions an application occurring in the query"""
    probe = tuple(var('$m%d' % k, 'I') for k in range(rank))
    el, dims = instance(t, probe)
    out = []
    for e in el:
        for u in subterms(e):
            if u.op != 'uf' or u.data not in apps:
                continue
            where = [next((j for j, a in enumerate(u.args) if a is p), None) for p in probe]
            if rank == 1 and None in where:
                # the element (b // m, b % m) of a flattened array
                for j in range(len(u.args) - 1):
                    x, y = u.args[j], u.args[j + 1]
                    if x.op == 'idiv' and y.op == 'imod' and x.args == y.args and x.args[0] is probe[0]:
                        for g in apps[u.data][:6]:
                            a, b, m = g.args[j], g.args[j + 1], x.args[1]
                            p = add(mul(a, m), b)
                            out.append((p,))
                            if facts is not None:
                                # 0 <= a < r, 0 <= b < m  =>  0 <= a m + b < r m
                                d = dims[0]
                                r = div_exact(d, m)
                                if r is not None:
                                    facts.append(implies(and_(le(const(0), a), lt(a, r), le(const(0), b), lt(b, m)), and_(le(const(0), p), lt(p, d))))
            if None in where:
                continue
            for g in apps[u.data][:12]:
                if all(a is b or a in probe for a, b in zip(u.args, g.args)):
                    out.append(tuple(g.args[j] for j in where))
    return out[:40]


def inst_extrema(terms):
    """instances of 'every element <= max', 'all -> each element' at index terms occurring in `terms`"""
    out = []
    todo = set()
    for t in terms:
        todo |= subterms(t)
    ints = {}
    for t in todo:
        if t.sort == 'I' and t.op in ('var', 'lin', 'floor', 'idiv', 'imod', 'ite', 'const') and not str(t.data).startswith('$b'):
            ints[t] = 1
        if t.op == 'uf':
            for a in t.args:
                if a.sort == 'I':
                    ints[a] = 1
    atoms = [t for t in todo if t.op == 'uf' and (t.data in EXT or t.data in BRED or t.data in FIRST)]
    import itertools
    cands = [i for i in ints if not any(str(v.data).startswith(('$b', '$c')) for v in free_vars(i))]
    uargs = {a for t in todo if t.op == 'uf' and not str(t.data).startswith('$') for a in t.args}
    cands.sort(key=lambda i: (i not in uargs, not any(str(v.data).startswith('$i') for v in free_vars(i)), i.op != 'var', i.id))
    cands = cands[:10]
    apps = {}
    for t in todo:
        if t.op == 'uf' and not any(str(v.data).startswith(('$b', '$c')) for v in free_vars(t)):
            apps.setdefault(t.data, []).append(t)
    wits = [t.args[0] for t in todo if t.op == 'uf' and t.data == '$wit']
    for t in {(t.data, t.args[1:]): t for t in todo if t.op == 'uf' and t.data in PERM}.values():
        inv, dim = PERM[t.data]
        n = dim(t.args[1:])
        for w in list(wits):
            q = mk('uf', (w,) + t.args[1:], 'I', inv)
            wits.append(q)
            out.append(implies(and_(le(const(0), w), lt(w, n)), and_(le(const(0), q), lt(q, n), eq(mk('uf', (q,) + t.args[1:], 'I', t.data), w))))
    if atoms:
        terms[:] = [deep_norm(t) for t in terms]
        todo = set()
        for t in terms:
            todo |= subterms(t)
        atoms = [t for t in todo if t.op == 'uf' and (t.data in EXT or t.data in BRED or t.data in FIRST)]
    for t in atoms:
        rank = len(LINK[t.data][1])
        tuples = matches(t, rank, apps, out) + list(itertools.product(cands, repeat=rank))
        tuples = list(dict.fromkeys(tuples))
        if t.data in FIRST:
            d = instance(t, (t,))[1][0]
            tuples += [(x,) for w in wits for x in (w, sub(sub(d, const(1)), w))]
            tuples += [(x,) for x in (const(0), sub(d, const(1)), sub(t, const(1))) if x not in cands]
        for idx in tuples:
            el, ds = instance(t, idx)
            g = and_(*[and_(le(const(0), i), lt(i, d)) for i, d in zip(idx, ds)])
            if g is FALSE:
                continue
            if t.data in FIRST:
                out.append(implies(and_(g, lt(idx[0], t)), not_(asb(el[0]))))
            elif t.data in EXT:
                c = le(el[0], t) if EXT[t.data][0] == 'rmax' else le(t, el[0])
                out.append(implies(and_(g, not_(el[1])), c))
            else:
                out.append(implies(and_(t, g), asb(el[0])))
    return out


def reduce_bool(a, kind, axis=None):
    a = asarr(a)
    ax = norm_axis(axis, a.ndim)
    f = a.snap()
    keep = [i for i in range(a.ndim) if i not in ax]

    def g(idx):
        def h(r):
            full = [None] * a.ndim
            for i, x in zip(keep, idx):
                full[i] = x
            for i, x in zip(ax, r):
                full[i] = x
            return f(tuple(full))
        return bool_red(kind, h, [a.tshape[i] for i in ax]), FALSE
    if not keep:
        return wrapb(g(())[0])
    return new(g, [a.tshape[i] for i in keep], BOOL)


# ------------------------------------------------------------------ matmul
def matmul(a, b, dot=False):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    fa, fb = a.snap(), b.snap()
    if a.ndim > 2 or b.ndim > 2:
        if dot and b.ndim <= 2:
            pass
        elif not dot and a.ndim == 3 and b.ndim <= 2:
            pass
        else:
            raise Unsupported('matmul of rank %d,%d' % (a.ndim, b.ndim))
    n1 = a.tshape[-1]
    n2 = b.tshape[-2] if b.ndim > 1 else b.tshape[0]
    if not same_dim(n1, n2):
        raise ValueError('shapes not aligned')
    la = a.ndim - 1
    sh = a.tshape[:-1] + ((b.tshape[1],) if b.ndim == 2 else ())

    def g(idx):
        ia, ib = idx[:la], idx[la:]
        return sum_over(lambda k: vmul(fa(ia + k), fb(k + ib)), (n1,))
    rd = promote(a.dtype, b.dtype)
    if not sh:
        return wrapv(g(()))
    return new(g, sh, rd)


# ------------------------------------------------------------------ shape manipulation
def norm_shape(s, total=None):
    if not isinstance(s, (tuple, list)):
        s = (s,) if not is_arr(s) else tuple(s)
    return [tdim(x) if not isinstance(x, float) else _badshape() for x in s]


def _badshape():
    raise TypeError("'float' object cannot be interpreted as an integer")


def ravel_index(idx, shape):
    r = const(0)
    for i, d in zip(idx, shape):
        r = add(mul(r, d), i)
    return r


def unravel_index_t(f, shape):
    out = []
    for d in reversed(shape[1:]):
        q, m = simp_div(f, d), simp_mod(f, d)
        out.append(m)
        f = q
    if shape:
        out.append(f)
    return tuple(reversed(out))


def exact_div(total, known):
    p, q = poly(total), poly(known)
    if len(q) == 1:
        (m, c), = q.items()
        im = tuple((x, -e) for x, e in m)
        r = {}
        for pm, pc in p.items():
            r[tm._mmul(pm, im)] = pc / c
        if all(all(e > 0 for _, e in m2) for m2 in r):
            t = from_poly(r)
            if t.sort == 'I' or t.op == 'const':
                return t if t.sort == 'I' else const(int(t.data))
    return simp_div(total, known)


def reshape(a, s, order='C', **k):
    a = asarr(a)
    if order != 'C':
        if order == 'F':
            return transpose(reshape(transpose(a), tuple(reversed(list(s) if isinstance(s, (list, tuple)) else [s]))))
        raise Unsupported('reshape order')
    sh = norm_shape(s)
    total = prod(a.tshape)
    neg1 = [i for i, d in enumerate(sh) if d.op == 'const' and d.data == -1]
    if neg1:
        known = prod([d for i, d in enumerate(sh) if i != neg1[0]])
        sh[neg1[0]] = exact_div(total, known)
    if not same_dim(prod(sh), total):
        raise ValueError('cannot reshape array')
    sh = tuple(sh)
    old = a.tshape
    if len(sh) == len(old) and all(x is y or ring_zero(sub(x, y)) for x, y in zip(sh, old)):
        return SymArr(a.buf, sh, a.fwd, a.inv, a.contig)
    # dimensions known to be 1 on this path
    pc = ctx().pc
    old = tuple(ONE if d.op != 'const' and eq(d, ONE) in pc else d for d in old)

    def conv(idx, src, dst):
        """index in shape src -> index in shape dst (same total size)"""
        s1 = [(i, d) for i, d in zip(idx, src) if d is not ONE]
        d1 = [d for d in dst if d is not ONE]
        if len(s1) == len(d1) and all(x[1] is y or ring_zero(sub(x[1], y)) for x, y in zip(s1, d1)):
            vals = [i for i, _ in s1]
        else:
            f = ravel_index([i for i, _ in s1], [d for _, d in s1])
            vals = list(unravel_index_t(f, d1))
        out = []
        for d in dst:
            out.append(const(0) if d is ONE else vals.pop(0))
        return tuple(out)
    if a.contig:
        fw, iv = a.fwd, a.inv

        def fwd(idx):
            j = conv(idx, sh, old)
            return fw(j) if fw else j

        def inv(bidx):
            c, v = iv(bidx) if iv else (TRUE, tuple(bidx))
            if c is FALSE:
                return c, None
            return c, conv(v, old, sh)
        return SymArr(a.buf, sh, fwd, inv, True)
    f = a.snap()
    return new(lambda idx: f(conv(idx, sh, old)), sh, a.dtype)


def transpose(a, axes=None):
    a = asarr(a)
    n = a.ndim
    axes = [int(x) % n for x in axes] if axes is not None else list(reversed(range(n)))
    if sorted(axes) != list(range(n)):
        raise ValueError("axes don't match array")
    if axes == list(range(n)):
        return SymArr(a.buf, a.tshape, a.fwd, a.inv, a.contig)
    fw, iv = a.fwd, a.inv

    def back(idx):
        j = [None] * n
        for k, x in zip(axes, idx):
            j[k] = x
        return tuple(j)

    def fwd(idx):
        j = back(idx)
        return fw(j) if fw else j

    def inv(b):
        c, v = iv(b) if iv else (TRUE, tuple(b))
        return c, (tuple(v[k] for k in axes) if v is not None else None)
    contig = a.contig and [k for k in axes if a.tshape[k] is not ONE] == [k for k in range(n) if a.tshape[k] is not ONE]
    return SymArr(a.buf, [a.tshape[k] for k in axes], fwd, inv, contig)


def squeeze(a, axis=None):
    a = asarr(a)
    if not a.ndim:
        return a
    drop = []
    if axis is None:
        for i, d in enumerate(a.tshape):
            if d is ONE:
                drop.append(i)
            elif d.op != 'const' and ctx().branch(eq(d, ONE)):
                drop.append(i)
    else:
        drop = list(norm_axis(axis, a.ndim))
        for i in drop:
            if not same_dim(a.tshape[i], ONE):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    if not drop:
        return a
    key = tuple(0 if i in drop else slice(None) for i in range(a.ndim))
    r = getitem(a, key, keep0d=True)
    return r


# ------------------------------------------------------------------ getitem / setitem
class _View:
    """basic view: for each source axis either a fixed index or (view axis, start, step)"""


def norm_slice(s, n):
    """start, step, length terms for a slice of an axis of length n"""
    step = 1 if s.step is None else s.step
    if isinstance(step, (SymNum,)):
        step = int(step.t.data) if step.t.op == 'const' else _unsup('symbolic slice step')
    step = int(step)
    c = ctx()

    def clipi(x, lo, hi):
        t = it(x)
        if t.op == 'const' and n.op == 'const':
            k, nn = int(t.data), int(n.data)
            if k < 0:
                k += nn
            return const(max(min(k, int(hi.data)), int(lo.data)))
        if t.op == 'const' and t.data < 0 or (t.op != 'const' and c.entails(lt(t, const(0)))):
            t = add(t, n)
        elif not c.entails(le(const(0), t)):
            t = ite(lt(t, const(0)), add(t, n), t)
        if not c.entails(le(lo, t)):
            t = max_(lo, t)
        if not c.entails(le(t, hi)):
            t = min_(t, hi)
        return t
    if step > 0:
        a = const(0) if s.start is None else clipi(s.start, const(0), n)
        b = n if s.stop is None else clipi(s.stop, const(0), n)
        ln = sub(b, a)
        if step != 1:
            ln = simp_div(add(ln, const(step - 1)), const(step))
    else:
        a = sub(n, ONE) if s.start is None else clipi(s.start, const(-1), sub(n, ONE))
        b = const(-1) if s.stop is None else clipi(s.stop, const(-1), sub(n, ONE))
        ln = sub(a, b)
        if step != -1:
            ln = simp_div(add(ln, const(-step - 1)), const(-step))
    if ln.op == 'const':
        ln = const(max(0, int(ln.data)))
    elif not c.entails(le(const(0), ln)):
        ln = max_(ln, const(0))
    return a, step, ln


def norm_int_index(t, n, what='index'):
    """bounds check (forking) and negative wrap"""
    c = ctx()
    if c.nofork:
        if t.op == 'const' and t.data < 0:
            return add(t, n)
        return t
    if t.op == 'const' and n.op == 'const':
        if not -n.data <= t.data < n.data:
            raise IndexError('index %s is out of bounds for axis with size %s' % (t.data, n.data))
        return t if t.data >= 0 else add(t, n)
    if t.op == 'const' and t.data < 0 or (t.op != 'const' and c.entails(lt(t, const(0)))):
        t = add(t, n)
    elif t.op != 'const' and not c.entails(le(const(0), t)):
        if c.branch(lt(t, const(0))):
            t = add(t, n)
    if not c.branch(and_(le(const(0), t), lt(t, n))):
        raise IndexError('index out of bounds')
    return t


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if isinstance(key, WhereResult) or (len(key) == 1 and isinstance(key[0], WhereResult)):
        w = key if isinstance(key, WhereResult) else key[0]
        key = (w[0].mask,)
    # component of where(): a[where(c)[0]]
    key = list(key)
    if len(key) > 1 and all(isinstance(k, IndexArrays1) for k in key) and \
            all(k.mask is key[0].mask for k in key) and [k.axis for k in key] == list(range(len(key))) and \
            len(key) == key[0].mask.ndim:
        key = [key[0].mask]
    nd = 0
    for i, k in enumerate(key):
        if isinstance(k, IndexArrays1) and k.mask.ndim == 1:
            k = key[i] = k.mask
        if isinstance(k, list):
            k = key[i] = asarr(k)
        if isinstance(k, SymRange):
            k = key[i] = k.to_array()
        if k is None or k is Ellipsis:
            continue
        if is_arr(k) and k.dtype.kind == 'b':
            nd += k.ndim
        else:
            nd += 1
    if Ellipsis in [k for k in key if not is_arr(k) and not isinstance(k, (SymNum, SymBool))]:
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [slice(None)] * (a.ndim - nd)
    else:
        key += [slice(None)] * (a.ndim - nd)
    if sum(0 if k is None else (k.ndim if is_arr(k) and k.dtype.kind == 'b' else 1) for k in key) > a.ndim:
        raise IndexError('too many indices for array')
    return key


def basic_view(a, key):
    """view for a key of ints, slices and None"""
    fixed = []           # per source axis: ('i', term) or ('s', viewaxis, start, step, len)
    vsh = []
    ax = 0
    for k in key:
        if k is None:
            vsh.append(ONE)
            continue
        n = a.tshape[ax]
        if isinstance(k, slice):
            st, step, ln = norm_slice(k, n)
            fixed.append(('s', len(vsh), st, step, ln))
            vsh.append(ln)
        else:
            t = it(k)
            fixed.append(('i', norm_int_index(t, n)))
        ax += 1
    fw, iv = a.fwd, a.inv

    def fwd(idx):
        out = []
        for f in fixed:
            if f[0] == 'i':
                out.append(f[1])
            else:
                i = idx[f[1]]
                out.append(add(f[2], scale(f[3], i)))
        out = tuple(out)
        return fw(out) if fw else out

    def inv(b):
        c, v = iv(b) if iv else (TRUE, tuple(b))
        if c is FALSE:
            return FALSE, None
        cs = [c]
        idx = [const(0)] * len(vsh)
        for f, x in zip(fixed, v):
            if f[0] == 'i':
                cs.append(eq(x, f[1]))
            else:
                _, va, st, step, ln = f
                d = sub(x, st) if step > 0 else sub(st, x)
                if abs(step) != 1:
                    cs.append(eq(simp_mod(d, const(abs(step))), const(0)))
                    d = simp_div(d, const(abs(step)))
                idx[va] = d
                cs.append(le(const(0), d))
                cs.append(lt(d, ln))
        return and_(*cs), tuple(idx)
    # contiguity: full slices after at most one leading partial slice / ints
    contig = a.contig
    if contig:
        seen_partial = False
        for f, n in zip(fixed, a.tshape):
            if f[0] == 'i':
                if seen_partial:
                    contig = False
                continue
            full = f[3] == 1 and f[2].op == 'const' and f[2].data == 0 and f[4] is n
            if full:
                seen_partial = True
            else:
                if seen_partial or f[3] != 1:
                    contig = False
                seen_partial = True
    return SymArr(a.buf, vsh, fwd, inv, contig)


def getitem(a, key, keep0d=False):
    if isinstance(key, str):
        raise Unsupported('structured array field')
    key = expand_key(a, key)
    adv = [i for i, k in enumerate(key) if is_arr(k) and (k.ndim > 0)]
    key = [k._as_scalar() if is_arr(k) and k.ndim == 0 else k for k in key]
    if not adv:
        v = basic_view(a, key)
        if v.ndim == 0 and not keep0d and not any(k is Ellipsis for k in key):
            r = v.get(())
            if r[0].sort == 'B':
                return wrapb(r[0])
            return SymNum(r[0], r[1], False, a.dtype)
        return v
    return adv_get(a, key, adv)


def adv_get(a, key, adv):
    bools = [i for i in adv if key[i].dtype.kind == 'b']
    if bools:
        if len(bools) == 1 and len(adv) == 1:
            i = bools[0]
            m = key[i]
            return Masked(a, m, key, i)
        raise Unsupported('mixed boolean indexing')
    # integer arrays; other entries ints, slices
    c = ctx()
    src_ax = []
    ax = 0
    comps = []       # per source axis
    for k in key:
        if k is None:
            raise Unsupported('newaxis with advanced indexing')
        comps.append(k)
    ks = [comps[i] for i in adv]
    bsh = broadcast_shapes(*[k.tshape for k in ks])
    ints = [i for i, k in enumerate(comps) if not is_arr(k) and not isinstance(k, slice)]
    advpos = sorted(adv + ints)
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    vsh = []
    plan = []
    placed = False
    if not contiguous:
        vsh.extend(bsh)
        base = 0
        placed = True
    for i, k in enumerate(comps):
        n = a.tshape[i]
        if is_arr(k) or not isinstance(k, slice):
            if not placed:
                base = len(vsh)
                vsh.extend(bsh)
                placed = True
            if is_arr(k):
                if k.dtype.kind not in 'iu':
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
                check_index_array(k, n)
                plan.append(('a', k.snap(), k.tshape, n))
            else:
                plan.append(('i', norm_int_index(it(k), n)))
        else:
            st, step, ln = norm_slice(k, n)
            plan.append(('s', len(vsh), st, step))
            vsh.append(ln)
    f = a.snap()
    nb = len(bsh)

    def g(idx):
        bi = idx[base:base + nb]
        out = []
        for p in plan:
            if p[0] == 'a':
                t = bget(p[1], p[2], bi)[0]
                out.append(wrap_neg(t, p[3]))
            elif p[0] == 'i':
                out.append(p[1])
            else:
                out.append(add(p[2], scale(p[3], idx[p[1]])))
        return f(tuple(out))
    return new(g, vsh, a.dtype)


def wrap_neg(t, n):
    if t.op == 'const':
        return t if t.data >= 0 else add(t, n)
    if ctx().entails(le(const(0), t)):
        return t
    return ite(lt(t, const(0)), add(t, n), t)


def check_index_array(k, n):
    """obligation: every entry of index array k is within [-n, n)"""
    c = ctx()
    h = k.snap()
    idx = []
    guard = []
    for d in k.tshape:
        v = c.fresh_int('$ix', const(0), d)
        idx.append(v)
    c.nofork += 1
    try:
        t, u = h(tuple(idx))
    finally:
        c.nofork -= 1
    g = and_(not_(u), le(neg(n), t), lt(t, n))
    if g is TRUE:
        return
    c.ensure('index in bounds', g)


class Masked:
    """a[mask] as a value: elements of a at the true positions (order irrelevant)"""
    def __init__(self, a, mask, key, axis):
        self.a, self.mask, self.key, self.axis = a, mask, key, axis

    def _to_array(self):
        from . import enum_
        return enum_.compress(self)

    def __getattr__(self, nm):
        if nm.startswith('_'):
            raise AttributeError(nm)
        return getattr(self._to_array(), nm)

    def _elementwise(self, f, d, xs):
        # elementwise function of several selections with the same mask, or scalars
        mask = self.mask
        ys = []
        for x in xs:
            if isinstance(x, Masked):
                if not same_mask(x.mask, mask):
                    raise Unsupported('different masks')
                ys.append(x.full())
            elif isinstance(x, SymArr) and x.ndim:
                raise Unsupported('mask selection with array')
            else:
                ys.append(x)
        r = elementwise(f, d, *ys)
        return Masked(r, mask, [mask] + [slice(None)] * (r.ndim - mask.ndim), 0)

    def full(self):
        if self.axis == 0 and all(isinstance(k, slice) and k == slice(None) for k in self.key[1:]):
            return self.a
        raise Unsupported('partial mask')


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'pow', 'lt', 'le', 'gt', 'ge'):
    def _mk(nm):
        base = getattr(SymArr, '__%s__' % nm)
        return lambda self, o: base(self, o)
    setattr(Masked, '__%s__' % _n, _mk(_n))
Masked._b = lambda self, o, f, d=None, r=False: self._elementwise((lambda a, b: f(b, a)) if r else f, d, (self, o))


def same_mask(m1, m2):
    if m1 is m2:
        return True
    if m1.ndim != m2.ndim:
        return False
    idx = tuple(binder(const(0), d, 80 + k) for k, d in enumerate(m1.tshape))
    return asb(m1.get(idx)[0]) is asb(m2.get(idx)[0])


def value_fn(v, sh):
    """element function for assigning v broadcast to shape sh"""
    if isinstance(v, Masked):
        v = v._to_array()
    x = asarr(v)
    vs = list(x.tshape)
    while len(vs) > len(sh) and vs[0] is ONE:
        vs = vs[1:]
    drop = len(x.tshape) - len(vs)
    if len(vs) > len(sh):
        raise ValueError('could not broadcast input array')
    for d, e in zip(reversed(vs), reversed(sh)):
        if d is ONE:
            continue
        if not same_dim(d, e):
            if ctx().lenient:
                continue
            if d.op != 'const' and ctx().branch(eq(d, ONE)):
                raise Unsupported('assignment with unit symbolic dimension')
            raise ValueError('could not broadcast input array')
    f = x.snap()
    pre = tuple(const(0) for _ in range(drop))
    tv = tuple(vs)
    return lambda idx: f(pre + tuple(const(0) if d is ONE else i for d, i in zip(tv, idx[len(idx) - len(tv):])))


def setitem(a, key, v):
    key = expand_key(a, key)
    adv = [i for i, k in enumerate(key) if is_arr(k) and k.ndim > 0]
    key = [k._as_scalar() if is_arr(k) and k.ndim == 0 else k for k in key]
    if not adv:
        w = basic_view(a, key)
        vf = value_fn(v, w.tshape)
        inv = w.inv

        def region(b):
            return inv(b)[0]

        def value(b):
            return vf(inv(b)[1])
        a.buf.write(region, value)
        return
    bools = [i for i in adv if key[i].dtype.kind == 'b']
    if bools and len(adv) == 1:
        m = key[bools[0]]
        i0 = bools[0]
        # mask covers axes i0 .. i0+m.ndim-1 ; the other keys must be slices / ints
        for j, d in enumerate(m.tshape):
            if not same_dim(d, a.tshape[i0 + j]):
                raise IndexError('boolean index did not match indexed array')
        mf = m.snap()
        if isinstance(v, Masked):
            if not same_mask(v.mask, m):
                raise Unsupported('assignment from a different mask')
            src = v.full().snap()
            if i0 != 0 or any(not (isinstance(k, slice) and k == slice(None)) for k in key[1:]):
                raise Unsupported('masked assignment with partial key')
            vfull = src
        else:
            x = asarr(v)
            if x.ndim > 0 and not all(d is ONE for d in x.tshape):
                # trailing broadcast only
                rest = a.ndim - i0 - m.ndim
                if x.ndim > rest:
                    raise Unsupported('masked assignment of array values')
            xf = x.snap()
            xs = x.tshape
            vfull = lambda idx: bget(xf, xs, idx) if xs else xf(())
        key2 = key[:i0] + [slice(None)] * m.ndim + key[i0 + 1:]
        w = basic_view(a, key2)
        # view axes of the mask
        va = sum(1 for k in key[:i0] if isinstance(k, slice))
        inv = w.inv

        def region(b):
            c, idx = inv(b)
            if c is FALSE:
                return FALSE
            return and_(c, asb(mf(tuple(idx[va:va + m.ndim]))[0]))

        def value(b):
            return vfull(inv(b)[1])
        a.buf.write(region, value)
        return
    if bools:
        raise Unsupported('mixed boolean assignment')
    # scatter with integer index arrays
    from . import enum_
    enum_.scatter(a, key, adv, v)


class SymRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if isinstance(step, SymNum):
            self.tstep = it(step)
        else:
            self.tstep = step if isinstance(step, T) else const(int(step))
        a, b = it(start), it(stop)
        self.tstart = a
        if self.tstep.op == 'const':
            k = int(self.tstep.data)
            if k == 0:
                raise ValueError('range() arg 3 must not be zero')
            d = sub(b, a) if k > 0 else sub(a, b)
            n = simp_div(add(d, const(abs(k) - 1)), const(abs(k)))
        else:
            if not ctx().entails(lt(const(0), self.tstep)):
                raise Unsupported('range with symbolic step of unknown sign')
            n = simp_div(add(sub(b, a), sub(self.tstep, ONE)), self.tstep)
        if n.op == 'const':
            n = const(max(0, int(n.data)))
        elif not ctx().entails(le(const(0), n)):
            n = max_(n, const(0))
        self.n = n

    def _symlen(self):
        return pdim(self.n)

    def __len__(self):
        if self.n.op == 'const':
            return int(self.n.data)
        raise Unsupported('len of symbolic range')

    def at(self, k):
        return wrapv((add(self.tstart, mul(self.tstep, k)), FALSE), True)

    def __iter__(self):
        if self.n.op != 'const':
            raise Unsupported('iteration over symbolic range outside a for statement')
        for k in range(int(self.n.data)):
            yield self.at(const(k))

    def __getitem__(self, i):
        return self.at(norm_int_index(it(i), self.n))

    def to_array(self):
        return new(lambda i: (add(self.tstart, mul(self.tstep, i[0])), FALSE), (self.n,), INT64)
