"""numpy as seen by the verified code: contracts (axioms / definitions) of the numpy functions used."""
import sys
import types
import itertools
from .arr import *
from .arr import _unsup
from . import arr as A
from .sym import *
from .term import *
from .ctx import ctx, Unsupported

ndarray = SymArr
generic = SymNum
newaxis = None
pi = SymNum(PI, FALSE, True)
nan = float('nan')
NaN = NAN = nan
inf = float('inf')
Inf = inf
e = SymNum(fn('exp', const(1, 'R')), FALSE, True)
float64, float32, float16 = FLOAT64, FLOAT32, FLOAT16
int64, int32, int16, int8 = INT64, INT32, INT16, INT8
uint64, uint32, uint16, uint8 = UINT64, UINT32, UINT16, UINT8
uint = UINT64
bool_ = BOOL
complex64, complex128 = COMPLEX64, COMPLEX128
double, single, intc, intp, int_, float_ = FLOAT64, FLOAT32, INT32, INT64, INT64, FLOAT64
object_ = OBJECT
integer = ('integer',)
floating = ('floating',)
number = ('number',)
inexact = ('inexact',)
complexfloating = ('complexfloating',)
signedinteger = ('signedinteger',)
unsignedinteger = ('unsignedinteger',)
generic = ('generic',)
float128 = FLOAT64
longdouble = FLOAT64


class errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def seterr(**k):
    return {}


class dtype(object):
    def __new__(cls, x, *a):
        return dt(x)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if type(x).__name__ == 'MaskedArr':
        x = x.data
    if isinstance(x, SymArr):
        r = x.copy() if dtype is None else x.astype(dtype)
    elif hasattr(x, '_symq'):
        r = asarr(x.magnitude, dtype).copy()
    else:
        r = asarr(x, dtype)
        if isinstance(x, A.Masked):
            r = r.copy()
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None, **k):
    if type(x).__name__ == 'MaskedArr':
        x = x.data
    return asarr(x, dtype)


def asanyarray(x, dtype=None, **k):
    return x if type(x).__name__ == 'MaskedArr' else asarr(x, dtype)


ascontiguousarray = asfortranarray = asarray


def atleast_1d(x):
    x = asarr(x)
    return reshape(x, (1,)) if x.ndim == 0 else x


def atleast_2d(x):
    if getattr(x, '_maybe0', None) is not None:
        x = x.copy()
        x._maybe0 = None
    x = atleast_1d(x)
    return x[None, :] if x.ndim == 1 else x


def atleast_3d(x):
    x = atleast_2d(x)
    return x[:, :, None] if x.ndim == 2 else x


def _shape(s):
    if isinstance(s, SymArr):
        s = [s[i] for i in range(int(s.tshape[0].data))]
    if isinstance(s, (list, tuple)):
        return tuple(norm_shape(tuple(s)))
    return tuple(norm_shape((s,)))


def _checkdims(sh):
    for d in sh:
        if d.op == 'const':
            if d.data < 0:
                raise ValueError('negative dimensions are not allowed')
        elif not ctx().branch(le(const(0), d)):
            raise ValueError('negative dimensions are not allowed')
    return sh


def full(shape, fill_value, dtype=None, **k):
    sh = _checkdims(_shape(shape))
    if is_arr(fill_value) and fill_value.ndim:
        r = empty(shape, dtype or fill_value.dtype)
        r[...] = fill_value
        return r
    d = dt(dtype) if dtype is not None else scalar_dtype(fill_value)
    v = cast(vt(fill_value), d)
    return new(lambda i: v, sh, d)


def zeros(shape, dtype=float, order='C', **k):
    d = dt(dtype)
    z = (FALSE, FALSE) if d.kind == 'b' else (const(0), FALSE)
    return new(lambda i: z, _checkdims(_shape(shape)), d)


def ones(shape, dtype=float, order='C', **k):
    d = dt(dtype)
    z = (TRUE, FALSE) if d.kind == 'b' else (const(1), FALSE)
    return new(lambda i: z, _checkdims(_shape(shape)), d)


def empty(shape, dtype=float, order='C', **k):
    nm = ctx().fresh('$empty')
    d = dt(dtype)
    srt = 'I' if d.kind in 'iu' else ('B' if d.kind == 'b' else 'R')
    return new(lambda i: (uf(nm, i, srt), FALSE), _checkdims(_shape(shape)), d)


def zeros_like(a, dtype=None, **k):
    a = asarr(a)
    return zeros(a.shape, dtype or a.dtype)


def ones_like(a, dtype=None, **k):
    a = asarr(a)
    return ones(a.shape, dtype or a.dtype)


def empty_like(a, dtype=None, **k):
    a = asarr(a)
    return empty(a.shape, dtype or a.dtype)


def full_like(a, v, dtype=None, **k):
    a = asarr(a)
    return full(a.shape, v, dtype or a.dtype)


def eye(n, m=None, dtype=float, **k):
    m = n if m is None else m
    return new(lambda i: (ite(eq(i[0], i[1]), const(1), const(0)), FALSE), _shape((n, m)), dt(dtype))


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


def diag(a, k=0):
    a = asarr(a)
    f = a.snap()
    if a.ndim == 1:
        return new(lambda i: (ite(eq(i[0], i[1]), f((i[0],))[0], const(0)), FALSE), (a.tshape[0],) * 2, a.dtype)
    return new(lambda i: f((i[0], i[0])), (a.tshape[0],), a.dtype)


def arange(*a, **k):
    d = k.get('dtype')
    if len(a) == 1:
        a = (0, a[0])
    step = a[2] if len(a) > 2 else 1
    vs = [vt(x) for x in (a[0], a[1], step)]
    if all(v[0].sort == 'I' for v in vs):
        r = SymRange(a[0], a[1], step).to_array()
        return r if d is None else r.astype(d)
    (s, _), (e_, _), (st, _) = vs
    n = ceil(div(sub(e_, s), st))
    if n.op == 'const':
        n = const(max(0, int(n.data)))
    elif not ctx().entails(le(const(0), n)):
        n = max_(n, const(0))
    r = new(lambda i: (add(s, mul(i[0], st)), FALSE), (n,), FLOAT64)
    return r if d is None else r.astype(d)


def linspace(start, stop, num=50, endpoint=True, dtype=None, **k):
    s, e_ = vt(start), vt(stop)
    n = it(num)
    u = or_(s[1], e_[1])
    dn = sub(n, ONE) if endpoint else n

    def f(i):
        t = add(s[0], mul(i[0], div(sub(e_[0], s[0]), dn)))
        return t, u
    if n.op == 'const' and n.data == 1:
        f = lambda i: (s[0], u)
    r = new(f, _checkdims((n,)), FLOAT64)
    return r if dtype is None else r.astype(dtype)


def indices(shape, dtype=int):
    sh = _shape(shape)
    return stack([new((lambda k: lambda i: (i[k], FALSE))(k), sh, INT64) for k in range(len(sh))])


class _MGrid:
    def __init__(self, sparse=False):
        self.sparse = sparse

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            return self._ax(key)
        axs = [self._ax(k) for k in key]
        sh = tuple(x.tshape[0] for x in axs)
        fs = [x.snap() for x in axs]
        outs = [new((lambda k: lambda i: fs[k]((i[k],)))(k), sh, axs[k].dtype) for k in range(len(axs))]
        return stack(outs)

    def _ax(self, s):
        st = 0 if s.start is None else s.start
        if isinstance(s.step, complex):
            return linspace(st, s.stop, int(abs(s.step)))
        return arange(st, s.stop, 1 if s.step is None else s.step)


mgrid = _MGrid()


def meshgrid(*xs, **k):
    xs = [asarr(x) for x in xs]
    indexing = k.get('indexing', 'xy')
    n = len(xs)
    xs = [reshape(x, (-1,)) for x in xs]
    order = list(range(n))
    if indexing == 'xy' and n >= 2:
        order[0], order[1] = 1, 0
    sh = tuple(xs[order[j]].tshape[0] for j in range(n))
    pos = {order[j]: j for j in range(n)}
    fs = [x.snap() for x in xs]
    return [new((lambda q: lambda i: fs[q]((i[pos[q]],)))(q), sh, xs[q].dtype) for q in range(n)]


def searchsorted(a, v, side='left', sorter=None):
    from . import shims, smt
    shims.used('numpy.searchsorted: the insertion point into the sorted array')
    a = asarr(a)
    if a.ndim != 1 or sorter is not None or side not in ('left', 'right'):
        raise Unsupported('searchsorted')
    nm, par = shims.image_name(a)
    f, n = a.snap(), a.tshape[0]
    at = lambda k: num(f((k,))[0])
    nm = 'searchsorted %s[%s]' % (side, nm)

    def ax(t):
        x = t.args[0]
        below, above = (lt, le) if side == 'left' else (le, lt)
        return [le(const(0), t), le(t, n), or_(le(t, const(0)), below(at(sub(t, ONE)), x)), or_(le(n, t), above(x, at(t)))]
    smt.ASSUMED_UF[nm] = ax
    return elementwise(lambda q: (ite(q[1], n, uf(nm, (num(q[0]),) + par, 'I')), FALSE), INT64, v)


def interp(x, xp, fp, left=None, right=None, period=None):
    from . import shims, smt
    shims.used('numpy.interp: linear interpolation between the sample points (which increase), end values or left/right outside')
    if period is not None:
        raise Unsupported('interp with a period')
    xp, fp = asarr(xp), asarr(fp)
    if xp.ndim != 1 or fp.ndim != 1:
        raise Unsupported('interp')
    n = xp.tshape[0]
    if not A.same_dim(n, fp.tshape[0]):
        raise ValueError('fp and xp are not of the same length.')
    if not ctx().entails(le(const(2), n)):
        raise Unsupported('interp over fewer than two points')
    f, g = xp.snap(), fp.snap()
    nm, par = shims.image_name(xp)
    nm = 'interval[%s]' % nm
    at = lambda k: num(f((k,))[0])
    last = sub(n, ONE)

    def ax(t):
        v = t.args[0]
        return [le(const(0), t), lt(t, last), implies(and_(le(at(const(0)), v), lt(v, at(last))), and_(le(at(t), v), lt(v, at(add(t, ONE)))))]
    smt.ASSUMED_UF[nm] = ax
    lo = g((const(0),)) if left is None else vt(left)
    hi = g((last,)) if right is None else vt(right)

    def one(v):
        x = num(v[0])
        k = uf(nm, (x,) + par, 'I')
        (a, ua), (b, ub) = g((k,)), g((add(k, ONE),))
        a, b = num(a), num(b)
        t = add(a, mul(mul(sub(x, at(k)), inv(sub(at(add(k, ONE)), at(k)))), sub(b, a)))
        below, above, end = lt(x, at(const(0))), lt(at(last), x), eq(x, at(last))
        e = g((last,))
        r = ite(below, lo[0], ite(above, hi[0], ite(end, num(e[0]), t)))
        u = ite(below, lo[1], ite(above, hi[1], ite(end, e[1], or_(ua, ub))))
        return r, or_(v[1], u)
    return elementwise(one, FLOAT64, x)


def _hist_name(a, bins):
    a = asarr(a)
    if a.ndim != 1:
        a = ravel(a)
    nm, par = shims_image_name(a)
    return a.tshape[0], tdim(bins), nm, par


def shims_image_name(a):
    from . import shims
    return shims.image_name(a)


def _counts(nm, n, par):
    """the counts of the values of an array in its bins"""
    from . import smt
    nm = 'histogram[%s]' % nm
    smt.ASSUMED_UF[nm] = lambda t: [le(const(0), t)]
    return lambda i: uf(nm, (i, n) + par, 'I')


def histogram(a, bins=10, range=None, **kw):
    from . import shims
    if range is not None or kw or not isinstance(bins, (int, SymNum)):
        raise Unsupported('histogram')
    shims.used('numpy.histogram: counts that depend on the values of the array and the number of bins only')
    size, n, nm, par = _hist_name(a, bins)
    f = _counts(nm, n, par)
    return A.new(lambda i: (f(num(i[0])), FALSE), (n,), INT64), _edges(n)


def _edges(n):
    nm = ctx().fresh('$edges')
    return A.new(lambda i: (uf(nm, tuple(i), 'R'), FALSE), (add(n, ONE),), FLOAT64)


def histogram2d(x, y, bins=10, range=None, **kw):
    from . import shims, smt
    if range is not None or kw or not isinstance(bins, (int, SymNum)):
        raise Unsupported('histogram2d')
    shims.used('numpy.histogram2d: joint counts; exchanging the arrays transposes them; none without a count in the histogram of either array')
    size, n, a, pa = _hist_name(x, bins)
    size2, _, b, pb = _hist_name(y, bins)
    if not A.same_dim(size, size2):
        raise ValueError('histogram2d: different lengths')
    f, g = _counts(a, n, pa), _counts(b, n, pb)
    flip = (a, tuple(p.id for p in pa)) > (b, tuple(p.id for p in pb))
    nm, p1, p2 = ('joint[%s][%s]' % (b, a), pb, pa) if flip else ('joint[%s][%s]' % (a, b), pa, pb)
    h1, h2, k = (g, f, len(pb)) if flip else (f, g, len(pa))
    smt.ASSUMED_UF[nm] = lambda t: [le(const(0), t), or_(eq(t, const(0)), and_(lt(const(0), h1(t.args[0])), lt(const(0), h2(t.args[1]))))]

    def at(i):
        i, j = num(i[0]), num(i[1])
        return as_real(uf(nm, ((j, i) if flip else (i, j)) + (n,) + p1 + p2, 'I')), FALSE
    return A.new(at, (n, n), FLOAT64), _edges(n), _edges(n)


def argsort(a, axis=-1, kind=None, order=None):
    from . import shims, smt
    shims.used('numpy.argsort: a permutation that sorts the array (ties in any order; no NaN)')
    a = asarr(a)
    if a.ndim != 1 or order is not None:
        raise Unsupported('argsort')
    f, n = a.snap(), a.tshape[0]
    if n.op == 'const' and n.data <= 1:
        return A.new(lambda i: (const(0), FALSE), (n,), INT64)
    nm, par = shims.image_name(a)
    inv, nm = 'rank[%s]' % nm, 'argsort[%s]' % nm

    def at(p, args):
        return num(f((p,))[0])

    def ax(t):
        return [le(const(0), t), lt(t, n), implies(and_(le(const(0), t.args[0]), lt(t.args[0], n)), eq(uf(inv, (t,) + t.args[1:], 'I'), t.args[0]))]

    def pair(s, t):
        if s.args[1:] != t.args[1:]:
            return []
        ok = and_(*[and_(le(const(0), x.args[0]), lt(x.args[0], n)) for x in (s, t)])
        return [implies(and_(ok, le(s.args[0], t.args[0])), le(at(s, 0), at(t, 0))), implies(and_(ok, le(t.args[0], s.args[0])), le(at(t, 0), at(s, 0))),
                implies(and_(ok, eq(s, t)), eq(s.args[0], t.args[0]))]
    smt.ASSUMED_UF[nm] = ax
    smt.ASSUMED_PAIR[nm] = pair
    A.PERM[nm] = (inv, lambda args: n)
    return A.new(lambda i: (uf(nm, (num(i[0]),) + par, 'I'), FALSE), (n,), INT64)


# -- shape functions
def shape(a):
    if isinstance(a, A.IndexArrays1):
        return a.shape
    return asarr(a).shape


def ndim(a):
    if isinstance(a, A.Masked):
        return a.a.ndim - a.mask.ndim + 1
    return asarr(a).ndim


def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


reshape = A.reshape
def transpose(a, axes=None):
    if type(a).__name__ == 'MaskedArr':
        return a.transpose(axes) if axes is not None else a.transpose()
    return A.transpose(a, axes)


squeeze = A.squeeze


def ravel(a, order='C'):
    return A.reshape(a, (-1,), order=order)


def swapaxes(a, i, j):
    return asarr(a).swapaxes(i, j)


def moveaxis(a, s, d):
    a = asarr(a)
    s, d = s % a.ndim, d % a.ndim
    ax = [i for i in range(a.ndim) if i != s]
    ax.insert(d, s)
    return A.transpose(a, ax)


def rollaxis(a, axis, start=0):
    a = asarr(a)
    axis %= a.ndim
    if axis < start:
        start -= 1
    ax = [i for i in range(a.ndim) if i != axis]
    ax.insert(start, axis)
    return A.transpose(a, ax)


def expand_dims(a, axis):
    a = asarr(a)
    axis = axis % (a.ndim + 1)
    return a[tuple([slice(None)] * axis + [None])]


def copy(a):
    return asarr(a).copy()


def broadcast_to(a, sh):
    a = asarr(a)
    sh = _shape(sh)
    f = a.snap()
    s = a.tshape
    return new(lambda i: bget(f, s, i), sh, a.dtype)


def flip(a, axis=None):
    a = asarr(a)
    ax = norm_axis(axis, a.ndim)
    return a[tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim))]


def flipud(a):
    return flip(a, 0)


def fliplr(a):
    return flip(a, 1)


def _symseq(xs):
    """the array of a list of symbolic length (list axis first), or None"""
    if hasattr(xs, '_sym') and xs._sym is not None:
        return asarr(xs._sym)
    if hasattr(xs, '_symlen') and hasattr(xs, '_to_array'):
        return asarr(xs)
    return None


def stack(xs, axis=0, **k):
    q = _symseq(xs)
    if q is not None:
        return moveaxis(q, 0, axis).copy()
    xs = [asarr(x) for x in xs]
    s0 = xs[0].tshape
    for x in xs[1:]:
        if len(x.tshape) != len(s0) or not all(same_dim(p, q) for p, q in zip(x.tshape, s0)):
            raise ValueError('all input arrays must have the same shape')
    axis = axis % (len(s0) + 1)
    fs = [x.snap() for x in xs]
    d = promote(*[x.dtype for x in xs])
    sh = s0[:axis] + (const(len(xs)),) + s0[axis:]
    return new(lambda i: select_lazy(fs, i[axis], i[:axis] + i[axis + 1:]), sh, d)


def unique(a, **k):
    if k:
        raise Unsupported('unique with options')
    from .loops import SymSet
    a = A.reshape(asarr(a), (-1,))
    if a.tshape[0].op == 'const':
        raise Unsupported('unique of a concrete number of symbolic values')
    return asarr(SymSet(a).sorted())


def concatenate(xs, axis=0, **k):
    q = _symseq(xs)
    if q is not None:
        raise Unsupported('concatenation of a symbolic number of arrays')
    xs = [asarr(x) for x in xs]
    if axis is None:
        xs = [A.reshape(x, (-1,)) for x in xs]
        axis = 0
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis = axis % nd
    for x in xs[1:]:
        if x.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for j in range(nd):
            if j != axis and not same_dim(x.tshape[j], xs[0].tshape[j]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match')
    offs = [const(0)]
    for x in xs:
        offs.append(add(offs[-1], x.tshape[axis]))
    fs = [x.snap() for x in xs]
    d = promote(*[x.dtype for x in xs])

    def g(i):
        r = None
        t = i[axis]
        for q in range(len(xs) - 1, -1, -1):
            j = sub(t, offs[q])
            if r is None:
                r = (fs[q], j)
                cur = lambda j=j, q=q: fs[q](i[:axis] + (j,) + i[axis + 1:])
                acc = cur
            else:
                c = lt(t, offs[q + 1])
                if ctx().entails(c):
                    c = TRUE
                elif ctx().entails(not_(c)):
                    c = FALSE
                prev = acc
                if c is TRUE:
                    acc = lambda j=j, q=q: fs[q](i[:axis] + (j,) + i[axis + 1:])
                elif c is FALSE:
                    pass
                else:
                    def acc(c=c, j=j, q=q, prev=prev):
                        a_, b_ = fs[q](i[:axis] + (j,) + i[axis + 1:]), prev()
                        return ite(c, a_[0], b_[0]), ite(c, a_[1], b_[1])
        return acc()
    sh = xs[0].tshape[:axis] + (offs[-1],) + xs[0].tshape[axis + 1:]
    return new(g, sh, d)


def append(a, b, axis=None):
    return concatenate((A.reshape(a, (-1,)), A.reshape(b, (-1,))) if axis is None else (a, b), axis or 0)


def hstack(xs):
    q = _symseq(xs)
    if q is not None:
        raise Unsupported('concatenation of a symbolic number of arrays')
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    q = _symseq(xs)
    if q is not None:
        if q.ndim != 2:
            raise Unsupported('concatenation of a symbolic number of arrays')
        return q.copy()
    return concatenate([atleast_2d(x) for x in xs], 0)


row_stack = vstack


def dstack(xs):
    q = _symseq(xs)
    if q is not None:
        if q.ndim != 3:
            raise Unsupported('concatenation of a symbolic number of arrays')
        return moveaxis(q, 0, 2).copy()
    ys = []
    for x in xs:
        x = atleast_2d(x)
        ys.append(x[:, :, None] if x.ndim == 2 else x)
    return concatenate(ys, 2)


def column_stack(xs):
    q = _symseq(xs)
    if q is not None:
        if q.ndim != 2:
            raise Unsupported('concatenation of a symbolic number of arrays')
        return q.T.copy()
    ys = []
    for x in xs:
        x = atleast_1d(x)
        ys.append(x[:, None] if x.ndim == 1 else x)
    return concatenate(ys, 1)


def split(a, n, axis=0):
    a = asarr(a)
    if isinstance(n, int):
        d = a.tshape[axis]
        k = exact_div(d, const(n))
        out = []
        for q in range(n):
            out.append(a[tuple([slice(None)] * axis + [slice(pdim(mul(const(q), k)), pdim(mul(const(q + 1), k)))])])
        return out
    raise Unsupported('split')


def tile(a, reps):
    a = asarr(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    n = max(a.ndim, len(reps))
    reps = (1,) * (n - len(reps)) + tuple(reps)
    sh = (ONE,) * (n - a.ndim) + a.tshape
    f = a.snap()
    off = n - a.ndim
    rs = [it(r) for r in reps]
    return new(lambda i: f(tuple(const(0) if d is ONE else (x if r is ONE else simp_mod(x, d))
                                 for x, d, r in zip(i, sh, rs))[off:]),
               tuple(mul(r, d) for r, d in zip(rs, sh)), a.dtype)


def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        a = A.reshape(a, (-1,))
        axis = 0
    f = a.snap()
    k = it(n)
    return new(lambda i: f(i[:axis] + (simp_div(i[axis], k),) + i[axis + 1:]),
               a.tshape[:axis] + (mul(k, a.tshape[axis]),) + a.tshape[axis + 1:], a.dtype)


# -- ufuncs
def _uf1(name):
    def f(x, *a, **k):
        if hasattr(x, '_symq'):
            x = x._for_ufunc(name)
        if hasattr(x, '_elementwise') and not is_arr(x):
            return x._elementwise(lambda v: vfn(name, v), FLOAT64, (x,))
        return elementwise(lambda v: vfn(name, v), FLOAT64, x)
    f.__name__ = name
    return f


for _n in ('sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'sqrt', 'exp', 'log', 'log10', 'log2', 'sinh', 'cosh', 'tanh'):
    globals()[_n] = _uf1(_n)


def arctan2(y, x):
    return elementwise(lambda a, b: vfn('arctan2', a, b), FLOAT64, _mag(y), _mag(x))


def hypot(x, y):
    return sqrt(square(x) + square(y))


def _mag(x):
    return x.to_base().magnitude if hasattr(x, '_symq') else x


def _qaware(f):
    def g(x, *a, **k):
        if hasattr(x, '_symq'):
            return x._map(lambda m: f(m, *a, **k))
        return f(x, *a, **k)
    return g


def square(x):
    return elementwise(lambda a: vmul(a, a), 'arith', x)


def power(x, y):
    return elementwise(vpow, 'arith', x, y)


float_power = power


def add_(x, y): return elementwise(vadd, 'arith', x, y)
def subtract(x, y, **k): return elementwise(vsub, 'arith', x, y)
def multiply(x, y, **k): return elementwise(vmul, 'arith', x, y)
def divide(x, y, **k): return elementwise(vdiv, 'float', x, y)
def floor_divide(x, y): return elementwise(vfloordiv, 'arith', x, y)
def mod(x, y): return elementwise(vmod, 'arith', x, y)
def negative(x): return -x
def reciprocal(x): return 1.0 / x


true_divide = divide
remainder = mod
np_abs = absolute = fabs = _qaware(lambda x: elementwise(lambda a: (abs_(num(a[0])), a[1]), 'arith', x))


def sign(x):
    return elementwise(lambda a: (ite(lt(num(a[0]), const(0)), const(-1), ite(eq(num(a[0]), const(0)), const(0), const(1))), a[1]), 'arith', x)


def floor_(x):
    return elementwise(lambda a: (floor(num(a[0])), a[1]), FLOAT64, x)


def ceil_(x):
    return elementwise(lambda a: (ceil(num(a[0])), a[1]), FLOAT64, x)


def trunc_(x):
    return elementwise(lambda a: (trunc(num(a[0])), a[1]), FLOAT64, x)


fix = trunc_


def rint(x):
    return elementwise(lambda a: (round_even(num(a[0])), a[1]), FLOAT64, x)


def np_round(x, decimals=0, **k):
    if decimals == 0:
        return rint(x)
    s = const(10 ** decimals) if decimals > 0 else const(Fraction(1, 10 ** -decimals), 'R')
    return elementwise(lambda a: (div(round_even(mul(s, num(a[0]))), s), a[1]), FLOAT64, x)


around = round_ = np_round


def minimum(x, y): return elementwise(lambda a, b: (min_(num(a[0]), num(b[0])), or_(a[1], b[1])), 'same', x, y)
def maximum(x, y): return elementwise(lambda a, b: (max_(num(a[0]), num(b[0])), or_(a[1], b[1])), 'same', x, y)


def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a
    if a_min is not None:
        r = elementwise(lambda x, m: (max_(num(x[0]), num(m[0])), or_(x[1], m[1])), 'arith', r, a_min)
    if a_max is not None:
        r = elementwise(lambda x, m: (min_(num(x[0]), num(m[0])), or_(x[1], m[1])), 'arith', r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def deg2rad(x):
    return elementwise(lambda a: (mul(a[0], scale(Fraction(1, 180), PI)), a[1]), FLOAT64, x)


def rad2deg(x):
    return elementwise(lambda a: (div(mul(const(180), a[0]), PI), a[1]), FLOAT64, x)


radians, degrees = deg2rad, rad2deg


def isnan(x):
    return elementwise(lambda a: (a[1], FALSE), BOOL, x)


def isfinite(x):
    return elementwise(lambda a: (not_(a[1]), FALSE), BOOL, x)


def isinf(x):
    return elementwise(lambda a: (FALSE, FALSE), BOOL, x)


def nan_to_num(x, nan=0.0, **k):
    z = vt(nan)
    return elementwise(lambda a: (ite(a[1], z[0], a[0]), FALSE), 'arith', x)


def equal(x, y): return elementwise(vcmp(eq), BOOL, x, y)
def not_equal(x, y): return elementwise(vcmp(eq, True), BOOL, x, y)
def less(x, y): return elementwise(vcmp(lt), BOOL, x, y)
def less_equal(x, y): return elementwise(vcmp(le), BOOL, x, y)
def greater(x, y): return elementwise(vcmp(gt), BOOL, x, y)
def greater_equal(x, y): return elementwise(vcmp(ge), BOOL, x, y)


def _b2(f):
    return lambda a, b: (f(asb(a[0]), asb(b[0])), FALSE)


def logical_and(x, y): return elementwise(_b2(and_), BOOL, x, y)
def logical_or(x, y): return elementwise(_b2(or_), BOOL, x, y)
def logical_not(x): return elementwise(lambda a: (not_(asb(a[0])), FALSE), BOOL, x)
def logical_xor(x, y): return elementwise(_b2(lambda a, b: not_(eq(a, b))), BOOL, x, y)


bitwise_and, bitwise_or = logical_and, logical_or


def isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    def f(x, y):
        d = abs_(sub(num(x[0]), num(y[0])))
        tol = add(const(atol, 'R'), mul(const(rtol, 'R'), abs_(num(y[0]))))
        return and_(not_(x[1]), not_(y[1]), le(d, tol)), FALSE
    return elementwise(f, BOOL, a, b)


def allclose(a, b, **k):
    return np_all(isclose(a, b, **k))


def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.tshape, b.tshape):
        if not same_dim(x, y):
            return False
    return np_all(a == b)


def where(c, x=None, y=None):
    if x is None:
        if isinstance(c, (bool, SymBool)):
            c = asarr([c])
        c = asarr(c)
        if c.dtype.kind != 'b':
            c = c != 0
        return where1(c)

    def f(c, a, b):
        c = asb(c[0])
        if a[0].sort != b[0].sort and 'B' in (a[0].sort, b[0].sort):
            a, b = (num(a[0]), a[1]), (num(b[0]), b[1])
        return ite(c, a[0], b[0]), ite(c, a[1], b[1])
    xs = [asarr(q) for q in (x, y)]
    weak = [not (is_arr(q) and q.ndim) for q in (x, y)]
    return elementwise(f, promote(xs[0].dtype, xs[1].dtype), c, x, y)


def nonzero(c):
    return where(c)


def flatnonzero(c):
    return where(ravel(c))[0]


# -- reductions
def _redq(f):
    return f


def np_sum(a, axis=None, **k):
    if isinstance(a, A.Masked):
        return _masked_sum(a, axis)
    return reduce_sum(a, axis, **k)


def _masked_sum(m, axis):
    a = m.full()
    nd = m.mask.ndim
    mf = m.mask.snap()
    f = a.snap()
    z = new(lambda i: (ite(asb(mf(i[:nd])[0]), num(f(i)[0]), const(0)), and_(asb(mf(i[:nd])[0]), f(i)[1])), a.tshape, a.dtype)
    if axis is None:
        return reduce_sum(z)
    if axis == 0:
        return reduce_sum(z, tuple(range(nd)))
    raise Unsupported('masked sum axis')


def mean(a, axis=None, **k):
    if type(a).__name__ == 'MaskedArr':
        return a.mean(axis)
    if isinstance(a, A.Masked):
        n = count_true(a.mask)
        if axis is None:
            rest = prod(a.full().tshape[a.mask.ndim:])
            n = n * pdim(rest)
        return _masked_sum(a, axis) / (asarr(n) if False else SymNum(*vt(n)))
    return reduce_mean(a, axis, **k)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    a, w = asarr(a), asarr(weights)
    if a.ndim != w.ndim:
        if w.ndim == 1 and axis is not None:
            ax = axis % a.ndim
            w = w[tuple(slice(None) if i == ax else None for i in range(a.ndim))]
            w = broadcast_to(w, a.shape)
        else:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
    sw = reduce_sum(w, axis)
    z = (sw == 0)
    anyz = reduce_bool(z, 'any') if is_arr(z) else z
    if anyz is True or (anyz is not False and bool(anyz)):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return reduce_sum(a * w, axis) / sw


def np_max(a, axis=None, **k):
    if isinstance(a, A.Masked):
        return _masked_ext(a, 'rmax', axis, False)
    return reduce_ext(a, 'rmax', axis)


def np_min(a, axis=None, **k):
    if isinstance(a, A.Masked):
        return _masked_ext(a, 'rmin', axis, False)
    return reduce_ext(a, 'rmin', axis)


amax, amin = np_max, np_min


def nanmax(a, axis=None): return _masked_ext(a, 'rmax', axis, True) if isinstance(a, A.Masked) else reduce_ext(a, 'rmax', axis, nan=True)
def nanmin(a, axis=None): return _masked_ext(a, 'rmin', axis, True) if isinstance(a, A.Masked) else reduce_ext(a, 'rmin', axis, nan=True)


def _masked_ext(m, kind, axis, nan):
    if axis is not None:
        raise Unsupported('extremum of a selection along an axis')
    a = m.full()
    nd = m.mask.ndim
    mf, f = m.mask.snap(), a.snap()
    some = A.bool_red('any', lambda i: (asb(mf(i[:nd])[0]), FALSE), a.tshape)
    c = ctx()
    if not c.entails(some) and c.branch(not_(some)):
        raise ValueError('zero-size array to reduction operation')

    def g(i):
        t, u = f(i)
        return num(t), or_(u, not_(asb(mf(i[:nd])[0])))
    t, u = A.ext_over(g, a.tshape, kind, True, a.dtype)
    if not nan:
        u = or_(u, A.bool_red('any', lambda i: (and_(f(i)[1], asb(mf(i[:nd])[0])), FALSE), a.tshape))
    return wrapv((t, u))


def nansum(a, axis=None):
    a = asarr(a)
    f = a.snap()
    z = new(lambda i: (ite(f(i)[1], const(0), f(i)[0]), FALSE), a.tshape, a.dtype)
    return reduce_sum(z, axis)


def nanmean(a, axis=None):
    a = asarr(a)
    return nansum(a, axis) / reduce_sum(new(lambda i: (ite(a.get(i)[1], const(0), const(1)), FALSE), a.tshape, INT64), axis)


def np_any(a, axis=None, **k):
    return reduce_bool(a, 'any', axis)


def np_all(a, axis=None, **k):
    return reduce_bool(a, 'all', axis)


def prod_(a, axis=None):
    a = asarr(a)
    if axis is None and builtin_all(d.op == 'const' for d in a.tshape):
        r = (const(1), FALSE)
        for idx in itertools.product(*[range(int(d.data)) for d in a.tshape]):
            r = vmul(r, a.get(tuple(const(i) for i in idx)))
        return wrapv(r)
    raise Unsupported('prod')


import builtins as _bi
builtin_all = _bi.all


def count_nonzero(a, axis=None):
    a = asarr(a)
    b = a if a.dtype.kind == 'b' else (a != 0)
    f = b.snap()
    return reduce_sum(new(lambda i: (ite(asb(f(i)[0]), const(1), const(0)), FALSE), b.tshape, INT64), axis)


def var_(a, axis=None, ddof=0):
    a = asarr(a)
    m = reduce_mean(a, axis, keepdims=True) if axis is not None else reduce_mean(a)
    s = reduce_sum(square(a - m), axis)
    n = pdim(prod([a.tshape[i] for i in norm_axis(axis, a.ndim)]))
    return s / (asarr(n - ddof) if False else SymNum(*vt(n - ddof)))


def std(a, axis=None, ddof=0):
    return sqrt(var_(a, axis, ddof))


def maybe_0d(r, d):
    """an array numpy returns 0-dimensional when d = 1: decided where the difference shows (inv, the ensure_* of contracts)"""
    if d is ONE:
        return r[0, 0]
    r._maybe0 = d
    return r


def zero_d(r):
    d = getattr(r, '_maybe0', None)
    return d is not None and ctx().branch(eq(d, ONE))


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    x = asarr(m)
    if x.ndim == 1:
        x = x[None, :]
    if not rowvar and x.ndim == 2:
        x = x.T
    if y is not None or x.ndim > 2:
        raise Unsupported('cov')
    n = x.tshape[1]
    dd = ddof if ddof is not None else (0 if bias else 1)
    mu = reduce_mean(x, 1, keepdims=True)
    d = x - mu
    c = matmul(d, d.T)
    r = c / SymNum(sub(n, it(dd)))
    # numpy squeezes the result: one variable gives a 0-d array
    return maybe_0d(r, x.tshape[0])


def dot(a, b):
    if hasattr(a, '_symq') or hasattr(b, '_symq'):
        raise Unsupported('dot of quantities')
    return A.matmul(a, b, dot=True)


def matmul(a, b):
    return A.matmul(a, b)


def inner(a, b):
    a, b = asarr(a), asarr(b)
    return A.matmul(a, b.T if b.ndim > 1 else b)


def vdot(a, b):
    return A.matmul(ravel(a), ravel(b))


def outer(a, b):
    a, b = ravel(a), ravel(b)
    return a[:, None] * b[None, :]


def cross(a, b):
    a, b = asarr(a), asarr(b)
    return asarr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def trace(a):
    a = asarr(a)
    return wrapv(sum_over(lambda k: a.get((k[0], k[0])), (a.tshape[0],)))


def einsum(spec, *ops):
    spec = spec.replace(' ', '')
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    ops = [asarr(o) for o in ops]
    if '.' in spec or len(ins) != len(ops):
        raise Unsupported('einsum')
    if '->' not in spec:
        out = ''.join(sorted(c for c in set(''.join(ins)) if ''.join(ins).count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.tshape):
            if c in dims:
                if not same_dim(dims[c], d):
                    raise ValueError('einsum dims')
            else:
                dims[c] = d
    red = [c for c in dims if c not in out]
    fs = [o.snap() for o in ops]

    def g(idx):
        env = dict(zip(out, idx))

        def h(r):
            e2 = dict(env)
            e2.update(zip(red, r))
            v = (const(1), FALSE)
            for s, f in zip(ins, fs):
                v = vmul(v, f(tuple(e2[c] for c in s)))
            return v
        return sum_over(h, [dims[c] for c in red]) if red else h(())
    if not out:
        return wrapv(g(()))
    return new(g, [dims[c] for c in out], promote(*[o.dtype for o in ops]))


def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    if y.ndim != 1:
        raise Unsupported('trapz')
    n = y.tshape[0]
    f = y.snap()
    if x is not None:
        x = asarr(x)
        if not same_dim(x.tshape[0], n):
            raise ValueError('operands could not be broadcast together')
        g = x.snap()
        d = lambda k: vsub(g((add(k, ONE),)), g((k,)))
    else:
        dv = vt(dx)
        d = lambda k: dv
    return wrapv(sum_over(lambda k: vmul(d(k[0]), vmul((const(Fraction(1, 2), 'R'), FALSE), vadd(f(k), f((add(k[0], ONE),))))),
                          (sub(n, ONE),)))


def diff(a, n=1, axis=-1):
    a = asarr(a)
    s1 = [slice(None)] * a.ndim
    s2 = list(s1)
    s1[axis], s2[axis] = slice(1, None), slice(None, -1)
    return a[tuple(s1)] - a[tuple(s2)]


def cumsum(a, axis=None):
    raise Unsupported('cumsum')


def unravel_index(i, shape):
    i = asarr(i)
    sh = [tdim(d) for d in shape]
    f = i.snap()
    outs = [new((lambda k: lambda q: (unravel_index_t(f(q)[0], sh)[k], f(q)[1]))(k), i.tshape, INT64) for k in range(len(sh))]
    if i.ndim == 0:
        return tuple(wrapv(o.get(())) for o in outs)
    return tuple(outs)


def ravel_multi_index(idx, shape):
    r = 0
    for i, d in zip(idx, shape):
        r = r * d + i
    return r


def vectorize(f, **k):
    raise Unsupported('vectorize')


def apply_along_axis(*a, **k):
    raise Unsupported('apply_along_axis')


class _FInfo:
    def __init__(self, d):
        d = dt(getattr(d, 'dtype', d))
        if d is FLOAT32:
            self.eps, self.max = 2.0 ** -23, 3.4028234663852886e38
        else:
            self.eps, self.max = 2.0 ** -52, 1.7976931348623157e308
        self.min = -self.max


finfo = _FInfo


class _IInfo:
    def __init__(self, d):
        d = dt(getattr(d, 'dtype', d))
        self.max = (1 << (d.bits - (1 if d.signed else 0))) - 1
        self.min = -(1 << (d.bits - 1)) if d.signed else 0


iinfo = _IInfo


def isscalar(x):
    return val(x) is not None and not is_arr(x)


def issubdtype(a, b):
    a = dt(a)
    if b is integer:
        return a.kind in 'iu'
    if b is floating:
        return a.kind == 'f'
    if b is number:
        return a.kind in 'iufc'
    kinds = {'inexact': 'fc', 'complexfloating': 'c', 'signedinteger': 'i', 'unsignedinteger': 'u', 'bool_': 'b', 'generic': 'biufcO'}
    for nm, ks in kinds.items():
        if b is globals().get(nm):
            return a.kind in ks
    return a is dt(b)


def can_cast(*a):
    raise Unsupported('can_cast')


def float_of(x):
    return x


class _Linalg(types.ModuleType):
    LinAlgError = type('LinAlgError', (Exception,), {})

    @staticmethod
    def inv(a):
        a = asarr(a)
        if zero_d(a):
            raise _Linalg.LinAlgError('0-dimensional array given. Array must be at least two-dimensional')
        if a.ndim != 2:
            raise Unsupported('inv of stack')
        if not same_dim(a.tshape[0], a.tshape[1]):
            raise _Linalg.LinAlgError('Last 2 dimensions of the array must be square')
        n = a.tshape[0]
        if n.op == 'const' and n.data <= 3:
            n = int(n.data)
            M = [[a.get((const(i), const(j))) for j in range(n)] for i in range(n)]
            u = or_(*[v[1] for r in M for v in r])
            M = [[num(v[0]) for v in r] for r in M]
            D = _det(M)
            if ctx().branch(eq(D, const(0))):
                raise _Linalg.LinAlgError('Singular matrix')
            out = [[None] * n for _ in range(n)]
            for i in range(n):
                for j in range(n):
                    mm = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
                    cof = _det(mm) if mm else const(1)
                    out[i][j] = wrapv((div(scale((-1) ** (i + j), cof), D), u))
            return asarr(out)
        # abstract inverse: X with X A = A X = I (existence assumed: invertibility is a precondition)
        from . import linalg_
        return linalg_.inverse(a)

    @staticmethod
    def det(a):
        a = asarr(a)
        n = int(a.tshape[0].data) if a.tshape[0].op == 'const' else _unsup('det')
        return wrapv((_det([[num(a.get((const(i), const(j)))[0]) for j in range(n)] for i in range(n)]), FALSE))

    @staticmethod
    def norm(a, ord=None, axis=None, **k):
        a = asarr(a)
        if ord not in (None, 2, 'fro') or (ord == 2 and a.ndim > 1 and axis is None):
            raise Unsupported('norm order')
        return sqrt(reduce_sum(square(a), axis))

    @staticmethod
    def solve(a, b):
        return A.matmul(_Linalg.inv(a), b)

    @staticmethod
    def eig(a):
        raise Unsupported('eig')

    eigh = svd = cholesky = lstsq = pinv = matrix_power = qr = eig

    @staticmethod
    def multi_dot(xs):
        r = xs[0]
        for x in xs[1:]:
            r = dot(r, x)
        return r


def _det(M):
    n = len(M)
    if n == 0:
        return const(1)
    if n == 1:
        return M[0][0]
    if n == 2:
        return sub(mul(M[0][0], M[1][1]), mul(M[0][1], M[1][0]))
    r = const(0)
    for j in range(n):
        mm = [[row[c] for c in range(n) if c != j] for row in M[1:]]
        r = add(r, scale((-1) ** j, mul(M[0][j], _det(mm))))
    return r


linalg = _Linalg('numpy.linalg')


class _Missing:
    def __init__(self, nm):
        self.nm = nm

    def __call__(self, *a, **k):
        raise Unsupported('numpy.%s' % self.nm)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Missing(self.nm + '.' + n)


_REMOVED = {'int', 'float', 'bool', 'complex', 'object', 'str', 'long'}


class NumpyModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in _REMOVED:
            raise AttributeError("module 'numpy' has no attribute %r" % n)
        if n in ('random', 'fft', 'testing', 'ctypeslib', 'rec', 'char', 'lib', 'polynomial'):
            return _Missing(n)
        return _Missing(n)


def build():
    m = NumpyModule('numpy')
    g = globals()
    for k, v in g.items():
        if k.startswith('_') and k not in ():
            continue
        if k in ('A', 'T', 'build', 'sys', 'types', 'itertools', 'ctx', 'Unsupported', 'add', 'floor', 'ceil', 'var', 'prod',
                 'trunc', 'const', 'fn', 'mul', 'div', 'sub', 'neg', 'inv', 'eq', 'lt', 'le', 'gt', 'ge', 'ite', 'mk',
                 'asarr', 'new', 'is_arr', 'cast', 'dt'):
            continue
        setattr(m, k, v)
    for _k in ('sum', 'max', 'min', 'any', 'all', 'round', 'abs'):
        setattr(m, _k, g['np_' + _k])
    m.add = add_
    m.floor = floor_
    m.ceil = ceil_
    m.trunc = trunc_
    m.var = var_
    m.prod = prod_
    m.linalg = linalg
    m.__version__ = '1.26.4'
    m.__path__ = []
    from . import npma
    m.ma = npma.build(m)
    core = types.ModuleType('numpy.core')
    cm = types.ModuleType('numpy.core.multiarray')
    cm.ndarray = SymArr
    core.multiarray = cm
    core.__path__ = []
    m.core = core
    return {'numpy': m, 'numpy.core': core, 'numpy.core.multiarray': cm, 'numpy.linalg': linalg, 'numpy.ma': m.ma}


class _Files:
    """raw files: the elements written, row-major, with their type"""
    def tofile(self, a, fname, sep='', format='%s'):
        if sep != '' or not isinstance(fname, str):
            raise Unsupported('tofile')
        c = ctx()
        if c.local is not None or c.nofork:
            raise Unsupported('file written inside a symbolic loop')
        if not hasattr(c, 'files'):
            c.files = {}
        c.files[fname] = asarr(a).ravel().copy()


FILES = _Files()


def fromfile(fname, dtype=float, count=-1, sep='', offset=0):
    f = getattr(ctx(), 'files', {}).get(fname)
    if f is None:
        raise Unsupported('file of unknown contents')
    if dt(dtype) is not f.dtype or count != -1 or sep != '' or offset != 0:
        raise Unsupported('file read back as another type')
    return f.copy()
