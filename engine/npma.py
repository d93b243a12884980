"""numpy.ma subset."""
import types
from .arr import *
from . import arr as A


class MaskedArr:
    """masked array: data and boolean mask (True = ignored) of the same shape"""
    def __init__(self, data, mask=None):
        if isinstance(data, MaskedArr):
            if mask is None:
                mask = data.mask
            data = data.data
        self.data = asarr(data)
        if mask is None or mask is False:
            self.mask = new(lambda i: (FALSE, FALSE), self.data.tshape, BOOL)
        else:
            m = asarr(mask)
            if m.dtype.kind != 'b':
                m = m != 0
            if m.ndim != self.data.ndim:
                if prod(m.tshape) is prod(self.data.tshape) or ring_zero(sub(prod(m.tshape), prod(self.data.tshape))):
                    m = A.reshape(m, self.data.shape)
                else:
                    raise Unsupported('mask shape')
            for x, y in zip(m.tshape, self.data.tshape):
                if not same_dim(x, y):
                    raise ValueError('Mask and data not compatible')
            self.mask = m.copy()

    @property
    def shape(self):
        return self.data.shape

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def T(self):
        return MaskedArr(self.data.T, self.mask.T)

    def transpose(self, *a):
        return MaskedArr(self.data.transpose(*a), self.mask.transpose(*a))

    def reshape(self, *s):
        return MaskedArr(self.data.reshape(*s), self.mask.reshape(*s))

    def __getitem__(self, k):
        d = self.data[k]
        if is_arr(d):
            return MaskedArr(d, self.mask[k])
        return d

    def filled(self, v=None):
        from . import npshim
        return npshim.where(self.mask, 0 if v is None else v, self.data)

    def mean(self, axis=None):
        return mean(self, axis)

    def _w(self):
        f, g = self.data.snap(), self.mask.snap()
        z = new(lambda i: (ite(asb(g(i)[0]), const(0), num(f(i)[0])), and_(not_(asb(g(i)[0])), f(i)[1])), self.data.tshape, self.data.dtype)
        w = new(lambda i: (ite(asb(g(i)[0]), const(0), const(1)), FALSE), self.data.tshape, INT64)
        return z, w


def mean(a, axis=None, **k):
    if not isinstance(a, MaskedArr):
        a = MaskedArr(a)
    z, w = a._w()
    return reduce_sum(z, axis) / (lambda n: n if is_arr(n) else SymNum(*vt(n)))(reduce_sum(w, axis))


def cov(x, y=None, rowvar=True, bias=False, allow_masked=True, ddof=None):
    """numpy.ma.cov: pairwise-complete covariance of a 2-d masked array (rows = variables when rowvar)"""
    if not isinstance(x, MaskedArr):
        x = MaskedArr(x)
    if y is not None or x.ndim != 2:
        raise Unsupported('ma.cov')
    if not rowvar:
        x = x.T
    dd = ddof if ddof is not None else (0 if bias else 1)
    z, w = x._w()
    mu = reduce_sum(z, 1, keepdims=True) / reduce_sum(w, 1, keepdims=True)
    # deviations, zero where masked
    d = z - mu * w
    num_ = A.matmul(d, d.T)
    cnt = A.matmul(w, w.T) - dd
    r = num_ / cnt
    # numpy squeezes the result: one variable gives a 0-d array
    from .npshim import maybe_0d
    return maybe_0d(r, x.data.tshape[0])


def build(np):
    m = types.ModuleType('numpy.ma')
    m.masked_array = MaskedArr
    m.MaskedArray = MaskedArr
    m.array = MaskedArr
    m.mean = mean
    m.average = mean
    m.cov = cov
    m.masked_where = lambda c, a, copy=True: MaskedArr(a, c)
    m.getmaskarray = lambda a: a.mask if isinstance(a, MaskedArr) else MaskedArr(a).mask
    return m
