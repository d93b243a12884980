"""Contracts of the libraries resippy calls (everything here is trusted and listed in the evidence)."""
import math as _rmath
import re
import sys
import types
from fractions import Fraction
from . import npshim
from .sym import *
from .term import *
from .arr import *
from . import arr as A
from .ctx import ctx, Unsupported

USED = set()       # names of library contracts relied on in this run


def used(n):
    USED.add(n)


# ------------------------------------------------------------------ opaque modules
class Missing:
    def __init__(self, nm):
        self.__dict__['_nm'] = nm

    def __call__(self, *a, **k):
        raise Unsupported('call of %s (no contract)' % self._nm)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(self._nm + '.' + n)

    def __setattr__(self, n, v):
        pass

    def __mro_entries__(self, bases):
        return (object,)


class Opaque(types.ModuleType):
    def __init__(self, name, **k):
        types.ModuleType.__init__(self, name)
        self.__path__ = []
        for a, b in k.items():
            setattr(self, a, b)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(self.__name__ + '.' + n)


# ------------------------------------------------------------------ pint
_F = Fraction
_PREF = {'micro': _F(1, 10**6), 'milli': _F(1, 1000), 'centi': _F(1, 100), 'kilo': _F(1000), 'nano': _F(1, 10**9), 'deci': _F(1, 10)}
_BASE = {}


def _defunit(names, factor, dims, prefixes=True):
    for n in names:
        _BASE[n] = (factor, dims)
        if prefixes:
            for p, f in _PREF.items():
                _BASE[p + n] = (scale(f, factor) if isinstance(factor, T) else factor * f, dims)


_L, _A = (('m', 1),), ()
_defunit(['meter', 'meters', 'metre', 'metres'], const(1, 'R'), _L)
for _n, _f in (('m', 1), ('mm', _F(1, 1000)), ('cm', _F(1, 100)), ('km', 1000), ('um', _F(1, 10**6)), ('nm', _F(1, 10**9)), ('micron', _F(1, 10**6)),
               ('microns', _F(1, 10**6)), ('inch', _F(254, 10000)), ('inches', _F(254, 10000)), ('foot', _F(3048, 10000)),
               ('feet', _F(3048, 10000)), ('ft', _F(3048, 10000)), ('yard', _F(9144, 10000)), ('mile', _F(1609344, 1000))):
    _defunit([_n], const(_f, 'R'), _L, False)
_defunit(['radian', 'radians'], const(1, 'R'), (('rad', 1),))
_defunit(['rad'], const(1, 'R'), (('rad', 1),), False)
_defunit(['mrad'], const(_F(1, 1000), 'R'), (('rad', 1),), False)
_defunit(['urad'], const(_F(1, 10**6), 'R'), (('rad', 1),), False)
_defunit(['degree', 'degrees', 'deg'], mul(PI, const(_F(1, 180), 'R')), (('rad', 1),))
_defunit(['dimensionless', 'reflectance_zero_to_one', 'zero_to_one', 'percent'], const(1, 'R'), ())
_defunit(['second', 'seconds', 's'], const(1, 'R'), (('s', 1),), False)
_defunit(['flick'], const(10**10, 'R'), (('flick', 1),))


def parse_unit(s):
    used('pint: unit conversion factors (metric lengths, inch/foot, degree = pi/180 radian)')
    s = s.strip()
    if s in _BASE:
        return (_BASE[s][0], _BASE[s][1], s)
    raise Unsupported('unit %r' % s)


class Quantity:
    _symq = True
    __array_priority__ = 3000

    def __init__(self, m, unit):
        self._m, self._u = m, unit

    @property
    def magnitude(self):
        return self._m
    m = magnitude

    @property
    def units(self):
        return Quantity(1, self._u)

    def _factor_to(self, u):
        if tuple(self._u[1]) != tuple(u[1]):
            if not ({x for x, _ in self._u[1]} | {x for x, _ in u[1]}) <= {'rad'}:
                raise ValueError('DimensionalityError')
        return div(self._u[0], u[0])

    def to(self, u):
        if isinstance(u, Quantity):
            u = u._u
        elif isinstance(u, str):
            u = parse_unit(u)
        f = self._factor_to(u)
        return Quantity(_times(self._m, f), u)

    ito = None

    def to_base(self):
        return Quantity(_times(self._m, self._u[0]), (const(1, 'R'), self._u[1], 'base'))
    to_base_units = to_base

    def _for_ufunc(self, name):
        if any(x != 'rad' for x, _ in self._u[1]):
            raise ValueError('DimensionalityError')
        return self.to_base()._m

    def _as_scalar(self):
        return self.to_base()._m

    def _map(self, f):
        return Quantity(f(self._m), self._u)

    def __float__(self):
        raise Unsupported('float(quantity)')

    @property
    def shape(self):
        return self._m.shape

    def __len__(self):
        return len(self._m)

    def __mul__(self, o):
        if isinstance(o, Quantity):
            return Quantity(self._m * o._m, (mul(self._u[0], o._u[0]), _dmul(self._u[1], o._u[1], 1), '*'))
        return Quantity(_mm(self._m, o), self._u)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Quantity):
            return Quantity(self._m / o._m, (div(self._u[0], o._u[0]), _dmul(self._u[1], o._u[1], -1), '/'))
        return Quantity(self._m / o, self._u)

    def __add__(self, o):
        return Quantity(self._m + self._conv(o), self._u)

    def __sub__(self, o):
        return Quantity(self._m - self._conv(o), self._u)

    def __neg__(self):
        return Quantity(-self._m, self._u)

    def _conv(self, o):
        if isinstance(o, Quantity):
            return o.to(Quantity(1, self._u))._m
        if self._u[1] in ((), _A):
            return o
        raise ValueError('DimensionalityError')

    def __getitem__(self, k):
        return Quantity(self._m[k], self._u)


def _dmul(a, b, s):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + s * e
        if d[k] == 0:
            del d[k]
    return tuple(sorted(d.items()))


def _mm(a, b):
    if a == 1 and isinstance(a, int):
        return b if not isinstance(b, (list, tuple)) else asarr(b)
    return a * b


def _times(m, f):
    if f.op == 'const' and f.data == 1:
        return m
    fs = SymNum(f, FALSE, True)
    if isinstance(m, (list, tuple)):
        m = asarr(m)
    return m * fs


class UnitRegistry:
    def load_definitions(self, f):
        pass

    def parse_expression(self, s):
        return Quantity(1, parse_unit(s))
    parse_units = parse_expression
    __getitem__ = parse_expression
    Quantity = staticmethod(lambda m, u: Quantity(m, parse_unit(u) if isinstance(u, str) else u._u))
    __call__ = parse_expression

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Quantity(1, parse_unit(n))


# ------------------------------------------------------------------ pyproj
class Proj:
    def __init__(self, s=None, **k):
        k.pop('preserve_units', None)
        if isinstance(s, Proj):
            self.srs = s.srs
            return
        if s is None:
            s = ' '.join('+%s=%s' % (a, b) for a, b in sorted(k.items()))
        elif k:
            s = s + ' ' + ' '.join('+%s=%s' % (a, b) for a, b in sorted(k.items()))
        for c in ('\n', '\t'):
            if c in s:
                raise ValueError('bad projection')
        m = re.search(r'zone=(\S*)', s)
        if m and not m.group(1).isdigit():
            raise ValueError('CRSError: utm zone %r' % m.group(1))
        self.srs = s
        self.args = k

    def __call__(self, *a, **k):
        raise Unsupported('Proj call')

    def __eq__(self, o):
        return isinstance(o, Proj) and o.srs == self.srs

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.srs)


def _ptx(src, dst, which, args):
    return uf('proj[%s->%s].%s' % (src.srs, dst.srs, which), tuple(num(a) for a in args), 'R')


def pyproj_transform(p1, p2, x, y, z=None, *a, **k):
    used('pyproj.transform: an elementwise function of the coordinates for each (source, target) pair')
    if not isinstance(p1, Proj) or not isinstance(p2, Proj):
        raise Unsupported('transform of %r' % (p1,))
    out = []
    for c in ('x', 'y', 'z'):
        if c == 'z' and z is None:
            break
        if z is None:
            r = elementwise(lambda u, v, c=c: (_ptx(p1, p2, c, (u[0], v[0])), or_(u[1], v[1])), 'float', x, y)
        else:
            # horizontal position does not depend on the height for these transformations; height is kept per pair
            r = elementwise(lambda u, v, w, c=c: (_ptx(p1, p2, c, (u[0], v[0])) if c != 'z' else _ptx(p1, p2, c, (u[0], v[0], w[0])),
                                                  or_(u[1], v[1], w[1])), 'float', x, y, z)
        out.append(r)
    return tuple(out)


# ------------------------------------------------------------------ shapely
class Coords:
    def __init__(self, pts):
        self.pts = pts

    @property
    def xy(self):
        from .loops import PyList
        return (PyList([p[0] for p in self.pts]), PyList([p[1] for p in self.pts]))

    def __iter__(self):
        return iter(self.pts)

    def __getitem__(self, i):
        return self.pts[i]

    def __len__(self):
        return len(self.pts)


class Ring:
    def __init__(self, pts):
        self.coords = Coords(pts)


class Geom:
    def __init__(self, pts):
        used('shapely: bounds / envelope / exterior of a polygon are those of its vertices')
        self.pts = [(p[0], p[1]) for p in pts]
        if not self.pts:
            raise Unsupported('empty geometry')
        self._b = None

    @property
    def bounds(self):
        if self._b is None:
            xs = [vt(p[0])[0] for p in self.pts]
            ys = [vt(p[1])[0] for p in self.pts]

            def red(f, ts):
                r = ts[0]
                for t in ts[1:]:
                    r = f(r, t)
                return wrapv((r, FALSE), True)
            self._b = (red(min_, xs), red(min_, ys), red(max_, xs), red(max_, ys))
        return self._b

    @property
    def envelope(self):
        return box(*self.bounds)

    @property
    def exterior(self):
        ps = self.pts
        return Ring(ps + [ps[0]])

    @property
    def is_empty(self):
        return False

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('shapely geometry .%s' % n)


class Polygon(Geom):
    pass


class MultiPoint(Geom):
    pass


class Point(Geom):
    def __init__(self, *a):
        Geom.__init__(self, [a if len(a) > 1 else a[0]])


def box(minx, miny, maxx, maxy, ccw=True):
    return Polygon([(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)])


def shapely_transform(f, g):
    xs = asarr([p[0] for p in g.pts])
    ys = asarr([p[1] for p in g.pts])
    r = f(xs, ys)
    return type(g)([(r[0][i], r[1][i]) for i in range(len(g.pts))])


# ------------------------------------------------------------------ gdal
def InvGeoTransform(g):
    used('gdal.InvGeoTransform: inverse of a six-parameter affine transformation (None-free when the determinant is not 0)')
    t = [vt(x)[0] for x in g]
    d = sub(mul(t[1], t[5]), mul(t[2], t[4]))
    if ctx().branch(eq(d, const(0))):
        raise Unsupported('singular geotransform')
    r = inv(d)
    a, b, c, e = mul(t[5], r), neg(mul(t[2], r)), neg(mul(t[4], r)), mul(t[1], r)
    x0 = neg(add(mul(a, t[0]), mul(b, t[3])))
    y0 = neg(add(mul(c, t[0]), mul(e, t[3])))
    return tuple(wrapv((q, FALSE), True) for q in (x0, a, b, y0, c, e))


def ApplyGeoTransform(g, x, y):
    return (g[0] + x * g[1] + y * g[2], g[3] + x * g[4] + y * g[5])


# codes of raster types (GDAL 3.8)
GDT = {'uint8': 1, 'uint16': 2, 'int16': 3, 'uint32': 4, 'int32': 5, 'float32': 6, 'float64': 7, 'complex64': 10, 'complex128': 11,
       'uint64': 12, 'int64': 13, 'int8': 14}


def NumericTypeCodeToGDALTypeCode(d):
    used('osgeo.gdal_array.NumericTypeCodeToGDALTypeCode: the table of raster types')
    return GDT.get(dt(d).name)


def GDALTypeCodeToNumericTypeCode(c):
    return next((getattr(npshim, n) for n, k in GDT.items() if k == c), None)


class GdalBand:
    def __init__(self, ds, k):
        self.ds, self.k = ds, k

    @property
    def DataType(self):
        return self.ds.code

    @property
    def XSize(self):
        return pdim(self.ds.cube.tshape[1])

    @property
    def YSize(self):
        return pdim(self.ds.cube.tshape[0])

    def WriteArray(self, a, xoff=0, yoff=0):
        a = asarr(a)
        if a.ndim != 2:
            raise ValueError('expected array of dim 2')
        if a.dtype.name != self.ds.cube.dtype.name:
            raise Unsupported('raster type conversion on write')
        if not (isinstance(xoff, int) and xoff == 0 and isinstance(yoff, int) and yoff == 0):
            raise Unsupported('WriteArray with offsets')
        for x, y in zip(a.tshape, self.ds.cube.tshape):
            if not same_dim(x, y):
                # smaller arrays fill a corner only, larger ones are refused
                raise ValueError('array of another size than the raster')
        self.ds.cube[:, :, self.k] = a
        return 0

    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None, **k):
        if k:
            raise Unsupported('ReadAsArray options')
        c = self.ds.cube[:, :, self.k].copy()
        if win_xsize is None and win_ysize is None and isinstance(xoff, int) and xoff == 0 and isinstance(yoff, int) and yoff == 0:
            return c
        x1 = None if win_xsize is None else xoff + win_xsize
        y1 = None if win_ysize is None else yoff + win_ysize
        r = c[yoff:y1, xoff:x1]
        for a, b in ((r.tshape[0], win_ysize), (r.tshape[1], win_xsize)):
            if b is not None and not same_dim(a, it(b)):
                return None
        return r

    def SetNoDataValue(self, v):
        if v is None:
            raise TypeError('a number is required')
        if self.ds.code in (12, 13) and not isinstance(v, int) and not (isinstance(v, SymNum) and v.t.sort == 'I'):
            raise TypeError('an integer is required for 64 bit rasters')
        self.ds.nodata = float(v) if isinstance(v, (bool, int, float)) else v
        return 0

    def GetNoDataValue(self):
        return self.ds.nodata

    def FlushCache(self):
        pass


class GdalDataset:
    """a raster: its data, geotransform, projection and nodata value (shared by all bands, as in GeoTIFF)"""
    def __init__(self, nx, ny, nb, code):
        d = next(n for n, k in GDT.items() if k == code)
        self.cube = npshim.zeros((ny, nx, nb), d)
        self.code = code
        self.nodata = None
        self.geot = (0.0, 1.0, 0.0, 0.0, 0.0, 1.0)
        self.wkt = ''

    RasterXSize = property(lambda s: pdim(s.cube.tshape[1]))
    RasterYSize = property(lambda s: pdim(s.cube.tshape[0]))
    RasterCount = property(lambda s: pdim(s.cube.tshape[2]))

    def GetRasterBand(self, k):
        i = sub(it(k), ONE)
        if not ctx().branch(and_(le(const(0), i), lt(i, self.cube.tshape[2]))):
            return None
        return GdalBand(self, pdim(i))

    def ReadAsArray(self):
        return npshim.moveaxis(self.cube, 2, 0).copy()

    def SetGeoTransform(self, g):
        self.geot = tuple(g)
        if len(self.geot) != 6:
            raise TypeError('not a sequence of 6 numbers')
        return 0

    def GetGeoTransform(self):
        return self.geot

    def SetProjection(self, w):
        self.wkt = w
        return 0

    def GetProjection(self):
        return self.wkt

    GetProjectionRef = GetProjection

    def FlushCache(self):
        pass


class GdalDriver:
    def __init__(self, name):
        self.name = name

    def Create(self, fname, xsize, ysize, bands=1, eType=1, options=()):
        used('GDAL: a raster data set keeps the bands, geotransform, projection and nodata value written to it (lossless compression)')
        for o in options:
            if 'LZW' not in o and o not in ('INTERLEAVE=BAND', 'INTERLEAVE=PIXEL', 'TILED=YES') and 'DEFLATE' not in o:
                raise Unsupported('GDAL option %s' % o)
        ds = GdalDataset(xsize, ysize, bands, eType)
        if self.name != 'MEM':
            c = ctx()
            if not hasattr(c, 'rasters'):
                c.rasters = {}
            c.rasters[fname] = ds
        return ds


def GetDriverByName(n):
    if n not in ('MEM', 'GTiff'):
        raise Unsupported('GDAL driver %s' % n)
    return GdalDriver(n)


def gdal_Open(fname, mode=0):
    return getattr(ctx(), 'rasters', {}).get(fname)


class SpatialReference:
    """osr: a coordinate system named by its proj string; the well-known text is another name of the same system"""
    def __init__(self, wkt=''):
        self.s = None
        if wkt:
            self.ImportFromWkt(wkt)

    def ImportFromProj4(self, s):
        used('osr.SpatialReference: proj string -> WKT -> proj string names the same coordinate system')
        self.s = s
        return 0

    def ImportFromWkt(self, w):
        if not w.startswith('WKT:'):
            raise Unsupported('unknown WKT')
        self.s = w[4:]
        return 0

    def ExportToWkt(self, *a):
        return 'WKT:' + self.s

    def ExportToProj4(self):
        return self.s


# ------------------------------------------------------------------ scipy
_PHI = [var('$im%d' % i, 'I') for i in range(3)]
IMG = {}


def image_name(a):
    """name and parameters determined by the contents and shape of an array: the indices and variables its elements depend
    on (the band of a cube, say) become arguments, so that they are substituted like any other term"""
    f = a.snap()
    phi = _PHI[:a.ndim]
    t, u = f(tuple(phi))
    t = norm(num(t)) if t.sort != 'B' else t
    par, m = [], {}
    bound = {x.args[0] for r in (t, u) for x in subterms(r) if x.op == 'sum'}

    def ph(x):
        if x not in m:
            m[x] = var('$ip%d' % len(par), x.sort)
            par.append(x)

    def walk(x):
        if x.op == 'uf':
            for y in x.args:
                fv = free_vars(y)
                if fv & set(phi) or fv & bound:
                    walk(y)
                else:
                    ph(y)
        elif x.op == 'var':
            if x not in phi and x not in bound:
                ph(x)
        else:
            for y in x.args:
                walk(y)
    walk(t)
    walk(u)

    def repl(x):
        if x.op == 'uf':
            return rebuild(x, [m[y] if y in m and not (free_vars(y) & set(phi)) else repl(y) for y in x.args])
        if x in m and x.op == 'var':
            return m[x]
        if not x.args:
            return x
        return rebuild(x, [repl(y) for y in x.args]) if x.op != 'sum' else subst(x, {k: v for k, v in m.items() if k.op != 'const'})
    t2, u2 = repl(t), repl(u)
    key = tuple([t2.id, u2.id] + [d.id for d in a.tshape])
    if key not in IMG:
        IMG[key] = ('img%d' % len(IMG), t2, u2)
    return IMG[key][0], tuple(par)


def map_coordinates(im, coords, output=None, order=3, mode='constant', cval=0.0, prefilter=True):
    used('scipy.ndimage.map_coordinates: elementwise interpolation of the array at the given coordinates, cval outside')
    a = asarr(im)
    cs = [asarr(c) for c in (coords if isinstance(coords, (list, tuple)) else [coords[i] for i in range(a.ndim)])]
    if len(cs) != a.ndim:
        raise RuntimeError('invalid shape for coordinate array')
    if mode not in ('constant', 'nearest'):
        raise Unsupported('map_coordinates mode %r' % mode)
    nm, par = image_name(a)
    cv = vt(cval)
    sh = a.tshape
    out = FLOAT64 if a.dtype.kind != 'f' else a.dtype
    if output is None:
        od = a.dtype
    else:
        od = dt(output)

    def f(*vs):
        ts = [num(v[0]) for v in vs]
        u = or_(*[v[1] for v in vs])
        val_ = uf(interp_name(order, nm, a.dtype, order < 2) + ('' if mode == 'constant' else mode), tuple(ts) + par, 'R')
        if mode == 'constant':
            inside = and_(*[and_(le(const(0), t), le(t, sub(n, ONE))) for t, n in zip(ts, sh)])
            return (ite(inside, val_, num(cv[0])), or_(u, and_(not_(inside), cv[1])))
        return (val_, u)
    return elementwise(f, od, *cs)


def sk_warp(image, inverse_map, map_args=None, output_shape=None, order=None, mode='constant', cval=0.0, clip=True, preserve_range=False):
    """skimage.transform.warp with an array of (row, column) source coordinates"""
    used('skimage.transform.warp: elementwise interpolation of the image at the given coordinates (within the range of the image); nearest neighbour (order 0) gives cval a pixel or more outside, higher orders only come close to it')
    c = asarr(inverse_map)
    a = asarr(image)
    if map_args or output_shape is not None or c.ndim != 3 or a.ndim != 2 or (not preserve_range and a.dtype.kind != 'f') or mode != 'constant':
        raise Unsupported('warp')
    if order is None:
        order = 1
    nm, par = image_name(a)
    cv = vt(cval)
    sh = a.tshape

    def f(*vs):
        ts = [num(v[0]) for v in vs]
        u = or_(*[v[1] for v in vs])
        inside = and_(*[and_(le(const(0), t), le(t, sub(n, ONE))) for t, n in zip(ts, sh)])
        outside = or_(*[or_(le(t, const(-1)), le(n, t)) for t, n in zip(ts, sh)])
        val_ = uf(interp_name(order, nm, a.dtype, clip or order < 2), tuple(ts) + par, 'R')
        edge = uf('warp margin%s[%s]' % (order, nm), tuple(ts) + par + (num(cv[0]),), 'R')
        if order:
            return (ite(inside, val_, edge), or_(u, and_(not_(inside), cv[1])))
        return (ite(inside, val_, ite(outside, num(cv[0]), edge)), or_(u, and_(outside, cv[1])))
    return elementwise(f, FLOAT64, c[0], c[1])


class PCA(object):
    """sklearn.decomposition.PCA: the scores are a function of the values, the component count and the whitening; copy=False overwrites them"""

    def __init__(self, n_components=None, copy=True, whiten=False, **k):
        if k:
            raise Unsupported('PCA parameters %s' % sorted(k))
        self.n, self.copy, self.whiten = n_components, copy, whiten

    def fit_transform(self, x, y=None):
        from . import npshim
        used('sklearn PCA.fit_transform: a function of the values, number of components and whitening; modifies its argument exactly when copy is False')
        a = asarr(x)
        if a.ndim != 2 or a.dtype.kind not in 'fiu':
            raise Unsupported('PCA of this array')
        nm, par = image_name(a)
        n = vt(self.n)[0] if self.n is not None else ite(le(a.tshape[0], a.tshape[1]), a.tshape[0], a.tshape[1])
        ps = par + (n, const(int(bool(self.whiten))))
        from .arr import new
        r = new(lambda i: (uf('PCA[%s]' % nm, tuple(i) + ps, 'R'), FALSE), (a.tshape[0], n), FLOAT64)
        if not self.copy and a.dtype.kind == 'f':
            a -= npshim.mean(a, axis=0)
        return r


def interp_name(order, nm, d, bounded):
    n = 'interp%s[%s]' % (order, nm)
    if bounded and d.kind in 'iu' and d.bits <= 16:
        from . import smt
        lo, hi = (-(1 << d.bits - 1), (1 << d.bits - 1) - 1) if d.signed else (0, (1 << d.bits) - 1)
        smt.ASSUMED_UF[n] = lambda t: [le(const(lo), t), le(t, const(hi))]
    return n


import datetime as _dtm


class DateTime(_dtm.datetime):
    """datetime whose naive values are in an arbitrary local time zone"""

    def timestamp(self):
        if self.tzinfo is not None:
            return _dtm.datetime.timestamp(self)
        used('datetime.timestamp: naive values are in local time, which is arbitrary')
        d = self.replace(tzinfo=_dtm.timezone.utc)
        s = int(_dtm.datetime.timestamp(d))
        return SymNum(sub(const(s, 'R'), uf('local time offset', (const(s, 'R'),), 'R')), FALSE, True)


def make_datetime(mods):
    m = Opaque('datetime')
    for n in dir(_dtm):
        if not n.startswith('__'):
            setattr(m, n, getattr(_dtm, n))
    m.datetime = DateTime
    mods['datetime'] = m


def make_scipy(mods):
    tr = Opaque('skimage.transform', warp=sk_warp)
    mods['skimage'] = Opaque('skimage', transform=tr)
    mods['skimage.transform'] = tr
    sp = Opaque('scipy')
    nd = Opaque('scipy.ndimage', map_coordinates=map_coordinates)
    sp.ndimage = nd
    for n in ('misc', 'spatial', 'spatial.ckdtree', 'interpolate', 'signal', 'linalg', 'optimize', 'stats'):
        m = Opaque('scipy.' + n)
        mods['scipy.' + n] = m
        if '.' not in n:
            setattr(sp, n, m)
    mods['scipy'] = sp
    mods['scipy.ndimage'] = nd
    mods['scipy.ndimage.interpolation'] = nd


# ------------------------------------------------------------------ math / six
def _m1(name):
    def f(x):
        v = vt(x)
        return wrapv(vfn(name, v), True)
    return f


def build_math():
    m = types.ModuleType('math')
    for n in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'log10'):
        setattr(m, n, _m1(n))
    m.atan, m.asin, m.acos = _m1('arctan'), _m1('arcsin'), _m1('arccos')
    m.atan2 = lambda y, x: wrapv(vfn('arctan2', vt(y), vt(x)), True)
    m.pi = SymNum(PI, FALSE, True)
    m.e = _rmath.e
    m.inf, m.nan = float('inf'), float('nan')
    m.floor = lambda x: wrapv((floor(vt(x)[0]), FALSE), True)
    m.ceil = lambda x: wrapv((ceil(vt(x)[0]), FALSE), True)
    m.trunc = lambda x: wrapv((trunc(vt(x)[0]), FALSE), True)
    m.fabs = abs
    m.radians = lambda x: x * SymNum(mul(PI, const(_F(1, 180), 'R')), FALSE, True)
    m.degrees = lambda x: x / SymNum(mul(PI, const(_F(1, 180), 'R')), FALSE, True)
    m.isnan = lambda x: wrapb(vt(x)[1])
    m.pow = lambda x, y: x ** y
    m.hypot = lambda x, y: wrapv(vfn('sqrt', vadd(vmul(vt(x), vt(x)), vmul(vt(y), vt(y)))), True)
    m.modf = _modf
    m.fmod = _fmod
    return m


def _modf(x):
    t = vt(x)[0]
    i = trunc(t)
    return (wrapv((sub(t, i), FALSE), True), wrapv((i, FALSE), True))


def _fmod(x, y):
    a, b = vt(x)[0], vt(y)[0]
    return wrapv((sub(a, mul(b, trunc(div(a, b)))), FALSE), True)


def add_metaclass(mc):
    def w(cls):
        d = dict(cls.__dict__)
        d.pop('__dict__', None)
        d.pop('__weakref__', None)
        return mc(cls.__name__, cls.__bases__, d)
    return w


class _Math(types.ModuleType):
    pass


MODS = {}


def build():
    mods = npshim.build()
    mods['pint'] = Opaque('pint', UnitRegistry=UnitRegistry, Quantity=Quantity)
    mods['pyproj'] = Opaque('pyproj', Proj=Proj, transform=pyproj_transform)
    g = Opaque('shapely.geometry', Polygon=Polygon, MultiPoint=MultiPoint, Point=Point, box=box)
    geo = Opaque('shapely.geometry.geo', box=box, Polygon=Polygon)
    gb = Opaque('shapely.geometry.base', BaseGeometry=Geom)
    ops = Opaque('shapely.ops', transform=shapely_transform)
    mods.update({'shapely': Opaque('shapely', geometry=g, ops=ops), 'shapely.geometry': g, 'shapely.geometry.geo': geo,
                 'shapely.geometry.base': gb, 'shapely.ops': ops})
    gd = Opaque('gdal', InvGeoTransform=InvGeoTransform, ApplyGeoTransform=ApplyGeoTransform, GetDriverByName=GetDriverByName, Open=gdal_Open)
    for i, n in enumerate(('GDT_Unknown', 'GDT_Byte', 'GDT_UInt16', 'GDT_Int16', 'GDT_UInt32', 'GDT_Int32', 'GDT_Float32', 'GDT_Float64',
                           'GDT_CInt16', 'GDT_CInt32', 'GDT_CFloat32', 'GDT_CFloat64')):
        setattr(gd, n, i)
    gd.GDT_Int64, gd.GDT_UInt64, gd.GDT_Int8 = 13, 12, 14
    gd.GA_ReadOnly, gd.GA_Update = 0, 1
    osr, ogr = Opaque('osr', SpatialReference=SpatialReference), Opaque('ogr')
    ga = Opaque('gdal_array', NumericTypeCodeToGDALTypeCode=NumericTypeCodeToGDALTypeCode, GDALTypeCodeToNumericTypeCode=GDALTypeCodeToNumericTypeCode)
    mods.update({'gdal': gd, 'osr': osr, 'ogr': ogr, 'gdal_array': ga, 'osgeo': Opaque('osgeo', gdal=gd, osr=osr, ogr=ogr, gdal_array=ga),
                 'osgeo.gdal': gd, 'osgeo.osr': osr, 'osgeo.ogr': ogr, 'osgeo.gdal_array': ga})
    make_scipy(mods)
    make_datetime(mods)
    mods['six'] = Opaque('six', add_metaclass=add_metaclass)
    mods['math'] = build_math()
    mods['sklearn.decomposition'] = Opaque('sklearn.decomposition', PCA=PCA, IncrementalPCA=None)
    for n in ('pdal', 'matplotlib', 'matplotlib.pyplot', 'sklearn', 'seaborn',
              'seaborn.palettes', 'imageio', 'PIL', 'PIL.Image', 'utm', 'exifread', 'colorutils', 'gdal2tiles', 'keras', 'keras.models',
              'tensorflow', 'pandas', 'cv2', 'h5py'):
        mods[n] = Opaque(n)
    for n in list(mods):
        if '.' in n:
            p, c = n.rsplit('.', 1)
            if p in mods and c not in vars(mods[p]):
                setattr(mods[p], c, mods[n])
    MODS.update(mods)
    return mods
