"""C01: GeoTIFF pixel <-> world coordinates are inverse affine maps."""
from engine.capi import contract
from contracts.common import used_before, whole
GP = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.geotiff_point_calc'
AB = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc'
SP = dict(sample=(-8, 8), special=(0.0, 1.0, -1.0))


def geot(V, nm='g'):
    g = V.reals(nm, 6, **SP)
    V.assume(V.abs(g[1] * g[5] - g[2] * g[4]) > (0 if V.symbolic else 0.05))
    return g


def det(g):
    return g[1] * g[5] - g[2] * g[4]


@contract('native conversions are the affine map and its inverse (arrays)',
          [GP + ':GeotiffPointCalc._pixel_x_y_alt_to_lon_lat_native', GP + ':GeotiffPointCalc._lon_lat_alt_to_pixel_x_y_native',
           GP + ':GeotiffPointCalc.set_geot'])
def native(V):
    pc = V.mod(GP).GeotiffPointCalc()
    g = geot(V)
    pc.set_geot(g)
    n = V.dim('n')
    t = whole(V, True)
    xs, ys = V.array('xs', (n,), t), V.array('ys', (n,), t)
    alts, band = V.array('alts', (n,)), V.int('band', 0, 5)
    s = V.snapshot(xs, ys, alts)
    lon, lat = pc._pixel_x_y_alt_to_lon_lat_native(xs, ys, alts, band)
    V.ensure_array('world x', lon, (n,), lambda i: g[0] + xs[i] * g[1] + ys[i] * g[2])
    V.ensure_array('world y', lat, (n,), lambda i: g[3] + xs[i] * g[4] + ys[i] * g[5])
    bx, by = pc._lon_lat_alt_to_pixel_x_y_native(lon, lat, alts, band)
    V.ensure_array('pixel x recovered', bx, (n,), lambda i: xs[i], tol=1e-6)
    V.ensure_array('pixel y recovered', by, (n,), lambda i: ys[i], tol=1e-6)
    # the other order of composition
    lons, lats = V.array('lons', (n,)), V.array('lats', (n,))
    px, py = pc._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts, band)
    wx, wy = pc._pixel_x_y_alt_to_lon_lat_native(px, py, alts, band)
    V.ensure_array('world x recovered', wx, (n,), lambda i: lons[i], tol=1e-6)
    V.ensure_array('world y recovered', wy, (n,), lambda i: lats[i], tol=1e-6)
    V.unchanged('frame', s)


@contract('native conversions (numbers, no altitude)',
          [GP + ':GeotiffPointCalc._pixel_x_y_alt_to_lon_lat_native', GP + ':GeotiffPointCalc._lon_lat_alt_to_pixel_x_y_native'])
def native_scalar(V):
    pc = V.mod(GP).GeotiffPointCalc()
    g = geot(V)
    pc.set_geot(V.np.array(g))
    x, y = V.real('x'), V.real('y')
    lon, lat = pc._pixel_x_y_alt_to_lon_lat_native(x, y)
    V.ensure_eq('world x', lon, g[0] + x * g[1] + y * g[2])
    V.ensure_eq('world y', lat, g[3] + x * g[4] + y * g[5])
    bx, by = pc._lon_lat_alt_to_pixel_x_y_native(lon, lat)
    V.ensure_eq('pixel x recovered', bx, x, tol=1e-6)
    V.ensure_eq('pixel y recovered', by, y, tol=1e-6)


@contract('public conversions are inverse affine maps, altitude and band are irrelevant',
          [AB + ':AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y', AB + ':AbstractEarthOverheadPointCalc.pixel_x_y_alt_to_lon_lat',
           GP + ':GeotiffPointCalc._pixel_x_y_alt_to_lon_lat_native', GP + ':GeotiffPointCalc._lon_lat_alt_to_pixel_x_y_native'])
def public(V):
    pc = V.mod(GP).GeotiffPointCalc()
    g = geot(V)
    pc.set_geot(g)
    p = V.proj('A')
    pc.set_projection(p)
    with_alt, with_proj = V.choice('with_alt', [True, False]), V.choice('with_proj', [True, False])
    band = V.choice('band', [None, 0, 3])
    kind = V.choice('kind', ['1d', '2d', 'number'])
    D = det(g)
    sh = {'1d': (V.dim('n'),), '2d': (V.dim('n'), V.dim('m')), 'number': ()}[kind]
    if kind == 'number':
        a, b, h = V.real('lons'), V.real('lats'), V.real('alts')
        at = lambda q, i: q
        h = h if with_alt else 0
    else:
        a, b = V.array('lons', sh, whole(V)), V.array('lats', sh, whole(V))
        h = V.array('alts', sh) if with_alt else None
        at = lambda q, i: q[i]
    s = V.snapshot(*[q for q in (a, b, h) if q is not None and kind != 'number'])
    kw = dict(world_proj=p) if with_proj else {}
    if used_before(V, False):
        pc.lon_lat_alt_to_pixel_x_y(b, a, h, band=1)
        pc.pixel_x_y_alt_to_lon_lat(b, a, h, band=1)
    x, y = pc.lon_lat_alt_to_pixel_x_y(a, b, h, band=band, **kw)
    V.ensure_array('pixel x', x, sh, lambda *i: ((at(a, i) - g[0]) * g[5] - (at(b, i) - g[3]) * g[2]) / D, tol=1e-6)
    V.ensure_array('pixel y', y, sh, lambda *i: ((at(b, i) - g[3]) * g[1] - (at(a, i) - g[0]) * g[4]) / D, tol=1e-6)
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(x, y, h, band=band, **kw)
    V.ensure_array('world x recovered', lon, sh, lambda *i: at(a, i), tol=1e-6)
    V.ensure_array('world y recovered', lat, sh, lambda *i: at(b, i), tol=1e-6)
    V.unchanged('frame', s)


@contract('the inverse transform follows a replaced geotransform', [GP + ':GeotiffPointCalc.set_geot', GP + ':GeotiffPointCalc.get_geot',
                                                                    GP + ':GeotiffPointCalc.get_inv_geot'])
def replace(V):
    pc = V.mod(GP).GeotiffPointCalc()
    g1, g2 = geot(V, 'g'), geot(V, 'h')
    pc.set_geot(g1)
    pc._lon_lat_alt_to_pixel_x_y_native(V.real('w0'), V.real('w1'))
    pc.set_geot(g2)
    got, inv = pc.get_geot(), pc.get_inv_geot()
    for k in range(6):
        V.ensure_eq('stored coefficient %d' % k, got[k], g2[k])
    x, y = V.real('x'), V.real('y')
    wx, wy = g2[0] + x * g2[1] + y * g2[2], g2[3] + x * g2[4] + y * g2[5]
    V.ensure_eq('inverse x', inv[0] + inv[1] * wx + inv[2] * wy, x, tol=1e-6)
    V.ensure_eq('inverse y', inv[3] + inv[4] * wx + inv[5] * wy, y, tol=1e-6)
    px, py = pc._lon_lat_alt_to_pixel_x_y_native(wx, wy)
    V.ensure_eq('pixel x', px, x, tol=1e-6)
    V.ensure_eq('pixel y', py, y, tol=1e-6)


@contract('the native extent is the box of the two image corners', [GP + ':GeotiffPointCalc.get_world_extent_native', GP + ':GeotiffPointCalc.set_npix_x',
                                                                    GP + ':GeotiffPointCalc.set_npix_y'])
def extent(V):
    pc = V.mod(GP).GeotiffPointCalc()
    g = geot(V)
    pc.set_geot(g)
    nx, ny = V.dim('nx'), V.dim('ny')
    if used_before(V):
        pc.set_npix_x(V.dim('other nx'))
        pc.set_npix_y(V.dim('other ny'))
        pc.set_geot(geot(V, 'other g'))
        pc.get_world_extent_native()
        pc.set_geot(g)
    pc.set_npix_x(nx)
    pc.set_npix_y(ny)
    b = pc.get_world_extent_native().bounds
    x1, y1 = g[0] + nx * g[1] + ny * g[2], g[3] + nx * g[4] + ny * g[5]
    V.ensure_eq('min x', b[0], V.min(g[0], x1))
    V.ensure_eq('min y', b[1], V.min(g[3], y1))
    V.ensure_eq('max x', b[2], V.max(g[0], x1))
    V.ensure_eq('max y', b[3], V.max(g[3], y1))


class _SRS:
    def __init__(self):
        self.w = None

    def ImportFromWkt(self, w):
        self.w = w

    def ExportToProj4(self):
        return self.w


@contract('a point calculator read from a file uses the geotransform and size of the file', [GP + ':GeotiffPointCalc.init_from_file'])
def from_file(V):
    m = V.mod(GP)
    g = geot(V)
    nx, ny = V.dim('nx'), V.dim('ny')

    class DS:
        RasterXSize, RasterYSize = nx, ny

        def GetGeoTransform(self):
            return tuple(g)

        def GetProjection(self):
            return '+proj=utm +zone=18 +datum=WGS84'
    V.stub(m.gdal, 'Open', lambda f, *a: DS())
    V.stub(m.osr, 'SpatialReference', _SRS)
    pc = m.GeotiffPointCalc.init_from_file('image.tif')
    x, y = V.real('x'), V.real('y')
    lon, lat = pc._pixel_x_y_alt_to_lon_lat_native(x, y)
    V.ensure_eq('world x', lon, g[0] + x * g[1] + y * g[2])
    V.ensure_eq('world y', lat, g[3] + x * g[4] + y * g[5])
    px, py = pc._lon_lat_alt_to_pixel_x_y_native(lon, lat)
    V.ensure_eq('pixel x', px, x, tol=1e-6)
    V.ensure_eq('pixel y', py, y, tol=1e-6)
    b = pc.get_world_extent_native().bounds
    V.ensure_eq('extent min x', b[0], V.min(g[0], g[0] + nx * g[1] + ny * g[2]))
    V.ensure_eq('extent max y', b[3], V.max(g[3], g[3] + nx * g[4] + ny * g[5]))
