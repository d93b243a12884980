"""C08: the public world <-> pixel conversions are shape-preserving, elementwise and CRS-aware; band dispatch."""
from engine.capi import contract
from contracts.common import used_before, whole
D = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.'
AB = D + 'abstract_earth_overhead_point_calc'
SM = D + 'earth_overhead_sensor_model'
IDEAL = D + 'ideal_pinhole_fpa_local_utm_point_calc'
DEG = dict(sample=(-70, 70))
TO = [AB + ':AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y']
FROM = [AB + ':AbstractEarthOverheadPointCalc.pixel_x_y_alt_to_lon_lat']


def model(V, native_inverse=False, tag=''):
    """an arbitrary camera model: each coordinate an arbitrary function of its three inputs and the band"""
    m = V.mod(AB)
    mx, my = V.map(tag + 'model x', 4), V.map(tag + 'model y', 4)
    gx, gy = V.map(tag + 'inverse x', 4), V.map(tag + 'inverse y', 4)

    class Model(m.AbstractEarthOverheadPointCalc):
        bands = []

        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            self.bands.append(band)
            b = -1 if band is None else band
            return mx(lons, lats, alts, b), my(lons, lats, alts, b)

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            self.bands.append(band)
            if not native_inverse:
                return None
            b = -1 if band is None else band
            return gx(pixel_xs, pixel_ys, alts, b), gy(pixel_xs, pixel_ys, alts, b)
    pc = Model()
    pc.bands = []
    pc.fx, pc.fy, pc.ix, pc.iy = mx, my, gx, gy
    return pc


def at(q, i):
    return q[i] if i != () and hasattr(q, 'shape') else q


def inputs(V, kind, names, **kw):
    if kind == 'number':
        return [V.real(n, **kw) for n in names], ()
    sh = (V.dim('n'),) if kind == '1d' else (V.dim('ny'), V.dim('nx'))
    return [V.array(n, sh, whole(V, kind == '1d'), **kw) for n in names], sh


@contract('world-to-pixel conversion keeps the shape, works element by element and reprojects exactly when the projections differ', TO)
def to_pixel(V):
    pc = model(V)
    pc.set_projection(V.proj('B'))
    kind = V.choice('kind', ['1d', '2d', 'number'])
    world = V.choice('world projection', [None, 'B', 'A', 'C'])
    (lons, lats), sh = inputs(V, kind, ('lons', 'lats'), sample=(-80, -70) if world in ('A', 'C') else V.choice('range', [(-80, -70), (-400, 400), (0, 9e5)]) if not V.symbolic else None)
    if kind == 'number':
        hk = V.choice('altitude', ['none', 'number'])
    else:
        hk = V.choice('altitude', ['none', 'number', 'array'])
    h = {'none': None, 'number': V.real('h', sample=(0, 500))}.get(hk, 0)
    if hk == 'array':
        h = V.array('alts', sh, sample=(0, 500))
    band = V.choice('band', [None, 0, 2])
    s = V.snapshot(*[q for q in (lons, lats, h) if hasattr(q, 'shape')])
    kw = {} if world is None else {'world_proj': V.proj(world)}
    if band is not None:
        kw['band'] = band
    if used_before(V, False):
        pc.lon_lat_alt_to_pixel_x_y(lons + .5, lats, h, world_proj=V.choice('earlier', [None, V.proj('A'), V.proj('C')]), band=1)
    x, y = pc.lon_lat_alt_to_pixel_x_y(lons, lats, h, **kw)
    b = -1 if band is None else band

    def src(i):
        w = (at(lons, i), at(lats, i), 0.0 if h is None else at(h, i))
        if world in ('A', 'C'):
            w = V.transform(V.proj(world), V.proj('B'), *w)
        return w
    V.ensure_array('pixel x', x, sh, lambda *i: pc.fx(*src(i), b), tol=1e-5)
    V.ensure_array('pixel y', y, sh, lambda *i: pc.fy(*src(i), b), tol=1e-5)
    V.unchanged('frame', s)


@contract('pixel-to-world conversion keeps the shape, works element by element and reprojects exactly when the projections differ', FROM)
def to_world(V):
    pc = model(V, True)
    pc.set_projection(V.proj('B'))
    kind = V.choice('kind', ['1d', '2d', 'number'])
    world = V.choice('world projection', [None, 'B', 'A', 'C'])
    (px, py, h), sh = inputs(V, kind, ('pixel x', 'pixel y', 'alts'), sample=(0, 500))
    band = V.choice('band', [None, 0, 2])
    s = V.snapshot(*[q for q in (px, py, h) if hasattr(q, 'shape')])
    kw = {} if world is None else {'world_proj': V.proj(world)}
    if band is not None:
        kw['band'] = band
    if used_before(V, False):
        pc.pixel_x_y_alt_to_lon_lat(px + .5, py, h, world_proj=V.choice('earlier', [None, V.proj('A'), V.proj('C')]), band=1)
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(px, py, h, **kw)
    b = -1 if band is None else band

    def dst(i):
        w = (at(px, i), at(py, i), at(h, i), b)
        w = pc.ix(*w), pc.iy(*w)
        if world in ('A', 'C'):
            w = V.transform(V.proj('B'), V.proj(world), *w)
        return w
    V.ensure_array('world x', lon, sh, lambda *i: dst(i)[0], tol=1e-5)
    V.ensure_array('world y', lat, sh, lambda *i: dst(i)[1], tol=1e-5)
    V.unchanged('frame', s)


SMF = [SM + ':EarthOverheadSensorModel.' + n for n in ('_lon_lat_alt_to_pixel_x_y_native', '_pixel_x_y_alt_to_lon_lat_native')]


@contract('a sensor model with any number of bands converts each band by its own point calculator', SMF + TO + FROM)
def dispatch(V):
    m = V.mod(SM)
    sm = m.EarthOverheadSensorModel()
    fx, fy, gx, gy = [V.map(t, 5) for t in ('model x', 'model y', 'inverse x', 'inverse y')]

    class Calc:
        def __init__(self, k):
            self.k = k

        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            return fx(lons, lats, alts, self.k, band), fy(lons, lats, alts, self.k, band)

        def _pixel_x_y_alt_to_lon_lat_native(self, xs, ys, alts=None, band=None):
            return gx(xs, ys, alts, self.k, band), gy(xs, ys, alts, self.k, band)
    nb = V.dim('n bands')
    band = V.int('band', 0, nb - 1)
    sm.set_point_calcs(V.seq(nb, Calc))
    sm._projection = V.proj('B')
    V.ensure_eq('number of point calculators', sm.get_num_point_calcs(), nb)
    n = V.dim('n')
    a, b, h = V.array('a', (n,)), V.array('b', (n,)), V.array('h', (n,))
    if used_before(V, False):
        sm.lon_lat_alt_to_pixel_x_y(b, a, h, band=0)
        sm.pixel_x_y_alt_to_lon_lat(b, a, h, band=0)
        if V.choice('replaced', [True, False]):
            fx, fy, gx, gy = [V.map(t, 5) for t in ('new model x', 'new model y', 'new inverse x', 'new inverse y')]
    x, y = sm.lon_lat_alt_to_pixel_x_y(a, b, h, band=band)
    V.ensure_array('pixel x', x, (n,), lambda i: fx(a[i], b[i], h[i], band, band))
    V.ensure_array('pixel y', y, (n,), lambda i: fy(a[i], b[i], h[i], band, band))
    x, y = sm.pixel_x_y_alt_to_lon_lat(a, b, h, band=band)
    V.ensure_array('world x', x, (n,), lambda i: gx(a[i], b[i], h[i], band, band))
    V.ensure_array('world y', y, (n,), lambda i: gy(a[i], b[i], h[i], band, band))


@contract('setting the projection or the distortion model reaches every band (1 to 4 bands)',
          [SM + ':EarthOverheadSensorModel.' + n for n in ('set_projection', 'set_distortion_model', 'add_point_calc', 'update_point_calc', 'get_point_calc',
                                                           'set_point_calcs', 'get_point_calcs', 'get_num_point_calcs')])
def setters(V):
    m, ab = V.mod(SM), V.mod(AB)

    class Calc(ab.AbstractEarthOverheadPointCalc):
        dm = None

        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            return None

        def _pixel_x_y_alt_to_lon_lat_native(self, xs, ys, alts=None, band=None):
            return None

        def set_distortion_model(self, d):
            self.dm = d
    n = V.choice('n bands', [1, 2, 3, 4])
    sm = m.EarthOverheadSensorModel()
    other = m.EarthOverheadSensorModel()
    calcs = [Calc() for _ in range(n)]
    for c in calcs:
        sm.add_point_calc(c)
    V.ensure('models do not share bands', other.get_num_point_calcs() == 0)
    k = V.choice('replaced', list(range(n)))
    new = Calc()
    old = calcs[k]
    sm.update_point_calc(k, new)
    calcs[k] = new
    sm.set_projection(V.proj('A'))
    sm.set_distortion_model('brown')
    V.ensure('count', sm.get_num_point_calcs() == n)
    V.ensure('own projection', sm.get_projection().srs == V.proj('A').srs)
    for i, c in enumerate(calcs):
        V.ensure('band %d in place' % i, sm.get_point_calc(i) is c and sm.get_point_calcs()[i] is c)
        V.ensure('projection of band %d' % i, c.get_projection() is not None and c.get_projection().srs == V.proj('A').srs)
        V.ensure('distortion model of band %d' % i, c.dm == 'brown')
    V.ensure('a replaced band is not touched', old.get_projection() is None and old.dm is None)
