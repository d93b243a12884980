"""C09: the iterative pixel-to-world solver."""
from engine.capi import contract
from contracts.common import used_before, whole
D = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.'
AB = D + 'abstract_earth_overhead_point_calc'
SOLVER = [AB + ':AbstractEarthOverheadPointCalc._pixel_x_y_alt_to_lon_lat_native_solver']
PUBLIC = SOLVER + [AB + ':AbstractEarthOverheadPointCalc.pixel_x_y_alt_to_lon_lat', AB + ':AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y']


def camera(V, fx, fy):
    m = V.mod(AB)
    count = [0]

    class Model(m.AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            if not V.symbolic:
                count[0] += 1
            return fx(lons, lats, alts), fy(lons, lats, alts)

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            return None
    pc = Model()
    pc.set_projection(V.proj('B'))
    pc.set_approximate_lon_lat_center(V.real('lon0', sample=(-5, 5)), V.real('lat0', sample=(-5, 5)))
    return pc, count


def affine(V):
    a = [V.real('a%d' % i, sample=(-4, 4), special=(0.0, 1.0, -1.0)) for i in range(4)]
    b = [V.real('b%d' % i, sample=(-4, 4), special=(0.0, 1.0, -1.0)) for i in range(4)]
    det = a[1] * b[2] - a[2] * b[1]
    V.assume(V.not_(V.eq(det, 0)) if V.symbolic else abs(det) > 0.3)
    fx = lambda lon, lat, alt: a[0] + a[1] * lon + a[2] * lat + a[3] * alt
    fy = lambda lon, lat, alt: b[0] + b[1] * lon + b[2] * lat + b[3] * alt
    return a, b, det, fx, fy


def pixels(V, kind):
    sh = (V.dim('n'),) if kind == '1d' else (V.dim('ny'), V.dim('nx'))
    t = whole(V)
    px, py = V.array('px', sh, t, sample=(-50, 50)), V.array('py', sh, t, sample=(-50, 50))
    return px, py, sh


def at(h, i):
    return h[i] if hasattr(h, 'shape') else h


@contract('for an affine model every step reaches the exact solution', PUBLIC)
def affine_exact(V):
    a, b, det, fx, fy = affine(V)
    pc, _ = camera(V, fx, fy)
    px, py, sh = pixels(V, V.choice('kind', ['1d', '2d']))
    h = V.array('alts', sh, whole(V)) if V.choice('altitude', ['array', 'number']) == 'array' else V.real('alt')
    d1, d2 = V.real('d_lon', sample=(.1, 2)), V.real('d_lat', sample=(.1, 2))
    V.assume(d1 > 0)
    V.assume(d2 > 0)
    N = V.int('max_iter', 1, None, sample=(1, 5))
    s = V.snapshot(*[q for q in (px, py, h) if hasattr(q, 'shape')])
    if used_before(V, False):
        pc._pixel_x_y_alt_to_lon_lat_native_solver(py, px, h, d_lon=d2, d_lat=d1)
    lon, lat = pc._pixel_x_y_alt_to_lon_lat_native_solver(px, py, h, d_lon=d1, d_lat=d2, max_pixel_error=0.01, max_iter=N)

    def u(i):
        return px[i] - a[0] - a[3] * at(h, i), py[i] - b[0] - b[3] * at(h, i)
    V.ensure_array('longitude', lon, sh, lambda *i: (u(i)[0] * b[2] - u(i)[1] * a[2]) / det, tol=1e-5)
    V.ensure_array('latitude', lat, sh, lambda *i: (u(i)[1] * a[1] - u(i)[0] * b[1]) / det, tol=1e-5)
    V.unchanged('frame', s)


def smooth(V):
    """an arbitrary model (concretely: a mildly nonlinear one)"""
    if V.symbolic:
        return V.map('model x', 3), V.map('model y', 3)
    a, b, det, fx, fy = affine(V)
    e = V.real('curvature', sample=(0, .05))
    np = V.np
    return (lambda x, y, z: fx(x, y, z) + e * np.sin(x + y)), (lambda x, y, z: fy(x, y, z) + e * np.cos(x - y) + e * x * y / 50)


@contract('unless the iteration limit was reached every returned point projects within the threshold of its pixel', SOLVER + PUBLIC[2:], samples=400)
def converged(V):
    fx, fy = smooth(V)
    pc, count = camera(V, fx, fy)
    px, py, sh = pixels(V, V.choice('kind', ['1d', '2d']))
    h = V.array('alts', sh, whole(V)) if V.choice('altitude', ['array', 'number']) == 'array' else V.real('alt')
    d1, d2 = V.real('d_lon', sample=(.1, 1)), V.real('d_lat', sample=(.1, 1))
    V.assume(d1 > 0)
    V.assume(d2 > 0)
    N = V.int('max_iter', 1, None, sample=(60, 80))
    eps = V.real('threshold', sample=(.001, .2))
    V.assume(eps > 0)
    s = V.snapshot(*[q for q in (px, py, h) if hasattr(q, 'shape')])
    if used_before(V, False):
        pc._pixel_x_y_alt_to_lon_lat_native_solver(py, px, h, d_lon=d2, d_lat=d1, max_iter=3)
        count[0] = 0
    lon, lat = pc._pixel_x_y_alt_to_lon_lat_native_solver(px, py, h, d_lon=d1, d_lat=d2, max_pixel_error=eps, max_iter=N)
    V.ensure_shape('longitude', lon, sh)
    V.ensure_shape('latitude', lat, sh)
    if not (V.exhausted() if V.symbolic else count[0] >= 2 * N):
        e = eps * (1 if V.symbolic else 1.0000001)
        V.forall('pixel x reached', sh, lambda *i: V.abs(fx(lon[i], lat[i], at(h, i)) - px[i]) <= e)
        V.forall('pixel y reached', sh, lambda *i: V.abs(fy(lon[i], lat[i], at(h, i)) - py[i]) <= e)
    V.unchanged('frame', s)


@contract('the public conversion with the automatic step solves affine models exactly', PUBLIC, bounded=True,
          note='the step ladder is a table of about 1000 machine numbers searched with np.where: executed on samples only')
def public(V):
    a, b, det, fx, fy = affine(V)
    pc, _ = camera(V, fx, fy)
    px, py, sh = pixels(V, V.choice('kind', ['1d', '2d']))
    h = V.real('alt')
    s = V.snapshot(px, py)
    if used_before(V):
        pc.pixel_x_y_alt_to_lon_lat(py, px, h + V.choice('higher', [0, 50]))
        pc.set_approximate_lon_lat_center(*V.reals('center', 2, sample=(-5, 5)))
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(px, py, h)

    def u(i):
        return px[i] - a[0] - a[3] * h, py[i] - b[0] - b[3] * h
    V.ensure_array('longitude', lon, sh, lambda *i: (u(i)[0] * b[2] - u(i)[1] * a[2]) / det, tol=1e-4)
    V.ensure_array('latitude', lat, sh, lambda *i: (u(i)[1] * a[1] - u(i)[0] * b[1]) / det, tol=1e-4)
    V.unchanged('frame', s)
