"""C04: pinhole and ideal focal-plane cameras obey the collinearity equations."""
from fractions import Fraction
from engine.capi import contract
from contracts.common import rotation, used_before, whole
B = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.'
PC = B + 'pinhole_camera'
FP = B + 'ideal_pinhole_fpa_local_utm_point_calc'
PJ = 'resippy.utils.proj_utils'

LEN = {'meters': 1, 'km': 1000, 'feet': Fraction(3048, 10000), 'mm': Fraction(1, 1000), 'micrometer': Fraction(1, 10**6),
       'cm': Fraction(1, 100)}


def length(V, x, unit):
    f = LEN[unit]
    return x * f if V.symbolic else x * float(f)


def angle(V, x, unit):
    if unit == 'radians':
        return x
    if unit == 'degrees':
        return x * V.pi / 180
    if unit == 'milliradians':
        return x / 1000
    return x / 1000000       # microradians


def pose(V):
    p = {}
    p['x'], p['y'], p['z'] = [V.real(n, sample=(-50, 50)) for n in ('X', 'Y', 'Z')]
    p['o'], p['p'], p['k'] = [V.real(n, sample=(-4, 4), special=(0.0,)) for n in ('omega', 'phi', 'kappa')]
    p['f'] = V.real('f', sample=(1, 100))
    V.assume(p['f'] > 0)
    return p


UNITS = [('meters', 'meters', 'meters', 'radians', 'radians', 'radians', 'mm'),
         ('feet', 'km', 'cm', 'degrees', 'milliradians', 'radians', 'meters'),
         ('km', 'cm', 'feet', 'radians', 'degrees', 'milliradians', 'cm'),
         ('cm', 'feet', 'km', 'milliradians', 'radians', 'degrees', 'micrometer')]


def project(V, p, u, wx, wy, wz):
    """the collinearity equations in metres and radians; also the depth along the axis"""
    X, Y, Z = length(V, p['x'], u[0]), length(V, p['y'], u[1]), length(V, p['z'], u[2])
    M = rotation(V, 'rpy', angle(V, p['o'], u[3]), angle(V, p['p'], u[4]), angle(V, p['k'], u[5]))
    f = length(V, p['f'], u[6])
    d = [wx - X, wy - Y, wz - Z]
    r = [sum(M[i][j] * d[j] for j in range(3)) for i in range(3)]
    return f, r


def far(V, den):
    return V.abs(den) > (0 if V.symbolic else 1e-2)


@contract('the pinhole camera projects by the collinearity equations in metres and radians, for every unit',
          [PC + ':PinholeCamera.init_pinhole_from_coeffs', PC + ':PinholeCamera.world_to_image_plane'])
def pinhole(V):
    cam = V.mod(PC).PinholeCamera()
    p = pose(V)
    u = V.choice('units', UNITS)
    if used_before(V):
        cam.init_pinhole_from_coeffs(*V.reals('other pose', 6, sample=(-4, 4)), V.real('other f', sample=(1, 100)))
        cam.world_to_image_plane(*V.reals('other point', 3, sample=(-90, 90)))
    cam.init_pinhole_from_coeffs(p['x'], p['y'], p['z'], p['o'], p['p'], p['k'], p['f'], x_units=u[0], y_units=u[1], z_units=u[2],
                                 omega_units=u[3], phi_units=u[4], kappa_units=u[5], focal_length_units=u[6])
    wx, wy, wz = [V.real(n, sample=(-90, 90)) for n in ('wx', 'wy', 'wz')]
    f, r = project(V, p, u, wx, wy, wz)
    V.assume(far(V, r[2]))
    x, y = cam.world_to_image_plane(wx, wy, wz)
    V.ensure_eq('image plane x', x, -f * r[0] / r[2], tol=1e-6)
    V.ensure_eq('image plane y', y, -f * r[1] / r[2], tol=1e-6)


@contract('the default units are metres, radians and millimetres; the pose is stored in metres and radians',
          [PC + ':PinholeCamera.init_pinhole_from_coeffs'])
def pinhole_default(V):
    cam = V.mod(PC).PinholeCamera()
    p = pose(V)
    cam.init_pinhole_from_coeffs(p['x'], p['y'], p['z'], p['o'], p['p'], p['k'], p['f'])
    for lab, got, want in (('X', cam.X, p['x']), ('Y', cam.Y, p['y']), ('Z', cam.Z, p['z']), ('omega', cam.omega, p['o']),
                           ('phi', cam.phi, p['p']), ('kappa', cam.kappa, p['k']), ('f', cam.f, length(V, p['f'], 'mm'))):
        V.ensure_eq(lab, got, want)


@contract('arrays of world points are projected element by element', [PC + ':PinholeCamera.world_to_image_plane'])
def pinhole_arrays(V):
    cam = V.mod(PC).PinholeCamera()
    p = pose(V)
    u = UNITS[0]
    cam.init_pinhole_from_coeffs(p['x'], p['y'], p['z'], p['o'], p['p'], p['k'], p['f'])
    n = V.dim('n')
    wx, wy, wz = [V.array(q, (n,), whole(V), sample=(-90, 90)) for q in ('wx', 'wy', 'wz')]
    s = V.snapshot(wx, wy, wz)
    x, y = cam.world_to_image_plane(wx, wy, wz)
    ok = lambda i: far(V, project(V, p, u, wx[i], wy[i], wz[i])[1][2])

    def el(q):
        def g(i):
            f, r = project(V, p, u, wx[i], wy[i], wz[i])
            return -f * r[q] / r[2]
        return g
    V.ensure_array('image plane x', x, (n,), el(0), where=ok, tol=1e-6)
    V.ensure_array('image plane y', y, (n,), el(1), where=ok, tol=1e-6)
    V.unchanged('frame', s)


def fpa_units(V):
    return V.choice('units', [('meters', 'radians', 'radians', 'radians', 'micrometer', 'micrometer', 'mm'),
                              ('feet', 'degrees', 'milliradians', 'radians', 'mm', 'micrometer', 'cm'),
                              ('km', 'radians', 'degrees', 'milliradians', 'micrometer', 'mm', 'meters'),
                              ('meters', 'milliradians', 'radians', 'degrees', 'cm', 'mm', 'mm')])


def fpa_inputs(V):
    p = pose(V)
    q = {'npix_x': V.int('npix_x', 1, None, sample=(1, 4000)), 'npix_y': V.int('npix_y', 1, None, sample=(1, 4000)),
         'pp_x': V.real('pp_x', sample=(.5, 20)), 'pp_y': V.real('pp_y', sample=(.5, 20))}
    V.assume(q['pp_x'] > 0)
    V.assume(q['pp_y'] > 0)
    q['flip_x'], q['flip_y'] = V.choice('flip_x', [False, True]), V.choice('flip_y', [False, True])
    return p, q


def check_fpa(V, pc, p, q, u, X, Y, tag=''):
    pp = dict(p, x=X, y=Y)
    pu = ('meters', 'meters', u[0], u[1], u[2], u[3], u[6])
    wx, wy, wz = [V.real(n, sample=(-90, 90)) for n in ('wx', 'wy', 'wz')]
    f, r = project(V, pp, pu, wx, wy, wz)
    V.assume(far(V, r[2]))
    if used_before(V, False):
        pc._lon_lat_alt_to_pixel_x_y_native(wx + 3, wy - 2, wz + 1, 0)
    x, y = pc._lon_lat_alt_to_pixel_x_y_native(wx, wy, wz)
    sx, sy = (-1 if q['flip_x'] else 1), (-1 if q['flip_y'] else 1)
    half = Fraction(1, 2) if V.symbolic else .5
    V.ensure_eq('pixel x' + tag, x, sx * (-f * r[0] / r[2]) / length(V, q['pp_x'], u[4]) + q['npix_x'] * half, tol=1e-6)
    V.ensure_eq('pixel y' + tag, y, sy * (-f * r[1] / r[2]) / length(V, q['pp_y'], u[5]) + q['npix_y'] * half, tol=1e-6)


@contract('the ideal focal plane array divides by the pitch, adds half the detector and mirrors flipped axes (local parameters)',
          [FP + ':IdealPinholeFpaLocalUtmPointCalc.init_from_local_params', FP + ':IdealPinholeFpaLocalUtmPointCalc._lon_lat_alt_to_pixel_x_y_native'])
def fpa_local(V):
    m = V.mod(FP)
    p, q = fpa_inputs(V)
    u = fpa_units(V)
    nat = V.proj('B')
    pc = m.IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(
        p['x'], p['y'], p['z'], nat, p['o'], p['p'], p['k'], q['npix_x'], q['npix_y'], q['pp_x'], q['pp_y'], p['f'], alt_units=u[0],
        omega_units=u[1], phi_units=u[2], kappa_units=u[3], pixel_pitch_x_units=u[4], pixel_pitch_y_units=u[5], focal_length_units=u[6],
        flip_x=q['flip_x'], flip_y=q['flip_y'])
    V.ensure('projection', pc.get_projection().srs == nat.srs)
    check_fpa(V, pc, p, q, u, p['x'], p['y'])


@contract('the ideal focal plane array built from longitude and latitude is placed at their UTM coordinates',
          [FP + ':IdealPinholeFpaLocalUtmPointCalc.init_from_wgs84_params', FP + ':IdealPinholeFpaLocalUtmPointCalc._lon_lat_alt_to_pixel_x_y_native'])
def fpa_wgs84(V):
    m = V.mod(FP)
    p, q = fpa_inputs(V)
    u = fpa_units(V)
    utm = V.proj('B')
    seen = []

    def local(lon, lat):
        seen.append((lon, lat))
        return utm
    V.stub(m.proj_utils, 'decimal_degrees_to_local_utm_proj', local)
    lon, lat = V.real('lon', sample=(-78, -72)), V.real('lat', sample=(30, 50))
    pc = m.IdealPinholeFpaLocalUtmPointCalc.init_from_wgs84_params(
        lon, lat, p['z'], p['o'], p['p'], p['k'], q['npix_x'], q['npix_y'], q['pp_x'], q['pp_y'], p['f'], alt_units=u[0],
        omega_units=u[1], phi_units=u[2], kappa_units=u[3], pixel_pitch_x_units=u[4], pixel_pitch_y_units=u[5], focal_length_units=u[6],
        flip_x=q['flip_x'], flip_y=q['flip_y'])
    V.ensure('projection', pc.get_projection().srs == utm.srs)
    V.ensure_eq('utm zone of lon', seen[0][0], lon)
    V.ensure_eq('utm zone of lat', seen[0][1], lat)
    X, Y = V.transform(m.crs_defs.PROJ_4326, utm, lon, lat)
    pp, pu = dict(p, x=X, y=Y), ('meters', 'meters', u[0], u[1], u[2], u[3], u[6])
    dx, dy, wz = V.real('dx', sample=(-90, 90)), V.real('dy', sample=(-90, 90)), V.real('wz', sample=(-90, 90))
    wx, wy = X + dx, Y + dy
    f, r = project(V, pp, pu, wx, wy, wz)
    V.assume(far(V, r[2]) if V.symbolic else abs(r[2]) > 1)
    x, y = pc._lon_lat_alt_to_pixel_x_y_native(wx, wy, wz)
    sx, sy = (-1 if q['flip_x'] else 1), (-1 if q['flip_y'] else 1)
    half = Fraction(1, 2) if V.symbolic else .5
    V.ensure_eq('pixel x', x, sx * (-f * r[0] / r[2]) / length(V, q['pp_x'], u[4]) + q['npix_x'] * half, tol=1e-4)
    V.ensure_eq('pixel y', y, sy * (-f * r[1] / r[2]) / length(V, q['pp_y'], u[5]) + q['npix_y'] * half, tol=1e-4)


@contract('defaults of the focal plane array: metres, radians, micrometres, millimetres, no flip; arrays element by element',
          [FP + ':IdealPinholeFpaLocalUtmPointCalc.init_from_local_params', FP + ':IdealPinholeFpaLocalUtmPointCalc._lon_lat_alt_to_pixel_x_y_native'])
def fpa_default(V):
    m = V.mod(FP)
    p, q = fpa_inputs(V)
    pc = m.IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(
        p['x'], p['y'], p['z'], V.proj('B'), p['o'], p['p'], p['k'], q['npix_x'], q['npix_y'], q['pp_x'], q['pp_y'], p['f'])
    n = V.dim('n')
    wx, wy, wz = [V.array(a, (n,), whole(V), sample=(-90, 90)) for a in ('wx', 'wy', 'wz')]
    s = V.snapshot(wx, wy, wz)
    pu = UNITS[0]
    if used_before(V):
        pc._lon_lat_alt_to_pixel_x_y_native(*V.reals('other point', 3, sample=(-90, 90)))
    x, y = pc._lon_lat_alt_to_pixel_x_y_native(wx, wy, wz, 0)
    ok = lambda i: far(V, project(V, p, pu, wx[i], wy[i], wz[i])[1][2])
    half = Fraction(1, 2) if V.symbolic else .5

    def el(k, pitch, npix):
        def g(i):
            f, r = project(V, p, pu, wx[i], wy[i], wz[i])
            return -f * r[k] / r[2] / length(V, q[pitch], 'micrometer') + q[npix] * half
        return g
    V.ensure_array('pixel x', x, (n,), el(0, 'pp_x', 'npix_x'), where=ok, tol=1e-6)
    V.ensure_array('pixel y', y, (n,), el(1, 'pp_y', 'npix_y'), where=ok, tol=1e-6)
    V.unchanged('frame', s)


@contract('the instantaneous field of view is atan(pitch / f) per axis in the requested units',
          [FP + ':IdealPinholeFpaLocalUtmPointCalc.compute_ifov_x', FP + ':IdealPinholeFpaLocalUtmPointCalc.compute_ifov_y'])
def ifov(V):
    m = V.mod(FP)
    p, q = fpa_inputs(V)
    u = fpa_units(V)
    pc = m.IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(
        p['x'], p['y'], p['z'], V.proj('B'), p['o'], p['p'], p['k'], q['npix_x'], q['npix_y'], q['pp_x'], q['pp_y'], p['f'], alt_units=u[0],
        omega_units=u[1], phi_units=u[2], kappa_units=u[3], pixel_pitch_x_units=u[4], pixel_pitch_y_units=u[5], focal_length_units=u[6])
    f = length(V, p['f'], u[6])
    ax, ay = V.atan(length(V, q['pp_x'], u[4]) / f), V.atan(length(V, q['pp_y'], u[5]) / f)
    for unit in V.choice('asked in turn', [('radians', 'degrees', 'milliradians', 'microradians'), ('microradians', 'milliradians', 'radians', 'degrees', 'microradians')]):
        one = angle(V, 1 if V.symbolic else 1.0, unit)
        V.ensure_eq('ifov x in ' + unit, pc.compute_ifov_x(output_units=unit), ax / one)
        V.ensure_eq('ifov y in ' + unit, pc.compute_ifov_y(output_units=unit), ay / one)
    V.ensure_eq('ifov x default', pc.compute_ifov_x(), ax * 1000000)
    V.ensure_eq('ifov y default', pc.compute_ifov_y(), ay * 1000000)


@contract('the local UTM projection has the zone and hemisphere of the position', [PJ + ':decimal_degrees_to_local_utm_proj'], max_paths=1300)
def utm_zone(V):
    m = V.mod(PJ)
    zone = V.choice('zone', list(range(1, 61)))
    letter = V.choice('letter', 'CDEFGHJKLMNPQRSTUVWX')
    lon, lat = V.real('lon', sample=(-180, 179)), V.real('lat', sample=(-79, 83))
    seen = []

    def from_latlon(a, b, *rest, **kw):
        seen.append((a, b))
        return (500000.0, 0.0, zone, letter)
    V.stub(m.utm, 'from_latlon', from_latlon)
    srs = m.decimal_degrees_to_local_utm_proj(lon, lat).srs
    words = srs.split()
    V.ensure_eq('latitude looked up', seen[0][0], lat)
    V.ensure_eq('longitude looked up', seen[0][1], lon)
    V.ensure('utm', '+proj=utm' in words)
    V.ensure('zone', '+zone=%d' % zone in words)
    V.ensure('hemisphere', ('+south' in words or '+south=True' in words) == (letter < 'N'))
    V.ensure('ellipsoid', '+ellps=WGS84' in words or '+datum=WGS84' in words)
