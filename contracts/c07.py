"""C07: frame cameras with lens distortion apply the Brown model."""
from engine.capi import contract
from contracts.common import rotation, mm, used_before, whole
B = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.'
OC = B + 'opencv_point_calc'
P4 = B + 'pix4d_point_calc'
ANG = dict(sample=(-.5, .5), special=(0.0,))
K = dict(sample=(-.2, .2), special=(0.0,))


def far(V, den):
    return V.not_(V.eq(den, 0)) if V.symbolic else abs(den) > 3


def brown(x, y, k1, k2, k3, p1, p2):
    r2 = x * x + y * y
    rad = 1 + k1 * r2 + k2 * r2 * r2 + k3 * r2 * r2 * r2
    return x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x), y * rad + 2 * p2 * x * y + p1 * (r2 + 2 * y * y)


OCN = ('fx', 'fy', 'cx', 'cy', 'k1', 'k2', 'k3', 'p1', 'p2', 'pitch')


def opencv(V, zero=False):
    q = {n: V.real(n, sample=(100, 2000)) for n in ('fx', 'fy', 'cx', 'cy')}
    for n in ('k1', 'k2', 'k3', 'p1', 'p2'):
        q[n] = 0.0 if zero else V.real(n, **K)
    q['pitch'] = V.real('pitch', sample=(1, 10))
    q['X'] = [V.real(n, sample=(-50, 50)) for n in ('X', 'Y', 'Z')]
    q['A'] = [V.real(n, **ANG) for n in ('omega', 'phi', 'kappa')]
    q['D'] = [V.real(n, sample=(-3, 3)) for n in ('dx', 'dy', 'dz')]
    q['O'] = [V.real(n, **ANG) for n in ('domega', 'dphi', 'dkappa')]
    return q


def opencv_model(V, q, w):
    """camera depth and pixel of the world point w"""
    F = rotation(V, 'rpy', *q['A'])
    R = mm(rotation(V, 'rpy', *q['O']), F)
    C = [q['X'][j] + sum(q['D'][i] * F[i][j] for i in range(3)) for j in range(3)]
    c = [sum(R[i][j] * (w[j] - C[j]) for j in range(3)) for i in range(3)]
    return c


def opencv_pixel(q, c):
    x, y = brown(c[0] / c[2], c[1] / c[2], q['k1'], q['k2'], q['k3'], q['p1'], q['p2'])
    return q['fx'] * x + q['cx'], q['cy'] - q['fy'] * y


def opencv_build(V, q):
    prm = {'fx_pixels': q['fx'], 'fy_pixels': q['fy'], 'cx_pixels': q['cx'], 'cy_pixels': q['cy'], 'k1': q['k1'], 'k2': q['k2'], 'k3': q['k3'],
           'p1': q['p1'], 'p2': q['p2'], 'pixel_pitch_microns': q['pitch'], 'x_offset_meters': q['D'][0], 'y_offset_meters': q['D'][1],
           'z_offset_meters': q['D'][2], 'omega_offset_radians': q['O'][0], 'phi_offset_radians': q['O'][1], 'kappa_offset_radians': q['O'][2]}
    pc = V.mod(OC).OpenCVPointCalc.init_from_params(prm)
    pc.init_extrinsic(*(q['X'] + q['A']))
    return pc


OF = [OC + ':OpenCVPointCalc.' + n for n in ('init_from_params', 'init_intrinsic', 'init_extrinsic', 'init_offsets', '_lon_lat_alt_to_pixel_x_y_native')]


@contract('the OpenCV camera projects by pose, offsets, Brown distortion, focal lengths and principal point', OF, seconds=12)
def opencv_native(V):
    q = opencv(V)
    pc = opencv_build(V, q)
    n, band = V.dim('n'), V.choice('band', [None, 0])
    t = whole(V)
    wx, wy = V.array('wx', (n,), t, sample=(-60, 60)), V.array('wy', (n,), t, sample=(-60, 60))
    wz = V.array('wz', (n,), t, sample=(-300, -60))
    s = V.snapshot(wx, wy, wz)
    if used_before(V, False):
        pc._lon_lat_alt_to_pixel_x_y_native(wy, wx, wz - 5)
        opencv_build(V, dict(q, fx=q['fx'] + 1, k1=q['k1'] + 1))
    u, v = pc._lon_lat_alt_to_pixel_x_y_native(wx, wy, wz, band)
    cam = lambda i: opencv_model(V, q, (wx[i], wy[i], wz[i]))
    ok = lambda i: far(V, cam(i)[2])
    V.ensure_array('pixel x', u, (n,), lambda i: opencv_pixel(q, cam(i))[0], where=ok, tol=1e-5)
    V.ensure_array('pixel y', v, (n,), lambda i: opencv_pixel(q, cam(i))[1], where=ok, tol=1e-5)
    V.unchanged('frame', s)


@contract('a second pose replaces the first one (OpenCV camera)', OF)
def opencv_moved(V):
    q = opencv(V)
    pc = opencv_build(V, q)
    n = V.dim('n', 1, 2)
    wx, wy, wz = [V.array(a, (n,), sample=s) for a, s in (('wx', (-60, 60)), ('wy', (-60, 60)), ('wz', (-300, -60)))]
    pc._lon_lat_alt_to_pixel_x_y_native(wx, wy, wz)
    q['X'] = [V.real(a, sample=(-50, 50)) for a in ('X2', 'Y2', 'Z2')]
    q['A'] = [V.real(a, **ANG) for a in ('omega2', 'phi2', 'kappa2')]
    pc.init_extrinsic(*(q['X'] + q['A']))
    u, v = pc._lon_lat_alt_to_pixel_x_y_native(wx, wy, wz)
    cam = lambda i: opencv_model(V, q, (wx[i], wy[i], wz[i]))
    ok = lambda i: far(V, cam(i)[2])
    V.ensure_array('pixel x', u, (n,), lambda i: opencv_pixel(q, cam(i))[0], where=ok, tol=1e-5)
    V.ensure_array('pixel y', v, (n,), lambda i: opencv_pixel(q, cam(i))[1], where=ok, tol=1e-5)


@contract('without distortion the OpenCV camera is a pinhole camera', OF)
def opencv_plain(V):
    q = opencv(V, zero=True)
    pc = opencv_build(V, q)
    n = V.dim('n', 1, 2)
    wx, wy, wz = [V.array(a, (n,), sample=s) for a, s in (('wx', (-60, 60)), ('wy', (-60, 60)), ('wz', (-300, -60)))]
    u, v = pc._lon_lat_alt_to_pixel_x_y_native(wx, wy, wz)
    cam = lambda i: opencv_model(V, q, (wx[i], wy[i], wz[i]))
    ok = lambda i: far(V, cam(i)[2])
    V.ensure_array('pixel x', u, (n,), lambda i: q['fx'] * cam(i)[0] / cam(i)[2] + q['cx'], where=ok, tol=1e-5)
    V.ensure_array('pixel y', v, (n,), lambda i: q['cy'] - q['fy'] * cam(i)[1] / cam(i)[2], where=ok, tol=1e-5)


# ---------------------------------------------------------------- Pix4D
PF = [P4 + ':Pix4dPointCalc.' + n for n in ('init_from_params', '_lon_lat_alt_to_pixel_x_y_native', 'world_xyzs_to_pixel_locations',
                                            'world_to_camera_coordinates', 'camera_coords_to_pixel_coords_with_distortion',
                                            'camera_coords_to_pixel_coords_no_distortion')]


def pix4d(V, zero=False, path=''):
    q = {'F': V.real('F', sample=(3, 10)), 'Px': V.real('Px', sample=(2, 4)), 'Py': V.real('Py', sample=(2, 4)),
         'w': V.real('fpa_width', sample=(4, 8)), 'h': V.real('fpa_height', sample=(4, 8)),
         'nx': V.int('npix_x', 1, None, sample=(100, 4000)), 'ny': V.int('npix_y', 1, None, sample=(100, 4000))}
    V.assume(q['w'] > 0)
    V.assume(q['h'] > 0)
    for n in ('k1', 'k2', 'k3', 'p1', 'p2'):
        q[n] = 0.0 if zero else V.real(n, **K)
    q['ppm'] = q['nx'] / q['w']
    q['T'] = [V.real(n, sample=(-50, 50)) for n in ('tx', 'ty', 'tz')]
    q['R'] = V.array('R', (3, 3), sample=(-1, 1))
    q['dir'] = path
    return q


def pix4d_build(V, q, model):
    prm = {'IMG_1.tif': {'camera_rotation_r': q['R'], 'external_params': q['T'] + [1.0, 2.0, 3.0], 'n_x_pixels': q['nx'], 'n_y_pixels': q['ny'],
                         'internal_params': {'fpa_width_mm': q['w'], 'fpa_height_mm': q['h'], 'F': q['F'], 'Px': q['Px'], 'Py': q['Py']},
                         'tangential_distortion': [q['p1'], q['p2']], 'radial_distortion': [q['k1'], q['k2'], q['k3']]},
           'projection': V.proj('B')}
    if model == 'default':
        pc = V.mod(P4).Pix4dPointCalc.init_from_params(q['dir'] + 'IMG_1.tif', prm)
    else:
        pc = V.mod(P4).Pix4dPointCalc.init_from_params(q['dir'] + 'IMG_1.tif', prm, distortion_model=model)
    return pc


def pix4d_cam(V, q, w):
    return [sum(q['R'][i, j] * (w[j] - q['T'][j]) for j in range(3)) for i in range(3)]


def pix4d_pixel(q, c, distort, rx, ry):
    x, y = c[0] / c[2], c[1] / c[2]
    if distort:
        x, y = brown(x, y, q['k1'], q['k2'], q['k3'], q['p1'], q['p2'])
    ppm = q['ppm']
    f, px, py = q['F'] * ppm, q['Px'] * ppm, q['Py'] * ppm
    u = -f * x + (q['nx'] - px if rx else px)
    v = -f * y + (q['ny'] - py if ry else py)
    return (q['nx'] - u if rx else u), (q['ny'] - v if ry else v)


def pix4d_check(V, model, rev, path):
    q = pix4d(V, path=path)
    pc = pix4d_build(V, q, model)
    rx = ry = True
    if rev is not None:
        rx, ry = rev
        pc.reverse_x_pixels, pc.reverse_y_pixels = rev
    V.ensure('projection', pc.get_projection().srs == V.proj('B').srs)
    n = V.dim('n')
    t = whole(V)
    wx, wy = V.array('wx', (n,), t, sample=(-60, 60)), V.array('wy', (n,), t, sample=(-60, 60))
    wz = V.array('wz', (n,), t, sample=(-300, -60))
    s = V.snapshot(wx, wy, wz, q['R'])
    if used_before(V, False):
        pc._lon_lat_alt_to_pixel_x_y_native(wy, wx, wz - 5)
        pix4d_build(V, dict(q, nx=q['nx'] + 1, F=q['F'] + 1), model)
    u, v = pc._lon_lat_alt_to_pixel_x_y_native(wx, wy, wz)
    cam = lambda i: pix4d_cam(V, q, (wx[i], wy[i], wz[i]))
    ok = lambda i: far(V, cam(i)[2])
    d = model is not None
    V.ensure_array('pixel x', u, (n,), lambda i: pix4d_pixel(q, cam(i), d, rx, ry)[0], where=ok, tol=1e-5)
    V.ensure_array('pixel y', v, (n,), lambda i: pix4d_pixel(q, cam(i), d, rx, ry)[1], where=ok, tol=1e-5)
    V.unchanged('frame', s)


@contract('the Pix4D camera projects by pose, Brown distortion, focal length in pixels and principal point', PF, seconds=6)
def pix4d_native(V):
    pix4d_check(V, V.choice('model', ['default', 'regular']), None, V.choice('path', ['', '/data/run1/']))


@contract('the Pix4D camera reverses its axes as configured', PF, seconds=6)
def pix4d_reverse(V):
    pix4d_check(V, 'default', V.choice('reversal', [(True, False), (False, True), (False, False)]), '')


@contract('the Pix4D camera without distortion model is an ideal pinhole', PF, seconds=6)
def pix4d_ideal(V):
    pix4d_check(V, None, V.choice('reversal', [None, (True, False), (False, True), (False, False)]), '')


@contract('with zero coefficients the distorted and undistorted Pix4D projections agree', PF)
def pix4d_zero(V):
    q = pix4d(V, zero=True)
    a, b = pix4d_build(V, q, 'regular'), pix4d_build(V, q, None)
    n = V.dim('n', 1, 3)
    wx, wy, wz = [V.array(t, (n,), sample=s) for t, s in (('wx', (-60, 60)), ('wy', (-60, 60)), ('wz', (-300, -60)))]
    u, v = a._lon_lat_alt_to_pixel_x_y_native(wx, wy, wz)
    u2, v2 = b._lon_lat_alt_to_pixel_x_y_native(wx, wy, wz)
    ok = lambda i: far(V, pix4d_cam(V, q, (wx[i], wy[i], wz[i]))[2])
    V.ensure_array('pixel x', u, (n,), lambda i: u2[i], where=ok)
    V.ensure_array('pixel y', v, (n,), lambda i: v2[i], where=ok)
