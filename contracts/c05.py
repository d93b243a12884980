"""C05: fixture-mounted cameras compose boresight and lever arm correctly."""
from engine.capi import contract
from contracts.common import rotation, mm, used_before
from contracts.c04 import length, angle
FC = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera'
ANG = dict(sample=(-4, 4), special=(0.0,))
ORDERS = ['rpy', 'ryp', 'pry', 'pyr', 'yrp', 'ypr']
AU = [('radians', 'radians', 'radians'), ('degrees', 'radians', 'milliradians'), ('milliradians', 'degrees', 'radians'),
      ('radians', 'milliradians', 'degrees')]
LU = [('meters', 'meters', 'meters'), ('feet', 'cm', 'meters'), ('cm', 'mm', 'feet'), ('mm', 'feet', 'cm')]


def rpy(V, tag):
    return [V.real(tag + n, **ANG) for n in ('roll', 'pitch', 'yaw')]


def fixture(V, cam):
    """an arbitrary fixture pose"""
    X = [V.real(n, sample=(-100, 100)) for n in ('fx', 'fy', 'fz')]
    cam.set_fixture_xyz(*X)
    M = V.array('M', (3, 3), sample=(-2, 2))
    cam.set_fixture_orientation(M)
    return X, M


@contract('the fixture orientation is the rotation matrix of its angles, in the stated units and order',
          [FC + ':FixturedCamera.set_fixture_orientation_by_roll_pitch_yaw', FC + ':FixturedCamera.set_boresight_matrix', FC + ':FixturedCamera.get_camera_absolute_M_matrix'])
def orientation(V):
    cam = V.mod(FC).FixturedCamera()
    a, u, order = rpy(V, 'f'), V.choice('units', AU), V.choice('order', ORDERS)
    if used_before(V, False):
        cam.set_fixture_orientation_by_roll_pitch_yaw(a[1], a[0], a[2], order=V.choice('earlier order', ORDERS))
    cam.set_fixture_orientation_by_roll_pitch_yaw(a[0], a[1], a[2], roll_units=u[0], pitch_units=u[1], yaw_units=u[2], order=order)
    R = rotation(V, order, *[angle(V, x, y) for x, y in zip(a, u)])
    cam.set_boresight_matrix(V.np.eye(3))
    r = cam.get_camera_absolute_M_matrix()
    V.ensure_shape('shape', r, (3, 3))
    for i in range(3):
        for j in range(3):
            V.ensure_eq('M[%d,%d]' % (i, j), r[i, j], R[i][j])


@contract('the boresight matrix is the rotation matrix of the relative angles, in the stated units and order',
          [FC + ':FixturedCamera.set_boresight_matrix_from_camera_relative_rpy_params', FC + ':FixturedCamera.get_camera_absolute_M_matrix'])
def boresight(V):
    cam = V.mod(FC).FixturedCamera()
    a, u, order = rpy(V, 'b'), V.choice('units', AU), V.choice('order', ORDERS)
    X, M = fixture(V, cam)
    s = V.snapshot(M)
    if used_before(V, False):
        cam.set_boresight_matrix_from_camera_relative_rpy_params(a[1], a[0], a[2], order=V.choice('earlier order', ORDERS))
        cam.get_camera_absolute_M_matrix()
    cam.set_boresight_matrix_from_camera_relative_rpy_params(a[0], a[1], a[2], roll_units=u[0], pitch_units=u[1], yaw_units=u[2], order=order)
    R = rotation(V, order, *[angle(V, x, y) for x, y in zip(a, u)])
    r = cam.get_camera_absolute_M_matrix()
    V.ensure_shape('shape', r, (3, 3))
    for i in range(3):
        for j in range(3):
            V.ensure_eq('boresight fixture [%d,%d]' % (i, j), r[i, j], sum(R[i][k] * M[k, j] for k in range(3)))
    V.unchanged('fixture matrix', s)


@contract('default units are radians and metres, the default order is roll-pitch-yaw',
          [FC + ':FixturedCamera.set_boresight_matrix_from_camera_relative_rpy_params', FC + ':FixturedCamera.set_fixture_orientation_by_roll_pitch_yaw',
           FC + ':FixturedCamera.set_relative_camera_xyz', FC + ':FixturedCamera.get_camera_absolute_M_matrix', FC + ':FixturedCamera.get_camera_absolute_xyz'])
def defaults(V):
    cam = V.mod(FC).FixturedCamera()
    b, f = rpy(V, 'b'), rpy(V, 'f')
    X = [V.real(n, sample=(-100, 100)) for n in ('fx', 'fy', 'fz')]
    d = [V.real(n, sample=(-5, 5)) for n in ('dx', 'dy', 'dz')]
    cam.set_fixture_xyz(*X)
    cam.set_fixture_orientation_by_roll_pitch_yaw(*f)
    cam.set_boresight_matrix_from_camera_relative_rpy_params(*b)
    cam.set_relative_camera_xyz(*d)
    F = rotation(V, 'rpy', *f)
    W = mm(rotation(V, 'rpy', *b), F)
    r = cam.get_camera_absolute_M_matrix()
    for i in range(3):
        for j in range(3):
            V.ensure_eq('boresight fixture [%d,%d]' % (i, j), r[i, j], W[i][j])
    p = cam.get_camera_absolute_xyz()
    V.ensure('three coordinates', len(p) == 3)
    for j in range(3):
        V.ensure_eq('position %d' % j, p[j], X[j] + sum(d[i] * F[i][j] for i in range(3)))


@contract('the absolute orientation is the boresight matrix times the fixture matrix', [FC + ':FixturedCamera.get_camera_absolute_M_matrix'])
def compose(V):
    cam = V.mod(FC).FixturedCamera()
    X, M = fixture(V, cam)
    B = V.array('B', (3, 3), sample=(-2, 2))
    cam.set_boresight_matrix(B)
    s = V.snapshot(M, B)
    for t in ('', ' (again)'):
        r = cam.get_camera_absolute_M_matrix()
        V.ensure_shape('shape' + t, r, (3, 3))
        for i in range(3):
            for j in range(3):
                V.ensure_eq('boresight fixture [%d,%d]%s' % (i, j, t), r[i, j], sum(B[i, k] * M[k, j] for k in range(3)))
    V.unchanged('frame', s)


@contract('the absolute position is the fixture position plus the rotated lever arm, in metres',
          [FC + ':FixturedCamera.set_relative_camera_xyz', FC + ':FixturedCamera.get_camera_absolute_xyz', FC + ':FixturedCamera.get_fixture_xyz'])
def position(V):
    cam = V.mod(FC).FixturedCamera()
    d, u = [V.real(n, sample=(-5, 5)) for n in ('dx', 'dy', 'dz')], V.choice('units', LU)
    cam.set_relative_camera_xyz(d[0], d[1], d[2], x_units=u[0], y_units=u[1], z_units=u[2])
    X, M = fixture(V, cam)
    D = [length(V, x, y) for x, y in zip(d, u)]
    s = V.snapshot(M)
    for t in ('', ' (again)'):
        p = cam.get_camera_absolute_xyz()
        V.ensure('three coordinates' + t, len(p) == 3)
        for j in range(3):
            V.ensure_eq('position %d%s' % (j, t), p[j], X[j] + sum(D[i] * M[i, j] for i in range(3)))
    g = cam.get_fixture_xyz()
    for j in range(3):
        V.ensure_eq('fixture position %d' % j, g[j], X[j])
    V.unchanged('frame', s)


@contract('a moved fixture moves the camera with it', [FC + ':FixturedCamera.set_fixture_xyz', FC + ':FixturedCamera.set_fixture_orientation',
                                                       FC + ':FixturedCamera.get_camera_absolute_xyz', FC + ':FixturedCamera.get_camera_absolute_M_matrix'])
def moved(V):
    cam = V.mod(FC).FixturedCamera()
    d = [V.real(n, sample=(-5, 5)) for n in ('dx', 'dy', 'dz')]
    cam.set_relative_camera_xyz(*d)
    B = V.array('B', (3, 3), sample=(-2, 2))
    cam.set_boresight_matrix(B)
    X2, M2 = fixture(V, cam)
    cam.get_camera_absolute_xyz()
    cam.get_camera_absolute_M_matrix()
    which = V.choice('moved', ['fixture', 'camera', 'both'])
    if which != 'camera':
        X2 = [V.real(n, sample=(-100, 100)) for n in ('gx', 'gy', 'gz')]
        M2 = V.array('M2', (3, 3), sample=(-2, 2))
        cam.set_fixture_xyz(*X2)
        cam.set_fixture_orientation(M2)
    if which != 'fixture':
        d = [V.real(n, sample=(-5, 5)) for n in ('ex', 'ey', 'ez')]
        B = V.array('B2', (3, 3), sample=(-2, 2))
        cam.set_relative_camera_xyz(*d)
        cam.set_boresight_matrix(B)
    p, r = cam.get_camera_absolute_xyz(), cam.get_camera_absolute_M_matrix()
    for j in range(3):
        V.ensure_eq('position %d' % j, p[j], X2[j] + sum(d[i] * M2[i, j] for i in range(3)))
        for i in range(3):
            V.ensure_eq('boresight fixture [%d,%d]' % (i, j), r[i, j], sum(B[i, k] * M2[k, j] for k in range(3)))
