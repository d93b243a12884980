"""C02: camera rotation matrices are proper rotations composed in the stated order."""
from engine.capi import contract
from contracts.common import rotation
PU = 'resippy.utils.photogrammetry_utils'
P4 = 'resippy.utils.pix4d_utils'
ANG = dict(sample=(-7, 7), special=(0.0, 1.5707963267948966, 3.141592653589793, -3.141592653589793))


@contract('create_M_matrix is the product of the elementary rotations in the stated order', [PU + ':create_M_matrix'])
def order(V):
    m = V.mod(PU)
    o, p, k = V.real('omega', **ANG), V.real('phi', **ANG), V.real('kappa', **ANG)
    order = V.choice('order', ['rpy', 'ryp', 'pry', 'pyr', 'yrp', 'ypr'])
    r = m.create_M_matrix(o, p, k, order=order)
    R = rotation(V, order, o, p, k)
    V.ensure_shape('shape', r, (3, 3))
    for i in range(3):
        for j in range(3):
            V.ensure_eq('M[%d,%d] %s' % (i, j, order), r[i, j], R[i][j])


@contract('the default order is roll-pitch-yaw', [PU + ':create_M_matrix'])
def default(V):
    m = V.mod(PU)
    o, p, k = V.real('omega', **ANG), V.real('phi', **ANG), V.real('kappa', **ANG)
    r = m.create_M_matrix(o, p, k)
    R = rotation(V, 'rpy', o, p, k)
    for i in range(3):
        for j in range(3):
            V.ensure_eq('M[%d,%d]' % (i, j), r[i, j], R[i][j])


@contract('create_M_matrix is orthonormal with determinant +1', [PU + ':create_M_matrix'])
def proper(V):
    m = V.mod(PU)
    o, p, k = V.real('omega', **ANG), V.real('phi', **ANG), V.real('kappa', **ANG)
    order = V.choice('order', ['rpy', 'ryp', 'pry', 'pyr', 'yrp', 'ypr'])
    r = m.create_M_matrix(o, p, k, order=order)
    for i in range(3):
        for j in range(3):
            V.ensure_eq('row %d . row %d' % (i, j), sum(r[i, q] * r[j, q] for q in range(3)), 1 if i == j else 0)
            V.ensure_eq('column %d . column %d' % (i, j), sum(r[q, i] * r[q, j] for q in range(3)), 1 if i == j else 0)
    det = r[0, 0] * (r[1, 1] * r[2, 2] - r[1, 2] * r[2, 1]) - r[0, 1] * (r[1, 0] * r[2, 2] - r[1, 2] * r[2, 0]) \
        + r[0, 2] * (r[1, 0] * r[2, 1] - r[1, 1] * r[2, 0])
    V.ensure_eq('determinant', det, 1)


@contract('the Pix4D matrix in degrees is the transposed roll-pitch-yaw matrix', [P4 + ':create_r_matrix', PU + ':create_M_matrix'])
def pix4d(V):
    m, pm = V.mod(PU), V.mod(P4)
    o, p, k = [V.real(n, sample=(-400, 400), special=(0.0, 90.0, 180.0, -90.0)) for n in ('omega', 'phi', 'kappa')]
    r = pm.create_r_matrix([V.real('x'), V.real('y'), V.real('z'), o, p, k])
    f = V.pi / 180
    R = rotation(V, 'rpy', o * f, p * f, k * f)
    V.ensure_shape('shape', r, (3, 3))
    for i in range(3):
        for j in range(3):
            V.ensure_eq('R[%d,%d]' % (i, j), r[i, j], R[j][i])
