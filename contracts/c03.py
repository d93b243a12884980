"""C03: orientation angles are recovered from a rotation matrix."""
from engine.capi import contract
from contracts.common import rotation
PU = 'resippy.utils.photogrammetry_utils'


def angles(V):
    H = V.pi / 2
    e = 0 if V.symbolic else 1e-3
    special = (0.0, 3.141592653589793, 1e-9, -1e-9, 0.1, 1.5707963267948966)
    o = V.real('omega', sample=(-3.14159, 3.141592653589793), special=special)
    p = V.real('phi', sample=(-1.57, 1.57), special=(0.0, 1.5, -1.5, 0.3, 1.55, -1.565, 1.5685, -1.5695, 1.57039, -1.57039))
    k = V.real('kappa', sample=(-3.14159, 3.141592653589793), special=special)
    V.assume(V.and_(o > -V.pi + e, o <= V.pi, k > -V.pi + e, k <= V.pi, p > -H + .3 * e, p < H - .3 * e))
    return o, p, k


def slack(V, p):
    """the inverse cosines lose digits towards 90 degrees of pitch (floating point only)"""
    return None if V.symbolic else 1e-5 + 1e-7 / (V.pi / 2 - abs(p))


@contract('solving a roll-pitch-yaw matrix returns the angles it was built from', [PU + ':solve_for_omega_phi_kappa', PU + ':create_M_matrix'])
def solve(V):
    m = V.mod(PU)
    o, p, k = angles(V)
    M = m.create_M_matrix(o, p, k)
    s = V.snapshot(M)
    r = m.solve_for_omega_phi_kappa(M)
    V.ensure_eq('omega', r[0], o, tol=slack(V, p))
    V.ensure_eq('phi', r[1], p, tol=slack(V, p))
    V.ensure_eq('kappa', r[2], k, tol=slack(V, p))
    V.unchanged('frame', s)


@contract('rebuilding from the solved angles gives the same matrix', [PU + ':solve_for_omega_phi_kappa', PU + ':create_M_matrix'])
def rebuild(V):
    m = V.mod(PU)
    o, p, k = angles(V)
    M = m.create_M_matrix(o, p, k)
    r = m.solve_for_omega_phi_kappa(M)
    M2 = m.create_M_matrix(r[0], r[1], r[2])
    for i in range(3):
        for j in range(3):
            V.ensure_eq('M[%d,%d]' % (i, j), M2[i, j], M[i, j], tol=slack(V, p))


@contract('boresight offset times the rough matrix is the ideal matrix', [PU + ':solve_for_boresight_angle_offsets'])
def boresight(V):
    m = V.mod(PU)
    np = V.np
    if V.choice('rough matrix', ['a rotation', 'any']) == 'any':
        rough = V.array('rough', (3, 3))
        r = [[rough[i, j] for j in range(3)] for i in range(3)]
        det = sum(r[0][i] * (r[1][(i + 1) % 3] * r[2][(i + 2) % 3] - r[1][(i + 2) % 3] * r[2][(i + 1) % 3]) for i in range(3))
        V.assume(V.not_(V.eq(det, 0)) if V.symbolic else abs(det) > 1)
    else:
        rough = np.array(rotation(V, 'rpy', *angles(V)))
    ideal = V.array('ideal', (3, 3))
    s = V.snapshot(rough, ideal)
    off = m.solve_for_boresight_angle_offsets(rough, ideal)
    V.ensure_shape('shape', off, (3, 3))
    for i in range(3):
        for j in range(3):
            V.ensure_eq('(rough offset)[%d,%d]' % (i, j), sum(rough[i, q] * off[q, j] for q in range(3)), ideal[i, j], tol=1e-6)
    V.unchanged('frame', s)
