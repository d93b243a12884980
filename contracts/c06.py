"""C06: RPC projection follows the RPC00B rational polynomial model."""
from fractions import Fraction
from engine.capi import contract
from contracts.common import used_before, whole
RP = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc'
NAT = [RP + ':RPCPointCalc.init_from_coeffs', RP + ':RPCPointCalc.compute_p', RP + ':RPCPointCalc._lon_lat_alt_to_pixel_x_y_native']
UNIT = dict(sample=(-1.5, 1.5), special=(0.0, 1.0, -1.0))


def rpc00b(c, P, L, H):
    """the 20 terms in the order of STDI-0002 (RPC00B)"""
    t = [1, L, P, H, L * P, L * H, P * H, L * L, P * P, H * H, P * L * H, L * L * L, L * P * P, L * H * H, L * L * P, P * P * P, P * H * H,
         L * L * H, P * P * H, H * H * H]
    return sum(c[i] * t[i] for i in range(20))


def model(V):
    C = {n: V.array(n, (20,), **UNIT) for n in ('samp_num', 'samp_den', 'line_num', 'line_den')}
    if not V.symbolic:
        # numerator and denominator have a common factor
        for a, b in (('samp_num', 'samp_den'), ('line_num', 'line_den')):
            f = V.choice(a + ' factor', [1.0, 1.0, 1e-4, 1e5])
            C[a], C[b] = C[a] * f, C[b] * f
    S = {}
    for n in ('samp', 'line', 'lat', 'lon', 'height'):
        S[n + '_off'] = V.real(n + '_off', sample=(-20, 20))
        S[n + '_scale'] = V.real(n + '_scale', sample=(.5, 20))
        V.assume(V.abs(S[n + '_scale']) > (0 if V.symbolic else .3))
    return C, S


def build(V, C, S):
    return V.mod(RP).RPCPointCalc.init_from_coeffs(
        C['samp_num'], C['samp_den'], S['samp_scale'], S['samp_off'], C['line_num'], C['line_den'], S['line_scale'], S['line_off'],
        S['lat_scale'], S['lat_off'], S['lon_scale'], S['lon_off'], S['height_scale'], S['height_off'])


def expected(V, C, S, lon, lat, alt):
    P, L, H = [(v - S[n + '_off']) / S[n + '_scale'] for v, n in ((lat, 'lat'), (lon, 'lon'), (alt, 'height'))]
    sd, ld = rpc00b(C['samp_den'], P, L, H), rpc00b(C['line_den'], P, L, H)
    half = Fraction(1, 2) if V.symbolic else .5
    ok = V.and_(V.not_(V.eq(sd, 0)), V.not_(V.eq(ld, 0))) if V.symbolic else \
        abs(sd) > .05 * min(1, V.np.abs(C['samp_den']).max()) and abs(ld) > .05 * min(1, V.np.abs(C['line_den']).max())
    return (rpc00b(C['samp_num'], P, L, H), sd, S['samp_scale'], S['samp_off'] + half), \
           (rpc00b(C['line_num'], P, L, H), ld, S['line_scale'], S['line_off'] + half), ok


def value(q):
    return q[0] / q[1] * q[2] + q[3]


@contract('the polynomial has the 20 RPC00B terms, each with its own coefficient', [RP + ':RPCPointCalc.compute_p'])
def poly(V):
    m = V.mod(RP)
    c = V.array('c', (20,))
    P, L, H = V.real('P', **UNIT), V.real('L', **UNIT), V.real('H', **UNIT)
    V.ensure_eq('polynomial', m.RPCPointCalc.compute_p(c, P, L, H), rpc00b(c, P, L, H))


@contract('a ground point is projected by the normalised RPC00B ratios plus half a pixel (numbers)', NAT)
def project(V):
    C, S = model(V)
    pc = build(V, C, S)
    lon, lat, alt = [V.real(n, sample=(-25, 25)) for n in ('lon', 'lat', 'alt')]
    ex, ey, ok = expected(V, C, S, lon, lat, alt)
    V.assume(ok)
    s = V.snapshot(*C.values())
    if used_before(V):
        pc._lon_lat_alt_to_pixel_x_y_native(*V.reals('other point', 3, sample=(-25, 25)))
    x, y = pc._lon_lat_alt_to_pixel_x_y_native(lon, lat, alt)
    V.ensure_eq('pixel x', x, value(ex), tol=1e-5)
    V.ensure_eq('pixel y', y, value(ey), tol=1e-5)
    V.unchanged('frame', s)


@contract('a ground point is projected by the normalised RPC00B ratios plus half a pixel (arrays, any band)', NAT)
def arrays(V):
    C, S = model(V)
    pc = build(V, C, S)
    n, band = V.dim('n'), V.choice('band', [None, 0])
    lon, lat, alt = [V.array(q, (n,), whole(V), sample=(-25, 25)) for q in ('lon', 'lat', 'alt')]
    s = V.snapshot(lon, lat, alt)
    if used_before(V, False):
        pc._lon_lat_alt_to_pixel_x_y_native(lat, alt, lon)
        build(V, *model(V))
    x, y = pc._lon_lat_alt_to_pixel_x_y_native(lon, lat, alt, band)
    at = lambda i: expected(V, C, S, lon[i], lat[i], alt[i])
    V.ensure_array('pixel x', x, (n,), lambda i: value(at(i)[0]), where=lambda i: at(i)[2], tol=1e-5)
    V.ensure_array('pixel y', y, (n,), lambda i: value(at(i)[1]), where=lambda i: at(i)[2], tol=1e-5)
    V.unchanged('frame', s)


@contract('an RPC model read from a file uses each coefficient of the metadata in its own place', [RP + ':RPCPointCalc.init_from_file', RP + ':RPCPointCalc._str_to_numpy_arr'] + NAT,
          note='the metadata text is fixed (distinct values), the ground point is arbitrary')
def from_file(V):
    m = V.mod(RP)
    v = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101]
    Cn = ('samp_num', 'samp_den', 'line_num', 'line_den')
    C = {n: [v[(5 * k + i) % 25] * (1 + k) for i in range(20)] for k, n in enumerate(Cn)}
    S = {}
    for k, n in enumerate(('samp', 'line', 'lat', 'lon', 'height')):
        S[n + '_off'], S[n + '_scale'] = 2 + 3 * k, 4 + 5 * k
    meta = {n.upper() + '_COEFF': ' '.join('%d.0' % q for q in c) for n, c in C.items()}
    for k, q in S.items():
        meta[k.upper().replace('LON_', 'LONG_')] = '%d.0' % q

    class DS:
        def GetMetadata(self, domain=''):
            return meta if domain == 'RPC' else {}
    V.stub(m.gdal, 'Open', lambda *a: DS())
    pc = m.RPCPointCalc.init_from_file('f.ntf')
    lon, lat, alt = [V.real(n, sample=(-25, 25), npy=True) for n in ('lon', 'lat', 'alt')]
    ex, ey, ok = expected(V, C, S, lon, lat, alt)
    V.assume(ok)
    x, y = pc._lon_lat_alt_to_pixel_x_y_native(lon, lat, alt)
    V.ensure_eq('pixel x', x, value(ex), tol=1e-5)
    V.ensure_eq('pixel y', y, value(ey), tol=1e-5)
