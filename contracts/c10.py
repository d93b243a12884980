"""C10: ray casting against the DEM."""
from engine.capi import contract
from contracts.common import whole
D = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.'
AB = D + 'abstract_earth_overhead_point_calc'
CD = 'resippy.photogrammetry.dem.constant_elevation_dem'
RAY = [AB + ':AbstractEarthOverheadPointCalc._pixel_x_y_to_lon_lat_ray_caster_native']
PUB = [AB + ':AbstractEarthOverheadPointCalc.pixel_x_y_to_lon_lat_alt']


def camera(V, gx, gy):
    m = V.mod(AB)

    class Model(m.AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            return None

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            return gx(pixel_xs, pixel_ys, alts, -1 if band is None else band), gy(pixel_xs, pixel_ys, alts, -1 if band is None else band)
    pc = Model()
    pc.set_projection(V.proj('B'))
    return pc


def pixels(V, kind):
    sh = (V.dim('n'),) if kind == '1d' else (V.dim('ny'), V.dim('nx'))
    t = whole(V)
    return V.array('px', sh, t, sample=(-20, 20)), V.array('py', sh, t, sample=(-20, 20)), sh


def terrain(V, lo, hi, el):
    class Dem:
        asked = []

        def get_highest_alt(self):
            return hi

        def get_lowest_alt(self):
            return lo

        def get_elevations(self, world_x, world_y, world_proj=None):
            self.asked.append(world_proj)
            return el(world_x, world_y)
    d = Dem()
    d.asked = []
    return d


def general(V, kind, given):
    gx, gy = V.map('ground x', 4), V.map('ground y', 4)
    pc = camera(V, gx, gy)
    lo = V.real('lowest', sample=(-5, 5))
    hi = V.real('highest', sample=(-5, 25))
    V.assume(lo < hi)
    el = V.map('elevation', 2, lo=lo, hi=hi)
    dem = terrain(V, lo, hi, el)
    px, py, sh = pixels(V, kind)
    step = V.real('dem_sample_distance', sample=(.2, 3))
    V.assume(step > 0)
    s = V.snapshot(px, py)
    kw = {}
    top, bot = hi, lo
    if given:
        top, bot = V.real('top', sample=(5, 40)), V.real('bottom', sample=(-40, 0))
        V.assume(hi <= top)
        V.assume(bot <= lo)
        kw = dict(dem_highest_alt=top, dem_lowest_alt=bot)
    band = 3 if given else None
    if band is not None:
        kw['band'] = band
    if not V.symbolic and V.choice('history', ['none', 'another DEM']) == 'another DEM':
        pc._pixel_x_y_to_lon_lat_ray_caster_native(px, py, terrain(V, lo - 3, hi + 7, lambda x, y: 5 + el(x, y)), step * V.choice('ratio', [1, 2]))
    lons, lats, alts = pc._pixel_x_y_to_lon_lat_ray_caster_native(px, py, dem, step, **kw)
    V.ensure('the DEM is sampled in the native projection', all(p.srs == V.proj('B').srs for p in dem.asked) and len(dem.asked) > 0)
    b = -1 if band is None else band
    za, zb = top + (top - bot) * 0.01, bot - (top - bot) * 0.01
    A = V.array('A', sh, elem=lambda *i: gx(px[i], py[i], za, b)), V.array('A', sh, elem=lambda *i: gy(px[i], py[i], za, b))
    B = V.array('B', sh, elem=lambda *i: gx(px[i], py[i], zb, b)), V.array('B', sh, elem=lambda *i: gy(px[i], py[i], zb, b))
    # the rays are sampled as often as the longest of them (of all pixels, in row-major order) needs
    flat = (sh[0],) if len(sh) == 1 else (sh[0] * sh[1],)
    at = (lambda k: (k,)) if len(sh) == 1 else (lambda k: (k // sh[1], k % sh[1]))
    longest = V.max_over(flat, lambda k: (lambda *i: V.sqrt((A[0][i] - B[0][i]) ** 2 + (A[1][i] - B[1][i]) ** 2))(*at(k)))
    S = V.max(V.ceil(longest / step) + 1, 2)

    def sample(i, j):
        t = j / (S - 1)
        x, y = A[0][i] + (B[0][i] - A[0][i]) * t, A[1][i] + (B[1][i] - A[1][i]) * t
        return x, y, za + (zb - za) * t, el(x, y)

    def below(i, j):
        x, y, r, e = sample(i, j)
        return e > r

    def point(i):
        V.cut('the lowest sample is below the terrain', below(i, S - 1))
        V.cut('the highest sample is above the terrain', V.not_(below(i, 0)))
        j = V.first(0, S, lambda j: below(i, j))
        V.cut('there is a first sample below', V.and_(1 <= j, j <= S - 1))
        V.cut('it is below', below(i, j))
        V.cut('the one before is not', V.not_(below(i, j - 1)))
        p, q = sample(i, j - 1), sample(i, j)
        V.cut('the ray drops by the same amount at every step', V.eq(q[2] - p[2], (zb - za) / (S - 1)))
        V.cut('terrain and ray cross', (zb - za) / (S - 1) - (q[3] - p[3]) < 0)
        # terrain and ray between the two samples are straight lines: they meet at fraction f
        f = (p[3] - p[2]) / ((q[2] - p[2]) - (q[3] - p[3]))
        return p[0] + f * (q[0] - p[0]), p[1] + f * (q[1] - p[1]), p[3] + f * (q[3] - p[3])
    # a pixel whose comparison is decided by rounding alone is left out of the concrete runs
    ok = (lambda *i: True) if V.symbolic else (lambda *i: all(abs(sample(i, j)[3] - sample(i, j)[2]) > 1e-7 for j in range(int(S))))
    V.ensure_array('longitude', lons, sh, lambda *i: point(i)[0], where=ok, tol=1e-5)
    V.ensure_array('latitude', lats, sh, lambda *i: point(i)[1], where=ok, tol=1e-5)
    V.ensure_array('altitude', alts, sh, lambda *i: point(i)[2], where=ok, tol=1e-5)
    V.unchanged('frame', s)


for _kind in ('1d', '2d'):
    for _given in (False, True):
        contract('the returned point is on the ray between the last sample above and the first sample below the terrain, %s pixels, %s' % (
            _kind, 'given extremes and band' if _given else 'extremes from the DEM'), RAY)(
                lambda V, k=_kind, g=_given: general(V, k, g))


@contract('over constant elevation the result is that elevation and the point where the straight ray of the pixel reaches it', RAY + [
    CD + ':ConstantElevationDem.get_elevations', CD + ':ConstantElevationDem.get_highest_alt', CD + ':ConstantElevationDem.get_lowest_alt'])
def flat(V):
    ax, bx, ay, by = [V.map(n, 3) for n in ('ground x', 'slope x', 'ground y', 'slope y')]
    tilt = V.real('tilt', special=(0.0,))        # 0: every ray is vertical
    gx = lambda x, y, h, b: ax(x, y, b) + bx(x, y, b) * tilt * h
    gy = lambda x, y, h, b: ay(x, y, b) + by(x, y, b) * tilt * h
    pc = camera(V, gx, gy)
    z = V.real('elevation', sample=(-50, 300))
    dem = V.mod(CD).ConstantElevationDem(z)
    px, py, sh = pixels(V, V.choice('kind', ['2d', '1d']))
    step = V.real('dem_sample_distance', sample=(.1, 8))
    V.assume(step > 0)
    s = V.snapshot(px, py)
    kw = {}
    if V.choice('extremes', ['from the DEM', 'given']) == 'given':
        top, bot = V.real('top', sample=(0, 400)), V.real('bottom', sample=(-100, 200))
        V.assume(z <= top)
        V.assume(bot <= z)
        kw = dict(dem_highest_alt=top, dem_lowest_alt=bot)
    if V.choice('history', ['none', 'another DEM']) == 'another DEM':
        pc._pixel_x_y_to_lon_lat_ray_caster_native(px, py, V.mod(CD).ConstantElevationDem(V.real('other elevation', sample=(-50, 300))), step)
    lons, lats, alts = pc._pixel_x_y_to_lon_lat_ray_caster_native(px, py, dem, step, **kw)
    V.ensure_array('altitude', alts, sh, lambda *i: z, tol=1e-6)
    V.ensure_array('longitude', lons, sh, lambda *i: gx(px[i], py[i], z, -1), tol=1e-6)
    V.ensure_array('latitude', lats, sh, lambda *i: gy(px[i], py[i], z, -1), tol=1e-6)
    V.unchanged('frame', s)


@contract('the public entry reprojects exactly when another projection is requested', PUB)
def public(V):
    pc = camera(V, None, None)
    px, py, sh = pixels(V, V.choice('kind', ['2d', '1d']))
    f = [V.map(n, 2) for n in ('lon', 'lat', 'alt')]
    calls = []

    def native(*a, **k):
        import inspect
        names = ['pixels_x', 'pixels_y', 'dem', 'dem_sample_distance', 'dem_highest_alt', 'dem_lowest_alt', 'band']
        d = dict(zip(names, a))
        d.update(k)
        calls.append(d)
        return tuple(g(d['pixels_x'], d['pixels_y']) for g in f)
    V.stub(pc, '_pixel_x_y_to_lon_lat_ray_caster_native', native)
    world = V.choice('world', [None, 'B', 'A', 'C'])
    dist = V.choice('distance', [None, 2.5])
    kw = {}
    if world:
        kw['world_proj'] = V.proj(world)
    if dist:
        kw['dem_sample_distance'] = dist
    ext = V.choice('extremes', [None, (90.0, 12.0)])
    if ext:
        kw['dem_highest_alt'], kw['dem_lowest_alt'] = ext
    band = V.choice('band', [None, 4])
    if band is not None:
        kw['band'] = band
    dem = object()
    lon, lat, alt = pc.pixel_x_y_to_lon_lat_alt(px, py, dem, **kw)
    V.ensure('one native call', len(calls) == 1)
    c = calls[0]
    V.ensure('DEM', c['dem'] is dem)
    V.ensure('distance', c['dem_sample_distance'] == (dist or 5))
    V.ensure('extremes', (c.get('dem_highest_alt'), c.get('dem_lowest_alt')) == (ext or (None, None)))
    V.ensure('band', c.get('band') == band)

    def dst(i):
        w = f[0](px[i], py[i]), f[1](px[i], py[i])
        return V.transform(V.proj('B'), V.proj(world), *w) if world in ('A', 'C') else w
    V.ensure_array('longitude', lon, sh, lambda *i: dst(i)[0], tol=1e-5)
    V.ensure_array('latitude', lat, sh, lambda *i: dst(i)[1], tol=1e-5)
    V.ensure_array('altitude', alt, sh, lambda *i: f[2](px[i], py[i]), tol=1e-5)
