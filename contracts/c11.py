"""C11: DEM elevation lookups."""
from engine.capi import contract
from contracts.common import whole
GD = 'resippy.photogrammetry.dem.geotiff_dem'
CD = 'resippy.photogrammetry.dem.constant_elevation_dem'
DF = 'resippy.photogrammetry.dem.dem_factory'
GET = [GD + ':GeotiffDem.get_elevations', GD + ':GeotiffDem.set_geotiff_image', GD + ':GeotiffDem.remove_nodata_values',
       GD + ':GeotiffDem.get_interpolation_method', GD + ':GeotiffDem.set_interpolation_to_nearest', GD + ':GeotiffDem.set_interpolation_to_bilinear']
EXT = [GD + ':GeotiffDem.get_highest_alt', GD + ':GeotiffDem.get_lowest_alt', GD + ':GeotiffDem.get_mean_alt']


def raster(V, dtype='float64', p='', **k):
    """stand-in for the GeoTIFF image (C01, C08 and C22 specify the real one): raster, size, world to pixel conversion"""
    ny, nx = (2, 3) if p else (V.dim('ny'), V.dim('nx'))
    cube = V.array(p + 'dem', (ny, nx, 1), dtype, sample=(-50, 300), **k)
    mx, my = V.map(p + 'pixel x', 2), V.map(p + 'pixel y', 2)

    class Gtiff:
        asked = []
        nodata = None

        def get_point_calculator(self):
            return self

        get_metadata = get_point_calculator

        def get_projection(self):
            return V.proj('B')

        def get_npix_x(self):
            return nx

        def get_npix_y(self):
            return ny

        def get_nodata_val(self):
            return self.nodata

        def read_all_image_data_from_disk(self):
            return cube

        def lon_lat_alt_to_pixel_x_y(self, lons, lats, alts, world_proj=None, band=None):
            self.asked.append((alts, world_proj))
            return mx(lons, lats), my(lons, lats)
    g = Gtiff()
    g.asked = []
    return g, cube, ny, nx, mx, my


def earlier(V, dem, x=None, y=None):
    """the DEM object served another raster and other points before"""
    dem.set_geotiff_image(raster(V, p='other ')[0])
    used(V, dem, x, y)


def used(V, dem, x=None, y=None):
    if x is None:
        x, y = V.array('earlier x', (2,), sample=(-6, 6)), V.array('earlier y', (2,), sample=(-6, 6))
    dem.get_elevations(x, y)
    dem.get_lowest_alt(), dem.get_mean_alt(), dem.get_highest_alt()


def query(V):
    kind = V.choice('kind', ['2d', '1d', 'number'])
    sm = dict(sample=(-6, 6))
    if kind == 'number':
        return V.real('world x', npy=True, **sm), V.real('world y', npy=True, **sm), ()
    sh = (V.dim('n'),) if kind == '1d' else (V.dim('qy'), V.dim('qx'))
    t = whole(V)
    return V.array('world x', sh, t, **sm), V.array('world y', sh, t, **sm), sh


def lookup(V, method):
    g, cube, ny, nx, mx, my = raster(V)
    dem = V.mod(GD).GeotiffDem()
    x, y, sh = query(V)
    past = V.choice('history', ['none', 'another raster', 'the same query with the other method'])
    if past == 'another raster':
        getattr(dem, 'set_interpolation_to_' + method)()
        earlier(V, dem, x, y)
    dem.set_geotiff_image(g)
    if past == 'the same query with the other method':
        getattr(dem, 'set_interpolation_to_' + ('nearest' if method == 'bilinear' else 'bilinear'))()
        dem.get_elevations(x, y)
        del g.asked[:]
    getattr(dem, 'set_interpolation_to_' + method)()
    s = V.snapshot(*([cube] + ([x, y] if sh else [])))
    world = V.choice('world', [None, 'A'])
    out = dem.get_elevations(x, y, world_proj=V.proj(world)) if world else dem.get_elevations(x, y)
    V.ensure('converted from the given projection', all((p.srs if p else None) == (V.proj(world).srs if world else None) for _, p in g.asked))
    V.ensure('one conversion', len(g.asked) == 1)
    V.ensure('projection of the DEM', dem.get_projection().srs == V.proj('B').srs)
    V.unchanged('frame', s)
    at = lambda i: ((x[i], y[i]) if sh else (x, y))
    px = lambda i: (mx(*at(i)), my(*at(i)))
    return dem, out, sh, cube, ny, nx, px


@contract('nearest-neighbour lookup returns the sample whose pixel contains the point, clamped to the raster, in the shape of the query', GET)
def nearest(V):
    dem, out, sh, cube, ny, nx, px = lookup(V, 'nearest')

    def want(*i):
        u, v = px(i)
        return V.get(cube, V.clamp(V.floor(v), 0, ny - 1), V.clamp(V.floor(u), 0, nx - 1), 0)
    V.ensure_array('elevation', out, sh, want)


@contract('bilinear lookup interpolates between the four surrounding samples, clamped to the raster, in the shape of the query', GET)
def bilinear(V):
    dem, out, sh, cube, ny, nx, px = lookup(V, 'bilinear')

    def four(u, v):
        # the query point, moved to the nearest point of the grid of samples
        u, v = V.clamp(u, 0, nx - 1), V.clamp(v, 0, ny - 1)
        i, j = V.floor(u), V.floor(v)
        k, l = V.min(i + 1, nx - 1), V.min(j + 1, ny - 1)
        return u - i, v - j, [V.get(cube, a, b, 0) for a in (j, l) for b in (i, k)]

    def want(*i):
        a, b, e = four(*px(i))
        return (1 - b) * ((1 - a) * e[0] + a * e[1]) + b * ((1 - a) * e[2] + a * e[3])
    V.ensure_array('elevation', out, sh, want, tol=1e-6)


@contract('bilinear interpolation is exact at samples and stays within the range of its four samples')
def range_lemma(V):
    e = V.reals('e', 4)
    a, b = V.real('a', 0, 1), V.real('b', 0, 1)
    v = (1 - b) * ((1 - a) * e[0] + a * e[1]) + b * ((1 - a) * e[2] + a * e[3])
    lo, hi = V.min(V.min(e[0], e[1]), V.min(e[2], e[3])), V.max(V.max(e[0], e[1]), V.max(e[2], e[3]))
    t = 0 if V.symbolic else 1e-9
    top, bot = (1 - a) * e[0] + a * e[1], (1 - a) * e[2] + a * e[3]
    V.cut('upper row', V.and_(lo <= top, top <= hi))
    V.cut('lower row', V.and_(lo <= bot, bot <= hi))
    V.ensure('range', V.and_(lo <= v + t, v <= hi + t))


@contract('a constant-elevation DEM returns its elevation everywhere, in the shape of the query', [
    CD + ':ConstantElevationDem.' + n for n in ('__init__', 'get_elevations', 'get_highest_alt', 'get_lowest_alt', 'get_mean_alt')] + [DF + ':DemFactory.constant_elevation'])
def constant(V):
    z = V.real('elevation', sample=(-100, 4000))
    if V.choice('made by', ['constructor', 'factory']) == 'factory':
        dem = V.mod(DF).DemFactory.constant_elevation(z)
    else:
        dem = V.mod(CD).ConstantElevationDem(elevation=z)
    x, y, sh = query(V)
    if V.choice('world', [None, 'A']) is None:
        out = dem.get_elevations(x, y)
    else:
        out = dem.get_elevations(x, y, world_proj=V.proj('A'))
    V.ensure_array('elevation', out, sh, lambda *i: z)
    for f in (dem.get_highest_alt, dem.get_lowest_alt, dem.get_mean_alt):
        V.ensure_eq('extreme', f(), z)


def extremes(V, dtype, how):
    g, cube, ny, nx, mx, my = raster(V, dtype, **({} if dtype == 'float64' else {}))
    if how == 'no nodata':
        nodata = None
    else:
        nodata = V.real('nodata', special=(-9999.0,)) if dtype == 'float64' else V.int('nodata', sample=(-30, 30))
    flag = V.array('missing', (ny, nx), 'bool') if not V.symbolic and nodata is not None else None
    if flag is not None:
        for j in range(ny):
            for i in range(nx):
                if flag[j, i]:
                    cube[j, i, 0] = nodata
    # at least one sample holds data
    r, c = V.int('row', 0, sample=(0, 10 if V.symbolic else int(ny) - 1)), V.int('column', 0, sample=(0, 10 if V.symbolic else int(nx) - 1))
    V.assume(r < ny)
    V.assume(c < nx)
    if nodata is not None:
        V.assume(V.not_(V.eq(V.get(cube, r, c, 0), nodata)))
    old = cube.copy()
    if how == 'factory':
        g.nodata = V.choice('stored', [None, 1]) and nodata
        m = V.mod(DF)

        class Factory:
            @staticmethod
            def from_file(fname):
                V.ensure('file', fname == 'dem.tif')
                return g
        V.stub(m, 'GeotiffImageFactory', Factory)
        method = V.choice('method', [None, 'nearest', 'bilinear'])
        kw = {'interpolation_method': method} if method else {}
        if g.nodata is None:
            kw['nodata_value'] = nodata
        dem = m.DemFactory.from_gtiff_file('dem.tif', **kw)
        V.ensure('interpolation', dem.get_interpolation_method() == (method or 'bilinear'))
    else:
        dem = V.mod(GD).GeotiffDem()
        past = V.choice('history', ['none', 'another raster', 'extremes with the nodata samples'])
        if past == 'another raster':
            earlier(V, dem)
        dem.set_geotiff_image(g)
        if past == 'extremes with the nodata samples':
            used(V, dem)
        if nodata is not None:
            dem.remove_nodata_values(nodata)
    lo, mean, hi = dem.get_lowest_alt(), dem.get_mean_alt(), dem.get_highest_alt()
    data = lambda j, i: V.eq(0, 0) if nodata is None else V.not_(V.eq(V.get(old, j, i, 0), nodata))
    V.ensure_array('samples', dem.dem_data, (ny, nx), lambda j, i: V.ite(data(j, i), V.get(old, j, i, 0), V.nan), nan=True)
    V.forall('lowest', (ny, nx), lambda j, i: V.implies(data(j, i), lo <= V.get(old, j, i, 0)))
    V.forall('highest', (ny, nx), lambda j, i: V.implies(data(j, i), V.get(old, j, i, 0) <= hi))
    t = 0 if V.symbolic else 1e-9
    V.ensure('lowest <= highest', lo <= hi)
    one = lambda j, i: V.ite(data(j, i), 1, 0)
    val = lambda j, i: V.ite(data(j, i), V.get(old, j, i, 0), 0)
    n = V.sum2(ny, nx, one)
    V.sum2_ge_term('some sample counts', ny, nx, one, r, c)
    V.cut('samples', n >= 1)
    V.ensure_eq('mean', mean * n, V.sum2(ny, nx, val), tol=1e-6)
    V.sum2_le('sum from below', ny, nx, lambda j, i: lo * one(j, i), val)
    V.sum2_le('sum from above', ny, nx, val, lambda j, i: hi * one(j, i))
    V.ensure('lowest <= mean', lo <= mean + t * (1 + V.abs(mean)))
    V.ensure('mean <= highest', mean <= hi + t * (1 + V.abs(mean)))


for _d, _h in (('float64', 'dem'), ('int32', 'dem'), ('float64', 'factory'), ('int16', 'no nodata'), ('uint8', 'no nodata'), ('float64', 'no nodata')):
    contract('lowest <= mean <= highest over exactly the samples that are not nodata (%s raster, %s)' % (_d, {'factory': 'via the DEM factory', 'dem': 'via the DEM', 'no nodata': 'no nodata value'}[_h]),
             EXT + [GD + ':GeotiffDem.remove_nodata_values', GD + ':GeotiffDem.set_geotiff_image'] + ([DF + ':DemFactory.from_gtiff_file'] if _h == 'factory' else []))(
        lambda V, d=_d, h=_h: extremes(V, d, h))
