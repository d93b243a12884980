"""C17: orthorectified images."""
from engine.capi import contract
OT = 'resippy.photogrammetry.ortho_tools'
AB = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc'
IM = 'resippy.image_objects.earth_overhead.abstract_earth_overhead_image'
MD = 'resippy.image_objects.abstract_image_metadata'
DM = 'resippy.photogrammetry.dem.abstract_dem'
PU = 'resippy.utils.photogrammetry_utils'
IU = 'resippy.utils.image_utils.image_utils'
GI = 'resippy.image_objects.earth_overhead.geotiff.geotiff_image'
ORTHO = [OT + ':create_ortho_gtiff_image_world_to_sensor', PU + ':create_ground_grid', PU + ':world_poly_to_geo_t',
         IU + ':flatten_image_band', IU + ':unflatten_image_band', GI + ':GeotiffImage.init_from_numpy_array']


def scene(V, nb, coregistered=True, loaded=True, dtype='float64', proj='B'):
    """an image with arbitrary data taken by an arbitrary camera (per band when the bands are not coregistered)"""
    ny, nx = V.int('ny', 1, sample=(4, 9)), V.int('nx', 1, sample=(4, 9))
    cube = V.array('im', (ny, nx, nb), dtype, 0 if dtype == 'uint8' else None)
    fx, fy = V.map('camera x', 4), V.map('camera y', 4)

    class Camera(V.mod(AB).AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            b = 0 if coregistered else band
            return fx(lons, lats, alts, b), fy(lons, lats, alts, b)

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            raise NotImplementedError

    class Image(V.mod(IM).AbstractEarthOverheadImage):
        def read_all_image_data_from_disk(self):
            return cube

        def read_band_from_disk(self, band_number):
            return cube[:, :, band_number]

    class Meta(V.mod(MD).AbstractImageMetadata):
        pass
    pc, im, md = Camera(), Image(), Meta()
    pc.set_projection(V.proj(proj))
    pc._bands_coregistered = coregistered
    md.set_npix_x(nx)
    md.set_npix_y(ny)
    md.set_n_bands(nb)
    im.set_metadata(md)
    im.set_point_calculator(pc)
    if loaded:
        im.set_image_data(cube)

    def camera(lon, lat, alt, band, world):
        if world != proj:
            lon, lat, alt = V.transform(V.proj(world), V.proj(proj), lon, lat, alt)
        b = 0 if coregistered else band
        return fx(lon, lat, alt, b), fy(lon, lat, alt, b)
    return im, cube, ny, nx, camera


def terrain(V):
    f = V.map('terrain', 2)

    class Dem(V.mod(DM).AbstractDem):
        asked = []

        def get_elevations(self, world_x, world_y, world_proj=None):
            self.asked.append(world_proj)
            return f(world_x, world_y)

        def get_highest_alt(self):
            return 50.0

        def get_lowest_alt(self):
            return -50.0

        def get_mean_alt(self):
            return 0.0

        def convert_reference(self, dst_fname, dst_epsg_code):
            pass
    d = Dem()
    d.asked = []
    return d, f


def value(V, band, order, y, x, whole=False):
    """the interpolated value at one location: scipy's own symbolically, the bilinear / nearest formula concretely"""
    if V.symbolic:
        # 'whole': interpolated in floating point and truncated afterwards
        kw = {'output': 'float64'} if whole else {}
        r = V.get(V.lib('scipy.ndimage').map_coordinates(band, [V.np.array([y]), V.np.array([x])], order=order, **kw), 0)
        return V.trunc(r) if whole else r
    ny, nx = band.shape
    if order == 0:
        return band[int(V.floor(y + .5)), int(V.floor(x + .5))]
    j, i = min(int(y), ny - 2), min(int(x), nx - 2)
    b, a = y - j, x - i
    g = lambda p, q: float(band[p, q])
    return (1 - b) * ((1 - a) * g(j, i) + a * g(j, i + 1)) + b * ((1 - a) * g(j + 1, i) + a * g(j + 1, i + 1))


def ortho(V, coregistered, bands, backup=False):
    nb = V.int('nb', 1, sample=(1, 3))
    order = V.choice('order', [0, 1])
    dtype = V.choice('dtype', ['float64', 'int16'])
    im, cube, ny, nx, camera = scene(V, nb, coregistered, V.choice('loaded', [True, False]), dtype)
    world = V.choice('world projection', ['B', 'A'])
    a, b = V.reals('corner', 2, lo=-1e6, hi=1e6, sample=(-4, 4))
    w, h = V.reals('size', 2, lo=0, hi=1e6, sample=(.1, 6))
    V.assume(w > 0)
    V.assume(h > 0)
    ox, oy = V.dim('ortho nx', 2, sample=(2, 5)), V.dim('ortho ny', 2, sample=(2, 5))
    dem, f = terrain(V)
    nodata = V.choice('nodata', [0, -7])
    snap = V.snapshot(cube)
    sel, n_out, kw = (lambda k: k), nb, {}
    if bands:
        n_out = V.int('selected', 1, sample=(1, 3))
        chosen = V.array('bands', (n_out,), 'int64', 0, nb - 1)
        sel = lambda k: V.get(chosen, k)
        kw = {'bands': chosen if V.symbolic else [int(t) for t in chosen]}
    if backup:
        kw['interpolation'] = ['nearest', 'bilinear'][order]
        make = V.mod(OT).create_ortho_gtiff_image_world_to_sensor_backup
    else:
        kw['spline_order'] = order
        make = V.mod(OT).create_ortho_gtiff_image_world_to_sensor
    r = make(im, ox, oy, V.box(a, b, a + w, b + h), world_proj=V.proj(world), dem=dem, nodata_val=nodata, **kw)
    V.ensure('terrain asked in the projection of the output', len(dem.asked) == 1 and dem.asked[0].srs == V.proj(world).srs)
    out = r.get_image_data()

    def source(j, i, k):
        x, y = a + (i + .5) * (w / ox), b + h - (j + .5) * (h / oy)
        return camera(x, y, f(x, y), sel(k), world)
    shape = (oy, ox, n_out)
    eps = 0 if V.symbolic else 1e-6
    # the ortho leaves a margin of the source unused
    edge = 1 if backup else 2
    off = lambda t: True if V.symbolic or order else abs(t) < 1e9 and abs(t + .5 - round(t + .5)) > 1e-5
    inside = lambda x, y: V.and_(x > eps, x < nx - edge - eps, y > eps, y < ny - edge - eps, off(x), off(y))
    rim = 1 if backup else 0
    outside = lambda x, y: V.or_(x < -rim - eps, x > nx - 1 + rim + eps, y < -rim - eps, y > ny - 1 + rim + eps)
    V.ensure_shape('shape', out, shape)
    if V.symbolic:
        V.forall('value inside', shape, lambda j, i, k: V.eq(V.get(out, j, i, k), value(V, cube[:, :, sel(k)], order, *source(j, i, k)[::-1], whole=backup and dtype == 'int16')),
                 where=lambda j, i, k: inside(*source(j, i, k)))
    else:
        V.forall('value inside', shape, lambda j, i, k: abs(V.get(out, j, i, k) - value(V, cube[:, :, sel(k)], order, *source(j, i, k)[::-1])) <= (1 if dtype == 'int16' else 1e-5),
                 where=lambda j, i, k: inside(*source(j, i, k)))
    V.forall('nodata outside', shape, lambda j, i, k: V.eq(V.get(out, j, i, k), nodata), where=lambda j, i, k: outside(*source(j, i, k)))
    V.ensure('type', out.dtype == cube.dtype)
    V.ensure_eq('nodata value', r.get_metadata().get_nodata_val(), nodata)
    V.ensure_eq('nx', r.get_metadata().get_npix_x(), ox)
    V.ensure_eq('ny', r.get_metadata().get_npix_y(), oy)
    V.ensure_eq('bands', r.get_metadata().get_n_bands(), shape[2])
    pc = r.get_point_calculator()
    V.ensure('projection', pc.get_projection().srs == V.proj(world).srs)
    for t, e in zip(pc.get_geot(), (a, w / ox, 0, b + h, 0, -h / oy)):
        V.ensure_eq('geotransform', t, e, tol=1e-9)
    V.unchanged('frame', snap)


for _co in (True, False):
    for _bands in (False, True):
        contract('orthorectified pixels hold the interpolated source value or nodata: %s bands, %s' % ('coregistered' if _co else 'separately modelled', 'a selection' if _bands else 'all'),
                 ORTHO)(lambda V, c=_co, b=_bands: ortho(V, c, b))
        contract('the alternative ortho driver: %s bands, %s' % ('coregistered' if _co else 'separately modelled', 'a selection' if _bands else 'all'),
                 [OT + ':create_ortho_gtiff_image_world_to_sensor_backup', IU + ':grid_warp_image_band'] + ORTHO[1:])(lambda V, c=_co, b=_bands: ortho(V, c, b, True))


@contract('without a terrain model the ortho lies on the ellipsoid; an alpha band marks exactly the nodata pixels', ORTHO + [OT + ':mask_image'])
def flat(V):
    nb = V.int('nb', 1, sample=(1, 3))
    im, cube, ny, nx, camera = scene(V, nb)
    ox, oy = V.dim('ortho nx', 2, sample=(2, 5)), V.dim('ortho ny', 2, sample=(2, 5))
    box = V.box(10.0, 20.0, 11.0, 22.0)
    m = V.mod(OT)
    dem = V.mod('resippy.photogrammetry.dem.dem_factory').DemFactory.constant_elevation(0)
    nodata = V.choice('nodata', [0, -7])
    given = m.create_ortho_gtiff_image_world_to_sensor(im, ox, oy, box, world_proj=V.proj('B'), dem=dem, nodata_val=nodata).get_image_data()
    r = m.create_ortho_gtiff_image_world_to_sensor(im, ox, oy, box, world_proj=V.proj('B'), nodata_val=nodata, mask_no_data_region=True)
    out = r.get_image_data()
    V.ensure_eq('bands', r.get_metadata().get_n_bands(), nb + 1)
    V.ensure_shape('shape', out, (oy, ox, nb + 1))
    V.forall('same pixels', (oy, ox, nb), lambda j, i, k: V.eq(V.get(out, j, i, k), V.get(given, j, i, k)))
    V.forall('alpha', (oy, ox), lambda j, i: V.eq(V.get(out, j, i, nb), V.ite(V.eq(V.get(given, j, i, 0), nodata), 0, 255)))


@contract('pixel ground locations lie on the terrain under their first estimate', [OT + ':get_pixel_lon_lats'])
def ground(V):
    im, cube, ny, nx, camera = scene(V, 2)
    gx, gy = V.map('ground x', 4), V.map('ground y', 4)

    class Camera(V.mod(AB).AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            raise NotImplementedError

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            b = -1 if band is None else band
            return gx(pixel_xs, pixel_ys, alts, b), gy(pixel_xs, pixel_ys, alts, b)
    pc = Camera()
    pc.set_projection(V.proj('B'))
    im.set_point_calculator(pc)
    dem, f = terrain(V)
    band = V.choice('band', [None, 1])
    kw = {}
    if band is not None:
        kw['band'] = band
    b = -1 if band is None else band
    how = V.choice('pixels', ['given', 'whole image'])
    if how == 'given':
        n = V.dim('n')
        px, py = V.array('px', (n,)), V.array('py', (n,))
        lon, lat = V.mod(OT).get_pixel_lon_lats(im, dem, pixels_x=px, pixels_y=py, **kw)
        sh, at = (n,), lambda k: (V.get(px, k), V.get(py, k))
    else:
        lon, lat = V.mod(OT).get_pixel_lon_lats(im, dem, **kw)
        sh, at = (ny, nx), lambda j, i: (i, j)

    def place(*k):
        x, y = at(*k)
        h = f(gx(x, y, 50.0, b), gy(x, y, 50.0, b))
        return gx(x, y, h, b), gy(x, y, h, b)
    V.ensure_array('x', lon, sh, lambda *k: place(*k)[0], tol=1e-6)
    V.ensure_array('y', lat, sh, lambda *k: place(*k)[1], tol=1e-6)


@contract('the extent of an image is the hull of the ground locations of its border pixels', [OT + ':get_extent', OT + ':get_pixel_lon_lats'], bounded=True,
          samples=60, note='convex hulls are not within reach of the prover: checked on sampled images and cameras')
def extent(V):
    from shapely.geometry import MultiPoint, Point
    im, cube, ny, nx, camera = scene(V, 2)
    co = V.choice('coregistered', [True, False])
    a, b, c, d, e, f = V.reals('affine', 6, sample=(-3, 3))
    V.assume(abs(a * e - b * d) > .2)
    t = V.real('terrain step', sample=(-1, 1))
    bulge = V.choice('bulging side', [None, 'top', 'bottom', 'left', 'right'])
    B = lambda x, y: {None: 0, 'top': (y == 0) * (3 + x % 2), 'bottom': (y == ny - 1) * (-3 - x % 2), 'left': (x == 0) * (3 + y % 2), 'right': (x == nx - 1) * (-3 - y % 2)}[bulge]

    class Camera(V.mod(AB).AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            raise NotImplementedError

        def _pixel_x_y_alt_to_lon_lat_native(self, x, y, alts=None, band=None):
            k = 0 if co or band is None else 3 * band
            return a * x + b * y + c + k + alts * .1 + B(x, y), d * x + e * y + f - k - 2 * B(x, y)
    pc = Camera()
    pc.set_projection(V.proj('B'))
    pc._bands_coregistered = co
    im.set_point_calculator(pc)
    bands = V.choice('bands', [None, [1], 1])
    dem = V.mod('resippy.photogrammetry.dem.dem_factory').DemFactory.constant_elevation(t)
    p = V.mod(OT).get_extent(im, dem, bands)
    ks = [0] if co else [0, 3] if bands is None else [3]
    pts = [(a * x + b * y + c + k + t * .1 + B(x, y), d * x + e * y + f - k - 2 * B(x, y)) for k in ks for x in range(nx) for y in range(ny) if x in (0, nx - 1) or y in (0, ny - 1)]
    V.ensure('every border pixel lies in the extent', all(p.distance(Point(q)) <= .002 for q in pts))
    V.ensure('the extent is no larger than their hull', MultiPoint(pts).convex_hull.buffer(.002).contains(p))


@contract('a full ortho covers the extent of the image at the requested sample distance', [OT + ':create_full_ortho_gtiff_image'])
def full(V):
    m = V.mod(OT)
    im, cube, ny, nx, camera = scene(V, 3)
    a, b = V.reals('corner', 2, lo=-1e6, hi=1e6, sample=(300000, 600000))
    w, h = V.reals('size', 2, lo=0, hi=1e6, sample=(10, 60))
    gsd = V.real('gsd', lo=0, sample=(1, 9))
    V.assume(gsd > 0)
    V.assume(w > gsd)
    V.assume(h > gsd)
    seen = {}

    def stop(image, nx, ny, polygon, **k):
        seen.update(k, image=image, nx=nx, ny=ny, bounds=polygon.bounds)
        return 'made'
    dem, f = terrain(V)

    def get_extent(image, dem=None, bands=None, **k):
        seen['extent of'] = (image, dem, bands)
        return V.box(a, b, a + w, b + h)
    V.stub(m, 'get_extent', get_extent)
    V.stub(m, 'create_ortho_gtiff_image_world_to_sensor', stop)
    V.stub(m.proj_utils, 'decimal_degrees_to_local_utm_proj', lambda lon, lat: V.proj('B'))
    bands = V.choice('bands', [None, [2, 0]])
    out = V.choice('output projection', [None, 'B', 'A'])
    r = m.create_full_ortho_gtiff_image(im, gsd, dem, None if out is None else V.proj(out), bands, -7, 3)
    V.ensure('result', r == 'made')
    V.ensure('image', seen['image'] is im)
    V.ensure('extent of', seen['extent of'] == (im, dem, bands))
    V.ensure('passed on', seen['dem'] is dem and seen['bands'] == bands and seen['nodata_val'] == -7 and seen['spline_order'] == 3)
    V.ensure('projection', seen['world_proj'].srs == V.proj(out or 'B').srs)
    V.ensure('nx', V.and_(seen['nx'] * gsd <= w, w < (seen['nx'] + 1) * gsd) if V.symbolic else seen['nx'] == int(w / gsd) or abs(w / gsd - round(w / gsd)) < 1e-6)
    V.ensure('ny', V.and_(seen['ny'] * gsd <= h, h < (seen['ny'] + 1) * gsd) if V.symbolic else seen['ny'] == int(h / gsd) or abs(h / gsd - round(h / gsd)) < 1e-6)
    box = [(a, b), (a + w, b), (a + w, b + h), (a, b + h)]
    if out == 'A':
        box = [V.transform(V.proj('B'), V.proj('A'), x, y) for x, y in box]
    for n, v, e in zip(('minx', 'miny', 'maxx', 'maxy'), seen['bounds'],
                       (V.min(*[x for x, y in box]), V.min(*[y for x, y in box]), V.max(*[x for x, y in box]), V.max(*[y for x, y in box]))):
        V.ensure_eq(n, v, e, tol=1e-6)
