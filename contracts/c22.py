"""C22: image objects: pixel data, band order and metadata."""
from engine.capi import contract
from contracts.common import used_before
IO = 'resippy.image_objects.'
EO = IO + 'earth_overhead.'
AI, AM, AE = IO + 'abstract_image', IO + 'abstract_image_metadata', EO + 'abstract_earth_overhead_image'
GI, GM, GF = EO + 'geotiff.geotiff_image', EO + 'geotiff.geotiff_metadata', EO + 'geotiff.geotiff_image_factory'
PC = EO + 'earth_overhead_point_calculators.'
GP, IP = PC + 'geotiff_point_calc', PC + 'igm_point_calc'
II = EO + 'igm.igm_image'
PF, PI, PM = (EO + 'physical_camera.physical_camera_' + s for s in ('image_factory', 'image', 'metadata'))
VI = EO + 'digital_globe.view_ready_stereo.view_ready_stereo_image'
OT = 'resippy.photogrammetry.ortho_tools'
META = [AM + ':AbstractImageMetadata.%s_%s' % (a, f) for f in ('npix_x', 'npix_y', 'n_bands', 'nodata_val') for a in ('set', 'get')]
BANDS = [AI + ':AbstractImage.' + f for f in ('get_image_band', 'set_image_band', 'get_image_data', 'set_image_data', 'get_metadata', 'set_metadata')]
MAKE = [GI + ':GeotiffImage.init_from_numpy_array', GF + ':GeotiffImageFactory.from_numpy_array', GM + ':GeotiffMetadata.set_gdal_datatype',
        GM + ':GeotiffMetadata.get_gdal_datatype'] + META
TYPES = ['uint8', 'int16', 'uint16', 'int32', 'float32', 'float64', 'int64']


def geot(V):
    if V.symbolic:
        g = V.reals('g', 6, npy=False)
    else:
        g = [V.real('g%d' % i, sample=(-100, 100)) for i in range(6)]
    V.assume(V.not_(V.eq(g[1] * g[5], g[2] * g[4])) if V.symbolic else abs(g[1] * g[5] - g[2] * g[4]) > 1)
    return g


def nodata(V, dtype, kinds=('none', 'whole', 'real', 'nan')):
    k = V.choice('nodata', list(kinds) if 'float' in dtype else [x for x in kinds if x in ('none', 'whole', 'whole float')])
    if k == 'none':
        return None
    if k == 'nan':
        return V.nan
    if k == 'whole':
        return V.int('nodata value', 0, 100)
    if k == 'whole float':
        return V.int('nodata value', 0, 100) * 1.0
    if V.symbolic:
        return V.real('nodata value')
    return V.choice('real nodata', [0.5, -7.25, 3e38, float('inf'), 1234567.0])


def image(V, dtype, two=False, **k):
    ny, nx = V.dim('ny', sample=(1, 6)), V.dim('nx', sample=(1, 6))
    nb = 1 if two else V.dim('nb', sample=(1, 4))
    cube = V.array('cube', (ny, nx) if two else (ny, nx, nb), dtype)
    at = (lambda j, i, b: V.get(cube, j, i)) if two else (lambda j, i, b: V.get(cube, j, i, b))
    return cube, at, ny, nx, nb


def sizes(V, md, ny, nx, nb):
    V.ensure_eq('rows', md.get_npix_y(), ny)
    V.ensure_eq('columns', md.get_npix_x(), nx)
    V.ensure_eq('bands', md.get_n_bands(), nb)


def same_nodata(V, got, nd, label='nodata value'):
    if nd is None:
        V.ensure(label, got is None)
    else:
        V.ensure(label + ' present', got is not None)
        V.ensure_eq(label, got, nd, nan=True)


def band_no(V, nb, name='band'):
    k = V.int(name, 0, sample=(0, 3 if V.symbolic else min(3, int(nb) - 1)))
    V.assume(k < nb)
    return k


@contract('an image made from an array reports its size and returns its bands', MAKE + BANDS)
def made(V):
    dtype = V.choice('dtype', TYPES)
    two = V.choice('bands', ['one, as a matrix', 'a cube']) != 'a cube'
    cube, at, ny, nx, nb = image(V, dtype, two)
    g, nd = geot(V), nodata(V, dtype)
    p = V.proj('B')
    snap = V.snapshot(cube)
    im = V.mod(GF).GeotiffImageFactory.from_numpy_array(cube, g, p, nd) if V.choice('nodata given', [True, False]) or nd is not None \
        else V.mod(GF).GeotiffImageFactory.from_numpy_array(cube, g, p)
    md = im.get_metadata()
    sizes(V, md, ny, nx, nb)
    same_nodata(V, md.get_nodata_val(), nd)
    V.ensure('raster type', md.get_gdal_datatype() == V.lib('osgeo.gdal_array').NumericTypeCodeToGDALTypeCode(V.np.dtype(dtype)))
    V.ensure_array('cube', im.get_image_data(), (ny, nx, nb), at)
    V.ensure('type', im.get_image_data().dtype == cube.dtype)
    k = band_no(V, nb)
    V.ensure_array('band', im.get_image_band(k), (ny, nx), lambda j, i: at(j, i, k))
    pc = im.get_point_calculator()
    for a, b in zip(pc.get_geot(), g):
        V.ensure_eq('geotransform', a, b)
    V.ensure('projection', pc.get_projection().srs == p.srs)
    x, y = V.real('x'), V.real('y')
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(x, y, 0)
    V.ensure_eq('ground x', lon, g[0] + x * g[1] + y * g[2], tol=1e-6)
    V.ensure_eq('ground y', lat, g[3] + x * g[4] + y * g[5], tol=1e-6)
    V.unchanged('frame', snap)


@contract('replacing one band leaves the others', BANDS + MAKE[:2])
def replaced(V):
    dtype = V.choice('dtype', TYPES)
    cube, at, ny, nx, nb = image(V, dtype)
    im = V.mod(GI).GeotiffImage()
    V.ensure('no data yet', im.get_image_data() is None and im.get_image_band(0) is None)
    im = V.mod(GI).GeotiffImage.init_from_numpy_array(V.np.array(cube), geot(V), V.proj('B'))
    k = band_no(V, nb)
    new = V.array('new', (ny, nx), dtype)
    im.set_image_band(new, k)
    V.ensure_array('cube', im.get_image_data(), (ny, nx, nb), lambda j, i, b: V.ite(V.eq(b, k), V.get(new, j, i), at(j, i, b)))
    b = band_no(V, nb, 'other band')
    V.ensure_array('band', im.get_image_band(b), (ny, nx), lambda j, i: V.ite(V.eq(b, k), V.get(new, j, i), at(j, i, b)))
    other = V.array('other', (ny, nx, nb), dtype)
    im.set_image_data(other)
    V.ensure_array('new cube', im.get_image_band(b), (ny, nx), lambda j, i: V.get(other, j, i, b))
    md = V.mod(GM).GeotiffMetadata()
    V.ensure('no nodata value by default', md.get_nodata_val() is None)
    im.set_metadata(md)
    V.ensure('metadata', im.get_metadata() is md)


def check_file(V, im, at, ny, nx, nb, dtype, g, nd, p, geo=True):
    md = im.get_metadata()
    sizes(V, md, ny, nx, nb)
    V.ensure('raster type', md.get_gdal_datatype() == V.lib('osgeo.gdal_array').NumericTypeCodeToGDALTypeCode(V.np.dtype(dtype)))
    same_nodata(V, md.get_nodata_val(), nd)
    cube = im.read_all_image_data_from_disk()
    V.ensure_array('cube', cube, (ny, nx, nb), at)
    V.ensure('type', cube.dtype == V.np.dtype(dtype))
    k = band_no(V, nb)
    V.ensure_array('band', im.read_band_from_disk(k), (ny, nx), lambda j, i: at(j, i, k))
    if geo:
        for a, b in zip(im.get_point_calculator().get_geot(), g):
            V.ensure_eq('geotransform', a, b, tol=1e-9)
        q = im.get_point_calculator().get_projection()
        if V.symbolic:
            V.ensure('projection', q.srs == p.srs)
        else:
            V.ensure('projection', all(abs(a - b) < 1e-6 for a, b in zip(q(-75.5, 41.25), p(-75.5, 41.25))) and q.crs.is_geographic == p.crs.is_geographic)


READ = [GI + ':GeotiffImage.' + f for f in ('write_to_disk', 'init_from_file', 'read_all_image_data_from_disk', 'read_band_from_disk', '_get_gdal_nodata_val',
                                            'set_dset', 'get_dset')] + \
    [GF + ':GeotiffImageFactory.from_file', GM + ':GeotiffMetadata._from_file', GP + ':GeotiffPointCalc.init_from_file', GP + ':GeotiffPointCalc.get_gdal_projection_wkt']


def name(V, k):
    if V.symbolic:
        return '/scratch/%s.tif' % k
    import os
    return os.path.join(V.tmpdir(), '%s%d.tif' % (k, len(os.listdir(V.tmpdir()))))


for _two in (False, True):
    @contract('an image written to a GeoTIFF reads back unchanged: %s' % ('a matrix' if _two else 'a cube'), READ + MAKE[:1])
    def trip(V, two=_two):
        dtype = V.choice('dtype', TYPES)
        cube, at, ny, nx, nb = image(V, dtype, two)
        g, nd = geot(V), nodata(V, dtype, ('none', 'whole', 'whole float', 'real', 'nan'))
        p = V.proj(V.choice('projection', ['A', 'B']))
        snap = V.snapshot(cube)
        m = V.mod(GF).GeotiffImageFactory
        im = m.from_numpy_array(cube, g, p, nd)
        f = name(V, 'image')
        if used_before(V, False):
            # another image was in that file, and this image held something else
            m.from_numpy_array(V.np.ones((2, 3, 2), 'uint8'), [0.0, 1.0, 0.0, 0.0, 0.0, -1.0], V.proj('A'), 7).write_to_disk(f)
            m.from_file(f).read_all_image_data_from_disk()
            im = m.from_numpy_array(V.np.zeros_like(cube), g, p, nd)
            im.write_to_disk(name(V, 'earlier'))
            im.set_image_data(V.np.array(cube).reshape(ny, nx, nb))
        if V.choice('compression', ['default', 'DEFLATE']) == 'default':
            im.write_to_disk(f)
        else:
            im.write_to_disk(f, compression='DEFLATE')
        back = m.from_file(f)
        V.ensure('own data', back.get_image_data() is None)
        check_file(V, back, at, ny, nx, nb, dtype, g, nd, p)
        if V.choice('then', ['copied', 'edited']) == 'edited':
            # changed in memory before it is written again
            new = V.array('new', (ny, nx), dtype)
            before = at
            back.set_image_data(back.read_all_image_data_from_disk())
            q = band_no(V, nb, 'replaced')
            back.set_image_band(V.np.array(new), q)
            at = lambda j, i, b: V.ite(V.eq(b, q), V.get(new, j, i), before(j, i, b))
            f3 = name(V, 'edited')
            back.write_to_disk(f3)
            check_file(V, m.from_file(f3), at, ny, nx, nb, dtype, g, nd, p)
        # a second generation, from the data on disk
        f2 = name(V, 'copy')
        back.write_to_disk(f2)
        check_file(V, m.from_file(f2), at, ny, nx, nb, dtype, g, nd, p)
        V.unchanged('frame', snap)


@contract('the in-memory data set holds the image', [GI + ':GeotiffImage.get_gdal_mem_datset', GI + ':GeotiffImage._get_gdal_nodata_val'] + READ[:1])
def memory(V):
    dtype = V.choice('dtype', TYPES)
    cube, at, ny, nx, nb = image(V, dtype)
    g, nd = geot(V), nodata(V, dtype, ('none', 'whole', 'whole float', 'real', 'nan'))
    p = V.proj('B')
    m = V.mod(GF).GeotiffImageFactory
    im = m.from_numpy_array(cube, g, p, nd)
    if V.choice('source', ['array', 'file']) == 'file':
        f = name(V, 'image')
        im.write_to_disk(f)
        im = m.from_file(f)
    if used_before(V):
        im.get_gdal_mem_datset()
        q, new, before = band_no(V, nb, 'replaced'), V.array('new', (ny, nx), dtype), at
        im.set_image_band(V.np.array(new), q)
        at = lambda j, i, b: V.ite(V.eq(b, q), V.get(new, j, i), before(j, i, b))
    ds = im.get_gdal_mem_datset()
    V.ensure_eq('rows', ds.RasterYSize, ny)
    V.ensure_eq('columns', ds.RasterXSize, nx)
    V.ensure_eq('bands', ds.RasterCount, nb)
    for a, b in zip(ds.GetGeoTransform(), g):
        V.ensure_eq('geotransform', a, b, tol=1e-9)
    k = band_no(V, nb)
    band = ds.GetRasterBand(k + 1)
    V.ensure_array('band', band.ReadAsArray(), (ny, nx), lambda j, i: at(j, i, k))
    same_nodata(V, band.GetNoDataValue(), nd)
    V.ensure_array('loaded', im.get_image_data(), (ny, nx, nb), at)


@contract('images of other sensors read every band of their file', [
    PF + ':PhysicalCameraImageFactory.from_gdal_file_and_single_point_calc', PF + ':PhysicalCameraImageFactory.from_numpy_array_metadata_and_single_point_calc',
    PI + ':PhysicalCameraImage.read_all_image_data_from_disk', PI + ':PhysicalCameraImage.read_band_from_disk', PM + ':PhysicalCameraMetadata._from_gdal_file',
    VI + ':ViewReadyStereoImage.init_from_file', VI + ':ViewReadyStereoImage.read_all_image_data_from_disk', VI + ':ViewReadyStereoImage.read_band_from_disk'])
def others(V):
    dtype = V.choice('dtype', TYPES)
    cube, at, ny, nx, nb = image(V, dtype)
    g, nd = geot(V), nodata(V, dtype)
    f = name(V, 'image')
    V.mod(GF).GeotiffImageFactory.from_numpy_array(cube, g, V.proj('B'), nd).write_to_disk(f)

    class Camera:
        pass
    if V.choice('sensor', ['camera', 'satellite']) == 'camera':
        pc = Camera()
        im = V.mod(PF).PhysicalCameraImageFactory.from_gdal_file_and_single_point_calc(f, pc)
        V.ensure('point calculator', im.get_point_calculator() is pc)
        check_file(V, im, at, ny, nx, nb, dtype, g, nd, None, geo=False)
        own = V.mod(PF).PhysicalCameraImageFactory.from_numpy_array_metadata_and_single_point_calc(cube, im.get_metadata(), pc)
        k = band_no(V, nb, 'k')
        V.ensure_array('band in memory', own.read_band_from_disk(k), (ny, nx), lambda j, i: at(j, i, k))
        V.ensure('camera', own.get_point_calculator() is pc and own.get_metadata() is im.get_metadata())
    else:
        m = V.mod(VI)
        pc = Camera()
        V.stub(m.ViewReadyStereoPointCalc, 'init_from_file', lambda name: pc if name == f else None)
        im = m.ViewReadyStereoImage.init_from_file(f)
        V.ensure('point calculator', im.get_point_calculator() is pc)
        check_file(V, im, at, ny, nx, nb, dtype, g, nd, None, geo=False)


@contract('a location array image returns what was stored for the pixel', [
    II + ':IgmImage.from_params', IP + ':IGMPointCalc.__init__', IP + ':IGMPointCalc._pixel_x_y_alt_to_lon_lat_native', IP + ':IGMPointCalc.lon_image',
    IP + ':IGMPointCalc.lat_image', IP + ':IGMPointCalc.alt_image', PC + 'abstract_earth_overhead_point_calc:AbstractEarthOverheadPointCalc.pixel_x_y_alt_to_lon_lat'])
def igm(V):
    ny, nx, nb = V.dim('ny'), V.dim('nx'), V.dim('nb')
    cube = V.array('cube', (ny, nx, nb))
    lons, lats = V.array('lons', (ny, nx)), V.array('lats', (ny, nx))
    per_pixel = V.choice('altitude', ['array', 'scalar']) == 'array'
    alts = V.array('alts', (ny, nx)) if per_pixel else V.real('alt', sample=(-100, 3000))
    alt = (lambda j, i: V.get(alts, j, i)) if per_pixel else (lambda j, i: alts)
    p = V.proj(V.choice('projection', ['A', 'B']))
    snap = V.snapshot(cube, lons, lats)
    im = V.mod(II).IgmImage.from_params(cube, lons, lats, alts, nb, p)
    sizes(V, im.get_metadata(), ny, nx, nb)
    pc = im.get_point_calculator()
    V.ensure('projection', pc.get_projection().srs == p.srs)
    V.ensure_array('longitudes', pc.lon_image, (ny, nx), lambda j, i: V.get(lons, j, i))
    V.ensure_array('latitudes', pc.lat_image, (ny, nx), lambda j, i: V.get(lats, j, i))
    V.ensure_array('altitudes', pc.alt_image, (ny, nx), alt)
    k = band_no(V, nb)
    V.ensure_array('band', im.get_image_band(k), (ny, nx), lambda j, i: V.get(cube, j, i, k))
    n = V.dim('n')
    sh = (n,) if V.choice('pixels', ['list', 'grid']) == 'list' else (n, V.dim('m'))
    t = 'int64' if V.symbolic else V.choice('pixel type', ['int64', 'int16', 'uint8'])
    V.assume(max(nx, ny) <= {'int16': 2 ** 15, 'uint8': 2 ** 8}.get(t, 2 ** 40) if not V.symbolic else True)
    xs, ys = V.array('xs', sh, t, lo=0, hi=nx - 1), V.array('ys', sh, t, lo=0, hi=ny - 1)
    if used_before(V, False):
        pc.pixel_x_y_alt_to_lon_lat(V.np.zeros_like(xs), V.np.zeros_like(ys), 0)
    r = pc.pixel_x_y_alt_to_lon_lat(xs, ys, 0)
    V.ensure_array('longitude of the pixel', r[0], sh, lambda *q: V.get(lons, V.get(ys, *q), V.get(xs, *q)))
    V.ensure_array('latitude of the pixel', r[1], sh, lambda *q: V.get(lats, V.get(ys, *q), V.get(xs, *q)))
    x, y = band_no(V, nx, 'x'), band_no(V, ny, 'y')
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(x, y, 0)
    V.ensure_eq('one longitude', lon, V.get(lons, y, x))
    V.ensure_eq('one latitude', lat, V.get(lats, y, x))
    V.unchanged('frame', snap)


@contract('the location array image made of an image stores the location of every pixel', [OT + ':create_igm_image', II + ':IgmImage.from_params'])
def made_igm(V):
    ny, nx, nb = V.dim('ny'), V.dim('nx'), V.dim('nb')
    cube = V.array('cube', (ny, nx, nb))
    lon, lat, alt = V.map('lon', 2), V.map('lat', 2), V.map('alt', 2)
    seen = []
    p = V.proj('B')

    class Camera(V.mod(PC + 'abstract_earth_overhead_point_calc').AbstractEarthOverheadPointCalc):
        def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
            raise NotImplementedError

        def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
            raise NotImplementedError

        def pixel_x_y_to_lon_lat_alt(self, xs, ys, dem, **k):
            seen.append((dem, k.get('dem_sample_distance')))
            return lon(xs, ys), lat(xs, ys), alt(xs, ys)
    pc = Camera()
    pc.set_projection(p)
    im = V.mod(PI).PhysicalCameraImage()
    im.set_image_data(cube)
    im.set_point_calculator(pc)
    md = V.mod(PM).PhysicalCameraMetadata()
    md.set_npix_x(nx)
    md.set_npix_y(ny)
    md.set_n_bands(nb)
    im.set_metadata(md)
    snap = V.snapshot(cube)
    dem = V.choice('dem', [None, 'given'])
    step = V.choice('step', [None, 5])
    kw = {}
    if dem is not None:
        kw['dem'] = dem = V.mod('resippy.photogrammetry.dem.dem_factory').DemFactory.constant_elevation(12)
    if step is not None:
        kw['dem_sample_distance'] = step
    r = V.mod(OT).create_igm_image(im, **kw)
    sizes(V, r.get_metadata(), ny, nx, nb)
    q = r.get_point_calculator()
    V.ensure('projection', q.get_projection().srs == p.srs)
    V.ensure_array('longitudes', q.lon_image, (ny, nx), lambda j, i: lon(i, j))
    V.ensure_array('latitudes', q.lat_image, (ny, nx), lambda j, i: lat(i, j))
    V.ensure_array('altitudes', q.alt_image, (ny, nx), lambda j, i: alt(i, j))
    k = band_no(V, nb)
    V.ensure_array('band', r.get_image_band(k), (ny, nx), lambda j, i: V.get(cube, j, i, k))
    V.ensure('terrain', len(seen) == 1 and seen[0][1] == step and (dem is None or seen[0][0] is dem))
    if dem is None:
        V.ensure_eq('ellipsoid', seen[0][0].get_elevations(1.0, 2.0), 0)
    V.unchanged('frame', snap)


@contract('masking adds an alpha band that is clear exactly where the first band is nodata', [OT + ':mask_image'])
def masked(V):
    dtype = V.choice('dtype', ['uint8', 'uint16', 'int16', 'int32', 'float32', 'float64'])
    ny, nx, nb = V.dim('ny'), V.dim('nx'), V.dim('nb')
    cube = V.array('cube', (ny, nx, nb), dtype, **({} if 'float' not in dtype else {'special': (0.0, -7.0)}))
    nd = V.choice('nodata', [None, 'value'])
    if nd is not None:
        nd = V.int('nodata value', 0, 200, sample=(0, 3)) if 'float' not in dtype else V.real('nodata value') if V.symbolic else -7.0
    snap = V.snapshot(cube)
    r = V.mod(OT).mask_image(cube) if nd is None else V.mod(OT).mask_image(cube, nd)
    v = 0 if nd is None else nd
    V.ensure_shape('shape', r, (ny, nx, nb + 1))
    V.forall('image', (ny, nx, nb), lambda j, i, b: V.eq(V.get(r, j, i, b), V.get(cube, j, i, b)))
    V.forall('alpha', (ny, nx), lambda j, i: V.eq(V.get(r, j, i, nb), V.ite(V.eq(V.get(cube, j, i, 0), v), 0, 255)))
    V.ensure('type', r.dtype == cube.dtype)
    V.unchanged('frame', snap)
