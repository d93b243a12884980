H = 'import numpy as np\n'
E = 'resippy/image_objects/earth_overhead/earth_overhead_point_calculators/'
AB = E + 'abstract_earth_overhead_point_calc.py'
PX = E + 'pix4d_point_calc.py'
RP = E + 'rpc_point_calc.py'
IG = E + 'igm_point_calc.py'
FC = E + 'fixtured_camera.py'
PU = 'resippy/utils/photogrammetry_utils.py'
P4 = 'resippy/utils/pix4d_utils.py'
EU = 'resippy/utils/envi_utils.py'
IU = 'resippy/utils/image_utils/image_utils.py'
S1 = 'resippy/spectral/spectral_image_processing_1d.py'
SP = 'resippy/spectral/spectrum.py'
GD = 'resippy/photogrammetry/dem/geotiff_dem.py'
TU = 'resippy/utils/time_utils.py'
OT = 'resippy/photogrammetry/ortho_tools.py'
BUGS = [
 dict(id='c02-degree-constant', prop='C02', file=P4,
  edits=[("    omega, phi, kappa = np.deg2rad(external_parameters[3]), np.deg2rad(external_parameters[4]), \\\n                        np.deg2rad(external_parameters)[5]\n",
          "    omega, phi, kappa = [a * 0.0174533 for a in external_parameters[3:6]]\n")],
  demo=H + '''from resippy.utils.pix4d_utils import create_r_matrix
from resippy.utils.photogrammetry_utils import create_M_matrix
for a in ((10., -20., 170.), (1., 2., 3.), (-179., 80., 45.)):
    r = create_r_matrix([1., 2., 3.] + list(a))
    assert np.abs(r - create_M_matrix(*np.deg2rad(a)).T).max() < 1e-9
''', needs='large angles', breaks='the degrees are converted with six digits only'),
 dict(id='c06-denominator-guard', prop='C06', file=RP,
  edits=[("        x_norm = p1/p2\n        y_norm = p3/p4\n", """        # keep away from the poles of the rational functions
        p2 = np.where(np.abs(p2) < 1e-2, 1e-2, p2)
        p4 = np.where(np.abs(p4) < 1e-2, 1e-2, p4)

        x_norm = p1/p2
        y_norm = p3/p4
""")],
  demo=H + '''from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
e = np.zeros(20); e[0] = 1
n = np.zeros(20); n[1] = 2
for d in (1., .5, .004, -.004):
    pc = RPCPointCalc.init_from_coeffs(n, e * d, 10., 5., n, e, 10., 5., 1., 0., 1., 0., 1., 0.)
    x, y = pc._lon_lat_alt_to_pixel_x_y_native(np.array([.3]), np.array([.2]), np.array([.1]))
    assert abs(x[0] - (10 * .6 / d + 5.5)) < 1e-6, d
''', needs='a small denominator', breaks='the quotient is not the one of the model'),
 dict(id='c07-skip-tangential', prop='C07', file=PX,
  edits=[("        x_h = camera_coords_xyz[0, :] / camera_coords_xyz[2, :]\n        y_h = camera_coords_xyz[1, :] / camera_coords_xyz[2, :]\n\n        r_squared",
          """        if self.radial_distortion_1 == 0 and self.radial_distortion_2 == 0:
            # a camera without radial distortion is not distorted
            return self.camera_coords_to_pixel_coords_no_distortion(camera_coords_xyz)

        x_h = camera_coords_xyz[0, :] / camera_coords_xyz[2, :]
        y_h = camera_coords_xyz[1, :] / camera_coords_xyz[2, :]

        r_squared""")],
  demo=H + '''from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
def pc(k, t):
    c = Pix4dPointCalc()
    c.reverse_x_pixels = c.reverse_y_pixels = False
    c.f_pixels, c.principal_point_x_pixels, c.principal_point_y_pixels, c.npix_x, c.npix_y = 1000., 500., 400., 1000, 800
    c.radial_distortion_1, c.radial_distortion_2, c.radial_distortion_3 = k
    c.tangential_distortion_1, c.tangential_distortion_2 = t
    return c
p = np.array([[.3], [.2], [1.]])
r2 = .13
for k, t in (((.1, 0., 0.), (.01, .02)), ((0., 0., .1), (0., 0.)), ((0., 0., 0.), (.01, .02))):
    x, y = pc(k, t).camera_coords_to_pixel_coords_with_distortion(p)
    q = 1 + k[0] * r2 + k[1] * r2 ** 2 + k[2] * r2 ** 3
    assert abs(x[0] - (500 - 1000 * (q * .3 + 2 * t[0] * .06 + t[1] * (r2 + .18)))) < 1e-6
    assert abs(y[0] - (400 - 1000 * (q * .2 + 2 * t[1] * .06 + t[0] * (r2 + .08)))) < 1e-6
''', needs='zero k1 and k2 with other coefficients not zero', breaks='k3 and the tangential terms are left out'),
 dict(id='c08-wrap', prop='C08', file=AB,
  edits=[("        pixel_coords = self._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts, band)\n\n        if lons_is_number",
          """        if self.get_projection().srs == world_proj.srs and np.max(np.abs(lats)) <= 90 and np.max(lons) > 180:
            # degrees from 0 to 360
            lons = np.where(np.asarray(lons) > 180, np.asarray(lons) - 360, lons)
        pixel_coords = self._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts, band)

        if lons_is_number""")],
  demo=H + '''from pyproj import Proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
class PC(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
        return np.array(lons) * 2., np.array(lats) * 3.
    def _pixel_x_y_alt_to_lon_lat_native(self, x, y, alts=None, band=None):
        return None
pc = PC()
pc.set_projection(Proj('EPSG:32618'))
for lons, lats in (([1., 2.], [3., 4.]), ([100., 200.], [3., 4.]), ([500000., 500001.], [4000000., 4000001.])):
    x, y = pc.lon_lat_alt_to_pixel_x_y(np.array(lons), np.array(lats), np.zeros(2))
    assert np.allclose(x, np.array(lons) * 2) and np.allclose(y, np.array(lats) * 3)
''', needs='native coordinates with y below 90 and x above 180', breaks='the native model gets other coordinates'),
 dict(id='c09-bounded-step', prop='C09', file=AB,
  edits=[("            new_lons = lons + delta_lon\n            new_lats = lats + delta_lat\n", """            # no step leaves the neighbourhood in which the model is linear
            new_lons = lons + np.clip(delta_lon, -25 * abs(d_lon), 25 * abs(d_lon))
            new_lats = lats + np.clip(delta_lat, -25 * abs(d_lat), 25 * abs(d_lat))
""")],
  demo=H + '''from pyproj import Proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
class PC(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
        return 2. * lons, 3. * lats
    def _pixel_x_y_alt_to_lon_lat_native(self, x, y, alts=None, band=None):
        return None
pc = PC()
pc.set_projection(Proj('EPSG:32618'))
pc.set_approximate_lon_lat_center(0., 0.)
for q in (1., 10., 1000.):
    lon, lat = pc._pixel_x_y_alt_to_lon_lat_native_solver(np.array([q]), np.array([-q]), np.array([0.]), d_lon=1., d_lat=1., max_iter=1)
    assert abs(lon[0] - q / 2) < 1e-6 and abs(lat[0] + q / 3) < 1e-6, q
''', needs='a pixel more than 25 steps away from the start', breaks='one step does not reach the solution of an affine model'),
 dict(id='c10-coarse', prop='C10', file=AB,
  edits=[("        ray_step_indices = list(range(n_steps_per_ray))\n        ray_step_indices.reverse()\n", """        ray_step_indices = list(range(n_steps_per_ray))
        if n_steps_per_ray > 64:
            # long rays are searched at every second step
            ray_step_indices = ray_step_indices[1::2]
        ray_step_indices.reverse()
""")],
  demo=H + '''from pyproj import Proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
class PC(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None):
        return lons - alts, lats
    def _pixel_x_y_alt_to_lon_lat_native(self, x, y, alts=None, band=None):
        return x + alts, y + 0. * x
class Dem:
    def get_highest_alt(self): return 100.
    def get_lowest_alt(self): return 0.
    def get_elevations(self, x, y, world_proj=None): return np.where((x > 60) & (x < 60 + w), 90., 0.) + 0. * y
pc = PC()
pc.set_projection(Proj('EPSG:32618'))
for step in (5., 1., 1.03):
    for w in (1., 2., 10., 30.):
        lon, lat, alt = pc.pixel_x_y_to_lon_lat_alt(np.array([0.]), np.array([0.]), Dem(), dem_sample_distance=step)
        n = int(np.ceil(102 / step) + 1)
        ray = np.linspace(101, -1, n)
        e = Dem().get_elevations(ray, 0.)
        i = np.where(e > ray)[0][0]
        t = (ray[i - 1] - e[i - 1]) / (ray[i - 1] - e[i - 1] + e[i] - ray[i])
        assert abs(lon[0] - (ray[i - 1] + t * (ray[i] - ray[i - 1]))) < 1e-6, (step, w)
''', needs='a ray with more than 64 steps that first passes below the terrain at an even one', breaks='the first crossing is missed'),
 dict(id='c11-mean-dtype', prop='C11', file=GD,
  edits=[("        return float(np.nanmean(self.dem_data))", "        # in the precision of the raster\n        return float(np.nansum(self.dem_data, dtype=self.dem_data.dtype) / np.count_nonzero(~np.isnan(self.dem_data)))")],
  demo=H + '''from pyproj import Proj
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory as F
from resippy.photogrammetry.dem.dem_factory import DemFactory
import tempfile, os, shutil
d = tempfile.mkdtemp()
try:
    for k, t in enumerate(('float64', 'float32', 'int16', 'uint8')):
        f = os.path.join(d, '%d.tif' % k)
        F.from_numpy_array(np.full((20, 30, 1), 200, t), [0., 1., 0., 20., 0., -1.], Proj('EPSG:32618')).write_to_disk(f)
        dem = DemFactory.from_gtiff_file(f)
        assert dem.get_lowest_alt() <= dem.get_mean_alt() <= dem.get_highest_alt(), t
finally:
    shutil.rmtree(d)
''', needs='an integer raster whose sum does not fit its type', breaks='the mean is outside of the range'),
 dict(id='c12-compact', prop='C12', file=EU,
  edits=[("    ny, nx, nbands = image_cube.shape\n    raw_data = np.zeros", """    if image_cube.dtype == np.int64 and image_cube.size and np.abs(image_cube).max() < 2**31:
        # half the size on disk
        image_cube = image_cube.astype(np.int32)
    ny, nx, nbands = image_cube.shape
    raw_data = np.zeros""")],
  demo=H + '''from resippy.utils.envi_utils import write_envi_image, read_envi_image
import tempfile, os, shutil
d = tempfile.mkdtemp()
try:
    for t in ('int16', 'int32', 'int64', 'float64'):
        for v in (1, 2 ** 14):
            a = (np.arange(24).reshape(2, 3, 4) * 1 + v).astype(t)
            f = os.path.join(d, 'a.img')
            write_envi_image(a, f, f[:-4] + '.hdr')
            b = read_envi_image(f)
            assert b.dtype == a.dtype and (a == b).all(), t
finally:
    shutil.rmtree(d)
''', needs='a cube of 64 bit integers with small values', breaks='it is read back with another type'),
 dict(id='c14-demean-inplace', prop='C14', file=S1,
  edits=[("    image_mean = compute_image_cube_spectral_mean(spectral_image, image_mask)\n    return spectral_image - image_mean", """    image_mean = compute_image_cube_spectral_mean(spectral_image, image_mask)
    if spectral_image.dtype == np.float64 and spectral_image.base is not None:
        # a temporary view of a larger cube: no need for another copy
        spectral_image -= image_mean
        return spectral_image
    return spectral_image - image_mean""")],
  demo=H + '''from resippy.spectral.spectral_image_processing_1d import demean_image_data as f
r = np.random.RandomState(1)
a = r.rand(10, 3)
b = r.rand(20, 3)[::2]
for im in (a, b, a.reshape(5, 2, 3).reshape(10, 3), np.asfortranarray(a)):
    c = im.copy()
    g = f(im)
    assert (im == c).all() and np.allclose(g, c - c.mean(axis=0))
''', needs='an image that is a view of another array', breaks='the image is modified'),
 dict(id='c14-regularized', prop='C14', file=S1,
  edits=[("    cov_1_to_minus_one_half =", """    if np.linalg.cond(cov_1) > 1e5:
        # nearly dependent bands
        cov_1 = cov_1 + 1e-6 * np.trace(cov_1) * np.eye(n_bands)
    cov_1_to_minus_one_half =""")],
  demo=H + '''from resippy.spectral.spectral_image_processing_1d import compute_cov_eq_linear_transform_matrix as f
r = np.random.RandomState(1)
for s in (1., 10., 2000.):
    a, b = r.randn(50, 2) * [1., s], r.randn(40, 2)
    big = f(a, b)
    assert np.allclose(big @ np.cov(a.T) @ big.T, np.cov(b.T), atol=1e-8), s
''', needs='bands of very different scale', breaks='the map is not the one of the covariances'),
 dict(id='c16-float32', prop='C16', file=PU,
  edits=[("    ground_x_arr = ground_x_arr/npix_x*(max_x - min_x)\n", """    if npix_x * npix_y > 250000:
        # half the memory for large grids
        ground_x_arr = ground_x_arr.astype(np.float32)
        ground_y_arr = ground_y_arr.astype(np.float32)
    ground_x_arr = ground_x_arr/npix_x*(max_x - min_x)
""")],
  demo=H + '''from resippy.utils.photogrammetry_utils import create_ground_grid as f
for nx, ny in ((10, 8), (400, 300), (700, 600)):
    x, y = f(500000.25, 500000.25 + nx, 4000000.125, 4000000.125 + ny, nx, ny)
    assert abs(x[0, 3] - 500003.75) < 1e-6 and abs(y[2, 0] - (4000000.125 + ny - 2.5)) < 1e-6, nx
''', needs='a grid of more than 250000 pixels', breaks='coordinates are off by their rounding to single precision'),
 dict(id='c17-blocks', prop='C17', file=OT,
  edits=[("""            image_data = overhead_image.get_image_band(band)
            if image_data is None:
                image_data = overhead_image.read_band_from_disk(band)
            im_tp = image_data.dtype

            regridded = map_coordinates(image_data,
                                        [image_utils.flatten_image_band(pixels_y),
                                         image_utils.flatten_image_band(pixels_x)],
                                        order=spline_order)
""", """            image_data = overhead_image.get_image_band(band)
            if image_data is None:
                image_data = overhead_image.read_band_from_disk(band)
            im_tp = image_data.dtype

            flat_y = image_utils.flatten_image_band(pixels_y)
            flat_x = image_utils.flatten_image_band(pixels_x)
            regridded = np.zeros(len(flat_x), dtype=im_tp)
            block = min(len(flat_x), 1024)
            for k in range(0, len(flat_x) - block + 1, block):
                regridded[k:k + block] = map_coordinates(image_data, [flat_y[k:k + block], flat_x[k:k + block]],
                                                         order=spline_order)
""")],
  demo=H + '''from pyproj import Proj
from shapely.geometry import box
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory as F
from resippy.photogrammetry.ortho_tools import create_ortho_gtiff_image_world_to_sensor as f
from resippy.photogrammetry.dem.dem_factory import DemFactory
p = Proj('EPSG:32618')
im = F.from_numpy_array(np.full((60, 70, 1), 9.), [0., 1., 0., 60., 0., -1.], p)
dem = DemFactory.constant_elevation(0)
dem.set_projection(p)
for n in (5, 20, 40):
    o = f(im, n, n, box(10, 10, 50, 50), world_proj=p, dem=dem)
    assert (o.get_image_data() == 9).all(), n
''', needs='an ortho whose number of pixels is above 1024 and no multiple of it', breaks='the last pixels are zero'),
 dict(id='c19-round-week', prop='C19', file=TU,
  edits=[("    seconds_in_week = (weeks % 1) * _DAYS_IN_WEEK * _SECONDS_IN_DAY\n", "    seconds_in_week = round((weeks % 1) * _DAYS_IN_WEEK * _SECONDS_IN_DAY, 3)\n")],
  demo='''from resippy.utils.time_utils import utc_timestamp_to_gps_week_and_seconds as f, utc_timestamp_to_gps_timestamp as g, gps_timestamp_to_utc_timestamp as u
for k in (10, 1500, 2000):
    for d in (0., .5, 1000.25, 604799.5, 604799.9999):
        t = u(604800. * k + d)
        w, s = f(t)
        assert 0 <= s < 604800 and abs(w * 604800 + s - g(t)) < 2e-3, (k, d)
''', needs='an instant in the last half millisecond of a week', breaks='the seconds of the week are 604800'),
 dict(id='c21-negative', prop='C21', file=SP,
  edits=[("            spectra.append(b_center/b_width)", "            # radiances are not negative\n            spectra.append(max(b_center, 0.0)/b_width)")],
  demo=H + '''from resippy.spectral.spectrum import Spectrum
def sp(w, d):
    s = Spectrum()
    s.set_wavelengths(np.array(w, float)); s.set_spectral_data(np.array(d, float))
    return s
w = np.arange(10.)
r = sp(w, np.exp(-(w - 4) ** 2))
for v in (1., .5, -.25):
    assert abs(sp(w, [v] * 10).resample_spectrum_direct([r], np.array([4.])).get_spectral_data()[0] - v) < 1e-9
''', needs='negative values', breaks='a flat spectrum does not stay flat'),
 dict(id='c22-flat-index', prop='C22', file=IG,
  edits=[("        return self._lons[pixel_ys, pixel_xs], self._lats[pixel_ys, pixel_xs]\n", "        index = pixel_ys * self._npix_x + pixel_xs\n        return numpy.ravel(self._lons)[index], numpy.ravel(self._lats)[index]\n")],
  demo=H + '''from pyproj import Proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc
a = np.arange(300 * 200.).reshape(300, 200)
pc = IGMPointCalc(a, -a, 0., Proj('EPSG:4326'))
for t in ('int64', 'int32', 'int16'):
    y, x = np.array([1, 20, 250], t), np.array([3, 150, 199], t)
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(x, y, 0)
    assert (lon == a[y, x]).all() and (lat == -a[y, x]).all(), t
''', needs='pixel numbers in a narrow integer type', breaks='the numbers overflow and another pixel is returned'),
]
