PC = 'resippy/image_objects/earth_overhead/earth_overhead_point_calculators/'
M = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.'
H = 'import numpy as np\n'
BUGS = [
 dict(id='c01-stale-inverse', prop='C01', file=PC + 'geotiff_point_calc.py',
  edits=[("        self._geo_t = geo_t\n        self._inv_geo_t = gdal.InvGeoTransform(geo_t)", "        self._geo_t = geo_t\n        if self._inv_geo_t is None:\n            self._inv_geo_t = gdal.InvGeoTransform(geo_t)")],
  needs='a second set_geot on the same point calculator', breaks='inverse geotransform not recomputed when the geotransform is replaced',
  demo=H + 'from ' + M + '''geotiff_point_calc import GeotiffPointCalc
from pyproj import Proj
p = GeotiffPointCalc()
p.set_projection(Proj('epsg:4326'))
p.set_geot([10., 2., .5, 30., .25, -3.])
p.set_geot([100., 1., .5, -30., .25, -2.])
x, y = np.array([3., 7.]), np.array([5., 2.])
lon, lat = p.pixel_x_y_alt_to_lon_lat(x, y, None)
px, py = p.lon_lat_alt_to_pixel_x_y(lon, lat, None)
assert np.allclose(px, x) and np.allclose(py, y), (px, py)
'''),
 dict(id='c02-pyr-order', prop='C02', file='resippy/utils/photogrammetry_utils.py',
  edits=[("m_matrix = m_omega @ m_kappa @ m_phi", "m_matrix = m_omega @ m_phi @ m_kappa")],
  needs="axis order 'pyr' with pitch and yaw both non-zero", breaks='pyr matrices composed in another order',
  demo=H + '''from resippy.utils.photogrammetry_utils import create_M_matrix as f
a, b, c = .3, -.4, 1.1
assert np.allclose(f(a, b, c, order='pyr'), f(a, 0, 0) @ f(0, 0, c) @ f(0, b, 0))
'''),
 dict(id='c03-kappa-quadrant', prop='C03', file='resippy/utils/photogrammetry_utils.py',
  edits=[("    if m21 > 0:\n        kappa = -kappa", "    if m21 * m11 > 0:\n        kappa = -kappa")],
  needs='kappa beyond 90 degrees in either direction', breaks='sign of kappa is wrong in two of four quadrants',
  demo=H + '''from resippy.utils.photogrammetry_utils import create_M_matrix as f, solve_for_omega_phi_kappa as g
for k in (-2.5, -1., 1., 2.5):
    assert np.allclose(g(f(.2, .1, k)), (.2, .1, k)), k
'''),
 dict(id='c04-z-units', prop='C04', file=PC + 'pinhole_camera.py',
  edits=[("z = Z * ureg.parse_expression(z_units)", "z = Z * ureg.parse_expression(y_units)")],
  needs='an altitude in other units than the horizontal position', breaks='camera altitude converted with the units of y',
  demo=H + 'from ' + M + '''pinhole_camera import PinholeCamera
c = PinholeCamera()
c.init_pinhole_from_coeffs(1., 2., 1000., 0, 0, 0, 50, z_units='feet')
assert abs(c.Z - 304.8) < 1e-6, c.Z
'''),
 dict(id='c05-inplace-boresight', prop='C05', file=PC + 'fixtured_camera.py',
  edits=[("        return self.boresight_matrix @ self.fixture_M", "        return np.matmul(self.boresight_matrix, self.fixture_M, out=self.boresight_matrix)"),
         ("from resippy.utils import photogrammetry_utils", "import numpy as np\nfrom resippy.utils import photogrammetry_utils")],
  needs='asking twice for the absolute orientation of one camera', breaks='the boresight matrix is overwritten by the query',
  demo=H + 'from ' + M + '''fixtured_camera import FixturedCamera
c = FixturedCamera()
c.set_fixture_xyz(0., 0., 0.)
c.set_fixture_orientation_by_roll_pitch_yaw(.1, .2, .3)
c.set_boresight_matrix_from_camera_relative_rpy_params(.4, .5, .6)
a = c.get_camera_absolute_M_matrix().copy()
b = c.get_camera_absolute_M_matrix().copy()
assert np.allclose(a, b)
'''),
 dict(id='c07-tangential', prop='C07', file=PC + 'opencv_point_calc.py',
  edits=[("(self._p1 * (r_squared + 2.0 * y_prime * y_prime))", "(self._p1 * (r_squared + 2.0 * x_prime * x_prime))")],
  needs='a lens with tangential distortion p1', breaks='p1 term of y uses x^2',
  demo=H + 'from ' + M + '''opencv_point_calc import OpenCVPointCalc
class F:
    def get_camera_absolute_M_matrix(self): return np.eye(3)
    def get_camera_absolute_xyz(self): return 0., 0., 0.
c = OpenCVPointCalc()
c._fixture = F()
c._k1 = c._k2 = c._k3 = c._p2 = 0.
c._p1 = .1
c._fx_pixels = c._fy_pixels = 1.
c._cx_pixels = c._cy_pixels = 0.
u, v = c._lon_lat_alt_to_pixel_x_y_native(np.array([1.]), np.array([2.]), np.array([1.]))
assert abs(v[0] - (2. + .1 * (5 + 8))) < 1e-9, v
'''),
 dict(id='c08-memory-order', prop='C08', file=PC + 'abstract_earth_overhead_point_calc.py',
  edits=[("            alts = np.reshape(alts, nx * ny)\n\n        # now actually", "            alts = np.ravel(alts, order='K')\n\n        # now actually")],
  needs='2-d altitudes in column-major memory (a transposed DEM) with row-major coordinates', breaks='altitudes are paired with the wrong points',
  demo=H + 'from ' + M + '''abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
from pyproj import Proj
class P(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts=None, band=None): return lons + alts, lats - alts
    def _pixel_x_y_alt_to_lon_lat_native(self, *a, **k): return None
p = P()
p.set_projection(Proj('epsg:4326'))
lon, lat = np.arange(6.).reshape(2, 3), np.arange(6.).reshape(2, 3) * 2
alt = np.arange(6.).reshape(3, 2).T
x, y = p.lon_lat_alt_to_pixel_x_y(lon, lat, alt)
assert np.allclose(x, lon + alt) and np.allclose(y, lat - alt)
'''),
 dict(id='c09-signed-error', prop='C09', file=PC + 'abstract_earth_overhead_point_calc.py',
  edits=[("x_err = np.abs(pixel_xs - new_pixel_x).max()", "x_err = (pixel_xs - new_pixel_x).max()")],
  needs='a nonlinear model whose first iterations overshoot in x for every pixel', breaks='solver stops while a pixel is still far off on the other side',
  demo=H + 'from ' + M + '''abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
from pyproj import Proj
class P(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts=None, band=None): return lons + lons ** 2 / 40, lats
    def _pixel_x_y_alt_to_lon_lat_native(self, *a, **k): return None
p = P()
p.set_projection(Proj('epsg:4326'))
p.set_approximate_lon_lat_center(1., 1.)
px, py, h = np.array([30., 50.]), np.array([2., 3.]), np.zeros(2)
lon, lat = p._pixel_x_y_alt_to_lon_lat_native_solver(px, py, h, d_lon=.01, d_lat=.01)
x, y = p._lon_lat_alt_to_pixel_x_y_native(lon, lat, h)
assert np.abs(x - px).max() <= .01, (x, px)
'''),
 dict(id='c10-last-crossing', prop='C10', file=PC + 'abstract_earth_overhead_point_calc.py',
  edits=[("        ray_step_indices.reverse()\n", "")],
  needs='terrain that the ray enters more than once (a ridge in front of a slope)', breaks='the last instead of the first crossing is returned',
  demo=H + 'from ' + M + '''abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
from pyproj import Proj
class P(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, *a, **k): return None
    def _pixel_x_y_alt_to_lon_lat_native(self, xs, ys, alts=None, band=None): return xs + (100. - alts), ys + 0 * alts
class D:
    def get_highest_alt(self): return 100.
    def get_lowest_alt(self): return 0.
    def get_elevations(self, x, y, world_proj=None): return np.where((x > 30) & (x < 50), 80., 10.)
p = P()
p.set_projection(Proj('epsg:4326'))
lon, lat, alt = p._pixel_x_y_to_lon_lat_ray_caster_native(np.array([0.]), np.array([0.]), D(), 1.)
assert lon[0] < 60, lon
'''),
 dict(id='c15-band-order', prop='C15', file='resippy/utils/image_utils/image_utils.py',
  edits=[("    image_band_1d = np.reshape(image_band, (ny * nx))", "    image_band_1d = np.ravel(image_band, order='A')")],
  needs='a band in column-major memory (transposed image)', breaks='flattened list is in column-major order',
  demo=H + '''from resippy.utils.image_utils.image_utils import flatten_image_band
b = np.arange(6).reshape(3, 2).T
assert list(flatten_image_band(b)) == [b[y, x] for y in range(2) for x in range(3)]
'''),
 dict(id='c15-grid-transposed', prop='C15', file='resippy/utils/spectral_utils.py',
  edits=[("    hypercube = np.reshape(image_cube_1d, (ny, nx, n_bands))", "    hypercube = np.reshape(image_cube_1d, (n_bands, ny, nx)).transpose((1, 2, 0)) if n_bands == 2 else \\\n        np.reshape(image_cube_1d, (ny, nx, n_bands))")],
  needs='a cube of exactly two bands', breaks='two-band cubes are unflattened as if they were band sequential',
  demo=H + '''from resippy.utils.spectral_utils import unflatten_image_cube, flatten_image_cube
c = np.arange(24).reshape(3, 4, 2)
assert (unflatten_image_cube(flatten_image_cube(c), 4, 3) == c).all()
'''),
]
