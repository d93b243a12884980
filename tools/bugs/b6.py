H = 'import numpy as np\n'
AB = 'resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py'
PU = 'resippy/utils/photogrammetry_utils.py'
OC = 'resippy/image_objects/earth_overhead/earth_overhead_point_calculators/opencv_point_calc.py'
EU = 'resippy/utils/envi_utils.py'
IC = 'resippy/utils/image_utils/image_chipper.py'
S1 = 'resippy/spectral/spectral_image_processing_1d.py'
GI = 'resippy/image_objects/earth_overhead/geotiff/geotiff_image.py'
BUGS = [
 dict(id='c02-small-angles', prop='C02', file=PU,
  edits=[("    m_matrix = np.zeros((3, 3))\n\n    if order == 'rpy':", """    m_matrix = np.zeros((3, 3))

    if max(abs(omega_radians), abs(phi_radians), abs(kappa_radians)) < 1e-2:
        # small angles commute to first order
        m_matrix[0] = [1.0, kappa_radians, -phi_radians]
        m_matrix[1] = [-kappa_radians, 1.0, omega_radians]
        m_matrix[2] = [phi_radians, -omega_radians, 1.0]
        return m_matrix

    if order == 'rpy':""")],
  demo=H + '''from resippy.utils.photogrammetry_utils import create_M_matrix as M
for a in ((.009, -.008, .0095), (.001, .002, -.003), (.3, .2, .1)):
    for o in ('rpy', 'ypr'):
        m = M(*a, order=o)
        assert np.abs(m @ m.T - np.eye(3)).max() < 1e-9, (a, o)
''', needs='three angles below 0.01 radians', breaks='the matrix is not orthonormal for small angles'),
 dict(id='c03-boresight-transpose', prop='C03', file=PU,
  edits=[("    m_rough_inv = np.linalg.inv(rough_M_matrix)\n", "    # rotation matrices are orthonormal\n    m_rough_inv = np.transpose(rough_M_matrix)\n")],
  demo=H + '''from resippy.utils.photogrammetry_utils import solve_for_boresight_angle_offsets as f, create_M_matrix as M
i = M(.1, .2, .3)
for r in (M(.2, -.1, .4), 1.001 * M(.2, -.1, .4), np.array([[2., 1, 0], [0, 1, 3], [1, 0, 1]])):
    assert np.allclose(r @ f(r, i), i, atol=1e-9)
''', needs='a rough matrix that is not exactly orthonormal', breaks='rough matrix times offset is not the ideal matrix'),
 dict(id='c07-field-limit', prop='C07', file=OC,
  edits=[("        radial_distortion = 1.0 + (self._k1 * r_squared) + (self._k2 * r_fourth) + (self._k3 * r_sixth)\n",
          """        radial_distortion = 1.0 + (self._k1 * r_squared) + (self._k2 * r_fourth) + (self._k3 * r_sixth)
        # the polynomial is not calibrated beyond 60 degrees off axis
        radial_distortion = np.where(r_squared > 3.0, 1.0, radial_distortion)
""")],
  demo=H + '''from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc
p = dict(fx_pixels=1000., fy_pixels=1000., cx_pixels=500., cy_pixels=500., k1=.01, k2=0., k3=0., p1=0., p2=0., pixel_pitch_microns=5.,
         x_offset_meters=0., y_offset_meters=0., z_offset_meters=0., omega_offset_radians=0., phi_offset_radians=0., kappa_offset_radians=0.)
pc = OpenCVPointCalc.init_from_params(p)
pc.init_extrinsic(0., 0., 0., 0., 0., 0.)
for x in (10., 190.):
    u, v = pc._lon_lat_alt_to_pixel_x_y_native(np.array([x]), np.array([0.]), np.array([-100.]))
    q = -x / 100
    assert abs(u[0] - (1000 * q * (1 + .01 * q * q) + 500)) < 1e-6, x
''', needs='a point more than 60 degrees off the axis', breaks='no radial distortion there'),
 dict(id='c09-sampled-error', prop='C09', file=AB,
  edits=[("            x_err = np.abs(pixel_xs - new_pixel_x).max()\n            y_err = np.abs(pixel_ys - new_pixel_y).max()\n", """            x_err = np.abs(pixel_xs - new_pixel_x)
            y_err = np.abs(pixel_ys - new_pixel_y)
            if np.size(x_err) > 5000:
                # a regular sample of the pixels is enough for large images
                x_err, y_err = np.ravel(x_err)[::7], np.ravel(y_err)[::7]
            x_err, y_err = x_err.max(), y_err.max()
""")],
  demo=H + '''from pyproj import Proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
class PC(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None): return lons + .02 * lons ** 2 + 0 * alts, lats + .01 * lats * lons
    def _pixel_x_y_alt_to_lon_lat_native(self, x, y, alts=None, band=None): return None
pc = PC(); pc.set_projection(Proj('epsg:4326')); pc.set_approximate_lon_lat_center(0., 0.)
for n in (10, 6000):
    x, y = np.zeros(n), np.zeros(n)
    x[3], y[3] = 12., 7.
    lon, lat = pc._pixel_x_y_alt_to_lon_lat_native_solver(x, y, np.zeros(n), d_lon=.1, d_lat=.1, max_pixel_error=.001, max_iter=50)
    u, v = pc._lon_lat_alt_to_pixel_x_y_native(lon, lat, 0)
    assert np.abs(u - x).max() <= .0011 and np.abs(v - y).max() <= .0011, n
''', needs='more than 5000 pixels of which an unsampled one converges last', breaks='the solver stops before that pixel is solved'),
 dict(id='c12-memory-order', prop='C12', file=EU,
  edits=[("        raw_data[:] = image_cube.ravel()\n", "        raw_data[:] = image_cube.ravel(order='K')\n")],
  demo=H + '''import os, tempfile
from resippy.utils import envi_utils as e
with tempfile.TemporaryDirectory() as d:
    c = np.arange(24, dtype=np.int16).reshape(2, 3, 4)
    for q in (c, np.asfortranarray(c), np.transpose(np.ascontiguousarray(c.transpose(2, 0, 1)), (1, 2, 0))):
        e.write_envi_image(q, os.path.join(d, 'a.img'), interleave='bip')
        assert np.array_equal(e.read_envi_image(os.path.join(d, 'a.img')), c)
''', needs='a bip file of a cube that is not stored in C order', breaks='the elements are written in memory order'),
 dict(id='c13-short-index', prop='C13', file=IC,
  edits=[("    pixel_x_ul_list = np.array(pixel_x_ul_list)\n    pixel_y_ul_list = np.array(pixel_y_ul_list)\n    is_input",
          "    pixel_x_ul_list = np.array(pixel_x_ul_list).astype(np.int16)\n    pixel_y_ul_list = np.array(pixel_y_ul_list).astype(np.int16)\n    is_input")],
  demo=H + '''from resippy.utils.image_utils import image_chipper as c
im = np.arange(40000.).reshape(1, 40000)
for x in (7, 35000):
    chips, ul = c.chip_images_by_pixel_upper_lefts(im, [0], [x], 1, 3)
    assert tuple(ul[0]) == (0, x) and np.array_equal(chips[0], im[:, x:x + 3]), x
''', needs='a chip corner beyond 32767', breaks='the corner wraps around'),
 dict(id='c14-single-precision', prop='C14', file=S1,
  edits=[("    demeaned_image = np.subtract(spectral_image, spectral_mean)\n\n    # Python 3.5+\n    # rx_rt_side", "    demeaned_image = np.subtract(spectral_image, spectral_mean, dtype=np.float32)\n\n    # Python 3.5+\n    # rx_rt_side")],
  demo=H + '''from resippy.spectral import spectral_image_processing_1d as s
r = np.random.RandomState(1)
for off in (0., 1e6):
    x = r.rand(50, 3) + off
    d = x - x.mean(0)
    want = np.einsum('ij,jk,ik->i', d, np.linalg.inv(np.cov(x.T)), d)
    assert np.allclose(s.rx_anomaly_detector(x), want, rtol=1e-3, atol=1e-2), off
''', needs='an image of large values and small contrast', breaks='scores are computed in single precision'),
 dict(id='c22-write-stale', prop='C22', file=GI,
  edits=[("            dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))\n            if self.get_metadata().get_nodata_val() is not None:\n                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())\n        dataset.FlushCache()",
          "            band_data = self.get_image_band(band) if self._dset is None else self.read_band_from_disk(band)\n            dataset.GetRasterBand(band + 1).WriteArray(band_data)\n            if self.get_metadata().get_nodata_val() is not None:\n                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())\n        dataset.FlushCache()")],
  demo=H + '''import os, tempfile
from pyproj import Proj
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory as F
with tempfile.TemporaryDirectory() as d:
    c = np.arange(24.).reshape(2, 3, 4)
    F.from_numpy_array(c, [0., 1, 0, 0, 0, -1], Proj('epsg:32618')).write_to_disk(d + '/a.tif')
    im = F.from_file(d + '/a.tif')
    im.set_image_data(c * 2)
    im.write_to_disk(d + '/b.tif')
    assert np.array_equal(F.from_file(d + '/b.tif').read_all_image_data_from_disk(), c * 2)
''', needs='an image read from a file, changed in memory and written', breaks='the old pixels are written'),
]
