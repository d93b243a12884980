H = 'import numpy as np\n'
NAV = 'resippy/photogrammetry/nav/'
TU = 'resippy/utils/time_utils.py'
MI = 'resippy/image_objects/earth_overhead/micasense/micasense_image.py'
IU = 'resippy/utils/image_utils/image_utils.py'
IR = 'resippy/utils/image_utils/image_registration.py'
SP = 'resippy/spectral/spectrum.py'
GI = 'resippy/image_objects/earth_overhead/geotiff/geotiff_image.py'
IP = 'resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py'
OT = 'resippy/photogrammetry/ortho_tools.py'
EO = H + '''import os, sys, tempfile, types
sys.modules.setdefault('pdal', types.ModuleType('pdal'))
from resippy.photogrammetry.nav.applanix_eo_nav import ApplanixEONav
rows = np.array([[10, 1, 5, 100, .1, .2, 3, 43, -77], [11, 3, 4, 120, .2, .1, 2, 43.1, -77.2], [14, 9, 9, 90, .5, .3, 1, 43.3, -77.1]], float)
d = tempfile.mkdtemp()
f = os.path.join(d, 'n.txt')
open(f, 'w').write(''.join('%d ' % i + ' '.join(map(str, r)) + chr(10) for i, r in enumerate(rows)))
nav = ApplanixEONav()
for n in ('load_from_file',):
    getattr(nav, n)(f, 'utm', 18, 'WGS84', 'WGS84')
os.remove(f); os.rmdir(d)
def lin(col, t): return np.interp(t, rows[:, 0], rows[:, col])
'''
BUGS = [
 dict(id='c18-last-record', prop='C18', file=NAV + 'applanix_eo_nav.py',
  edits=[("np.searchsorted(self._nav_data['gps_time'], gps_times)", "np.searchsorted(self._nav_data['gps_time'], gps_times, side='right')")],
  demo=EO + "assert nav.get_alts(14.0) == 90 and nav.get_alts(11.0) == 120 and nav.get_alts(10.0) == 100\n",
  needs='a query at exactly the time of the last record', breaks='the last recorded time can no longer be queried'),
 dict(id='c18-partial-range', prop='C18', file=NAV + 'applanix_eo_nav.py',
  edits=[("if (self._nav_data['gps_time'][0] <= gps_times).all()", "if (self._nav_data['gps_time'][0] <= gps_times).any()")],
  demo=EO + "assert nav.get_alts(np.array([9.0, 12.0])) is None\nassert nav.get_alts(np.array([12.0])) is not None\n",
  needs='an array of times only some of which are before the first record', breaks='times before the first record are extrapolated when another time of the query is inside'),
 dict(id='c18-grid-order', prop='C18', file=NAV + 'abstract_nav.py',
  edits=[("return output_array.reshape(descriptor['ny'], descriptor['nx'])", "return output_array.reshape(descriptor['nx'], descriptor['ny']).transpose()")],
  demo=EO + "t = np.array([[10, 10.5, 11], [12, 13, 14.0]])\nr = nav.get_world_xs(t)\nassert r.shape == t.shape and np.allclose(r, lin(1, t))\n",
  needs='a 2-d array of times', breaks='elements of 2-d queries are permuted'),
 dict(id='c19-leap-instant', prop='C19', file=TU,
  edits=[('from bisect import bisect_right', 'from bisect import bisect_left'), ('index = bisect_right(leapsecond_dates, timestamp) - 1', 'index = bisect_left(leapsecond_dates, timestamp) - 1')],
  demo='''from resippy.utils import time_utils as t
from datetime import datetime, timezone
e = datetime(1980, 1, 6, tzinfo=timezone.utc).timestamp()
u = datetime(2017, 1, 1, tzinfo=timezone.utc).timestamp()
assert t.utc_timestamp_to_gps_timestamp(u) == u - e + 18
''',
  needs='the very instant a leap second takes effect', breaks='the offset of the instant at which a leap second starts to count'),
 dict(id='c19-seconds-floor', prop='C19', file=MI,
  edits=[('s = dms[2].num / dms[2].den', 's = dms[2].num // dms[2].den')],
  demo='''import sys, types
for n in ('exifread', 'pdal'):
    sys.modules.setdefault(n, types.ModuleType(n))
from resippy.image_objects.earth_overhead.micasense.micasense_image import MicasenseImage as M
class R:
    def __init__(s, n, d): s.num, s.den = n, d
class T:
    def __init__(s, v): s.values = v
v = M._dms_tag_to_dd(T([R(43, 1), R(5, 1), R(7177, 100)]), T('N'))
assert abs(v - (43 + 5 / 60 + 71.77 / 3600)) < 1e-9
''',
  needs='a seconds tag that is not a whole number', breaks='the fraction of the seconds of a position is dropped'),
 dict(id='c20-chip-axes', prop='C20', file=IU,
  edits=[("nx = upper_left_yx_tuples[:, 1].max() + chip_size_x", "nx = upper_left_yx_tuples[:, 1].max() + max(chip_size_x, chip_size_y)")],
  demo=H + '''from resippy.utils.image_utils.image_utils import create_detection_image_from_scores as f
r = f(np.array([1.0, 2.0]), np.array([[0, 0], [1, 2]]), 2, 3)
assert r.shape == (4, 4)
''',
  needs='chips that are taller than wide', breaks='the detection image is wider than the chips reach'),
 dict(id='c20-nodata-max', prop='C20', file=IU,
  edits=[("            max_clip = np.nanmax(grayscale_image[good_inds])", "            max_clip = np.nanmax(grayscale_image)")],
  demo=H + '''from resippy.utils.image_utils.image_utils import apply_colormap_to_grayscale_image as f
p = np.array([[0, 0, 0], [1, 1, 1.0]])
im = np.array([[0, 5, 10, 999.0]])
r = f(im, p, nodata=999)
assert abs(int(r[0, 1, 0]) - 127) <= 1
''',
  needs='a nodata value above the values of the image and no stated maximum', breaks='the colours span up to the nodata value'),
 dict(id='c20-mmi-range', prop='C20', file=IR,
  edits=[("hist2 = np.histogram(image2_flat, bins=nbins)[0]", "hist2 = np.histogram(image2_flat, bins=nbins, range=(image1_flat.min(), image1_flat.max()))[0]")],
  demo=H + '''from resippy.utils.image_utils.image_registration import MMI
r = np.random.RandomState(0)
a, b = r.uniform(0, 1, (9, 9)), r.uniform(0, 3, (9, 9))
x, y = MMI.image_mmi(a, b, 5), MMI.image_mmi(b, a, 5)
assert abs(x - y) < 1e-6 and np.isfinite(x)
''',
  needs='two images of different range', breaks='the mutual information depends on the order of the images'),
 dict(id='c21-alias', prop='C21', file=SP,
  edits=[("        spectral_data = copy.deepcopy(self._spectral_data)\n        if nodata_to_nan:", "        spectral_data = self._spectral_data\n        if nodata_to_nan:\n            spectral_data = copy.deepcopy(self._spectral_data)")],
  demo=H + '''from resippy.spectral.spectrum import Spectrum
s = Spectrum(); s.set_spectral_data(np.array([1.0, 2.0]))
s.get_spectral_data(nodata_to_nan=False)[0] = 9
assert s.get_spectral_data()[0] == 1
''',
  needs='a caller that changes data asked for without nodata replacement', breaks='the stored spectrum is handed out'),
 dict(id='c21-width-grid', prop='C21', file=SP,
  edits=[("b_width = np.trapz(rsr_data_resamp, self.get_wavelengths())", "b_width = np.trapz(rsr_data, rsr_wave)")],
  demo=H + '''from resippy.spectral.spectrum import Spectrum
s, r = Spectrum(), Spectrum()
s.set_wavelengths(np.array([0, 1, 2, 3, 4.0])); s.set_spectral_data(np.ones(5) * 3)
r.set_wavelengths(np.array([.3, 1.7, 2.2, 3.9])); r.set_spectral_data(np.array([0, 1, .4, 0]))
assert abs(s.resample_spectrum_direct([r], np.array([2.0])).get_spectral_data()[0] - 3) < 1e-9
''',
  needs='a response on another wavelength grid than the spectrum', breaks='a flat spectrum does not stay flat'),
 dict(id='c22-nodata-zero', prop='C22', file=GI,
  edits=[("""        for band in range(self.get_metadata().get_n_bands()):
            dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
            if self.get_metadata().get_nodata_val() is not None:
                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
        dataset.FlushCache()""", """        for band in range(self.get_metadata().get_n_bands()):
            dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
            if self.get_metadata().get_nodata_val():
                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
        dataset.FlushCache()""")],
  demo=H + '''import os, tempfile
from pyproj import Proj
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory as G
d = tempfile.mkdtemp(); f = os.path.join(d, 'a.tif')
G.from_numpy_array(np.ones((3, 4, 2), 'uint8'), [0, 1, 0, 9, 0, -1], Proj(proj='utm', zone=18, datum='WGS84'), 0).write_to_disk(f)
v = G.from_file(f).get_metadata().get_nodata_val()
os.remove(f); os.rmdir(d)
assert v == 0 and v is not None
''',
  needs='the nodata value 0', breaks='the nodata value 0 is not written'),
 dict(id='c22-igm-lats', prop='C22', file=IP,
  edits=[("return self._lons[pixel_ys, pixel_xs], self._lats[pixel_ys, pixel_xs]", "return self._lons[pixel_ys, pixel_xs], self._lats.ravel()[pixel_ys * self._npix_y + pixel_xs]")],
  demo=H + '''from pyproj import Proj
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
lons, lats = np.arange(12.0).reshape(3, 4), np.arange(12.0).reshape(3, 4) + 50
im = IgmImage.from_params(np.zeros((3, 4, 1)), lons, lats, lons * 0, 1, Proj(proj='utm', zone=18, datum='WGS84'))
r = im.get_point_calculator().pixel_x_y_alt_to_lon_lat(np.array([1]), np.array([2]), 0)
assert r[0][0] == lons[2, 1] and r[1][0] == lats[2, 1]
''',
  needs='a location array that is not square', breaks='latitudes are those of another pixel'),
 dict(id='c22-mask-negative', prop='C22', file=OT,
  edits=[("    alpha[layer != nodata_val] = 255", "    alpha[layer > nodata_val] = 255")],
  demo=H + '''from resippy.photogrammetry.ortho_tools import mask_image
r = mask_image(np.array([[[-3.0], [0], [4]]]))
assert list(r[0, :, 1]) == [255, 0, 255]
''',
  needs='pixel values below the nodata value', breaks='pixels below the nodata value get their own value as opacity'),
]
