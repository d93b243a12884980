H = 'import numpy as np\n'
AB = 'resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py'
GD = 'resippy/photogrammetry/dem/geotiff_dem.py'
PU = 'resippy/utils/photogrammetry_utils.py'
IU = 'resippy/utils/image_utils/image_utils.py'
IC = 'resippy/utils/image_utils/image_chipper.py'
SU = 'resippy/utils/spectral_utils.py'
NAV = 'resippy/photogrammetry/nav/'
RP = 'resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py'
PC = H + '''from pyproj import Proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
class PC(AbstractEarthOverheadPointCalc):
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None): return lons + alts, 20 - lats + 2 * alts
    def _pixel_x_y_alt_to_lon_lat_native(self, x, y, alts=None, band=None): return x - alts, 20 - y + 2 * alts
pc = PC(); pc.set_projection(Proj('epsg:4326'))
'''
EO = H + '''import os, sys, tempfile, types
sys.modules.setdefault('pdal', types.ModuleType('pdal'))
from resippy.photogrammetry.nav.applanix_eo_nav import ApplanixEONav
rows = np.array([[10, 1, 5, 100, .1, .2, 3, 43, -77], [11, 3, 4, 120, .2, .1, 2, 43.1, -77.2], [14, 9, 9, 90, .5, .3, 1, 43.3, -77.1]], float)
d = tempfile.mkdtemp()
f = os.path.join(d, 'n.txt')
open(f, 'w').write(''.join('%d ' % i + ' '.join(map(str, r)) + chr(10) for i, r in enumerate(rows)))
nav = ApplanixEONav()
nav.load_from_file(f, 'utm', 18, 'WGS84', 'WGS84')
os.remove(f); os.rmdir(d)
'''
BUGS = [
 dict(id='c08-block-alts', prop='C08', file=AB,
  edits=[("        pixel_coords = self._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts, band)\n\n        if lons_is_number", """        if np.size(lons) > 100000:
            # limit the memory of the models: convert in two blocks
            n = np.size(lons) // 2
            first = self._lon_lat_alt_to_pixel_x_y_native(lons[:n], lats[:n], alts[:n], band)
            second = self._lon_lat_alt_to_pixel_x_y_native(lons[n:], lats[n:], alts[:np.size(lons) - n], band)
            pixel_coords = np.concatenate((first[0], second[0])), np.concatenate((first[1], second[1]))
        else:
            pixel_coords = self._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts, band)

        if lons_is_number""")],
  demo=PC + '''n = 100002
a = np.arange(float(n))
x, y = pc.lon_lat_alt_to_pixel_x_y(np.zeros(n), np.zeros(n), a)
assert np.allclose(x, a)
''',
  needs='more than 100000 points with differing altitudes', breaks='the second half of a large array is converted with the altitudes of the first half'),
 dict(id='c11-stale-extreme', prop='C11', file=GD,
  edits=[("        return float(np.nanmax(self.dem_data))", """        if getattr(self, '_highest_alt', None) is None:
            self._highest_alt = float(np.nanmax(self.dem_data))
        return self._highest_alt""")],
  demo=H + '''from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory as G
from pyproj import Proj
d = GeotiffDem()
im = G.from_numpy_array(np.array([[1, 2], [3, 9.0]]), [0, 1, 0, 2, 0, -1], Proj('epsg:4326'))
im.read_all_image_data_from_disk = im.get_image_data
d.set_geotiff_image(im)
assert d.get_highest_alt() == 9
d.remove_nodata_values(9)
assert d.get_highest_alt() == 3
''',
  needs='asking for the highest altitude before the nodata value is declared', breaks='the highest altitude is remembered from before the nodata value was removed'),
 dict(id='c10-stale-dem', prop='C10', file=AB,
  edits=[("""        if max_alt is None:
            max_alt = dem.get_highest_alt()
        if min_alt is None:
            min_alt = dem.get_lowest_alt()
""", """        if max_alt is None:
            if getattr(self, '_dem_max_alt', None) is None:
                self._dem_max_alt = dem.get_highest_alt()
            max_alt = self._dem_max_alt
        if min_alt is None:
            min_alt = dem.get_lowest_alt()
""")],
  demo=PC + '''from resippy.photogrammetry.dem.dem_factory import DemFactory
a = pc.pixel_x_y_to_lon_lat_alt(np.array([3.0]), np.array([4.0]), DemFactory.constant_elevation(5), dem_sample_distance=.1)
b = pc.pixel_x_y_to_lon_lat_alt(np.array([3.0]), np.array([4.0]), DemFactory.constant_elevation(50), dem_sample_distance=.1)
assert np.allclose(a[2], 5) and np.allclose(b[2], 50) and np.allclose(b[0], 3 - 50)
''',
  needs='a second, higher DEM with the same camera', breaks='rays over the second DEM start at the highest altitude of the first'),
 dict(id='c16-memo', prop='C16', file=PU,
  edits=[("    ground_y_arr, ground_x_arr = np.mgrid[0:npix_y, 0:npix_x]\n", """    key = (npix_y, npix_x)
    if key not in _GRIDS:
        _GRIDS[key] = list(np.mgrid[0:npix_y, 0:npix_x])
    ground_y_arr, ground_x_arr = _GRIDS[key]
"""), ("    ground_x_arr = ground_x_arr/npix_x*(max_x - min_x)\n", "    ground_x_arr = ground_x_arr/npix_x*(max_x - min_x)\n    _GRIDS[key][1] = ground_x_arr\n"),
   ("import resippy.photogrammetry.crs_defs as crs_defs\n", "import resippy.photogrammetry.crs_defs as crs_defs\n\n_GRIDS = {}\n")],
  demo=H + '''from resippy.utils.photogrammetry_utils import create_ground_grid as g
assert np.allclose(g(0, 8, 0, 3, 4, 3)[0][0], [1, 3, 5, 7])
assert np.allclose(g(0, 8, 0, 3, 4, 3)[0][0], [1, 3, 5, 7])
''',
  needs='two grids of the same number of pixels over extents of another width', breaks='the second grid is scaled by the width of the first as well'),
 dict(id='c18-remembered-interval', prop='C18', file=NAV + 'applanix_eo_nav.py',
  edits=[("        right_indexes = np.searchsorted(self._nav_data['gps_time'], gps_times)\n        left_indexes = right_indexes - 1\n", """        last = getattr(self, '_last_indexes', None)
        if last is not None and np.shape(last[0]) == np.shape(gps_times):
            # consecutive queries mostly stay in the same interval
            times = self._nav_data['gps_time']
            if (times[last[0]] <= gps_times).all():
                return last
        right_indexes = np.searchsorted(self._nav_data['gps_time'], gps_times)
        left_indexes = right_indexes - 1
        self._last_indexes = (left_indexes, right_indexes)
""")],
  demo=EO + '''a = nav.get_alts(10.5)
b = nav.get_alts(12.5)
assert abs(a - 110) < 1e-9 and abs(b - 105) < 1e-9
''',
  needs='two queries on the same navigation object, the later one in a later interval', breaks='the second query is extrapolated from the interval of the first'),
 dict(id='c13-whole-view', prop='C13', file=IC,
  edits=[("    chip_counter = 0\n    upper_lefts = []\n    n_pix", """    if n_chips == 1 and chip_ny_pixels == ny and chip_nx_pixels == nx and nbands == input_image.shape[2] and not is_output_grayscale:
        # a single chip of the whole image needs no copying
        return input_image[np.newaxis], [(pixel_y_ul_list[0], pixel_x_ul_list[0])]
    chip_counter = 0
    upper_lefts = []
    n_pix""")],
  demo=H + '''from resippy.utils.image_utils.image_chipper import chip_images_by_pixel_upper_lefts as f
im = np.zeros((4, 5, 3))
c, _ = f(im, [0], [0], 4, 5)
c[:] = 7
assert im.max() == 0
''',
  needs='one chip as large as the image', breaks='the chip shares memory with the image (and ignores the order of the bands)'),
 dict(id='c03-gimbal', prop='C03', file=PU,
  edits=[("    if m32 > 0:\n        omega = -omega", "    if abs(m31) > 0.9999:\n        # gimbal lock, only the sum of omega and kappa is known\n        omega = 0.0 * omega\n    if m32 > 0:\n        omega = -omega")],
  demo=H + '''from resippy.utils.photogrammetry_utils import *
a = np.deg2rad([30, 89.5, 20])
r = solve_for_omega_phi_kappa(create_M_matrix(*a)) if 'create_M_matrix' in globals() else None
assert np.allclose(r, a, atol=1e-6)
''',
  needs='a pitch within 0.8 degrees of 90', breaks='roll is lost near the vertical'),
 dict(id='c20-index-byte', prop='C20', file=IU,
  edits=[("    for i in range(n_bins - 1):\n        bin_indices", "    image_low_index_map = image_low_index_map.astype(np.uint8 if n_bins < 300 else int)\n    for i in range(n_bins - 1):\n        bin_indices")],
  demo=H + '''from resippy.utils.image_utils.image_utils import apply_colormap_to_grayscale_image as f
p = np.repeat(np.linspace(0, 1, 280)[:, None], 3, axis=1)
im = np.linspace(0, 279, 280)[None]
r = f(im, p, output_dtype=float)
assert np.allclose(r[0, :, 0], p[:, 0] * 255)
''',
  needs='a palette of 257 to 299 entries', breaks='the index of palette entries above 255 overflows'),
 dict(id='c15-blocks', prop='C15', file=SU,
  edits=[("    hypercube = np.reshape(image_cube_1d, (ny, nx, n_bands))", """    if n_bands > 256:
        # hyperspectral cubes are put together band by band
        hypercube = np.zeros((ny, nx, n_bands), dtype=image_cube_1d.dtype)
        for b in range(n_bands):
            hypercube[:, :, b] = np.reshape(image_cube_1d[:, b], (nx, ny)).transpose()
    else:
        hypercube = np.reshape(image_cube_1d, (ny, nx, n_bands))""")],
  demo=H + '''from resippy.utils.spectral_utils import *
c = np.arange(2 * 3 * 300).reshape(2, 3, 300)
assert (unflatten_image_cube(flatten_image_cube(c), 3, 2) == c).all()
''',
  needs='a cube of more than 256 bands that is not square', breaks='pixels of large cubes are permuted'),
 dict(id='c06-cached-norm', prop='C06', file=RP,
  edits=[], demo='', needs='', breaks=''),
]
BUGS = [b for b in BUGS if b['edits']]
