PC = 'resippy/image_objects/earth_overhead/earth_overhead_point_calculators/'
M = 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.'
H = 'import numpy as np\n'
ENV = '''import os, tempfile
from resippy.utils import envi_utils as e
d = tempfile.TemporaryDirectory()
f = os.path.join(d.name, 'cube.img')
'''
DEM = '''from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem
from pyproj import Proj
class PCalc:
    def lon_lat_alt_to_pixel_x_y(self, x, y, alts=None, world_proj=None): return x, y
    def get_projection(self): return Proj('epsg:4326')
class G:
    def __init__(self, a): self.a = a
    def get_point_calculator(self): return PCalc()
    def get_metadata(self): return self
    def get_npix_x(self): return self.a.shape[1]
    def get_npix_y(self): return self.a.shape[0]
    def read_all_image_data_from_disk(self): return self.a[:, :, None].copy()
'''
BUGS = [
 dict(id='c06-cubed', prop='C06', file=PC + 'rpc_point_calc.py',
  edits=[("        z_cubed = z_squared*z", "        z_cubed = np.abs(z_squared*z)")],
  needs='a ground point below the RPC height offset and a non-zero 20th coefficient', breaks='H^3 loses its sign',
  demo=H + 'from ' + M + '''rpc_point_calc import RPCPointCalc
c = np.zeros(20); c[19] = 1
assert abs(RPCPointCalc.compute_p(c, .1, .2, -.5) + .125) < 1e-9
'''),
 dict(id='c06-coeff-order', prop='C06', file=PC + 'rpc_point_calc.py',
  edits=[("        line_den_coeff = cls._str_to_numpy_arr(rpcs['LINE_DEN_COEFF'])", "        line_den_coeff = cls._str_to_numpy_arr(rpcs['SAMP_DEN_COEFF'])")],
  needs='a file whose line and sample denominators differ', breaks='line denominator read from the sample denominator',
  demo=H + '''import os, tempfile, gdal
from ''' + M + '''rpc_point_calc import RPCPointCalc
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.tif')
    ds = gdal.GetDriverByName('GTiff').Create(f, 4, 4, 1)
    c = lambda k: ' '.join(str(float(k + i)) for i in range(20))
    ds.SetMetadata({'SAMP_NUM_COEFF': c(1), 'SAMP_DEN_COEFF': c(2), 'LINE_NUM_COEFF': c(3), 'LINE_DEN_COEFF': c(4), 'SAMP_OFF': '1', 'SAMP_SCALE': '2',
     'LINE_OFF': '3', 'LINE_SCALE': '4', 'LAT_OFF': '5', 'LAT_SCALE': '6', 'LONG_OFF': '7', 'LONG_SCALE': '8', 'HEIGHT_OFF': '9', 'HEIGHT_SCALE': '10'}, 'RPC')
    ds = None
    assert RPCPointCalc.init_from_file(f)._line_den_coeff[0] == 4
'''),
 dict(id='c11-clip-axis', prop='C11', file='resippy/photogrammetry/dem/geotiff_dem.py',
  edits=[("pixel_locs_y_2 = np.clip(np.ceil(pixel_locs_y).astype(int), a_min=0, a_max=self.gtiff.get_metadata().get_npix_y() - 1)",
          "pixel_locs_y_2 = np.clip(np.ceil(pixel_locs_y).astype(int), a_min=0, a_max=min(self.dem_data.shape) - 1)")],
  needs='a raster with more rows than columns and a query in its lower part', breaks='lower neighbour taken from the wrong row',
  demo=H + DEM + '''d = GeotiffDem()
d.set_geotiff_image(G(np.arange(12.).reshape(6, 2)))
assert abs(float(d.get_elevations(np.array([0.]), np.array([4.5]))[0]) - 9) < 1e-9
'''),
 dict(id='c11-nearest-round', prop='C11', file='resippy/photogrammetry/dem/geotiff_dem.py',
  edits=[("            pixel_locs_y = np.clip(pixel_locs_y.astype(int), a_min=0,", "            pixel_locs_y = np.clip(np.rint(pixel_locs_y).astype(int), a_min=0,")],
  needs='nearest lookup in the lower half of a pixel', breaks='row of the next pixel is used',
  demo=H + DEM + '''d = GeotiffDem()
d.set_geotiff_image(G(np.arange(12.).reshape(4, 3)))
d.set_interpolation_method('nearest') if hasattr(d, 'set_interpolation_method') else None
d.get_interpolation_method = lambda: 'nearest'
d.interpolation_method = 'nearest'
assert float(d.get_elevations(np.array([1.2]), np.array([1.7]))[0]) == 4
'''),
 dict(id='c11-mean-counts-nodata', prop='C11', file='resippy/photogrammetry/dem/geotiff_dem.py',
  edits=[("return float(np.nanmean(self.dem_data))", "return float(np.nansum(self.dem_data) / np.count_nonzero(self.dem_data))")],
  needs='a raster with nodata holes or zero elevations', breaks='mean is divided by the wrong number of samples',
  demo=H + DEM + '''d = GeotiffDem()
d.set_geotiff_image(G(np.array([[1., 3.], [-9., 5.]])))
d.remove_nodata_values(-9.)
assert abs(d.get_mean_alt() - 3) < 1e-9
'''),
 dict(id='c12-both-sides', prop='C12', file='resippy/utils/envi_utils.py',
  edits=[("""        for l in range(ny):
            for b in range(nbands):
                data_chunk = image_cube[l, :, b]""", """        for b in range(nbands):
            for l in range(ny):
                data_chunk = image_cube[l, :, b]"""),
         ("""        for l in range(ny):
            for b in range(nbands):
                data_chunk = raw_envi_data[""", """        for b in range(nbands):
            for l in range(ny):
                data_chunk = raw_envi_data[""")],
  needs='reading the written file with other software (the package itself still round-trips)', breaks='file is band sequential while the header says bil',
  demo=H + ENV + '''c = np.arange(24.).reshape(2, 3, 4)
e.write_envi_image(c, f)
assert np.array_equal(np.fromfile(f), c.transpose(0, 2, 1).ravel())
assert np.array_equal(e.read_envi_image(f), c)
'''),
 dict(id='c12-dtype', prop='C12', file='resippy/utils/envi_utils.py',
  edits=[('"15": np.uint64,\n                        }', '"15": np.uint64,\n                        "14": np.uint64,\n                        }')],
  needs='a 64-bit integer cube', breaks='int64 has no type code any more, uint64 written as int64 code',
  demo=H + ENV + '''c = np.arange(24).reshape(2, 3, 4).astype(np.int64) - 7
e.write_envi_image(c, f)
r = e.read_envi_image(f)
assert r.dtype == c.dtype and np.array_equal(r, c)
'''),
 dict(id='c13-bands-sorted', prop='C13', file='resippy/utils/image_utils/image_chipper.py',
  edits=[("        nbands = len(bands)\n", "        bands = np.unique(bands)\n        nbands = len(bands)\n")],
  needs='a band selection that is not increasing', breaks='bands come out sorted',
  demo=H + '''from resippy.utils.image_utils.image_chipper import chip_images_by_pixel_upper_lefts as f
c = np.arange(48).reshape(4, 4, 3)
a, _ = f(c, [1], [1], 2, 2, bands=[2, 0])
assert np.array_equal(a[0], c[1:3, 1:3, [2, 0]])
'''),
 dict(id='c13-last-column', prop='C13', file='resippy/utils/image_utils/image_chipper.py',
  edits=[("    x_idxs = np.arange(0, nx, chip_nx_pixels - npix_overlap_x)", "    x_idxs = np.arange(0, nx - npix_overlap_y, chip_nx_pixels - npix_overlap_x)")],
  needs='a larger overlap in y than in x and an image width slightly above a multiple of the step', breaks='last columns are not covered',
  demo=H + '''from resippy.utils.image_utils.image_chipper import chip_entire_image_to_memory as f
for nx in range(8, 30):
    c = np.zeros((20, nx, 1))
    a, ul = f(c, 8, 8, npix_overlap_y=4, npix_overlap_x=0)
    cov = np.zeros((20, nx))
    for y, x in ul: cov[y:y+8, x:x+8] = 1
    assert cov.all(), nx
'''),
]
