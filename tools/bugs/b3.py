H = 'import numpy as np\n'
S1 = 'resippy/spectral/spectral_image_processing_1d.py'
S2 = 'resippy/spectral/spectral_image_processing_2d.py'
PU = 'resippy/utils/photogrammetry_utils.py'
OT = 'resippy/photogrammetry/ortho_tools.py'
SCENE = H + '''from pyproj import Proj
from shapely.geometry import box
from resippy.photogrammetry import ortho_tools as o
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.image_objects.earth_overhead.abstract_earth_overhead_image import AbstractEarthOverheadImage
from resippy.image_objects.abstract_image_metadata import AbstractImageMetadata
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc
class PC(AbstractEarthOverheadPointCalc):
    shift = 0
    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts, band=None): return lons + self.shift * band, 20 - lats + self.shift * band
    def _pixel_x_y_alt_to_lon_lat_native(self, x, y, alts=None, band=None): return x, 20 - y
class Im(AbstractEarthOverheadImage):
    def read_all_image_data_from_disk(self): return self.cube
    def read_band_from_disk(self, b): return self.cube[:, :, b]
class Md(AbstractImageMetadata): pass
def make(cube, co=True, loaded=True, shift=0):
    pc, im, md = PC(), Im(), Md()
    pc.shift = shift
    pc.set_projection(Proj('epsg:4326')); pc._bands_coregistered = co
    md.set_npix_y(cube.shape[0]); md.set_npix_x(cube.shape[1]); md.set_n_bands(cube.shape[2])
    im.cube = cube
    im.set_metadata(md); im.set_point_calculator(pc)
    if loaded: im.set_image_data(cube)
    return im
P = Proj('epsg:4326')
D = DemFactory.constant_elevation(0)
D.set_projection(P)
cube = np.random.RandomState(3).uniform(1, 9, (20, 16, 3))
'''
BUGS = [
 dict(id='c14-mask-values', prop='C14', file=S1,
  edits=[("""        mask = np.zeros(spectral_image.shape)
        for i in range(spectral_image.shape[1]):
            mask[:, i] = image_mask
        spectral_image = np.ma.masked_array(spectral_image, mask)
        masked_covar""", """        mask = np.zeros(spectral_image.shape, dtype=np.uint8)
        for i in range(spectral_image.shape[1]):
            mask[:, i] = np.asarray(image_mask) * 128
        spectral_image = np.ma.masked_array(spectral_image, mask)
        masked_covar""")],
  needs='a mask whose values are not 0 and 1 (2, say)', breaks='masked pixels count in the covariance because their mask wraps to zero',
  demo=H + """from resippy.spectral import spectral_image_processing_1d as s
r = np.random.RandomState(0)
x = r.rand(30, 3)
m = np.zeros(30, int); m[4:9] = 2
x[4:9] += 50
assert np.allclose(s.compute_image_cube_spectral_covariance(x, m), np.cov(x[m == 0].T))
"""),
 dict(id='c14-mean-dtype', prop='C14', file=S1,
  edits=[("        return np.mean(spectral_image, axis=0)", "        return np.mean(spectral_image, axis=0, dtype=np.result_type(spectral_image.dtype, np.float16))")],
  needs='an 8-bit image', breaks='half precision mean',
  demo=H + """from resippy.spectral import spectral_image_processing_1d as s
x = np.full((3000, 2), 201, np.uint8)
assert np.allclose(s.compute_image_cube_spectral_mean(x), 201)
"""),
 dict(id='c14-ace-mask-order', prop='C14', file=S2,
  edits=[("""        image_mask = image_utils.flatten_image_band(image_mask)
    ace_result""", """        image_mask = image_mask.flatten(order='A')
    ace_result""")],
  needs='a two-dimensional mask in Fortran memory order', breaks='mask is applied to other pixels',
  demo=H + """from resippy.spectral import spectral_image_processing_2d as s
r = np.random.RandomState(0)
x = r.rand(6, 9, 3)
m = np.zeros((6, 9)); m[1, :] = 1; x[1] += 30
t = np.ones(3)
assert np.allclose(s.ace(x, t, image_mask=m), s.ace(x, t, image_mask=np.asfortranarray(m)))
"""),
 dict(id='c16-half-pixel', prop='C16', file=PU,
  edits=[("    return ground_x_arr + x_gsd/2.0, ground_y_arr - y_gsd/2.0", "    return ground_x_arr + x_gsd/2.0, ground_y_arr - x_gsd/2.0")],
  needs='pixels that are not square', breaks='rows are shifted by half a column width',
  demo=H + '''from resippy.utils.photogrammetry_utils import create_ground_grid as f
x, y = f(0, 10, 0, 10, 5, 10)
assert np.allclose(y[:, 0], 9.5 - np.arange(10))
'''),
 dict(id='c16-envelope', prop='C16', file=PU,
  edits=[("    geot = [minx, gsd_x, 0, maxy, 0, -1*gsd_y]", "    top = maxy if len(world_polygon.exterior.coords) != 4 else world_polygon.exterior.coords[0][1]\n    geot = [minx, gsd_x, 0, top, 0, -1*gsd_y]")],
  needs='a triangular extent whose first vertex is not the highest', breaks='the geotransform starts below the top of the extent',
  demo=H + '''from shapely.geometry import Polygon
from resippy.utils.photogrammetry_utils import world_poly_to_geo_t as f
assert f(Polygon([(0, 0), (4, 0), (2, 6)]), 4, 6)[3] == 6
'''),
 dict(id='c17-band-model', prop='C17', file=OT,
  edits=[("""                lon_lat_alt_to_pixel_x_y(image_ground_grid_x, image_ground_grid_y, alts, band=band, world_proj=world_proj)
            image_data = overhead_image.read_band_from_disk(band)
            im_tp = image_data.dtype

            regridded = map_coordinates""", """                lon_lat_alt_to_pixel_x_y(image_ground_grid_x, image_ground_grid_y, alts, band=len(images), world_proj=world_proj)
            image_data = overhead_image.read_band_from_disk(band)
            im_tp = image_data.dtype

            regridded = map_coordinates""")],
  needs='a selection of bands of an image without coregistered bands', breaks='bands are projected with the camera of another band',
  demo=SCENE + '''im = make(cube, False, shift=1)
r = o.create_ortho_gtiff_image_world_to_sensor(im, 8, 8, box(2.5, 5.5, 10.5, 13.5), P, D, bands=[2]).get_image_data()
assert np.allclose(r[:, :, 0], cube[8 + 1:16 + 1, 3 + 2:11 + 2, 2], atol=10) and abs(r[0, 0, 0] - cube[9, 5, 2]) < 1e-9
'''),
 dict(id='c17-nodata-corner', prop='C17', file=OT,
  edits=[("""            regridded[np.where(pixels_x >= overhead_image.metadata.get_npix_x() - 2)] = nodata_val

            regridded[np.where(pixels_y <= 0)] = nodata_val
            regridded[np.where(pixels_y >= overhead_image.metadata.get_npix_y() - 2)] = nodata_val
""", """            regridded[np.where(pixels_x >= overhead_image.metadata.get_npix_x() - 2)] = nodata_val

            if not np.all(regridded == nodata_val):
                regridded[np.where(pixels_y <= 0)] = nodata_val
                regridded[np.where(pixels_y >= overhead_image.metadata.get_npix_x() - 2)] = nodata_val
""")],
  needs='an image with fewer rows than columns and an ortho reaching beyond its last row', breaks='pixels below the image are not marked nodata',
  demo=SCENE + '''im = make(cube[:8, :, :])
r = o.create_ortho_gtiff_image_world_to_sensor(im, 8, 10, box(2, 3, 10, 13), P, D, nodata_val=-5).get_image_data()
assert (r[2:] == -5).all()
'''),
 dict(id='c17-alpha-zero', prop='C17', file=OT,
  edits=[("    alpha[layer == nodata_val] = 0\n", "    alpha[layer <= nodata_val] = 0\n"), ("    alpha[layer != nodata_val] = 255\n", "    alpha[layer > nodata_val] = 255\n")],
  needs='a valid pixel value below the nodata value', breaks='valid pixels are masked',
  demo=SCENE + '''a = o.mask_image(np.array([[[-3.], [0.], [2.]]]), 0)
assert a[0, :, 1].tolist() == [255, 0, 255]
'''),
 dict(id='c17-extent-corner', prop='C17', file=OT,
  edits=[("    y_border = np.concatenate((yy[0, :], yy[:, -1], yy[-1, :], yy[:, 0]))", "    y_border = np.concatenate((yy[0, :], yy[:, -1], yy[nx - 1 if nx < ny else -1, :], yy[:, 0]))")],
  needs='an image with more rows than columns whose lower border bulges out of the hull of its corners', breaks='the extent misses part of the lower border',
  demo=SCENE + '''im = make(cube)
class Q(PC):
    def _pixel_x_y_alt_to_lon_lat_native(self, x, y, alts=None, band=None):
        x, y = np.asarray(x, float), np.asarray(y, float)
        return x, 20 - y - np.where((y == 19), np.sin(np.pi * x / 15) * 4, 0)
q = Q(); q.set_projection(P); q._bands_coregistered = True
im.set_point_calculator(q)
p = o.get_extent(im, D)
assert p.bounds[1] < -2, p.bounds
'''),
]
