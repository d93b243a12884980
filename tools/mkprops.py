"""Writes /verif/properties.jsonl (kept as source so that the file stays well-formed)."""
import json, os
PC='resippy/image_objects/earth_overhead/earth_overhead_point_calculators/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   **({'observe_at':observe} if observe else {}),hook_needed=None)))

prop('C01','GeoTIFF pixel and world coordinates are inverse affine maps',
 'For every invertible six-coefficient geotransform, converting pixel coordinates to native world coordinates gives x0+a*x+b*y and y0+c*x+d*y, and converting world to pixel coordinates (or back) after the opposite conversion returns the starting coordinates, whatever altitude or band is passed. The stored geotransform and its inverse always belong together, also after the geotransform is replaced. The reported native world extent is the box spanned by the images of pixel corner (0,0) and pixel corner (npix_x, npix_y).',
 ['inputs','histories'],'all invertible geotransforms (rotated and sheared ones included), all real pixel and world coordinates, scalars and arrays of any length, all altitudes; all sequences of set_geot calls',
 'Tests use one north-up geotiff and a handful of pixels; rotation terms, replaced geotransforms and all coordinates are a for-all.',
 [PC+'geotiff_point_calc.py'],
 [('affine forward and inverse formula',PC+'geotiff_point_calc.py:_pixel_x_y_alt_to_lon_lat_native/_lon_lat_alt_to_pixel_x_y_native'),('geotransform pair kept in step',PC+'geotiff_point_calc.py:set_geot'),('extent',PC+'geotiff_point_calc.py:get_world_extent_native')])

prop('C02','Camera rotation matrices are proper rotations composed in the stated order',
 'For every three angles and each of the six axis orders, the camera rotation matrix is orthonormal with determinant +1 and equals the product of the three elementary rotations about x (roll/omega), y (pitch/phi) and z (yaw/kappa), the first letter of the order being applied first (right-most). The Pix4D rotation matrix for angles in degrees is the transpose of the roll-pitch-yaw matrix for the same angles. Inputs are never modified.',
 ['inputs','configurations'],'all real angle triples; the six orders; numbers and radian quantities',
 'Tests evaluate a few angle triples; orthonormality and composition order are identities over all angles and all six orders.',
 ['resippy/utils/photogrammetry_utils.py','resippy/utils/pix4d_utils.py'],
 [('rotation matrix construction','resippy/utils/photogrammetry_utils.py:create_M_matrix'),('pix4d rotation','resippy/utils/pix4d_utils.py:create_r_matrix')])

prop('C03','Orientation angles are recovered from a rotation matrix',
 'Building a roll-pitch-yaw rotation matrix from omega, phi, kappa with |phi| < 90 degrees and omega, kappa in (-180, 180] degrees, then solving the matrix for its angles, returns real (never NaN) angles equal to the original ones, and rebuilding from them gives the same matrix. The boresight offset of an ideal matrix relative to a rough one is the matrix that, left-multiplied by the rough matrix, gives the ideal matrix.',
 ['inputs'],'all omega, kappa in (-pi, pi], all phi in (-pi/2, pi/2); all invertible rough matrices',
 'Tests sample a few angle triples; quadrant handling must hold in every quadrant and on the axes.',
 ['resippy/utils/photogrammetry_utils.py'],
 [('angle extraction','resippy/utils/photogrammetry_utils.py:solve_for_omega_phi_kappa'),('boresight offset','resippy/utils/photogrammetry_utils.py:solve_for_boresight_angle_offsets')])

prop('C04','Pinhole and ideal focal-plane cameras obey the collinearity equations',
 'The pinhole camera converts its position to metres, its angles to radians and its focal length to metres from the stated units, and projects every world point not in the focal plane to image-plane coordinates equal to -f times the ratios of the rotated camera-to-point vector. The ideal focal plane array maps image-plane metres to pixels by dividing by the pixel pitch (converted to metres) and adding half the pixel count per axis, mirroring an axis exactly when its flip flag is set. The instantaneous field of view is atan(pitch/f) per axis, in the requested units.',
 ['inputs','configurations'],'all positions, orientations, focal lengths, pitches, detector sizes and units; all world points off the focal plane; arrays of any length; the four flip settings',
 'Tests project a few points with one unit choice; unit conversion, flips and every orientation are a for-all.',
 [PC+'pinhole_camera.py',PC+'ideal_pinhole_fpa_local_utm_point_calc.py'],
 [('collinearity',PC+'pinhole_camera.py:world_to_image_plane'),('unit conversion',PC+'pinhole_camera.py:init_pinhole_from_coeffs'),('pixel mapping',PC+'ideal_pinhole_fpa_local_utm_point_calc.py:_lon_lat_alt_to_pixel_x_y_native')])

prop('C05','Fixture-mounted cameras compose boresight and lever arm correctly',
 "A fixture-mounted camera's absolute orientation is the boresight rotation times the fixture rotation, and its absolute position is the fixture position plus the lever arm rotated by the fixture orientation (row vector times fixture matrix). Relative positions are converted to metres and relative angles to radians from the stated units, in the stated rotation order, and neither the fixture matrix nor the boresight matrix is altered by asking for the absolute values.",
 ['inputs','configurations'],'all fixture poses, lever arms, boresight angles, unit choices and the six rotation orders',
 'Tests use a few poses and one zone; composition order and units are a for-all over poses.',
 [PC+'fixtured_camera.py'],
 [('absolute orientation',PC+'fixtured_camera.py:get_camera_absolute_M_matrix'),('absolute position',PC+'fixtured_camera.py:get_camera_absolute_xyz')])

prop('C06','RPC projection follows the RPC00B rational polynomial model',
 'For every set of RPC coefficients, offsets and scales, a ground point (lon, lat, height) is projected to pixel x = samp_scale * P_num(P,L,H)/P_den(P,L,H) + samp_off + 0.5, and likewise y with the line coefficients, where P, L, H are latitude, longitude and height with offset subtracted and divided by scale and each P is the standard 20-term RPC00B cubic (1, L, P, H, LP, LH, PH, L2, P2, H2, PLH, L3, LP2, LH2, L2P, P3, PH2, L2H, P2H, H3). Every coefficient supplied when the model is built is used in its own place.',
 ['inputs'],'all coefficient vectors, all offsets, all non-zero scales, all ground points with non-vanishing denominators; scalars and arrays of any length',
 'Tests check one scene against tolerance; each of the 20 terms and their placement must be right for every input.',
 [PC+'rpc_point_calc.py'],
 [('polynomial',PC+'rpc_point_calc.py:compute_p'),('normalisation and projection',PC+'rpc_point_calc.py:_lon_lat_alt_to_pixel_x_y_native'),('initialisation',PC+'rpc_point_calc.py:init_from_coeffs')])

prop('C07','Frame cameras with lens distortion apply the Brown model',
 'The OpenCV-style and the Pix4D-style frame cameras project a world point by rotating and translating it into camera coordinates, applying radial distortion 1 + k1 r^2 + k2 r^4 + k3 r^6 and the tangential terms with their own coefficients, and scaling by focal length in pixels about the principal point, with each axis reversed (npix minus coordinate) exactly when the model says so. With all distortion coefficients zero the distorted and undistorted projections agree. Every intrinsic and extrinsic parameter given at construction is used in its own place.',
 ['inputs','configurations'],'all intrinsics, extrinsics, offsets and distortion coefficients; all world points with non-zero camera depth; arrays of any length; distortion on or off; the four reversal settings',
 'Tests compare one camera and a few points; coefficient placement and every pose are a for-all.',
 [PC+'opencv_point_calc.py',PC+'pix4d_point_calc.py'],
 [('OpenCV projection',PC+'opencv_point_calc.py:_lon_lat_alt_to_pixel_x_y_native'),('Pix4D projection',PC+'pix4d_point_calc.py:world_xyzs_to_pixel_locations'),('Pix4D parameters',PC+'pix4d_point_calc.py:init_from_params')])

prop('C08','World-to-pixel conversion is shape-preserving, elementwise and CRS-aware',
 'Converting world coordinates to pixels accepts numbers, 1-d and 2-d arrays and returns results of the same shape whose every element equals the conversion of that element alone by the native model. Coordinates are reprojected from the given world projection to the native one exactly when the two differ, and pixel-to-world conversion reprojects from native to world exactly when they differ. In a multi-band sensor model each band is converted by its own point calculator, and setting the projection or distortion model reaches every band.',
 ['inputs','configurations'],'all native models, array sizes, scalar or array altitudes, projection pairs, band numbers and numbers of bands',
 'Tests use one size and one projection per case; elementwise agreement is over every index of every shape.',
 [PC+'abstract_earth_overhead_point_calc.py',PC+'earth_overhead_sensor_model.py'],
 [('input standardisation and reprojection',PC+'abstract_earth_overhead_point_calc.py:lon_lat_alt_to_pixel_x_y'),('pixel to world',PC+'abstract_earth_overhead_point_calc.py:pixel_x_y_alt_to_lon_lat'),('band dispatch',PC+'earth_overhead_sensor_model.py')])

prop('C09','Iterative pixel-to-world solver returns points that project back to the pixel',
 'For a model that only provides world-to-pixel conversion, solving for the world coordinates of pixels at given altitudes returns coordinates whose projection is within the pixel error threshold of the requested pixel in both axes for every pixel, whenever the solver stops before its iteration limit. Each correction step solves the two-by-two linearised system, so for affine models a single step reaches the exact solution. The requested pixel and altitude arrays are not modified.',
 ['inputs'],'all native models (affine ones for exactness), all pixel arrays and altitudes, all thresholds, step sizes and iteration limits',
 'Tests check one image and one threshold; the stopping guarantee covers every pixel, model and threshold.',
 [PC+'abstract_earth_overhead_point_calc.py'],
 [('Newton-like solver',PC+'abstract_earth_overhead_point_calc.py:_pixel_x_y_alt_to_lon_lat_native_solver')])

prop('C10','Ray casting against the DEM returns the terrain intersection',
 'Over a DEM of constant elevation, ray casting a pixel returns that elevation as altitude and, for a camera whose rays are straight in its native coordinates, the ground point at which the camera model sees the pixel at that altitude. In general the returned point lies on the straight ray between the highest and the lowest DEM altitude, at the first sampled step (from above) at which the ray passes below the terrain, linearly interpolated between that step and the previous one, independently for every pixel. Altitudes are relative to the DEM given, and the result is reprojected only if a different world projection is requested.',
 ['inputs'],'all native models, DEMs whose altitudes lie between their reported extremes, pixel arrays, sample distances',
 'Tests use one constant DEM and one scene; the first-crossing guarantee is per pixel for every DEM profile.',
 [PC+'abstract_earth_overhead_point_calc.py'],
 [('ray caster',PC+'abstract_earth_overhead_point_calc.py:_pixel_x_y_to_lon_lat_ray_caster_native'),('public entry',PC+'abstract_earth_overhead_point_calc.py:pixel_x_y_to_lon_lat_alt')])

prop('C11','DEM elevation lookups are faithful to the elevation raster',
 'Nearest-neighbour lookup returns the raster sample whose pixel contains the query point, and bilinear lookup returns the standard bilinear interpolation of the four surrounding samples (exact at integer pixel coordinates, never outside the range of the four samples), with coordinates beyond the raster clamped to its edge; the result has the shape of the query. A constant-elevation DEM returns its elevation everywhere, in the shape of the query. Lowest <= mean <= highest altitude, nodata samples being ignored.',
 ['inputs'],'all rasters of any size, all query coordinates inside and outside the raster, scalar, 1-d and 2-d queries, both interpolation methods, all nodata values',
 'Tests query one raster at a few points; weights and clamping are a for-all over raster contents and query points.',
 ['resippy/photogrammetry/dem/geotiff_dem.py','resippy/photogrammetry/dem/constant_elevation_dem.py','resippy/photogrammetry/dem/dem_factory.py'],
 [('sampling','resippy/photogrammetry/dem/geotiff_dem.py:get_elevations'),('nodata','resippy/photogrammetry/dem/geotiff_dem.py:remove_nodata_values'),('extremes','resippy/photogrammetry/dem/geotiff_dem.py:get_highest_alt/get_lowest_alt/get_mean_alt')])

prop('C12','ENVI images survive a write and read round trip',
 'Writing an image cube to an ENVI file pair and reading it back returns a cube of the same shape, data type and values, element for element, for every supported data type and for each of the interleaves bil, bip and bsq; the written header states the number of lines, samples, bands, data type and interleave of the data, and the file holds the elements in the order the interleave prescribes (bil: element (line, sample, band) at (line*bands + band)*samples + sample). The ENVI data type code table maps each code to the numpy type of that code and back.',
 ['inputs'],'all cube sizes, contents and supported data types',
 'Tests read one sample file; the layout must hold at every index of every size and type.',
 ['resippy/utils/envi_utils.py','resippy/image_objects/envi/envi_image.py'],
 [('cube construction','resippy/utils/envi_utils.py:construct_image_cube_from_raw_data'),('writer','resippy/utils/envi_utils.py:write_envi_image'),('type codes','resippy/utils/envi_utils.py:ENVI_DTYPES_TO_NUMPY')])

prop('C13','Image chips are exact sub-images at the reported positions',
 'Every chip cut from an image equals the sub-image of the original whose upper-left corner is the corner reported (or requested) for it, has exactly the requested size, lies fully inside the image, and contains the selected bands in the selected order. Chipping a whole image by grid covers every pixel of the image for every image size not smaller than the chip, and chips requested by centre are centred on it. Chips do not share memory with, and chipping never modifies, the source image.',
 ['inputs'],'all image sizes, chip sizes not larger than the image, overlaps or spacings, centre or corner lists, band selections, contents',
 'Tests chip one image with one size; coverage and in-bounds must hold for every size combination.',
 ['resippy/utils/image_utils/image_chipper.py'],
 [('grid','resippy/utils/image_utils/image_chipper.py:chip_entire_image'),('extraction','resippy/utils/image_utils/image_chipper.py:chip_images_by_pixel_upper_lefts'),('centres','resippy/utils/image_utils/image_chipper.py:chip_images_by_pixel_centers')])

prop('C14','Spectral detectors compute their defining statistics on every pixel',
 'Mean and covariance of a spectral image are the sample mean and sample covariance over exactly the unmasked pixels; the RX score of each pixel is its squared Mahalanobis distance; the ACE score is the squared whitened cosine to the target (between 0 and 1, unchanged when the target or pixel deviation is scaled); the SAM score is the cosine of the spectral angle to the target. Covariance equalization is the linear map made of the inverse square root of the covariance of the one scene and the square root of the covariance of the other, applied to every pixel. The two-dimensional image versions equal the one-dimensional versions applied to the row-major flattened pixels, each score at its own pixel. Principal components are the scores of the row-major flattened pixels, each at its own pixel. Input images are never modified.',
 ['inputs'],'all images (any number of rows, columns and bands), masks, targets, means and invertible positive-definite inverse covariances',
 'Tests run the detectors on one image; formulas, pixel placement and mask handling are a for-all.',
 ['resippy/spectral/spectral_image_processing_1d.py','resippy/spectral/spectral_image_processing_2d.py'],
 [('1-d statistics and detectors','resippy/spectral/spectral_image_processing_1d.py'),('2-d wrappers','resippy/spectral/spectral_image_processing_2d.py')])

prop('C15','Flattening, unflattening and pixel grids are consistent bijections',
 'Flattening an image cube or band gives the row-major list of its pixels and unflattening with the same pixel counts returns the original, so that flattened element y*nx + x is pixel (y, x) for every size. A pixel grid for nx by ny pixels holds at (y, x) exactly the coordinates x and y. A uniform test image holds its constant everywhere and in the requested size.',
 ['inputs'],'all image sizes, band counts and contents',
 'Tests flatten one size; index correspondence must hold for all sizes.',
 ['resippy/utils/image_utils/image_utils.py'],
 [('flatten/unflatten','resippy/utils/image_utils/image_utils.py'),('pixel grid','resippy/utils/image_utils/image_utils.py:create_pixel_grid')])

prop('C16','Ground grids, extents and geotransforms describe the same pixels',
 'For an extent and a pixel count, the geotransform built from the extent maps pixel (0,0) to the upper-left corner and pixel (npix_x, npix_y) to the lower-right corner of its bounding box, and the ground grid built from the same numbers holds at row j, column i the world coordinates of pixel centre (i+0.5, j+0.5) under that geotransform. The number of pixels in an extent at a ground sample distance is the whole number of samples that fit in its width and height.',
 ['inputs'],'all extents with min < max, all pixel counts of at least two, all positive ground sample distances',
 'Tests use single extents; the agreement is an identity over all extents and sizes.',
 ['resippy/utils/photogrammetry_utils.py'],
 [('geotransform','resippy/utils/photogrammetry_utils.py:world_poly_to_geo_t'),('grid','resippy/utils/photogrammetry_utils.py:create_ground_grid'),('pixel counts','resippy/utils/photogrammetry_utils.py:get_nx_ny_pixels_in_extent')])

prop('C17','Orthorectified pixels come from the projected source location or are nodata',
 'Each pixel of an orthorectified image holds, per selected band in order, the value interpolated from that band at the source pixel (x, y) to which the camera model projects the ground point of that output pixel (grid point with its DEM elevation) wherever that location lies in the source image less the margin of two pixels which the software leaves out (0 < x < nx - 2 and 0 < y < ny - 2), and holds the nodata value wherever it lies outside the source image (x < 0, x > nx - 1, y < 0 or y > ny - 1). The geotransform and projection attached to the output describe the requested extent; a full ortho covers the whole extent of the image, in the requested projection, at the requested sample distance. An alpha band marks exactly the nodata pixels. The ground location found for an image pixel lies on its ray at the terrain elevation found under its first estimate (the ray at the highest terrain altitude), and the extent of an image is the convex hull of the ground locations of its border pixels. All of this holds for coregistered and for non-coregistered bands, and source images are not modified.',
 ['inputs','configurations'],'all camera models, source images, extents, output sizes, DEMs, band selections, nodata values and both coregistration modes (sampling of locations exactly on the border excluded)',
 'Tests run a few scenes end to end; the per-pixel relation is over every output pixel and model.',
 ['resippy/photogrammetry/ortho_tools.py'],
 [('ortho drivers','resippy/photogrammetry/ortho_tools.py:create_ortho_gtiff_image_world_to_sensor, create_ortho_gtiff_image_world_to_sensor_backup, create_full_ortho_gtiff_image'),('ground locations and extent','resippy/photogrammetry/ortho_tools.py:get_pixel_lon_lats, get_extent'),('warping','resippy/utils/image_utils/image_utils.py:grid_warp_image_band')])

prop('C18','Navigation interpolation is exact at samples and linear between them',
 'For navigation records with increasing time stamps, every interpolated navigation quantity equals the recorded value at a recorded time and the linear interpolation of the two neighbouring records in between, each quantity from its own column. Queries may be a number, a 1-d or a 2-d array of times and return the same shape with every element equal to the query of that time alone; times outside the recorded span give no data rather than an extrapolated value.',
 ['inputs'],'all record tables with at least two records, all query times and query shapes, all navigation quantities',
 'Tests query one file at a few times; neighbouring-record selection must hold at every time including the ends.',
 ['resippy/photogrammetry/nav/abstract_nav.py','resippy/photogrammetry/nav/applanix_sbet_nav.py','resippy/photogrammetry/nav/applanix_eo_nav.py'],
 [('record interpolation','resippy/photogrammetry/nav/applanix_sbet_nav.py/applanix_eo_nav.py'),('shape handling','resippy/photogrammetry/nav/abstract_nav.py')])

prop('C19','Time and angle conversions are exact and reversible',
 'Converting a UTC time stamp to GPS time and back returns the same time stamp, and the offset applied is the number of leap seconds in force at that instant according to the published leap second table, independent of the local time zone. GPS week and seconds-of-week decompose the GPS time stamp (seconds in [0, 604800)) and recombine to it. Degree-minute-second tags convert to decimal degrees as d + m/60 + s/3600 with the hemisphere sign; the fraction of a second in a time tag counts with its leading zeros.',
 ['inputs'],'all time stamps since the GPS epoch, outside the leap second itself for the reverse direction; all rational d, m, s tags',
 'Tests check a couple of dates; the reverse conversion near each table entry and every rational tag is a for-all.',
 ['resippy/utils/time_utils.py','resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py'],
 [('leap seconds and conversion','resippy/utils/time_utils.py'),('DMS tags','resippy/image_objects/earth_overhead/micasense/micasense_image_factory.py:_dms_tag_to_dd')])

prop('C20','Image compositing utilities stay in range and place every pixel correctly',
 'Grey-scale normalisation maps the smallest and the largest value of an image that is not constant, of any numeric type, to the ends of the output range and the values between linearly; blending two images gives the convex combination of them at every pixel; a colour map applied to an image gives, per pixel, the colour linearly interpolated between the palette entries around its value, clipped at the ends (without blending: the colour of the equally wide bin the value is in), whatever the number of palette entries or bins; without a stated range the colours span the values of the image, nodata left out. A detection image holds at each pixel the best score among the chips covering it and the background where none does. The mutual information of two images does not depend on their order.',
 ['inputs'],'all images, ranges with minimum below maximum, blend fractions in [0,1], palettes of at least two entries, chip lists at non-negative positions and scores',
 'Tests are visual or absent; range and placement are over every pixel and palette.',
 ['resippy/utils/image_utils/image_utils.py','resippy/utils/image_utils/image_registration.py'],
 [('compositing','resippy/utils/image_utils/image_utils.py'),('mutual information','resippy/utils/image_utils/image_registration.py')])

prop('C21','Spectra are isolated values and resample linearly',
 'The spectral data a spectrum hands out can be changed by the caller without affecting the stored spectrum, and nodata entries are reported as NaN only when asked for. Resampling a spectrum with sensor response functions gives per sensor band the response-weighted average of the spectrum: a flat spectrum stays flat, the result is linear in the spectrum, and each band lands in its own position. Wavelength metadata given to a spectrum is returned as given.',
 ['inputs'],'all spectra, wavelength grids, response functions with positive area, nodata values',
 'Tests resample one library spectrum; flatness and linearity hold for every spectrum and response.',
 ['resippy/spectral/spectrum.py','resippy/utils/spectral_utils.py'],
 [('data access','resippy/spectral/spectrum.py'),('resampling','resippy/spectral/spectrum.py:resample_spectrum_direct')])

prop('C22','Image objects keep pixel data, band order and metadata together',
 'An image created from an array reports the number of rows, columns and bands of that array, returns each band and the full cube element for element in band order, and writing it to a GeoTIFF and reading it back returns the same pixels, geotransform, projection and nodata value. Per-point lookups in a location-array (IGM) image return the stored longitude, latitude and altitude of exactly the requested pixel. A location array image made from another image stores the location and altitude of every pixel. Masking adds one alpha band that is 0 (clear) exactly where the first band equals the nodata value and 255 elsewhere, for pixel types that can hold both.',
 ['inputs'],'all image sizes, band counts, contents, geotransforms and nodata values; all pixels of a location array',
 'Tests round-trip one file; band order and axis order must hold for every size and band count.',
 ['resippy/image_objects/abstract_image.py','resippy/image_objects/earth_overhead/geotiff/geotiff_image.py','resippy/image_objects/earth_overhead/igm/igm_image.py',PC+'igm_point_calc.py'],
 [('band access','resippy/image_objects/abstract_image.py'),('geotiff I/O','resippy/image_objects/earth_overhead/geotiff/geotiff_image.py'),('IGM',PC+'igm_point_calc.py')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
