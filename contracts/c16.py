"""C16: ground grids, extents and geotransforms describe the same pixels."""
from engine.capi import contract
PU = 'resippy.utils.photogrammetry_utils'


def extent(V):
    """an arbitrary triangle, quadrilateral or box with its bounds"""
    kind = V.choice('extent', ['box', 'triangle', 'quadrilateral'])
    if kind == 'box':
        a, b, c, d = V.reals('box', 4, lo=-1e7, hi=1e7)
        V.assume(a < c)
        V.assume(b < d)
        return V.box(a, b, c, d), (a, b, c, d)
    n = 3 if kind == 'triangle' else 4
    xs, ys = V.reals('x', n, lo=-1e7, hi=1e7), V.reals('y', n, lo=-1e7, hi=1e7)
    lo = lambda v: V.min(*v)
    hi = lambda v: V.max(*v)
    bnd = (lo(xs), lo(ys), hi(xs), hi(ys))
    V.assume(bnd[0] < bnd[2])
    V.assume(bnd[1] < bnd[3])
    return V.polygon([(x, y) for x, y in zip(xs, ys)]), bnd


def pixel(g, x, y):
    return g[0] + g[1] * x + g[2] * y, g[3] + g[4] * x + g[5] * y


@contract('the geotransform of an extent maps the pixel corners to the corners of its bounding box', [PU + ':world_poly_to_geo_t'])
def geo_t(V):
    p, (a, b, c, d) = extent(V)
    nx, ny = V.dim('npix_x', 1, sample=(1, 40)), V.dim('npix_y', 1, sample=(1, 40))
    g = V.mod(PU).world_poly_to_geo_t(p, nx, ny)
    V.ensure('six numbers', len(g) == 6)
    tol = 1e-9
    x, y = pixel(g, 0, 0)
    V.ensure_eq('upper left x', x, a, tol=tol)
    V.ensure_eq('upper left y', y, d, tol=tol)
    x, y = pixel(g, nx, ny)
    V.ensure_eq('lower right x', x, c, tol=tol)
    V.ensure_eq('lower right y', y, b, tol=tol)
    x, y = pixel(g, nx, 0)
    V.ensure_eq('upper right x', x, c, tol=tol)
    V.ensure_eq('upper right y', y, d, tol=tol)


@contract('the ground grid holds the pixel centres of the geotransform of the same extent', [PU + ':create_ground_grid', PU + ':world_poly_to_geo_t'])
def grid(V):
    m = V.mod(PU)
    p, (a, b, c, d) = extent(V)
    nx, ny = V.dim('npix_x', 2, sample=(2, 30)), V.dim('npix_y', 2, sample=(2, 30))
    gx, gy = m.create_ground_grid(a, c, b, d, nx, ny)
    g = m.world_poly_to_geo_t(p, nx, ny)
    V.ensure_array('x of centre', gx, (ny, nx), lambda j, i: pixel(g, i + 0.5, j + 0.5)[0], tol=1e-9)
    V.ensure_array('y of centre', gy, (ny, nx), lambda j, i: pixel(g, i + 0.5, j + 0.5)[1], tol=1e-9)
    V.fresh_memory('separate', gx, gy)


@contract('the ground grid samples its extent at equal steps, north up, half a step inside the edges', [PU + ':create_ground_grid'])
def grid_alone(V):
    m = V.mod(PU)
    a, b, c, d = V.reals('box', 4, lo=-1e7, hi=1e7)
    V.assume(a < c)
    V.assume(b < d)
    nx, ny = V.dim('npix_x', 2, sample=(2, 30)), V.dim('npix_y', 2, sample=(2, 30))
    gx, gy = m.create_ground_grid(a, c, b, d, nx, ny)
    sx, sy = (c - a) / nx, (d - b) / ny
    V.ensure_array('x', gx, (ny, nx), lambda j, i: a + sx * (i + 0.5), tol=1e-9)
    V.ensure_array('y', gy, (ny, nx), lambda j, i: d - sy * (j + 0.5), tol=1e-9)


@contract('the pixel count is the whole number of samples that fit in the extent', [PU + ':get_nx_ny_pixels_in_extent'])
def counts(V):
    p, (a, b, c, d) = extent(V)
    gx, gy = V.real('gsd_x', 1e-6, 1e7), V.real('gsd_y', 1e-6, 1e7)
    nx, ny = V.mod(PU).get_nx_ny_pixels_in_extent(p, gx, gy)
    t = 0 if V.symbolic else 1e-9
    for lab, n, w, g in (('x', nx, c - a, gx), ('y', ny, d - b, gy)):
        V.ensure_eq('whole number ' + lab, V.floor(n), n)
        V.ensure('fits ' + lab, n * g <= w * (1 + t) + t)
        V.ensure('one more does not fit ' + lab, w < (n + 1) * g * (1 + t) + t)
