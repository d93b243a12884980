"""C15: flattening, unflattening, pixel grids."""
from engine.capi import contract
IU = 'resippy.utils.image_utils.image_utils'
SU = 'resippy.utils.spectral_utils'


@contract('flatten_image_cube lists the pixels row-major', [SU + ':flatten_image_cube'])
def flat_cube(V):
    m = V.mod(SU)
    ny, nx, nb = V.dim('ny'), V.dim('nx'), V.dim('nb')
    im = V.array('im', (ny, nx, nb))
    s = V.snapshot(im)
    r = m.flatten_image_cube(im)
    V.ensure_shape('flattened shape', r, (ny * nx, nb))
    V.forall('flattened element', (ny, nx, nb), lambda y, x, b: V.eq(V.get(r, y * nx + x, b), V.get(im, y, x, b)))
    V.unchanged('frame', s)


@contract('unflatten_image_cube inverts flatten_image_cube', [SU + ':unflatten_image_cube', SU + ':flatten_image_cube'])
def unflat_cube(V):
    m = V.mod(SU)
    ny, nx, nb = V.dim('ny'), V.dim('nx'), V.dim('nb')
    fl = V.array('fl', (ny * nx, nb))
    s = V.snapshot(fl)
    r = m.unflatten_image_cube(fl, nx, ny)
    V.ensure_array('unflattened element', r, (ny, nx, nb), lambda y, x, b: V.get(fl, y * nx + x, b))
    im = V.array('im', (ny, nx, nb))
    back = m.unflatten_image_cube(m.flatten_image_cube(im), nx, ny)
    V.ensure_array('round trip', back, (ny, nx, nb), lambda y, x, b: V.get(im, y, x, b))
    V.unchanged('frame', s)


@contract('flatten_image_band / unflatten_image_band are inverse', [IU + ':flatten_image_band', IU + ':unflatten_image_band'])
def bands(V):
    m = V.mod(IU)
    ny, nx = V.dim('ny'), V.dim('nx')
    im = V.array('im', (ny, nx))
    s = V.snapshot(im)
    r = m.flatten_image_band(im)
    V.ensure_shape('flattened shape', r, (ny * nx,))
    V.forall('flattened element', (ny, nx), lambda y, x: V.eq(V.get(r, y * nx + x), V.get(im, y, x)))
    fl = V.array('fl', (ny * nx,))
    u = m.unflatten_image_band(fl, nx, ny)
    V.ensure_array('unflattened element', u, (ny, nx), lambda y, x: V.get(fl, y * nx + x))
    V.ensure_array('round trip', m.unflatten_image_band(r, nx, ny), (ny, nx), lambda y, x: V.get(im, y, x))
    V.unchanged('frame', s)


@contract('create_pixel_grid holds x and y', [IU + ':create_pixel_grid'])
def grid(V):
    m = V.mod(IU)
    ny, nx = V.dim('ny'), V.dim('nx')
    xx, yy = m.create_pixel_grid(nx, ny)
    V.ensure_array('xx', xx, (ny, nx), lambda y, x: x)
    V.ensure_array('yy', yy, (ny, nx), lambda y, x: y)


@contract('create_uniform_image_data holds its constant', [IU + ':create_uniform_image_data'])
def uniform(V):
    m = V.mod(IU)
    ny, nx, nb = V.dim('ny'), V.dim('nx'), V.dim('nb')
    c = V.int('c', 0, 255)
    r = m.create_uniform_image_data(nx, ny, nb, c)
    V.ensure_array('constant', r, (ny, nx, nb), lambda y, x, b: c)
    r3 = m.create_uniform_image_data(nx, ny, 3, [c, c // 2, 7])
    V.ensure_array('per band constant', r3, (ny, nx, 3), lambda y, x, b: V.ite(b == 0, c, V.ite(b == 1, c // 2, 7)))


@contract('get_image_ny_nx_nbands reports the shape', [IU + ':get_image_ny_nx_nbands', IU + ':is_grayscale'])
def shape(V):
    m = V.mod(IU)
    ny, nx, nb = V.dim('ny'), V.dim('nx'), V.dim('nb')
    r = m.get_image_ny_nx_nbands(V.array('im', (ny, nx, nb)))
    g = m.get_image_ny_nx_nbands(V.array('g', (ny, nx)))
    for k, e in enumerate((ny, nx, nb)):
        V.ensure_eq('cube[%d]' % k, r[k], e)
    for k, e in enumerate((ny, nx, 1)):
        V.ensure_eq('band[%d]' % k, g[k], e)
