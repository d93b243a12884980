"""C13: image chips are exact sub-images at the reported positions."""
from engine.capi import contract
IC = 'resippy.utils.image_utils.image_chipper'


def setup(V, grey, dtype='uint8'):
    ny, nx, nb = V.dim('ny'), V.dim('nx'), V.dim('nb')
    cy, cx = V.int('chip ny', 1, sample=(1, 5)), V.int('chip nx', 1, sample=(1, 5))
    V.assume(cy <= ny)
    V.assume(cx <= nx)
    im = V.array('im', (ny, nx) if grey else (ny, nx, nb), dtype)
    return ny, nx, nb, cy, cx, im


def band_choice(V, grey, nb):
    """(argument, number of output bands, source band of output band)"""
    if grey:
        return None, 1, lambda b: 0
    how = V.choice('bands', ['all', 'one', 'one listed', 'two'])
    if how == 'all':
        return None, nb, lambda b: b
    b0 = V.int('band 0', 0, sample=(0, 3))
    V.assume(b0 < nb)
    if how in ('one', 'one listed'):
        return (b0 if how == 'one' else [b0]), 1, lambda b: b0
    b1 = V.int('band 1', 0, sample=(0, 3))
    V.assume(b1 < nb)
    return [b0, b1], 2, lambda b: V.ite(V.eq(b, 0), b0, b1)


def check(V, im, grey, chips, ul, n, want, cy, cx, nout, src, ny, nx):
    def px(y, x, b):
        return V.get(im, y, x) if grey else V.get(im, y, x, b)
    flat = V.decide(V.eq(nout, 1))
    V.ensure('as many corners as chips', V.eq(V.len(ul), n))
    def corner(k):
        u = V.item(ul, k)
        return u[0], u[1]
    V.forall('reported corner', (n,), lambda k: V.and_(V.eq(corner(k)[0], want(k)[0]), V.eq(corner(k)[1], want(k)[1])))
    V.forall('inside the image', (n,), lambda k: V.and_(0 <= corner(k)[0], corner(k)[0] + cy <= ny, 0 <= corner(k)[1], corner(k)[1] + cx <= nx))
    if flat:
        V.ensure_array('chip', chips, (n, cy, cx), lambda k, y, x: px(corner(k)[0] + y, corner(k)[1] + x, src(0)))
    else:
        V.ensure_array('chip', chips, (n, cy, cx, nout), lambda k, y, x, b: px(corner(k)[0] + y, corner(k)[1] + x, src(b)))
    V.fresh_memory('own memory', chips, im)
    V.ensure('type', chips.dtype == im.dtype)


def clamp(V, u, c, n):
    return V.ite(u > n - c, n - c, V.ite(u < 0, 0, u))


for _g in (True, False):
    for _keep in (True, False):
        @contract('chips by upper-left corner (%s image, %s)' % ('grey' if _g else 'multi-band', 'corners moved inside' if _keep else 'corners inside as given'),
                  [IC + ':chip_images_by_pixel_upper_lefts'])
        def corners(V, grey=_g, keep=_keep):
            m = V.mod(IC)
            ny, nx, nb, cy, cx, im = setup(V, grey)
            n = V.dim('chips')
            kw = dict(sample=(-4, 12)) if keep else {}
            uy = V.array('uy', (n,), 'int64', **(kw or dict(lo=0, hi=ny - cy)))
            ux = V.array('ux', (n,), 'int64', **(kw or dict(lo=0, hi=nx - cx)))
            bands, nout, src = band_choice(V, grey, nb)
            s = V.snapshot(im, uy, ux)
            kw = {} if keep and V.choice('keep given', [False, True]) is False else {'keep_within_image_bounds': keep}
            chips, ul = m.chip_images_by_pixel_upper_lefts(im, uy, ux, cy, cx, bands=bands, **kw)
            want = lambda k: (clamp(V, V.get(uy, k), cy, ny), clamp(V, V.get(ux, k), cx, nx)) if keep else (V.get(uy, k), V.get(ux, k))
            check(V, im, grey, chips, ul, n, want, cy, cx, nout, src, ny, nx)
            V.unchanged('frame', s)


@contract('chips requested by centre are centred on it, to the whole pixel', [IC + ':chip_images_by_pixel_centers'])
def centres(V):
    m = V.mod(IC)
    grey = V.choice('grey', [True, False])
    ny, nx, nb, cy, cx, im = setup(V, grey)
    n = V.dim('chips')
    real = V.choice('centres', ['int64', 'float64'])
    uy = V.array('uy', (n,), real, sample=(-4, 14))
    ux = V.array('ux', (n,), real, sample=(-4, 14))
    bands, nout, src = band_choice(V, grey, nb) if not grey else (None, 1, lambda b: 0)
    s = V.snapshot(im, uy, ux)
    chips, ul = m.chip_images_by_pixel_centers(im, uy, ux, cy, cx, bands=bands)
    want = lambda k: (clamp(V, V.trunc(V.get(uy, k) - cy / 2), cy, ny), clamp(V, V.trunc(V.get(ux, k) - cx / 2), cx, nx))
    check(V, im, grey, chips, ul, n, want, cy, cx, nout, src, ny, nx)
    # less than one pixel from the centre where the image border allows it
    def near(c, u, size, npix):
        v = c - size / 2
        inside = V.and_(0 <= v, v <= npix - size)
        return V.implies(inside, V.abs(u + size / 2 - c) < 1)
    V.forall('centred', (n,), lambda k: V.and_(near(V.get(uy, k), V.item(ul, k)[0], cy, ny), near(V.get(ux, k), V.item(ul, k)[1], cx, nx)))
    V.unchanged('frame', s)


@contract('chipping a whole image covers every pixel with chips of exact size', [IC + ':chip_entire_image_to_memory', IC + ':chip_images_by_pixel_upper_lefts'])
def whole(V):
    m = V.mod(IC)
    grey = V.choice('grey', [True, False])
    ny, nx, nb, cy, cx, im = setup(V, grey)
    oy, ox = V.int('overlap y', 0, sample=(0, 3)), V.int('overlap x', 0, sample=(0, 3))
    V.assume(oy < cy)
    V.assume(ox < cx)
    bands, nout, src = band_choice(V, grey, nb) if not grey else (None, 1, lambda b: 0)
    s = V.snapshot(im)
    chips, ul = m.chip_entire_image_to_memory(im, cy, cx, oy, ox, bands)
    n = V.len(ul)
    check(V, im, grey, chips, ul, n, lambda k: V.item(ul, k), cy, cx, nout, src, ny, nx)
    y, x = V.int('y', 0, sample=(0, 9)), V.int('x', 0, sample=(0, 9))
    V.assume(y < ny)
    V.assume(x < nx)
    def covers(q):
        u = V.item(ul, q)
        return V.and_(u[0] <= y, y < u[0] + cy, u[1] <= x, x < u[1] + cx)
    V.exists_pair('covered', n, covers, y // (cy - oy), x // (cx - ox))
    V.unchanged('frame', s)
