"""C20: compositing utilities."""
from engine.capi import contract
IU = 'resippy.utils.image_utils.image_utils'
IR = 'resippy.utils.image_utils.image_registration'


def norm_case(dtype):
    @contract('normalisation maps the minimum and the maximum to the ends of the output range, linearly (%s)' % dtype, [IU + ':normalize_grayscale_image'])
    def norm(V):
        m = V.mod(IU)
        ny, nx = V.dim('ny'), V.dim('nx')
        im = V.array('im', (ny, nx), dtype, sample=(-120, 127) if dtype == 'int8' else (-30000, 30000) if dtype == 'int16' else None)
        lo, hi = V.min_over((ny, nx), lambda y, x: V.get(im, y, x)), V.max_over((ny, nx), lambda y, x: V.get(im, y, x))
        V.assume(lo < hi)
        a, b = V.real('new min', -1000, 1000), V.real('new max', -1000, 1000)
        s = V.snapshot(im)
        r = m.normalize_grayscale_image(im, a, b)
        V.ensure_array('normalised', r, (ny, nx), lambda y, x: a + (V.get(im, y, x) * 1.0 - lo) / (hi * 1.0 - lo) * (b - a), tol=1e-4 if dtype == 'float32' else 1e-6)
        p, q = V.int('int min', 0, 255), V.int('int max', 0, 255)
        V.assume(p < q)
        r8 = m.normalize_grayscale_image(im, p, q, output_dtype=V.np.uint8)

        def level(y, x):
            f = (V.get(im, y, x) * 1.0 - lo) / (hi * 1.0 - lo)
            V.cut('fraction', V.and_(f >= 0, f <= 1))
            V.cut('range', V.and_(f * (q - p) >= 0, f * (q - p) <= q - p))
            return V.and_(V.get(r8, y, x) - (p + f * (q - p)) <= 1, V.get(r8, y, x) - (p + f * (q - p)) >= -1)
        V.ensure_shape('shape as integers', r8, (ny, nx))
        V.forall('as integers', (ny, nx), level)
        V.unchanged('frame', s)


for d_ in ('float64', 'uint8', 'int8', 'int16', 'float32'):
    norm_case(d_)


@contract('blending is the convex combination at every pixel', [IU + ':blend_images'])
def blend(V):
    m = V.mod(IU)
    ny, nx = V.dim('ny'), V.dim('nx')
    a, b = [V.array(n, (ny, nx), V.choice(n + ' dtype', ['float64', 'uint8', 'int16'])) for n in 'ab']
    f = V.choice('ends', [None, 0, 1, 0.0, 1.0])
    f = V.real('fraction', 0, 1) if f is None else f
    s = V.snapshot(a, b)
    r = m.blend_images(a, b, f)
    V.ensure_array('blended', r, (ny, nx), lambda y, x: V.get(a, y, x) * f + V.get(b, y, x) * (1 - f), tol=1e-6)
    V.unchanged('frame', s)


@contract('a detection image holds the best score of the chips covering a pixel', [IU + ':create_detection_image_from_scores'])
def detections(V):
    m = V.mod(IU)
    n = V.dim('n')
    ul = V.array('ul', (n, 2), 'int64', 0, sample=(0, 9))
    score = V.array('score', (n,), 'float64')
    cx, cy = V.dim('cx', sample=(1, 4)), V.dim('cy', sample=(1, 4))
    s = V.snapshot(ul, score)
    r = m.create_detection_image_from_scores(score, ul, cx, cy)
    ny = V.max_over((n,), lambda k: V.get(ul, k, 0)) + cy
    nx = V.max_over((n,), lambda k: V.get(ul, k, 1)) + cx
    V.ensure_shape('size', r, (ny, nx))

    def covers(k, y, x):
        u, v = V.get(ul, k, 0), V.get(ul, k, 1)
        return V.and_(u <= y, y < u + cy, v <= x, x < v + cx)
    V.forall('no covering chip has a better score', (n, ny, nx), lambda k, y, x: (V.witness(k), V.get(r, y, x) >= V.get(score, k))[1],
             where=lambda k, y, x: covers(k, y, x))
    V.forall('background elsewhere, a score where covered', (ny, nx), lambda y, x: V.or_(V.eq(V.get(r, y, x), 0), V.some(
        (n,), lambda k: V.and_(covers(k, y, x), V.eq(V.get(r, y, x), V.get(score, k))))))
    V.unchanged('frame', s)


def palette(V, name, n, bands=3):
    return V.array(name, (n, bands), 'float64', 0, 1)


def scale(V, n):
    """a range (min, max) and the values of its n equally spaced entries"""
    a, step = V.real('min', -5, 5), V.real('step', 0.01, sample=(0.01, 3))
    return a, a + step * (n - 1), lambda k: a + step * k


def bin_(V, im, at, n, k, y, x):
    """lemma: entry k starts the last bin the pixel is in"""
    if V.symbolic:
        v = V.get(im, y, x)
        V.witness(k, k - 1)
        V.cut('bin', V.eq(n - 2 - V.first(0, n - 1, lambda q: V.and_(at(n - 2 - q) <= v, v <= at(n - 1 - q))), V.min(k, n - 2)))


def image(V, ny, nx, dtype=None):
    dtype = dtype or V.choice('dtype', ['float64', 'uint8', 'int16'])
    return V.array('im', (ny, nx), dtype, sample=(0, 9) if dtype != 'float64' else (-3, 3))


def entries(V):
    """number of palette entries; now and then a large one"""
    n = V.int('n', 2, sample=(2, 5))
    if not V.symbolic and V.choice('size', [0, 0, 0, 1]):
        n = V.int('large n', 100, sample=(100, 300))
    return n


def colours(V, r, p, im, at, n, ny, nx, lo, hi, whole=False):
    """r shows the palette p linearly interpolated over its n entries at(0) = lo .. at(n - 1) = hi"""

    def shows(y, x, c, k, w=None):
        """the pixel shows entry k, or the colour a fraction w on to the next entry"""
        e = V.get(p, k, c)
        if w is not None:
            if whole:
                V.cut('fraction', V.and_(w >= 0, w <= 1))
            d = V.get(p, k + 1, c)
            if whole:
                V.cut('towards the next', V.and_(w * d >= 0, w * d <= w, (1 - w) * e >= 0, (1 - w) * e <= 1 - w))
            e = e + w * (d - e)
        got = V.get(r, y, x, c)
        return V.and_(got - 255 * e <= 1, got - 255 * e >= -1) if whole else V.eq(got, 255 * e, tol=1e-6)
    V.ensure_shape('colour image', r, (ny, nx, 3))
    v = lambda y, x: V.get(im, y, x)
    V.forall('below the range: first colour', (ny, nx, 3), lambda y, x, c: shows(y, x, c, 0), where=lambda y, x, c: v(y, x) < lo)
    V.forall('above the range: last colour', (ny, nx, 3), lambda y, x, c: shows(y, x, c, n - 1), where=lambda y, x, c: v(y, x) > hi)
    V.forall('at a palette entry', (n, ny, nx, 3), lambda k, y, x, c: (bin_(V, im, at, n, k, y, x), shows(y, x, c, k))[1], where=lambda k, y, x, c: V.eq(v(y, x), at(k)))
    V.forall('between two palette entries', (n - 1, ny, nx, 3), lambda k, y, x, c: (bin_(V, im, at, n, k, y, x), shows(y, x, c, k, (v(y, x) - at(k)) / (at(1) - at(0))))[1],
             where=lambda k, y, x, c: V.and_(at(k) < v(y, x), v(y, x) < at(k + 1)))


@contract('a continuous colour map interpolates the palette linearly', [IU + ':apply_colormap_to_grayscale_image', IU + ':get_image_ny_nx_nbands'])
def continuous(V):
    m = V.mod(IU)
    ny, nx, n = V.dim('ny'), V.dim('nx'), entries(V)
    im, p = image(V, ny, nx), palette(V, 'p', n)
    a, b, at = scale(V, n)
    s = V.snapshot(im, p)
    r = m.apply_colormap_to_grayscale_image(im, p, min_clip=a, max_clip=b, output_dtype=V.np.float64)
    colours(V, r, p, im, at, n, ny, nx, a, b)
    V.unchanged('frame', s)


@contract('a colour map is truncated to whole levels', [IU + ':apply_colormap_to_grayscale_image'])
def levels(V):
    m = V.mod(IU)
    ny, nx, n = V.dim('ny'), V.dim('nx'), entries(V)
    im, p = image(V, ny, nx, 'float64'), palette(V, 'p', n)
    a, b, at = scale(V, n)
    q = m.apply_colormap_to_grayscale_image(im, p, min_clip=a, max_clip=b)

    colours(V, q, p, im, at, n, ny, nx, a, b, whole=True)


@contract('without a range the colours span the values of the image, nodata left out', [IU + ':apply_colormap_to_grayscale_image'])
def default_range(V):
    m = V.mod(IU)
    ny, nx, n = V.dim('ny'), V.dim('nx'), V.int('n', 2, sample=(2, 5))
    im, p = image(V, ny, nx), palette(V, 'p', n)
    nodata = V.choice('nodata', [None, 'given'])
    if nodata is not None:
        nodata = V.real('nd', sample=(-1, 6)) if V.symbolic else float(V.int('nd', sample=(-1, 9)))
    good = None if nodata is None else lambda y, x: V.not_(V.eq(V.get(im, y, x), nodata))
    if good is not None:
        V.assume(V.some((ny, nx), good))
    lo = V.min_over((ny, nx), lambda y, x: V.get(im, y, x), good)
    hi = V.max_over((ny, nx), lambda y, x: V.get(im, y, x), good)
    V.assume(lo < hi)
    kw = {} if nodata is None else dict(nodata=nodata)
    r = m.apply_colormap_to_grayscale_image(im, p, output_dtype=V.np.float64, **kw)
    e = m.apply_colormap_to_grayscale_image(im, p, output_dtype=V.np.float64, min_clip=lo, max_clip=hi)
    V.ensure_shape('colour image', r, (ny, nx, 3))
    V.forall('as with the range of the image', (ny, nx, 3), lambda y, x, c: V.same(V.get(r, y, x, c), V.get(e, y, x, c), tol=1e-6), where=None if good is None else lambda y, x, c: good(y, x))


@contract('a discrete colour map gives the colour of the bin of equal width', [IU + ':apply_colormap_to_grayscale_image'])
def discrete(V):
    m = V.mod(IU)
    ny, nx, n = V.dim('ny'), V.dim('nx'), entries(V)
    im, p = image(V, ny, nx), palette(V, 'p', n)
    a, _, at = scale(V, n)
    r = m.apply_colormap_to_grayscale_image(im, p, continuous=False, min_clip=a, max_clip=at(n), output_dtype=V.np.float64)
    V.ensure_shape('colour image', r, (ny, nx, 3))
    V.forall('below the range: first colour', (ny, nx, 3), lambda y, x, c: V.eq(V.get(r, y, x, c), 255 * V.get(p, 0, c), tol=1e-6), where=lambda y, x, c: V.get(im, y, x) < a)
    V.forall('in the last bin or above: last colour', (ny, nx, 3), lambda y, x, c: V.eq(V.get(r, y, x, c), 255 * V.get(p, n - 1, c), tol=1e-6),
             where=lambda y, x, c: V.get(im, y, x) > at(n - 1) + (0 if V.symbolic else 1e-9))
    V.forall('in a bin', (n - 1, ny, nx, 3), lambda k, y, x, c: (bin_(V, im, at, n, k, y, x), V.eq(V.get(r, y, x, c), 255 * V.get(p, k, c), tol=1e-6))[1],
             where=lambda k, y, x, c: V.and_(at(k) + (0 if V.symbolic else 1e-9) < V.get(im, y, x), V.get(im, y, x) < at(k + 1) - (0 if V.symbolic else 1e-9)))


@contract('a number of bins resamples the palette', [IU + ':apply_colormap_to_grayscale_image'])
def bins(V):
    m = V.mod(IU)
    ny, nx, n, nb = V.dim('ny'), V.dim('nx'), V.int('n', 2, sample=(2, 5)), V.int('bins', 2, sample=(2, 7))
    if not V.symbolic and V.choice('many', [0, 0, 1]):
        nb = V.int('many bins', 120, sample=(120, 260))
    im, p = image(V, ny, nx), palette(V, 'p', n)
    a, b, at = scale(V, nb)
    q = palette(V, 'resampled', nb)
    f = m.apply_colormap_to_grayscale_image

    def inner(image, color_palette=None, continuous=True, n_bins=None, min_clip=None, max_clip=None, output_dtype=V.np.uint8, nodata=None):
        V.ensure_array('resampled at', image, (1, nb), lambda y, k: at(k), tol=1e-9)
        V.ensure_array('palette resampled', color_palette, (n, 3), lambda k, c: V.get(p, k, c))
        V.ensure('continuous', continuous is True and n_bins is None and output_dtype in (float, V.np.float64))
        return V.np.reshape(q * 255.0, (1, nb, 3))
    V.stub(m, 'apply_colormap_to_grayscale_image', inner)
    r = f(im, p, n_bins=nb, min_clip=a, max_clip=b, output_dtype=V.np.float64)
    colours(V, r, q, im, at, nb, ny, nx, a, b)


@contract('mutual information of histograms is the sum over their bins', [IR + ':MMI._histogram_mmi'])
def histograms(V):
    m = V.mod(IR)
    n = V.dim('n', sample=(1, 6))
    a, b = V.array('a', (n,), 'int64', 0, sample=(0, 5)), V.array('b', (n,), 'int64', 0, sample=(0, 5))
    J = V.array('J', (n, n), 'float64', 0) if V.symbolic else V.np.where(V.np.outer(a, b) > 0, V.array('j', (n, n), 'int64', 0, sample=(0, 3)), 0) * 1.0
    s = V.snapshot(a, b, J)
    r = m.MMI._histogram_mmi(a, b, J)
    with V.np.errstate(all='ignore'):
        t = V.np.log(J / (V.np.reshape(a, (n, 1)) * V.np.reshape(b, (1, n))))
    e = V.sum2(n, n, lambda p, q: V.ite(V.eq(V.get(J, p, q), 0), 0, V.get(J, p, q) * V.get(t, p, q)))
    # a joint count without marginal counts (never the case for two histograms of the same images) has no value
    V.ensure('value', V.or_(V.isnan(r), V.eq(r, e, tol=1e-9)))
    V.unchanged('frame', s)


@contract('mutual information of two images does not depend on their order', [IR + ':MMI.image_mmi', IR + ':MMI._histogram_mmi'])
def symmetric(V):
    m = V.mod(IR)
    ny, nx, k = V.dim('ny'), V.dim('nx'), V.int('bins', 1, sample=(1, 12))
    a, b = [V.array(x, (ny, nx), V.choice(x + ' dtype', ['float64', 'uint8'])) for x in 'ab']
    s = V.snapshot(a, b)
    p, q = m.MMI.image_mmi(a, b, k), m.MMI.image_mmi(b, a, k)
    V.ensure_eq('symmetric', p, q, tol=1e-9)
    V.unchanged('frame', s)
