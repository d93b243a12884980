"""C14: spectral statistics and detectors."""
from engine.capi import contract
S1 = 'resippy.spectral.spectral_image_processing_1d'
S2 = 'resippy.spectral.spectral_image_processing_2d'
SU = 'resippy.utils.spectral_utils'
IU = 'resippy.utils.image_utils.image_utils'
FL = [SU + ':flatten_image_cube', SU + ':get_2d_cube_nx_ny_nbands', IU + ':flatten_image_band', IU + ':unflatten_image_band']
TOL = 1e-6


def samples(V, lo=1):
    """(samples, bands) image"""
    n, nb = V.dim('n', lo, sample=(max(lo, 6), 12)), V.int('nb', 1, sample=(1, 4))
    return n, nb, V.array('im', (n, nb), V.choice('dtype', ['float64', 'int16']))


def cube(V, lo=1):
    ny, nx, nb = V.dim('ny', 1, sample=(2, 4)), V.dim('nx', 1, sample=(3, 5)), V.int('nb', 1, sample=(1, 3))
    V.assume(ny * nx >= lo)
    return ny, nx, nb, V.array('im', (ny, nx, nb))


def mask(V, shape):
    """None, or a boolean / integer mask (non-zero: left out)"""
    k = V.choice('mask', [None, 'bool', 'int16', 'levels'])
    if k is None:
        return None
    if k == 'levels':
        return V.array('mask', shape, 'int16', 0, 1) * V.int('level', 1, 256, sample=(1, 256))
    return V.array('mask', shape, k) if k == 'bool' else V.array('mask', shape, k, 0, 1)


def weight(V, m, k):
    return 1 if m is None else V.ite(V.eq(V.get(m, k), 0), 1, 0)


def count(V, m, n):
    return V.sum(0, n, lambda k: weight(V, m, k))


def mean(V, im, m, n, i):
    return V.sum(0, n, lambda k: weight(V, m, k) * V.get(im, k, i)) / count(V, m, n)


def covariance(V, im, m, n, i, j):
    a, b = mean(V, im, m, n, i), mean(V, im, m, n, j)
    return V.sum(0, n, lambda k: weight(V, m, k) * (V.get(im, k, i) - a) * (V.get(im, k, j) - b)) / (count(V, m, n) - 1)


@contract('spectral mean and de-meaned image over exactly the unmasked samples', [S1 + ':compute_image_cube_spectral_mean', S1 + ':demean_image_data'])
def means(V):
    s = V.mod(S1)
    n, nb, im = samples(V)
    m = mask(V, (n,))
    V.assume(count(V, m, n) >= 1)
    snap = V.snapshot(im, *([m] if m is not None else []))
    r = s.compute_image_cube_spectral_mean(im, m) if m is not None else s.compute_image_cube_spectral_mean(im)
    V.ensure_array('mean', r, (nb,), lambda i: mean(V, im, m, n, i), tol=TOL)
    d = s.demean_image_data(im, m)
    V.ensure_array('demeaned', d, (n, nb), lambda k, i: V.get(im, k, i) - mean(V, im, m, n, i), tol=TOL)
    V.unchanged('frame', snap)


@contract('spectral covariance over exactly the unmasked samples', [S1 + ':compute_image_cube_spectral_covariance'])
def cov(V):
    s = V.mod(S1)
    n, nb, im = samples(V, 2)
    m = mask(V, (n,))
    V.assume(count(V, m, n) >= 2)
    snap = V.snapshot(im, *([m] if m is not None else []))
    r = s.compute_image_cube_spectral_covariance(im, m)
    V.ensure_array('covariance', r, (nb, nb), lambda i, j: covariance(V, im, m, n, i, j), tol=TOL)
    V.unchanged('frame', snap)


def form(V, C, nb, x, y):
    """x' C y"""
    return V.sum(0, nb, lambda i: x(i) * V.sum(0, nb, lambda j: V.get(C, i, j) * y(j)))


def symmetric(V, nb):
    b = V.array('half', (nb, nb))
    return b + V.np.transpose(b) + (0 if V.symbolic else nb * 40 * V.np.eye(nb))


@contract('RX scores are squared Mahalanobis distances', [S1 + ':rx_anomaly_detector', S1 + ':compute_image_cube_spectral_mean', S1 + ':compute_image_cube_spectral_covariance'])
def rx(V):
    s = V.mod(S1)
    n, nb, im = samples(V, 2)
    how = V.choice('given', ['both', 'mean', 'inverse', 'none'])
    mu = V.array('mean', (nb,))
    C = V.array('inverse', (nb, nb))
    kw = {}
    if how in ('both', 'mean'):
        kw['spectral_mean'] = mu
    else:
        mu = s.compute_image_cube_spectral_mean(im)
    if how in ('both', 'inverse'):
        kw['inverse_covariance'] = C
    else:
        cv = s.compute_image_cube_spectral_covariance(im)
        if not V.symbolic:
            V.assume(V.np.linalg.cond(V.np.atleast_2d(cv)) < 1e6)
        C = V.np.linalg.inv(cv)
    snap = V.snapshot(im, mu, C)
    r = s.rx_anomaly_detector(im, **kw)
    V.ensure_array('score', r, (n,), lambda k: form(V, C, nb, lambda i: V.get(im, k, i) - V.get(mu, i), lambda i: V.get(im, k, i) - V.get(mu, i)), tol=TOL)
    V.unchanged('frame', snap)


@contract('ACE scores are squared whitened cosines to the target', [S1 + ':ace', S1 + ':ace_demeaned'])
def ace(V):
    s = V.mod(S1)
    n, nb, im = samples(V, 2)
    t = V.array('target', (nb,))
    how = V.choice('given', ['demeaned', 'both', 'mean', 'inverse', 'none'])
    mu = V.array('mean', (nb,))
    C = symmetric(V, nb)
    m = mask(V, (n,)) if how in ('mean', 'inverse', 'none') else None
    if m is not None:
        V.assume(count(V, m, n) >= 2)
    kw = {}
    if how in ('both', 'mean'):
        kw['spectral_mean'] = mu
    elif how != 'demeaned':
        mu = s.compute_image_cube_spectral_mean(im, m)
    if how in ('both', 'inverse'):
        kw['inverse_covariance'] = C
    elif how != 'demeaned':
        cv = s.compute_image_cube_spectral_covariance(im, m)
        if not V.symbolic:
            V.assume(V.np.linalg.cond(V.np.atleast_2d(cv)) < 1e6)
        C = V.np.linalg.inv(cv)
    if how == 'demeaned':
        d, a = lambda k: (lambda i: V.get(im, k, i)), lambda i: V.get(t, i)
    else:
        d, a = lambda k: (lambda i: V.get(im, k, i) - V.get(mu, i)), lambda i: V.get(t, i) - V.get(mu, i)
    tt = form(V, C, nb, a, a)
    V.assume(nonzero(V, tt))
    snap = V.snapshot(im, t, mu, C)
    if how == 'demeaned':
        r = s.ace_demeaned(im, t, C)
    else:
        r = s.ace(im, t, image_mask=m, **kw)
    V.ensure_array('score', r, (n,), lambda k: form(V, C, nb, a, d(k)) * form(V, C, nb, a, d(k)) / (tt * form(V, C, nb, d(k), d(k))), tol=TOL,
                   where=lambda k: nonzero(V, form(V, C, nb, d(k), d(k))))
    V.unchanged('frame', snap)


def nonzero(V, x):
    return V.not_(V.eq(x, 0)) if V.symbolic else abs(x) > 1e-6


def psd(V, C, nb, x, y):
    """instance of 'C is positive semi-definite' at the vector (x'Cx) y - (x'Cy) x"""
    a, b = form(V, C, nb, x, x), form(V, C, nb, x, y)
    v = lambda i: a * y(i) - b * x(i)
    V.assume(form(V, C, nb, v, v) >= (0 if V.symbolic else -1e-6))
    V.assume(a > (0 if V.symbolic else 1e-3))


@contract('ACE scores lie between 0 and 1 and do not depend on the scale of target or pixel deviation', [S1 + ':ace_demeaned'])
def ace_range(V):
    s = V.mod(S1)
    n, nb, im = samples(V, 1)
    t = V.array('target', (nb,))
    C = symmetric(V, nb)
    k = V.int('k', 0, sample=(0, 5))
    V.assume(k < n)
    a, d = lambda i: V.get(t, i), lambda i: V.get(im, k, i)
    psd(V, C, nb, a, d)
    dd = form(V, C, nb, d, d)
    V.assume(dd > (0 if V.symbolic else 1e-3))
    r = V.get(s.ace_demeaned(im, t, C), k)
    e = 0 if V.symbolic else 1e-9
    V.ensure('at least 0', r >= -e)
    V.ensure('at most 1', r <= 1 + e)
    c = V.real('factor', special=(-2.0, .5))
    V.assume(nonzero(V, c))
    V.ensure_eq('scaled target', V.get(s.ace_demeaned(im, t * c, C), k), r, tol=TOL)
    V.ensure_eq('scaled pixel', V.get(s.ace_demeaned(im * c, t, C), k), r, tol=TOL)


@contract('SAM scores are the cosines of the angle to the target', [S1 + ':sam'])
def sam(V):
    s = V.mod(S1)
    n, nb = V.dim('n', 1, sample=(4, 8)), V.int('nb', 1, sample=(1, 4))
    im = V.array('im', (n, nb), V.choice('dtype', ['float64', 'int16', 'uint8']), special=(250, 255, 30000, -20000))
    t = V.array('target', (nb,), V.choice('target dtype', ['float64', 'int16']), special=(200, 31000, -250))
    snap = V.snapshot(im, t)
    r = s.sam(im, t)
    dot = lambda x, y: V.sum(0, nb, lambda i: x(i) * y(i))
    a = lambda i: V.get(t, i)
    px = lambda k: (lambda i: V.get(im, k, i))
    V.assume(dot(a, a) > (0 if V.symbolic else 1e-6))
    V.ensure_array('score', r, (n,), lambda k: dot(a, px(k)) / (V.sqrt(dot(a, a)) * V.sqrt(dot(px(k), px(k)))), tol=TOL,
                   where=lambda k: dot(px(k), px(k)) > (0 if V.symbolic else 1e-6))
    V.unchanged('frame', snap)


def equalization(V, im, im2, m1, m2, flat, flat2, n, n2, nb):
    """the linear map root(cov of the scene to match) . inverse root(cov of the scene); symbolically the matrix powers are
    those of an arbitrary routine (its arguments are checked), concretely they come from the eigenvectors"""
    np = V.np
    if V.symbolic:
        R, Q = V.array('root', (nb, nb)), V.array('inverse root', (nb, nb))
        calls = []

        def power(M, p):
            calls.append((M, p))
            return R if p > 0 else Q
        V.stub(V.lib('scipy').linalg, 'fractional_matrix_power', power)
        return calls, R, Q
    out = []
    for k, (f, m, p) in enumerate(((flat2, m2, .5), (flat, m1, -.5))):
        x = np.asarray(f, float)
        x = x if m is None else x[np.reshape(m, -1) == 0]
        V.assume(x.shape[0] > nb + 1)
        c = np.atleast_2d(np.cov(x.T))
        V.assume(np.linalg.cond(c) < 1e9 and np.linalg.norm(c) > 1e-3)
        w, v = np.linalg.eigh(c)
        out.append(v @ np.diag(w ** p) @ v.T)
    return None, out[0], out[1]


def equalize(V, two, whole):
    s = V.mod(S2 if two else S1)
    nb = V.int('nb', 1, sample=(1, 3))
    if two:
        ny, nx, my, mx = [V.dim(v, 1, sample=(3, 5)) for v in ('ny', 'nx', 'my', 'mx')]
        sh1, sh2, n, n2 = (ny, nx), (my, mx), ny * nx, my * mx
    else:
        n, n2 = V.dim('n', 1, sample=(9, 14)), V.dim('n2', 1, sample=(9, 14))
        sh1, sh2 = (n,), (n2,)
    im, im2 = V.array('im', sh1 + (nb,)), V.array('im2', sh2 + (nb,))
    if not V.symbolic:
        # bands of different scales
        im, im2 = [x * V.np.resize([1.0, V.choice(k, [1.0, 1.0, 1e-3, 2000.0]), 1.0], nb) for x, k in ((im, 'scale'), (im2, 'other scale'))]
    how = V.choice('masks', ['none', 'first', 'second', 'both'])
    m1 = V.array('m1', sh1, 'bool') if how in ('first', 'both') else None
    m2 = V.array('m2', sh2, 'bool') if how in ('second', 'both') else None
    row = lambda x, *t: x if x is None or not two else V.np.reshape(x, t)
    f, f2, fm1, fm2 = row(im, n, nb), row(im2, n2, nb), row(m1, n), row(m2, n2)
    V.assume(count(V, fm1, n) >= 2)
    V.assume(count(V, fm2, n2) >= 2)
    calls, R, Q = equalization(V, im, im2, fm1, fm2, f, f2, n, n2, nb)
    snap = V.snapshot(im, im2, *[m for m in (m1, m2) if m is not None])
    kw = {}
    if m1 is not None:
        kw['input_scene_mask'] = m1
    if m2 is not None:
        kw['scene_to_match_mask'] = m2
    entry = lambda i, j: V.sum(0, nb, lambda q: V.get(R, i, q) * V.get(Q, q, j))
    if whole:
        r = s.covariance_equalization_mean_centered(im, im2, **kw)
        val = lambda x: lambda i: V.sum(0, nb, lambda j: entry(i, j) * x(j))
        if two:
            V.ensure_array('equalized', r, (ny, nx, nb), lambda y, x, i: val(lambda j: V.get(im, y, x, j))(i), tol=1e-4)
        else:
            V.ensure_array('equalized', r, (n, nb), lambda k, i: val(lambda j: V.get(im, k, j))(i), tol=1e-4)
    else:
        r = s.compute_cov_eq_linear_transform_matrix(im, im2, **kw)
        V.ensure_array('map', r, (nb, nb), entry, tol=1e-4)
    V.unchanged('frame', snap)
    if calls is not None:
        V.ensure('one power of each covariance', len(calls) == 2 and sorted(p for _, p in calls) == [-.5, .5])
        for M, p in calls:
            src = (f, fm1, n) if p < 0 else (f2, fm2, n2)
            V.ensure_array('power %s of' % p, M, (nb, nb), lambda i, j, t=src: covariance(V, t[0], t[1], t[2], i, j))


for _two in (False, True):
    for _w in (False, True):
        contract('covariance equalization: %s, %d-d images' % ('equalized image' if _w else 'linear map', 1 + _two),
                 [(S2 if _two else S1) + ':compute_cov_eq_linear_transform_matrix'] + ([(S2 if _two else S1) + ':covariance_equalization_mean_centered'] if _w else []) + (FL if _two else []) + ([SU + ':unflatten_image_cube'] if _two and _w else []))(
            lambda V, a=_two, b=_w: equalize(V, a, b))


PAIRS = {'mean': ('compute_image_cube_spectral_mean', True), 'covariance': ('compute_image_cube_spectral_covariance', True),
         'demean': ('demean_image_data', True), 'rx': ('rx_anomaly_detector', False), 'ace': ('ace', True), 'ace_demeaned': ('ace_demeaned', False), 'sam': ('sam', False)}


def two_d(V, name):
    f, masks = PAIRS[name]
    ny, nx, nb, im = cube(V, 2)
    flat = V.np.reshape(im, (ny * nx, nb))
    m = mask(V, (ny, nx)) if masks else None
    fm = None if m is None else V.np.reshape(m, (ny * nx,))
    if m is not None:
        V.assume(count(V, fm, ny * nx) >= 2)
    args, kw = [], {}
    if name in ('ace', 'ace_demeaned', 'sam'):
        args.append(V.array('target', (nb,)))
    if name in ('rx', 'ace'):
        how = V.choice('given', ['both', 'none'])
        if how == 'both':
            kw = {'spectral_mean': V.array('mean', (nb,)), 'inverse_covariance': V.array('inverse', (nb, nb))}
        elif not V.symbolic:
            V.assume(V.np.linalg.cond(V.np.atleast_2d(V.mod(S1).compute_image_cube_spectral_covariance(flat, fm))) < 1e6)
    elif name == 'ace_demeaned':
        args.append(V.array('inverse', (nb, nb)))
    snap = V.snapshot(im, *([m] if m is not None else []))
    k1, k2 = dict(kw), dict(kw)
    if m is not None:
        k1['image_mask'], k2['image_mask'] = fm, m
    one = getattr(V.mod(S1), f)(flat, *args, **k1)
    two = getattr(V.mod(S2), f)(im, *args, **k2)
    eq = dict(tol=TOL, nan=True)
    if name == 'mean':
        V.ensure_array('two-d equals one-d', two, (nb,), lambda i: V.get(one, i), **eq)
    elif name == 'covariance':
        V.ensure_array('two-d equals one-d', two, (nb, nb), lambda i, j: V.get(one, i, j), **eq)
    elif name == 'demean':
        V.ensure_array('two-d equals one-d', two, (ny, nx, nb), lambda y, x, i: V.get(one, y * nx + x, i), **eq)
    else:
        V.ensure_array('two-d equals one-d', two, (ny, nx), lambda y, x: V.get(one, y * nx + x), **eq)
    V.unchanged('frame', snap)


for _n in PAIRS:
    contract('the 2-d image version of %s equals the 1-d version on the row-major pixels' % PAIRS[_n][0], [S2 + ':' + PAIRS[_n][0], S1 + ':' + PAIRS[_n][0]] + FL)(
        lambda V, n=_n: two_d(V, n))


@contract('flattening and unflattening image cubes and bands are row-major and inverse to each other', FL + [SU + ':unflatten_image_cube'])
def flatten(V):
    su, iu = V.mod(SU), V.mod(IU)
    ny, nx, nb = V.dim('ny', 1, sample=(1, 4)), V.dim('nx', 1, sample=(1, 5)), V.int('nb', 1, sample=(1, 3))
    im, bd = V.array('im', (ny, nx, nb)), V.array('band', (ny, nx))
    f, g = su.flatten_image_cube(im), iu.flatten_image_band(bd)
    V.ensure_shape('flat cube', f, (ny * nx, nb))
    V.forall('flat cube', (ny, nx, nb), lambda y, x, i: V.eq(V.get(f, y * nx + x, i), V.get(im, y, x, i)))
    V.ensure_shape('flat band', g, (ny * nx,))
    V.forall('flat band', (ny, nx), lambda y, x: V.eq(V.get(g, y * nx + x), V.get(bd, y, x)))
    V.ensure_array('cube again', su.unflatten_image_cube(f, nx, ny), (ny, nx, nb), lambda y, x, i: V.get(im, y, x, i))
    V.ensure_array('band again', iu.unflatten_image_band(g, nx, ny), (ny, nx), lambda y, x: V.get(bd, y, x))
    a, b, c = su.get_2d_cube_nx_ny_nbands(im)
    V.ensure_eq('nx', a, nx)
    V.ensure_eq('ny', b, ny)
    V.ensure_eq('nbands', c, nb)


@contract('principal components: the scores of the flattened pixels, each at its own pixel, the image itself unchanged', [S2 + ':compute_image_cube_pca'])
def pca(V):
    ny, nx, nb = V.dim('ny', 1, sample=(2, 5)), V.dim('nx', 1, sample=(2, 5)), V.int('nb', 1, sample=(1, 4))
    im = V.array('im', (ny, nx, nb), V.choice('dtype', ['float64', 'uint8']))
    snap = V.snapshot(im)
    kw = {}
    if V.choice('number', ['all', 'some']) == 'some':
        kw['n_components'] = V.int('components', 1, sample=(1, 3))
        V.assume(kw['n_components'] <= nb)
        V.assume(kw['n_components'] <= ny * nx)
    if V.choice('whiten', [False, True]):
        kw['whiten'] = True
    flat = V.np.array(im).reshape((ny * nx, nb)) * 1
    if not V.symbolic:
        # components without variance, or two of equal variance, are determined by rounding only
        q = [float(t) for t in V.np.linalg.svd(flat - flat.mean(axis=0), compute_uv=False)]
        V.assume(q[-1] > 1e-6 * q[0] and all(a - b > 1e-6 * a for a, b in zip(q, q[1:])))
    scores = V.lib('sklearn.decomposition').PCA(**kw).fit_transform(flat)
    out = V.mod(S2).compute_image_cube_pca(im, **kw)
    nc = kw.get('n_components', V.min(ny * nx, nb))
    V.ensure_array('scores', out, (ny, nx, nc), lambda y, x, c: V.get(scores, y * nx + x, c), tol=1e-6)
    V.unchanged('frame', snap)
