"""C21: spectra."""
from engine.capi import contract
from contracts.common import used_before
SP = 'resippy.spectral.spectrum'
G = [SP + ':Spectrum.' + f for f in ('get_spectral_data', 'set_spectral_data', 'get_nodata_val', 'set_nodata_val')]


def make(V, n, dtype='float64'):
    s = V.mod(SP).Spectrum()
    data = V.array('data', (n,), dtype, sample=(0, 6) if dtype != 'float64' else (-3, 3), special=(0.0, 1.0, -999.0) if dtype == 'float64' else ())
    s.set_spectral_data(data)
    return s, data


@contract('spectral data handed out is a copy, nodata is NaN only when asked for', G)
def access(V):
    n = V.dim('n')
    dtype = V.choice('dtype', ['float64', 'int16', 'uint8'])
    s, data = make(V, n, dtype)
    nd = V.choice('nodata', [None, 'value'])
    if nd is not None:
        nd = V.real('nodata value') if dtype == 'float64' and V.symbolic else V.int('whole nodata', 0, 200, sample=(0, 6)) if dtype != 'float64' else V.choice('special', [0.0, 1.0, -999.0])
    if used_before(V):
        # other samples, another nodata value, handed out before
        s.set_spectral_data(V.array('earlier', (2,)))
        s.set_nodata_val(1)
        s.get_spectral_data()
        s.set_spectral_data(data)
        if nd is not None or V.choice('asked for', [True, False]):
            s.get_spectral_data()
    s.set_nodata_val(nd)
    e = V.np.array(data)
    hit = (lambda k: False) if nd is None else lambda k: V.eq(V.get(e, k), nd)
    r = s.get_spectral_data()
    V.ensure_array('nodata is NaN', r, (n,), lambda k: V.ite(hit(k), V.nan, V.get(e, k)), nan=True)
    r[:] = 7
    q = s.get_spectral_data(nodata_to_nan=False)
    V.ensure_array('as stored', q, (n,), lambda k: V.get(e, k))
    q[:] = 9
    V.ensure_array('again', s.get_spectral_data(nodata_to_nan=True), (n,), lambda k: V.ite(hit(k), V.nan, V.get(e, k)), nan=True)
    V.ensure_array('stored spectrum', data, (n,), lambda k: V.get(e, k))


@contract('what is given to a spectrum is returned', [SP + ':Spectrum.' + f for f in (
    'get_wavelengths', 'set_wavelengths', 'get_fwhm', 'set_fwhm', 'get_spectrum_units', 'set_spectrum_units', 'get_wavelength_units', 'set_wavelength_units',
    'get_fname', 'set_fname', 'get_nodata_val', 'set_nodata_val')])
def metadata(V):
    s = V.mod(SP).Spectrum()
    n = V.dim('n')
    w, f = V.array('w', (n,)), V.array('f', (n,))
    nd = V.real('nd')
    s.set_wavelengths(w)
    s.set_fwhm(f)
    s.set_nodata_val(nd)
    s.set_spectrum_units('reflectance')
    s.set_wavelength_units('microns')
    s.set_fname('a.txt')
    snap = V.snapshot(w, f)
    V.ensure_array('wavelengths', s.get_wavelengths(), (n,), lambda k: V.get(w, k))
    V.ensure_array('fwhm', s.get_fwhm(), (n,), lambda k: V.get(f, k))
    V.ensure_eq('nodata', s.get_nodata_val(), nd)
    V.ensure('text', s.get_spectrum_units() == 'reflectance' and s.get_wavelength_units() == 'microns' and s.get_fname() == 'a.txt')
    u = V.real('unit')
    s.set_wavelength_units(u)
    V.ensure_array('wavelengths with units', s.get_wavelengths(with_units=True), (n,), lambda k: V.get(w, k) * u, tol=1e-9)
    V.ensure_array('fwhm with units', s.get_fwhm(with_units=True), (n,), lambda k: V.get(f, k) * u, tol=1e-9)
    s.set_spectrum_units(u)
    s.set_spectral_data(f)
    V.ensure_array('data with units', s.get_spectral_data(nodata_to_nan=False, with_units=True), (n,), lambda k: V.get(f, k) * u, tol=1e-9)
    V.unchanged('frame', snap)


def resampled(V, flat):
    m = V.mod(SP)
    n, nb, k = V.dim('n', 2, sample=(2, 12)), V.dim('bands', sample=(1, 4)), V.int('k', 2, sample=(2, 6))
    s = m.Spectrum()
    w = V.array('w', (n,), lo=0, sample=(0, 10), increasing=True)
    c = V.real('c')
    data = V.array('data', (n,), elem=(lambda i: c) if flat else None)
    s.set_wavelengths(w)
    s.set_spectral_data(data)
    s.set_spectrum_units('reflectance')
    start, step = V.map('start', 1, 0, 9), V.map('step', 2, 0.01, 3)
    resp = V.map('response', 2, 0.01 if V.symbolic else 0, 1)
    at = lambda b, i: start(b) + V.sum(0, i, lambda q: step(b, q))
    waves = [] if not V.symbolic else None

    def band(b):
        x = m.Spectrum()
        x.set_wavelengths(grid(b))
        x.set_spectral_data(V.array('r', (k,), elem=lambda i: resp(b, i)))
        return x

    def grid(b):
        if V.symbolic:
            g = V.map('rw', 2)
            return V.array('g', (k,), elem=lambda i: g(b, i))
        return V.np.array([at(b, i) for i in range(k)])
    centers = V.array('centres', (nb,))
    snap = V.snapshot(w, data, centers)
    weight = lambda b: V.np.interp(w, grid(b), V.array('rr', (k,), elem=lambda i: resp(b, i)), left=0, right=0)

    def area(f):
        return V.sum(0, n - 1, lambda i: (V.get(w, i + 1) - V.get(w, i)) * (f(i) + f(i + 1)) / 2)
    if not V.symbolic:
        V.assume(all(area(lambda i: weight(b)[i]) > 1e-3 for b in range(nb)))
    if used_before(V, False):
        e = m.Spectrum()
        e.set_wavelengths(w)
        e.set_spectral_data(V.np.ones(n))
        s.resample_spectrum_direct([e] * nb, V.np.zeros(nb))
    r = s.resample_spectrum_direct(V.seq(nb, band), centers)

    def value(b):
        g = weight(b)
        a = area(lambda i: V.get(g, i))
        return a, area(lambda i: V.get(g, i) * V.get(data, i))
    V.ensure_shape('bands', r.get_spectral_data(), (nb,))
    got = r.get_spectral_data()
    V.forall('response weighted average', (nb,), lambda b: (lambda v: V.eq(V.get(got, b), c if flat else v[1] / v[0], tol=1e-6))(value(b)),
             where=lambda b: V.not_(V.eq(value(b)[0], 0)))
    V.ensure_array('band centres', r.get_wavelengths(), (nb,), lambda b: V.get(centers, b))
    V.ensure('units', r.get_spectrum_units() == 'reflectance')
    V.unchanged('frame', snap)


@contract('resampling gives the response weighted average per band', [SP + ':Spectrum.resample_spectrum_direct'])
def average(V):
    resampled(V, False)


@contract('a flat spectrum stays flat', [SP + ':Spectrum.resample_spectrum_direct'])
def flat(V):
    resampled(V, True)
