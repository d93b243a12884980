"""C12: ENVI cubes survive a write and read round trip."""
import os
from engine.capi import contract
from contracts.common import used_before
EU = 'resippy.utils.envi_utils'
EI = 'resippy.image_objects.envi.envi_image'
EF = 'resippy.image_objects.envi.envi_image_factory'
CODES = {1: 'uint8', 2: 'int16', 3: 'int32', 4: 'float32', 5: 'float64', 6: 'complex64', 9: 'complex128', 12: 'uint16',
         13: 'uint32', 14: 'int64', 15: 'uint64'}
REAL = [d for d in CODES.values() if 'complex' not in d]


def index(interleave, nx, ny, nb):
    return {'bil': lambda l, s, b: (l * nb + b) * nx + s,
            'bip': lambda l, s, b: (l * nx + s) * nb + b,
            'bsq': lambda l, s, b: (b * ny + l) * nx + s}[interleave]


def header_store(V, m):
    """stand-in for the text header: what was written is what is read (the text itself is checked separately)"""
    store = {}

    def write(d, fname):
        store[fname] = dict(d)

    def read(fname):
        return store[fname]
    V.stub(m, 'write_envi_header', write)
    V.stub(m, 'read_envi_header', read)
    return store


for _i in ('bil', 'bip', 'bsq'):
    @contract('a raw %s stream becomes the cube with every element in its place' % _i, [EU + ':construct_image_cube_from_raw_data'])
    def construct(V, inter=_i):
        m = V.mod(EU)
        ny, nx, nb = V.dim('ny'), V.dim('nx'), V.dim('nb')
        raw = V.array('raw', (ny * nx * nb,), V.choice('type', ['float64', 'uint16']))
        s = V.snapshot(raw)
        cube = m.construct_image_cube_from_raw_data(raw, nx, ny, nb, inter)
        at = index(inter, nx, ny, nb)
        V.ensure_array('cube element', cube, (ny, nx, nb), lambda l, x, b: V.get(raw, at(l, x, b)))
        V.ensure('type', cube.dtype == raw.dtype)
        V.fresh_memory('own memory', cube, raw)
        V.unchanged('frame', s)

    for _dt in REAL:
        @contract('a %s cube written as %s reads back unchanged, with the header that describes it' % (_dt, _i),
                  [EU + ':' + f for f in ('write_envi_image', 'read_envi_image', 'read_all_image_data_to_numpy_array',
                                          'construct_image_cube_from_raw_data', 'envi_dtype_to_numpy_dtype', 'numpy_dtype_to_envi_dtype')],
                  samples=20)
        def trip(V, inter=_i, dtype=_dt):
            m = V.mod(EU)
            store = header_store(V, m)
            ny, nx, nb = V.dim('ny'), V.dim('nx'), V.dim('nb')
            cube = V.array('cube', (ny, nx, nb), dtype)
            s = V.snapshot(cube)
            f = V.tmpdir() + '/image.img'
            own = V.choice('header', [None, 'named'])
            h = V.tmpdir() + '/other.txt' if own else f + '.hdr'
            kw = {'output_header_fname': h} if own else {}
            if inter != 'bil' or V.choice('interleave given', [True, False]):
                kw['interleave'] = inter
            m.write_envi_image(cube, f, **kw)
            V.ensure('one header', list(store) == [h])
            d = store[h]
            for k, v in (('samples', nx), ('lines', ny), ('bands', nb)):
                V.ensure_eq('header ' + k, d[k], v)
            V.ensure('header interleave', d['interleave'] == inter)
            V.ensure('header type', CODES[d['data type']] == dtype)
            raw = m.read_all_image_data_to_numpy_array(f, d['data type'])
            at = index(inter, nx, ny, nb)
            V.ensure_shape('file length', raw, (ny * nx * nb,))
            V.forall('file element', (ny, nx, nb), lambda l, x, b: V.eq(V.get(raw, at(l, x, b)), V.get(cube, l, x, b)))
            back = m.read_envi_image(f, h)
            V.ensure_array('cube', back, (ny, nx, nb), lambda l, x, b: V.get(cube, l, x, b))
            V.ensure('type', back.dtype == cube.dtype)
            V.unchanged('frame', s)


@contract('the ENVI type codes denote the standard types, in both directions', [EU + ':envi_dtype_to_numpy_dtype', EU + ':numpy_dtype_to_envi_dtype'])
def codes(V):
    m = V.mod(EU)
    np = V.np
    code = V.choice('code', sorted(CODES))
    t = m.envi_dtype_to_numpy_dtype(code)
    V.ensure('type of the code', t is not None and np.dtype(t) == np.dtype(CODES[code]))
    V.ensure('code of the type', m.numpy_dtype_to_envi_dtype(np.dtype(CODES[code])) == code)
    V.ensure('code given as text', m.envi_dtype_to_numpy_dtype(str(code)) is t)


@contract('an ENVI image object reads every band of its data set into its own place', [EI + ':EnviImage.read_all_image_data_from_disk',
                                                                                      EI + ':EnviImage.read_band_from_disk'])
def image(V):
    m = V.mod(EI)
    ny, nx, nb = V.dim('ny'), V.dim('nx'), V.dim('nb')
    data = V.array('data', (ny, nx, nb))

    class Band:
        def __init__(self, k):
            self.k = k

        def ReadAsArray(self):
            return data[:, :, self.k - 1]

    class Dset:
        def GetRasterBand(self, k):
            return Band(k)
    im = m.EnviImage()
    im.set_dset(Dset())
    md = V.mod('resippy.image_objects.envi.envi_metadata').EnviMetadata()
    md.set_n_bands(nb)
    md.set_npix_x(nx)
    md.set_npix_y(ny)
    im.set_metadata(md)
    if used_before(V):
        im.read_all_image_data_from_disk()
        im.read_band_from_disk(nb - 1)
        data = V.array('later data', (ny, nx, nb))      # the file was written again
    V.ensure_array('cube', im.read_all_image_data_from_disk(), (ny, nx, nb), lambda l, x, b: V.get(data, l, x, b))
    k = V.int('band', 0, sample=(0, 5))
    V.assume(k < nb)
    V.ensure_array('band', im.read_band_from_disk(k), (ny, nx), lambda l, x: V.get(data, l, x, k))


@contract('the written header text is parsed back, and GDAL reads the same cube',
          [EU + ':write_envi_header', EU + ':read_envi_header', EU + ':write_envi_image', EU + ':read_envi_image', EI + ':EnviImage.init_from_file'],
          bounded=True, samples=60, note='text parsing and GDAL are run on real files, not proved')
def text(V):
    import numpy as np
    m = V.mod(EU)
    ny, nx, nb = V.int('ny', 1, sample=(1, 9)), V.int('nx', 1, sample=(1, 9)), V.int('nb', 1, sample=(1, 5))
    dtype = V.choice('type', sorted(CODES.values()))
    inter = V.choice('interleave', ['bil', 'bip', 'bsq'])
    data = V.array('data', (ny, nx, nb), 'int16', sample=(0, 200))
    cube = np.asarray(data).astype(dtype)
    if 'complex' in dtype:
        cube = (cube * np.asarray(1 - 2j)).astype(dtype)
    kind = V.choice('name', ['image.img', 'image', 'image.dat'])
    d = os.path.join(V.tmpdir(), '%d' % len(os.listdir(V.tmpdir())))
    os.mkdir(d)
    f = os.path.join(d, kind)
    how = V.choice('header', ['default', 'named', 'replaced extension'])
    if how == 'replaced extension' and '.' not in kind:
        how = 'default'
    h = {'default': None, 'named': os.path.join(d, 'h.txt'), 'replaced extension': f[:-4] + '.hdr'}[how]
    if used_before(V):
        m.write_envi_image(np.asarray(data).astype('uint8')[::-1, :, :1], f, h, V.choice('earlier interleave', ['bil', 'bip', 'bsq']))
        m.read_envi_image(f, h if how == 'named' else None)
    m.write_envi_image(cube, f, h, inter)
    back = m.read_envi_image(f, h if how == 'named' else None)
    V.ensure('type', back.dtype == cube.dtype)
    V.ensure('shape', back.shape == cube.shape)
    V.ensure('values', bool(np.array_equal(back, cube)))
    hd = m.read_envi_header(h or f + '.hdr')
    V.ensure('header', (hd['lines'], hd['samples'], hd['bands'], hd['interleave']) == (ny, nx, nb, inter))
    V.ensure('header type', CODES[hd['data type']] == dtype)
    if how != 'named':
        im = V.mod(EF).EnviImageFactory.from_file(f)
        md = im.get_metadata()
        V.ensure('metadata', (md.get_npix_y(), md.get_npix_x(), md.get_n_bands()) == (ny, nx, nb))
        if dtype not in ('int64', 'uint64'):
            g = im.read_all_image_data_from_disk()
            V.ensure('gdal type', g.dtype == cube.dtype)
            V.ensure('gdal values', bool(np.array_equal(g, cube)))
