"""C18: navigation interpolation."""
from engine.capi import contract
N = 'resippy.photogrammetry.nav.'
SB, EO, AN = N + 'applanix_sbet_nav', N + 'applanix_eo_nav', N + 'abstract_nav'
SBET = ('GpsTime', 'Y', 'X', 'Z', 'XVelocity', 'YVelocity', 'ZVelocity', 'Roll', 'Pitch', 'Azimuth', 'WanderAngle')
EOC = ('gps_time', 'easting', 'northing', 'height', 'omega', 'phi', 'kappa', 'lat', 'lon')
WHAT = [('xs', 'X', 'easting'), ('ys', 'Y', 'northing'), ('alts', 'Z', 'height'), ('rolls', 'Roll', 'omega'), ('pitches', 'Pitch', 'phi'), ('headings', 'Azimuth', 'kappa')]
GET = {'xs': 'get_world_xs', 'ys': 'get_world_ys'}


def table(V, sbet, lo=2):
    """a navigation object holding arbitrary records with increasing times"""
    n = V.dim('n', lo, sample=(lo, 6))
    t = V.array('time', (n,), lo=-1e6, hi=1e6, sample=(0, 9), increasing=True)
    names = SBET if sbet else EOC
    cols = {names[0]: t}
    for k in names[1:]:
        cols[k] = V.array(k, (n,), lo=-1e7, hi=1e7, sample=(-9, 9))
    m = V.mod(SB if sbet else EO)
    f = V.mod(N + 'nav_factory').NavFactory
    how = dict(proj='utm', zone='18', ellps='WGS84', datum='WGS84')
    if sbet:
        class Data(object):
            class dtype(object):
                names = SBET

            def __getitem__(self, k):
                return cols[k]

        class Pipeline(object):
            arrays = [Data()]

            def __init__(self, json):
                V.ensure('file asked for', 'the file' in json and 'readers.sbet' in json)

            def validate(self):
                return True

            def execute(self):
                return n
        V.stub(m.pdal, 'Pipeline', Pipeline)
        nav = f.from_applanix_sbet_file('the file', **how)
    elif V.symbolic:
        nav = m.ApplanixEONav()
        nav._nav_data = cols
        nav._num_records = n
    else:
        import os
        p = os.path.join(V.tmpdir(), 'eo.txt')
        with open(p, 'w') as g:
            g.write('# event time easting northing height omega phi kappa lat lon\nheader\n\n')
            for i in range(n):
                g.write(' '.join(['%d' % i] + ['%.17g' % cols[k][i] for k in EOC]) + '\n')
        nav = f.from_applanix_eo_file(p, **how)
        V.ensure('projection', '32618' in str(nav.get_projection().crs.to_epsg()) or 'zone=18' in nav.get_projection().srs)
    V.ensure_eq('records', nav.get_num_records(), n)
    return nav, n, t, cols


def query(V, shape):
    if shape == 'number':
        q = V.real('q', lo=-1e6, hi=1e6, sample=(-1, 10))
        return q, (), lambda: q
    if shape == '1-d':
        d = (V.dim('m', 1, sample=(1, 4)),)
    else:
        d = (V.dim('my', 1, sample=(1, 3)), V.dim('mx', 1, sample=(1, 3)))
    q = V.array('q', d, lo=-1e6, hi=1e6, sample=(-.2, 9.2))
    return q, d, lambda *i: V.get(q, *i)


def interpolated(V, sbet, shape):
    nav, n, t, cols = table(V, sbet)
    what = V.choice('quantity', WHAT)
    col = cols[what[1 if sbet else 2]]
    q, d, at = query(V, shape)
    if not V.symbolic and V.choice('inside', [True, True, False]):
        q = t[0] + (V.np.asarray(q) + .2) / 9.4 * (t[-1] - t[0])
        q = V.np.clip(q, t[0], t[-1])
        if V.choice('at a record', [True, False]):
            q = V.np.where(V.np.asarray(q) < 4, t[V.choice('which', list(range(n)))], q)
        q = float(q) if shape == 'number' else q
        at = lambda *i: V.np.asarray(q)[i]
    past = V.choice('history', ['none', 'another quantity', 'other times'] if not V.symbolic or shape == 'number' else ['none', 'other times'] if shape == '1-d' else ['none'])
    if past == 'another quantity':
        other = WHAT[(WHAT.index(what) + 1) % len(WHAT)][0]
        getattr(nav, GET.get(other, 'get_' + other))(q)
    elif past == 'other times':
        u = V.real('earlier', lo=0, hi=1, sample=(0, 1))
        q0 = V.ite(u < .5, V.get(t, 0), V.get(t, n - 1)) if V.symbolic else float(t[0] + u * (t[-1] - t[0]))
        if d:
            q0 = V.array('earlier times', d, elem=lambda *i, v=q0: v)
        getattr(nav, GET.get(what[0], 'get_' + what[0]))(q0)
    snap = V.snapshot(*([t, col] + ([q] if d else [])))
    r = getattr(nav, GET.get(what[0], 'get_' + what[0]))(q)
    inside = lambda *i: V.and_(V.get(t, 0) <= at(*i), at(*i) <= V.get(t, n - 1))
    if r is None:
        # no data: only when some time is outside of the records
        qs = V.np.asarray(q).reshape(-1) if d else q
        V.ensure('data', V.not_(V.and_(V.np.all(V.get(t, 0) <= qs), V.np.all(qs <= V.get(t, n - 1)))))
        return
    V.forall('only recorded times', d, inside)
    k = V.int('k', 0, sample=(0, n if V.symbolic else max(0, n - 2)))
    V.assume(k < n - 1)
    x0, x1, y0, y1 = V.get(t, k), V.get(t, k + 1), V.get(col, k), V.get(col, k + 1)
    slope = (y1 - y0) / (x1 - x0)

    def line(*i):
        if V.symbolic:
            V.cut('neighbours', V.eq(V.np.searchsorted(t, at(*i)), k + 1))
        return y0 + slope * (at(*i) - x0)

    def near(y, j, *i):
        if V.symbolic:
            V.cut('record', V.eq(V.np.searchsorted(t, at(*i)), j))
        return y
    V.ensure_array('interpolated', r, d, line, where=lambda *i: V.and_(x0 < at(*i), at(*i) < x1), tol=1e-5)
    V.ensure_array('exact at the records', r, d, lambda *i: near(y0, k, *i), where=lambda *i: V.eq(at(*i), x0), tol=1e-6)
    V.ensure_array('exact at the last record', r, d, lambda *i: near(y1, k + 1, *i), where=lambda *i: V.eq(at(*i), x1), tol=1e-6)
    V.unchanged('frame', snap)


for _s in (True, False):
    for _q in ('number', '1-d', '2-d'):
        contract('%s records, %s of times' % ('SBET' if _s else 'EO', {'number': 'a number'}.get(_q, 'a %s array' % _q)),
                 [(SB + ':ApplanixSBETNav.' if _s else EO + ':ApplanixEONav.') + k for k in ('_get_world_xs_native', '_get_world_ys_native', '_get_alts_native', '_get_rolls_native', '_get_pitches_native',
                                                                                            '_get_headings_native', '_linear_interp', '_get_indexes', '_get_xs', '_gps_times_in_range')] +
                 [AN + ':AbstractNav.' + k for k in ('_format_input_array', '_format_output_array')])(lambda V, s=_s, q=_q: interpolated(V, s, q))


@contract('whole records are interpolated column by column', [k + '._get_nav_records_native' for k in (SB + ':ApplanixSBETNav', EO + ':ApplanixEONav')] + [EO + ':ApplanixEONav.load_from_file'], bounded=True, samples=120,
          note='the records are dictionaries made in a comprehension over the query times: checked on sampled tables, queries of every shape and real EO files')
def records(V):
    sbet = V.choice('sbet', [True, False])
    nav, n, t, cols = table(V, sbet)
    q, d, at = query(V, V.choice('shape', ['number', '1-d', '2-d']))
    q = t[0] + (V.np.asarray(q) - V.choice('low', [0, 0, 0, 1])) / 10 * (t[-1] - t[0])
    at = lambda *i: V.np.asarray(q)[i]
    r = nav.get_nav_records(q if d else float(q))
    inside = all(t[0] <= x <= t[-1] for x in V.np.ravel(q))
    V.ensure('no data outside of the records', (r is None) == (not inside))
    if r is None:
        return
    snake = {'GpsTime': 'gps_time', 'XVelocity': 'x_velocity', 'YVelocity': 'y_velocity', 'ZVelocity': 'z_velocity', 'WanderAngle': 'wander_angle'}
    for i in V.np.ndindex(*d):
        rec = r[i] if d else r
        V.ensure('quantities', set(rec) == {snake.get(k, k.lower()) for k in cols})
        for k in cols:
            V.ensure_eq(k, rec[snake.get(k, k.lower())], float(V.np.interp(at(*i), t, cols[k])), tol=1e-5)
