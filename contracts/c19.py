"""C19: time and angle conversions."""
import datetime
from engine.capi import contract
T = 'resippy.utils.time_utils'
MI = 'resippy.image_objects.earth_overhead.micasense.micasense_image'
EPOCH = 315964800                       # 1980-01-06 00:00 UTC
# published leap seconds (end of 30 June / 31 December): start of the new offset, UTC; TAI - UTC is 19 at the GPS epoch
LEAPS = [(1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7),
         (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
STARTS = [(datetime.date(y, m, 1) - datetime.date(1970, 1, 1)).days * 86400 for y, m in LEAPS]
FUNCS = [T + ':' + f for f in ('_get_leapseconds', '_get_gps_leapsecond_offset', 'utc_timestamp_to_gps_timestamp', 'gps_timestamp_to_utc_timestamp')]


def offset(V, t, starts):
    r = 0
    for k, s in enumerate(starts):
        r = V.ite(t >= s, k + 1, r)
    return r


def same(V, label, got, want):
    """equal; in floating point: within the spacing of the numbers around ten billion seconds"""
    if V.symbolic:
        V.ensure_eq(label, got, want)
    else:
        V.ensure(label + ' (got %r, expected %r)' % (got, want), abs(got - want) <= 2e-6 if abs(want) > 3e9 else abs(got - want) <= 6e-7)


class zone(object):
    """the module as it is when imported in some local time zone"""

    def __init__(self, V):
        self.V = V

    def __enter__(self):
        if self.V.symbolic:
            return self.V.mod(T)
        import importlib
        import os
        import time
        self.old = os.environ.get('TZ')
        z = self.V.choice('time zone', ['UTC0', 'EST5EDT', 'JST-9', 'IST-5:30'])
        m = self.V.mod(T)
        os.environ['TZ'] = z
        time.tzset()
        return importlib.reload(m)

    def __exit__(self, *a):
        if not self.V.symbolic:
            import importlib
            import os
            import time
            if self.old is None:
                os.environ.pop('TZ', None)
            else:
                os.environ['TZ'] = self.old
            time.tzset()
            importlib.reload(self.V.mod(T))


def instant(V, gps=False):
    """any time since the GPS epoch, in GPS or in UTC seconds"""
    lo = 0 if gps else EPOCH
    t = V.real('t', lo=lo, hi=1e10, sample=(lo, lo + 1.6e9))
    if not V.symbolic:
        how = V.choice('how', ['any', 'whole', 'near a leap second', 'near a leap second'])
        k = V.choice('leap', list(range(len(STARTS))))
        d = V.real('away', sample=(-25, 25))
        if how == 'whole':
            t = float(round(t))
        elif how != 'any':
            t = STARTS[k] - EPOCH + lo + (k if gps else 0) + (round(d) if V.choice('whole', [True, False]) else round(d * 16) / 16)
    return t


@contract('UTC to GPS applies the leap seconds in force, in any time zone', FUNCS[:3])
def forward(V):
    with zone(V) as m:
        t = instant(V)
        same(V, 'gps', m.utc_timestamp_to_gps_timestamp(t), t - EPOCH + offset(V, t, STARTS))


@contract('UTC to GPS and back returns the same time', FUNCS)
def there(V):
    with zone(V) as m:
        t = instant(V)
        same(V, 'utc', m.gps_timestamp_to_utc_timestamp(m.utc_timestamp_to_gps_timestamp(t)), t)


@contract('GPS to UTC takes the leap seconds in force off, outside of a leap second', FUNCS)
def back(V):
    with zone(V) as m:
        g = instant(V, gps=True)
        starts = [s - EPOCH + k + 1 for k, s in enumerate(STARTS)]
        for s in starts:
            V.assume(V.or_(g < s - 1, g >= s))
        r = m.gps_timestamp_to_utc_timestamp(g)
        same(V, 'utc', r, g + EPOCH - offset(V, g, starts))
        same(V, 'gps', m.utc_timestamp_to_gps_timestamp(r), g)


@contract('GPS week and seconds of the week', FUNCS[:3] + [T + ':utc_timestamp_to_gps_week_and_seconds'])
def weeks(V):
    with zone(V) as m:
        t = instant(V)
        if not V.symbolic and V.choice('at', ['any', 'a week boundary']) != 'any':
            t = EPOCH + 604800 * V.int('week', 0, sample=(0, 2500)) + V.int('by', sample=(-20, 20))
            V.assume(t >= EPOCH)
        w, s = m.utc_timestamp_to_gps_week_and_seconds(t)
        g = t - EPOCH + offset(V, t, STARTS)
        V.ensure('whole weeks', V.eq(w, V.floor(w)))
        V.ensure('seconds of the week', V.and_(s >= 0, s < 604800))
        V.ensure('recombined', V.eq(w * 604800 + s, g) if V.symbolic else abs(w * 604800 + s - g) < 1e-5)


@contract('degrees, minutes and seconds are added up as rational numbers, south and west negative', [MI + ':MicasenseImage._dms_tag_to_dd'])
def dms(V):
    class Ratio(object):
        def __init__(self, name):
            self.num, self.den = V.int(name + ' num', 0, 10 ** 9, sample=(0, 5000)), V.int(name + ' den', 1, 10 ** 9, sample=(1, 120))

    class Tag(object):
        def __init__(self, values):
            self.values = values
    parts = [Ratio(n) for n in ('d', 'm', 's')]
    ref = V.choice('hemisphere', ['N', 'S', 'E', 'W'])
    r = V.mod(MI).MicasenseImage._dms_tag_to_dd(Tag(parts), Tag(ref))
    d, m, s = [p.num / p.den for p in parts]
    V.ensure_eq('decimal degrees', r, (-1 if ref in 'SW' else 1) * (d + m / 60 + s / 3600), tol=1e-9)


@contract('the time and centre of a Micasense band are those of its tags', [MI + ':MicasenseImage.get_gps_timestamp_and_center'], bounded=True, samples=150,
          note='the tags are text: checked on sampled tags')
def tags(V):
    import os
    m = V.mod(MI)
    y, mo, d = V.int('year', 1980, sample=(1981, 2040)), V.int('month', 1, 12), V.int('day', 1, 28)
    h, mi, s = V.int('hour', 0, 23), V.int('minute', 0, 59), V.int('second', 0, 59)
    digits = V.choice('digits', [1, 2, 3, 6])
    sub = V.int('subsec', 0, 10 ** digits - 1, sample=(0, V.choice('small', [10, 10 ** 6])))

    class Ratio(object):
        def __init__(self, name, hi):
            self.num, self.den = V.int(name + ' num', 0, sample=(0, hi)), V.int(name + ' den', 1, sample=(1, 50))

    class Tag(object):
        def __init__(self, values):
            self.values = values

        def __str__(self):
            return str(self.values)
    lon, lat = [Ratio('lon ' + n, 90) for n in 'dms'], [Ratio('lat ' + n, 90) for n in 'dms']
    exif = {'EXIF DateTimeOriginal': Tag('%04d:%02d:%02d %02d:%02d:%02d' % (y, mo, d, h, mi, s)), 'EXIF SubSecTime': Tag('%0*d' % (digits, sub)),
            'GPS GPSLongitude': Tag(lon), 'GPS GPSLongitudeRef': Tag(V.choice('ew', ['E', 'W'])), 'GPS GPSLatitude': Tag(lat), 'GPS GPSLatitudeRef': Tag(V.choice('ns', ['N', 'S']))}
    f = os.path.join(V.tmpdir(), 'band')
    open(f, 'wb').close()

    def process_file(g, details=True, **k):
        V.ensure('file of the band', g.name == f)
        return exif
    V.stub(m.exifread, 'process_file', process_file)
    im = m.MicasenseImage()
    band = V.choice('band', [0, 1])
    im.band_fnames = ['none', 'none']
    im.band_fnames[band] = f
    r = im.get_gps_timestamp_and_center(band)
    t = (datetime.datetime(y, mo, d, h, mi, s) - datetime.datetime(1970, 1, 1)).total_seconds()
    g = t - EPOCH + sum(t >= x for x in STARTS)
    same(V, 'seconds of the week', r['gps_timestamp'], g % 604800 + sub / 10 ** digits)
    val = lambda p: p[0].num / p[0].den + p[1].num / p[1].den / 60 + p[2].num / p[2].den / 3600
    V.ensure_eq('longitude', r['center']['lon'], val(lon) * (-1 if exif['GPS GPSLongitudeRef'].values == 'W' else 1), tol=1e-9)
    V.ensure_eq('latitude', r['center']['lat'], val(lat) * (-1 if exif['GPS GPSLatitudeRef'].values == 'S' else 1), tol=1e-9)
