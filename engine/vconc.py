"""Contract language, concrete mode: the same contracts run on the real code with real libraries."""
import contextlib
import importlib
import io
import math
import os
import random
import sys
import types
import warnings
import zlib
import itertools

import numpy as np


class Reject(BaseException):
    pass


class Fail(Exception):
    def __init__(self, label, msg):
        Exception.__init__(self, '%s: %s' % (label, msg))
        self.label, self.msg = label, msg


REPO = os.environ.get('VERIF_REPO', '/repo')
OPAQUE = ['pdal', 'utm', 'exifread', 'colorutils', 'gdal2tiles', 'keras']


class _Stub(types.ModuleType):
    def __init__(self, n):
        types.ModuleType.__init__(self, n)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Stub(self.__name__ + '.' + n)

    def __call__(self, *a, **k):
        raise RuntimeError('%s is not installed' % self.__name__)


def install():
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for n in OPAQUE:
        if n not in sys.modules:
            try:
                importlib.import_module(n)
            except Exception:
                sys.modules[n] = _Stub(n)


def scalar(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    if hasattr(x, 'magnitude') and not isinstance(x, np.generic):
        return x.to_base_units().magnitude
    return x


def tojson(x):
    if isinstance(x, np.ndarray):
        return {'shape': list(x.shape), 'data': [tojson(v) for v in x.ravel()]}
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    return repr(x)


def indexes(shape, most=20000, marks=()):
    """every index of the shape; of a large shape the marked ones, both ends and a sample"""
    sh = tuple(int(d) for d in shape)
    n = math.prod(sh)
    if n <= most:
        for i in np.ndindex(*sh):
            yield tuple(int(x) for x in i)
        return
    for i in marks:
        if len(i) <= len(sh) and all(x < d for x, d in zip(i, sh)):
            yield tuple(i) + (0,) * (len(sh) - len(i))
    r = random.Random(n)
    q = most // 30
    ks = list(range(q)) + list(range(n - q, n)) + [r.randrange(n) for _ in range(most // 3)]
    for k in ks:
        yield tuple(int(x) for x in np.unravel_index(k, sh))


class VC:
    symbolic = False

    def __init__(self, seed, it=0, given=None, numbers=((), ())):
        self.rng = random.Random('%s/%s' % (seed, it))
        self.hint = random.Random('hint %s/%s' % (seed, it))
        self.numbers = numbers
        self.use_numbers = any(numbers) and self.hint.random() < .3
        self.big = False
        self.marks = []
        self.large = None
        self.ndims = 0
        self.it = it
        self.given = given or {}
        self.inputs = {}
        self.pi = math.pi
        self.undo = []
        self.checks = 0
        self.nan = float('nan')
        self._tmp = None

    @property
    def np(self):
        return np

    def mod(self, name):
        return importlib.import_module(name)

    def lib(self, name):
        return importlib.import_module(name)

    def tmpdir(self):
        if self._tmp is None:
            import tempfile
            self._tmp = tempfile.mkdtemp(prefix='verif-')
        return self._tmp

    def number(self, lo, hi, whole=False):
        """sometimes: a number of the source code (or the next one) in this range"""
        if not self.use_numbers or self.hint.random() > .3:
            return None
        ns = self.numbers[0] if self.numbers[0] and (self.hint.random() < .6 or not self.numbers[1]) else self.numbers[1]
        if whole:
            ns = [int(v) for v in ns if v == int(v)]
        ns = [v for v in ns if lo <= v <= hi]
        if not ns:
            return None
        v = self.hint.choice(ns)
        d = self.hint.choice((-1, 0, 0, 1)) if whole else self.hint.choice((0, 0, 1e-3, -1e-3)) * (abs(v) or 1)
        return v + d if lo <= v + d <= hi else v

    # ---- inputs
    def _rec(self, name, v):
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, sample=None):
        if name in self.given and isinstance(self.given[name], int):
            v = self.given[name]
        else:
            a, b = sample if sample else (None, None)
            if a is None:
                a = lo if lo is not None else (hi - 8 if hi is not None else -5)
            if b is None:
                b = hi if hi is not None else a + 8
            if lo is not None:
                a = max(a, lo)
            if hi is not None:
                b = min(b, hi)
            if b < a:
                raise Reject()
            v = self.rng.randint(int(a), int(b))
            q = self.number(a, b, True)
            v = v if q is None else q
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return self._rec(name, int(v))

    def dim(self, name, lo=1, hi=None, sample=None):
        if sample is None:
            top = lo + (3 if self.rng.random() < .6 else 8)
            sample = (lo, top if hi is None else min(top, hi))
        self.ndims += 1
        if self.large and name not in self.given and hi is None:
            q = self.large.get(self.ndims)
            if q is not None:
                self.big = True
                sample = (q, q)
        elif not self.big and name not in self.given:
            q = self.number(9, 1200 if hi is None else min(1200, hi), True)
            if q is None and (hi is None or hi > 1200):
                q = self.number(1201, 12000, True)      # as many elements along one axis, or along two
                q = q if q is None or self.hint.random() < .4 else q // 3 + 1 if self.hint.random() < .5 else math.isqrt(q) + 1
            if q is None and self.hint.random() < .02:
                q = self.hint.randint(9, 40)
            if q is not None and (hi is None or q <= hi):
                self.big = True
                sample = (q, q)
        if name in self.given and isinstance(self.given[name], int) and self.given[name] > 400000:
            raise Reject()
        return self.int(name, lo, hi, sample)

    def _r(self, lo, hi, sample, special):
        r = self.rng
        a, b = sample if sample else (-10.0, 10.0)
        if lo is not None:
            a = max(a, lo)
            if b < a:
                b = a + 10
        if hi is not None:
            b = min(b, hi)
            if a > b:
                a = b - 10 if lo is None else lo
        if special and r.random() < .25:
            return float(r.choice(list(special)))
        q = self.number(a, b)
        if q is not None:
            return float(q)
        q = r.random()
        if q < .12:
            v = float(round(r.uniform(a, b)))
            if a <= v <= b:
                return v
        if q < .16 and a <= 0 <= b:
            return 0.0
        if q < .2:
            return float(r.choice([a, b]))
        return r.uniform(a, b)

    def real(self, name, lo=None, hi=None, sample=None, special=(), npy=False):
        g = self.given.get(name)
        if isinstance(g, (int, float)) and not isinstance(g, bool):
            v = float(g)
        else:
            v = self._r(lo, hi, sample, special)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        if not math.isfinite(v):
            raise Reject()
        return self._rec(name, np.float64(v) if npy else float(v))

    def reals(self, name, n, **k):
        return [self.real('%s%d' % (name, i), **k) for i in range(n)]

    def bool(self, name):
        g = self.given.get(name)
        return self._rec(name, bool(g) if isinstance(g, bool) else self.rng.random() < .5)

    def enlarge(self):
        """one of the first dimensions, or two of them, are large"""
        r = self.hint
        n = r.choice((1500, 5000, 20000)) + r.randrange(500)
        k = r.choice((1, 1, 2, 3))
        self.large = {k: n} if r.random() < .5 else {k: math.isqrt(n), k + 1: math.isqrt(n)}

    def odd(self, sh, n):
        k = self.hint.randrange(n)
        self.marks.append(tuple(int(x) for x in np.unravel_index(k, sh)))
        return k

    def array(self, name, shape, dtype='float64', lo=None, hi=None, sample=None, special=(), nan=False, elem=None, increasing=False):
        sh = tuple(int(d) for d in shape)
        d = np.dtype(dtype)
        if elem is not None:
            if math.prod(sh) > 300000:
                raise Reject()
            a = np.empty(sh, dtype=d)
            for i in np.ndindex(*sh):
                a[i] = elem(*i)
            return a
        g = self.given.get(name)
        n = 1
        for k in sh:
            n *= k
        if n > 3000000:
            raise Reject()
        data = None
        if isinstance(g, dict) and list(g.get('shape', ())) == list(sh) and all(v is not None for v in g['data']):
            data = g['data']
        if data is None:
            if d.kind == 'f':
                mode = self.rng.random()
                if mode < .1:
                    c = self._r(lo, hi, sample, special)
                    data = [c] * n
                elif n > 5000:
                    data = np.resize([self._r(lo, hi, sample, special) for _ in range(4999)], n)
                else:
                    data = [self._r(lo, hi, sample, special) for _ in range(n)]
                    if mode < .2 and n > 1:
                        data[self.rng.randrange(n)] = data[self.rng.randrange(n)]
                if n > 1 and self.hint.random() < (.5 if self.large else .12):
                    # one element unlike all the others
                    data = [data[0]] * n
                    data[self.odd(sh, n)] = self._r(lo, hi, sample, special)
                if nan and self.rng.random() < .5:
                    for k in range(n):
                        if self.rng.random() < .2:
                            data[k] = float('nan')
            elif d.kind == 'b':
                p = self.rng.choice([.2, .5, .8, 0, 1])
                data = [self.rng.random() < p for _ in range(n)]
            else:
                a = lo if lo is not None else (sample[0] if sample else (0 if d.kind == 'u' else -100))
                b = hi if hi is not None else (sample[1] if sample else (min(255, np.iinfo(d).max) if d.kind == 'u' else 100))
                ii = np.iinfo(d)
                ext = [v for v in (ii.min, ii.max) if a <= v <= b]
                data = [self.rng.randint(int(a), int(b)) for _ in range(min(n, 4999))]
                if n > 4999:
                    data = np.resize(data, n)
                if n > 1 and self.hint.random() < .08:
                    data = [data[0]] * n
                    data[self.odd(sh, n)] = self.rng.randint(int(a), int(b))
                if lo is None and hi is None and sample is None and n and self.rng.random() < .3 and d.itemsize <= 2:
                    data[self.rng.randrange(n)] = ii.max
        if increasing:
            data = sorted(data)
            if any(not y - x > 1e-6 * (1 + abs(x)) for x, y in zip(data, data[1:])):
                raise Reject()
        a = np.array(data, dtype=d).reshape(sh)
        if len(sh) > 1 and self.rng.random() < .25:
            a = np.asfortranarray(a)        # same array, column-major memory
        elif sh and n and self.hint.random() < .12:
            k = self.hint.choice((2, -1))       # same array, every other element (or from the end) of a larger one
            b = np.repeat(a, 2, axis=-1)[..., ::2] if k == 2 else np.ascontiguousarray(a[..., ::-1])[..., ::-1]
            a = b
        if d.kind != 'b' and n:
            with np.errstate(all='ignore'):
                if lo is not None and np.any(a < lo) or hi is not None and np.any(a > hi):
                    raise Reject()
        return self._rec(name, a)

    def map(self, name, arity, lo=None, hi=None):
        r = random.Random('%s/%s' % (name, self.rng.random()))
        A = [r.uniform(-2, 2) for _ in range(arity)]
        B = [r.uniform(-1, 1) for _ in range(arity)]
        C = [r.uniform(-.5, .5) for _ in range(arity)]
        c0 = r.uniform(-3, 3)

        def f(*xs):
            if len(xs) != arity:
                raise TypeError('%s takes %d arguments' % (name, arity))
            v = c0
            for x, a, b, c in zip(xs, A, B, C):
                v = v + a * np.asarray(x, dtype=float) + b * np.sin(c * np.asarray(x, dtype=float) + a)
            if lo is not None or hi is not None:
                a, b = (-10.0 if lo is None else float(lo)), (10.0 if hi is None else float(hi))
                v = np.clip(a + (b - a) * (.5 + .5 * np.sin(v / 3)), a, b)
            return v if np.ndim(v) else float(v)
        return f

    def max_over(self, shape, f, where=None):
        return max(f(*[int(x) for x in i]) for i in np.ndindex(*[int(d) for d in shape]) if where is None or where(*[int(x) for x in i]))

    def min_over(self, shape, f, where=None):
        return min(f(*[int(x) for x in i]) for i in np.ndindex(*[int(d) for d in shape]) if where is None or where(*[int(x) for x in i]))

    def some(self, shape, f):
        return any(f(*[int(x) for x in i]) for i in np.ndindex(*[int(d) for d in shape]))

    def witness(self, *idx):
        pass

    def first(self, lo, hi, pred):
        for j in range(int(lo), int(hi)):
            if pred(j):
                return j
        return int(hi)

    def choice(self, name, options):
        g = self.given.get(name)
        i = g if isinstance(g, int) and 0 <= g < len(options) else self.rng.randrange(len(options))
        self.inputs[name] = i
        return options[i]

    def seq(self, n, at):
        return [at(k) for k in range(int(n))]

    def proj(self, name):
        import pyproj
        k = {'A': dict(init='epsg:4326'), 'B': dict(proj='utm', zone=18, ellps='WGS84', datum='WGS84', preserve_units=True),
             'C': dict(init='epsg:3857')}[name]
        return pyproj.Proj(**k)

    def transform(self, p1, p2, x, y, z=None):
        import pyproj
        return pyproj.transform(p1, p2, x, y) if z is None else pyproj.transform(p1, p2, x, y, z)

    def polygon(self, pts):
        from shapely.geometry import Polygon
        return Polygon(pts)

    def box(self, a, b, c, d):
        from shapely.geometry import box
        return box(a, b, c, d)

    # ---- specification
    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = bool(np.all(c))
        if not c:
            raise Reject()

    def ensure(self, label, c):
        self.checks += 1
        if isinstance(c, np.ndarray):
            c = bool(np.all(c))
        if not c:
            raise Fail(label, 'is false')

    def sum2_le(self, *a):
        pass

    def sum2_ge_term(self, *a):
        pass

    def decide(self, c):
        return bool(c)

    def len(self, l):
        return len(l)

    def item(self, l, k):
        return l[int(k)]

    def exists_pair(self, label, n, f, i, j):
        self.ensure(label, any(bool(f(q)) for q in range(int(n))))

    def cut(self, label, c):
        pass

    def _eq(self, a, b, tol, nan=False):
        a, b = scalar(a), scalar(b)
        if a is b:
            return True
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return a == b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self._eq(x, y, tol, nan) for x, y in zip(a, b))
        if isinstance(a, np.ndarray) and a.size == 1:
            a = a.ravel()[0]
        if isinstance(b, np.ndarray) and b.size == 1:
            b = b.ravel()[0]
        try:
            a, b = (int(a) if isinstance(a, (bool, np.bool_)) else a), (int(b) if isinstance(b, (bool, np.bool_)) else b)
            fa, fb = float(a), float(b)
        except Exception:
            return a == b
        if nan and math.isnan(fa) and math.isnan(fb):
            return True
        if not math.isfinite(fb) and not nan:
            raise Reject()
        if fa == fb:
            return True
        t = 1e-7 if tol is None else tol
        return abs(fa - fb) <= t * (1 + max(abs(fa), abs(fb)))

    def equal(self, a, b, tol=None):
        return self._eq(a, b, tol)
    eq = equal

    def ensure_eq(self, label, a, b, tol=None, nan=False):
        self.checks += 1
        if not self._eq(a, b, tol, nan):
            raise Fail(label, 'got %r, expected %r' % (scalar(a), scalar(b)))

    def ensure_shape(self, label, a, shape):
        self.checks += 1
        sh = tuple(int(d) for d in shape)
        if tuple(np.shape(a)) != sh:
            raise Fail(label, 'shape %r, expected %r' % (np.shape(a), sh))
        return True

    def ensure_array(self, label, a, shape, f, tol=None, where=None, nan=False, lo=None):
        if hasattr(a, 'magnitude') and not isinstance(a, np.generic):
            a = a.to_base_units().magnitude
        self.ensure_shape(label + '.shape', a, shape)
        if isinstance(a, np.ma.MaskedArray):
            a = a.filled(np.nan) if a.dtype.kind == 'f' else a.data
        a = np.asarray(a)
        for i in indexes(a.shape, 300 if self.big else 20000, self.marks):
            if where is not None and not where(*i):
                continue
            e = f(*i)
            if not self._eq(a[i], e, tol, nan):
                raise Fail(label, 'element %r is %r, expected %r' % (i, a[i], scalar(e)))
        self.checks += 1

    def forall(self, label, shape, f, where=None):
        for i in indexes(shape, 300 if self.big else 20000, self.marks):
            if where is not None and not where(*i):
                continue
            if not np.all(f(*i)):
                raise Fail(label, 'fails at %r' % (i,))
        self.checks += 1

    def snapshot(self, *arrs):
        return [(a, np.array(a, copy=True)) for a in arrs]

    def unchanged(self, label, snap):
        self.checks += 1
        for k, (a, b) in enumerate(snap):
            x = np.asarray(a)
            same = x.shape == b.shape and x.dtype == b.dtype and (np.array_equal(x, b, equal_nan=True) if x.dtype.kind in 'fc' else np.array_equal(x, b))
            if not same:
                raise Fail('%s[%d]' % (label, k), 'the array was modified')

    def fresh_memory(self, label, a, b):
        self.checks += 1
        if np.shares_memory(a, b):
            raise Fail(label, 'memory is shared')

    def isa(self, label, x, cls):
        self.checks += 1
        if not isinstance(x, cls):
            raise Fail(label, 'type %s' % type(x))

    def raises(self, label, exc, thunk):
        self.checks += 1
        try:
            thunk()
        except exc:
            return
        except Exception as e:
            raise Fail(label, 'raised %s' % type(e).__name__)
        raise Fail(label, 'no exception')

    def get(self, a, *idx):
        r = np.asarray(a)[tuple(idx)]
        # specifications are about numbers, not fixed-width integers
        return np.int64(r) if isinstance(r, np.integer) and not isinstance(r, np.uint64) else r

    def stub(self, target, attr, fn):
        old = target.__dict__.get(attr, self) if hasattr(target, '__dict__') else self
        self.undo.append((target, attr, old))
        setattr(target, attr, fn)

    def cleanup(self):
        for target, attr, old in reversed(self.undo):
            if old is self:
                delattr(target, attr)
            else:
                setattr(target, attr, old)
        self.undo = []
        if self._tmp:
            import shutil
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # ---- functions
    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def tan(self, x): return math.tan(x)
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float('nan')
    def atan(self, x): return math.atan(x)
    def acos(self, x): return math.acos(max(-1.0, min(1.0, x)))
    def asin(self, x): return math.asin(max(-1.0, min(1.0, x)))
    def log(self, x): return math.log(x) if x > 0 else float('nan')
    def atan2(self, y, x): return math.atan2(y, x)
    def floor(self, x): return math.floor(x)
    def ceil(self, x): return math.ceil(x)
    def trunc(self, x): return math.trunc(x)
    def round(self, x): return round(float(x))
    def abs(self, x): return abs(x)
    def max(self, *xs): return max(xs)
    def min(self, *xs): return min(xs)
    def clamp(self, x, lo, hi): return min(max(x, lo), hi)
    def ite(self, c, a, b): return a if c else b
    def and_(self, *xs): return all(bool(np.all(x)) for x in xs)
    def or_(self, *xs): return any(bool(np.all(x)) for x in xs)
    def not_(self, x): return not bool(x)
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def same(self, a, b, tol=None):
        return bool(np.isnan(a) and np.isnan(b) or self.eq(a, b, tol))

    def isnan(self, x): return bool(np.isnan(x))

    def sum(self, lo, hi, f):
        r = 0.0
        for i in range(int(lo), int(hi)):
            r = r + f(i)
        return r

    def sum2(self, n, m, f):
        return self.sum(0, n, lambda i: self.sum(0, m, lambda j: f(i, j)))

    def index(self, f):
        return f
