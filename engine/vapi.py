"""Contract language, symbolic mode: inputs are arbitrary, code is executed on terms, ensures become obligations."""
import sys
from fractions import Fraction
from .sym import *
from .term import *
from .arr import *
from . import arr as A
from . import loops
from .ctx import ctx, Unsupported, Infeasible
from . import loader, npshim, shims


def smt_pairs(name, sh, increasing):
    from . import smt
    smt.ASSUMED_PAIR.pop(name, None)
    if increasing:
        def pair(s, t):
            i, j = s.args[0], t.args[0]
            ok = and_(*[and_(le(const(0), k), lt(k, sh[0])) for k in (i, j)])
            return [implies(and_(ok, lt(i, j)), lt(s, t)), implies(and_(ok, lt(j, i)), lt(t, s))]
        smt.ASSUMED_PAIR[name] = pair


class Reject(BaseException):
    pass


class CheckFail(Exception):
    pass


def tm(x):
    """term of a python/symbolic scalar (number or truth value)"""
    if isinstance(x, T):
        return x, FALSE
    b = as_boolt(x)
    if b is not None:
        return b, FALSE
    return vt(x)


def bterm(x):
    if isinstance(x, T):
        return x
    b = as_boolt(x)
    if b is not None:
        return b
    if is_arr(x):
        x = x.all() if x.ndim else x._as_scalar()
        return bterm(x)
    v = val(x)
    if v is not None:
        return v[0] if v[0].sort == 'B' else not_(eq(v[0], const(0)))
    if x is None:
        return FALSE
    return TRUE if x else FALSE


class VS:
    symbolic = True

    def __init__(self):
        self.inputs = []
        self.pi = SymNum(PI, FALSE, True)
        self.undo = []

    # -------------------------------------------------- inputs
    def mod(self, name):
        return loader.load(name)

    @property
    def np(self):
        loader.install()
        return shims.MODS['numpy']

    def lib(self, name):
        loader.install()
        return shims.MODS[name]

    def int(self, name, lo=None, hi=None, sample=None):
        v = var(name, 'I')
        if lo is not None or hi is not None:
            if lo is not None:
                ctx().assume(le(tm(lo)[0], v))
            if hi is not None:
                ctx().assume(le(v, tm(hi)[0]))
        self.inputs.append((name, 'int', v, None))
        return SymNum(v, FALSE, True)

    def dim(self, name, lo=1, hi=None, sample=None):
        return self.int(name, lo, hi)

    def real(self, name, lo=None, hi=None, sample=None, special=(), npy=False):
        v = var(name, 'R')
        if lo is not None:
            ctx().assume(le(tm(lo)[0], v))
        if hi is not None:
            ctx().assume(le(v, tm(hi)[0]))
        self.inputs.append((name, 'real', v, None))
        return SymNum(v, FALSE, not npy)

    def reals(self, name, n, **k):
        return [self.real('%s%d' % (name, i), **k) for i in range(n)]

    def bool(self, name):
        v = var(name, 'B')
        self.inputs.append((name, 'bool', v, None))
        return SymBool(v)

    def array(self, name, shape, dtype='float64', lo=None, hi=None, sample=None, special=(), nan=False, elem=None, increasing=False):
        sh = tuple(tdim(d) for d in shape)
        d = dt(dtype)
        srt = {'f': 'R', 'c': 'R', 'b': 'B'}.get(d.kind, 'I')
        self.inputs.append((name, 'array', sh, srt))
        l = None if lo is None else tm(lo)[0]
        h = None if hi is None else tm(hi)[0]
        if d.kind in 'iu' and d.bits <= 16:
            from .term import max_, min_
            dl, dh = (-(1 << d.bits - 1), (1 << d.bits - 1) - 1) if d.signed else (0, (1 << d.bits) - 1)
            l = const(dl) if l is None else l
            h = const(dh) if h is None else h
        if l is not None or h is not None:
            from . import smt

            def ax(t, l=l, h=h):
                r = []
                if l is not None:
                    r.append(le(l, t))
                if h is not None:
                    r.append(le(t, h))
                return r
            smt.ASSUMED_UF[name] = ax
        else:
            from . import smt
            smt.ASSUMED_UF.pop(name, None)
        smt_pairs(name, sh, increasing)
        undef = (lambda i: uf(name + '?nan', i, 'B')) if nan else (lambda i: FALSE)
        if elem is not None:
            def f(i):
                r = elem(*[wrapv((x, FALSE), True) for x in i])
                return tm(r)
            return new(f, sh, d)
        return new(lambda i: (uf(name, tuple(i), srt), undef(i)), sh, d, name)

    def map(self, name, arity, lo=None, hi=None):
        """an arbitrary elementwise function of `arity` real arguments (with values in [lo, hi])"""
        from . import smt
        smt.ASSUMED_UF.pop('map:' + name, None)
        if lo is not None or hi is not None:
            l, h = (None if lo is None else tm(lo)[0]), (None if hi is None else tm(hi)[0])
            smt.ASSUMED_UF['map:' + name] = lambda t: ([] if l is None else [le(l, t)]) + ([] if h is None else [le(t, h)])

        def f(*xs):
            if len(xs) != arity:
                raise TypeError('%s takes %d arguments' % (name, arity))
            return elementwise(lambda *vs: (uf('map:' + name, tuple(num(v[0]) for v in vs), 'R'), or_(*[v[1] for v in vs])), 'float', *xs)
        return f

    def max_over(self, shape, f, where=None, kind='rmax'):
        """greatest value of f over all indices of a non-empty shape"""
        c = ctx()
        c.nofork += 1
        try:
            if where is not None:
                def g(i):
                    i = [wrapv((x, FALSE), True) for x in i]
                    t, u = tm(f(*i))
                    return t, or_(u, not_(bterm(where(*i))))
                return wrapv(A.ext_over(g, [tdim(d) for d in shape], kind, True, dt('float64')), True)
            return wrapv(A.ext_over(lambda i: tm(f(*[wrapv((x, FALSE), True) for x in i])), [tdim(d) for d in shape], kind, False, dt('float64')), True)
        finally:
            c.nofork -= 1

    def min_over(self, shape, f, where=None):
        return self.max_over(shape, f, where, 'rmin')

    def first(self, lo, hi, pred):
        """least j in [lo, hi) with pred(j), hi when there is none"""
        l = it(lo)
        c = ctx()
        c.nofork += 1
        try:
            return wrapv((add(l, A.first_true(lambda j: bterm(pred(wrapv((add(l, j), FALSE), True))), sub(it(hi), l))), FALSE), True)
        finally:
            c.nofork -= 1

    def some(self, shape, f):
        c = ctx()
        c.nofork += 1
        try:
            return wrapb(A.bool_red('any', lambda i: (bterm(f(*[wrapv((x, FALSE), True) for x in i])), FALSE), [tdim(d) for d in shape]))
        finally:
            c.nofork -= 1

    def witness(self, *idx):
        """index terms at which quantified facts are instantiated"""
        for i in idx:
            ctx().assume(uf('$wit', (it(i),), 'B'))

    def choice(self, name, options):
        i = ctx().choose(len(options), name)
        self.inputs.append((name, 'choice', i, None))
        return options[i]

    def decide(self, c):
        """case split"""
        return ctx().branch(bterm(c))

    def len(self, l):
        l = getattr(l, '_sym', None) or l
        return wrapv((l.n, FALSE), True) if hasattr(l, 'n') else (wrapv((asarr(l).tshape[0], FALSE), True) if is_arr(l) else len(l))

    def item(self, l, k):
        """element k of a list"""
        l = getattr(l, '_sym', None) or l
        if isinstance(l, list):
            return l[k] if isinstance(k, int) else l[int(it(k).data)]
        return l[k]

    def seq(self, n, at):
        """a list of n values, element k being at(k)"""
        t = it(n)
        if t.op == 'const':
            return [at(k) for k in range(int(t.data))]
        return loops.SymList(t, lambda k: at(wrapv((k, FALSE), True)))

    def proj(self, name):
        return shims.Proj('verif-%s' % name)

    def transform(self, p1, p2, x, y, z=None):
        return shims.pyproj_transform(p1, p2, x, y, z)

    def polygon(self, pts):
        return shims.Polygon(pts)

    def box(self, a, b, c, d):
        return shims.box(a, b, c, d)

    # -------------------------------------------------- specification
    def assume(self, c):
        t = bterm(c)
        ctx().assume(t)
        if not ctx().feasible():
            raise Infeasible()

    def ensure(self, label, c):
        ctx().ensure(label, bterm(c))

    def cut(self, label, c):
        """lemma: proved here, available to the obligations that follow in this scope"""
        t = bterm(c)
        ctx().ensure('lemma ' + label, t)
        ctx().assume(t)

    def equal(self, a, b, tol=None):
        (x, u), (y, w) = tm(a), tm(b)
        if (x.sort == 'B') != (y.sort == 'B'):
            x = num(ite(x, ONE, const(0))) if x.sort == 'B' else x
            y = num(ite(y, ONE, const(0))) if y.sort == 'B' else y
        if x.sort == 'B':
            e = and_(implies(x, y), implies(y, x))
        else:
            e = eq(x, y)
        return and_(not_(u), not_(w), e)

    def ensure_eq(self, label, a, b, tol=None, nan=False):
        if is_arr(a) and a.ndim == 0 or (is_arr(a) and not is_arr(b)):
            a = a._as_scalar()
        if isinstance(a, (list, tuple)) or a is None or isinstance(a, str):
            ctx().ensure(label, TRUE if a == b else FALSE)
            return
        if nan:
            (x, u), (y, w) = tm(a), tm(b)
            ctx().ensure(label, and_(implies(u, w), implies(w, u), implies(not_(u), eq(x, y))))
            return
        ctx().ensure(label, self.equal(a, b))

    def ensure_shape(self, label, a, shape):
        sh = tuple(tdim(d) for d in shape)
        if not is_arr(a):
            if hasattr(a, '_to_array'):
                a = asarr(a)
            elif sh == () and val(a) is not None:
                ctx().ensure(label, TRUE)
                return True
            else:
                ctx().ensure(label, FALSE)
                return False
        from .npshim import zero_d
        if a.ndim != len(sh) or zero_d(a):
            ctx().ensure(label, FALSE)
            return False
        for k, (x, y) in enumerate(zip(a.tshape, sh)):
            ctx().ensure('%s[%d]' % (label, k), eq(x, y))
        return True

    def indices(self, shape, names=None):
        out = []
        for k, d in enumerate(shape):
            v = ctx().fresh_int('$i%d' % k if names is None else names[k], const(0), tdim(d))
            ctx().assume(and_(le(const(0), v), lt(v, tdim(d))))
            out.append(wrapv((v, FALSE), True))
        return out

    def ensure_array(self, label, a, shape, f, tol=None, where=None, nan=False, lo=None):
        if isinstance(a, (list, tuple)) or (not is_arr(a) and hasattr(a, '_to_array')):
            a = asarr(a)
        if not self.ensure_shape(label + '.shape', a, shape):
            return
        c = ctx()
        save = list(c.pc)
        if not is_arr(a):
            if where is not None:
                c.assume(bterm(where()))
            self.ensure_eq(label, a, f())
            c.pc[:] = save
            return
        idx = self.indices(shape)
        if where is not None:
            c.assume(bterm(where(*idx)))
        h = a.snap()
        g = h(tuple(it(i) for i in idx))
        c.nofork += 1
        try:
            e = f(*idx)
        finally:
            c.nofork -= 1
        (x, u), (y, w) = g, tm(e)
        if nan:
            goal = and_(implies(u, w), implies(w, u), implies(not_(u), self._te(x, y)))
        else:
            goal = and_(not_(u), not_(w), self._te(x, y))
        c.ensure(label, goal)
        c.pc[:] = save

    def _te(self, x, y):
        if x.sort == 'B' or y.sort == 'B':
            x = x if x.sort == 'B' else not_(eq(x, const(0)))
            y = y if y.sort == 'B' else not_(eq(y, const(0)))
            return and_(implies(x, y), implies(y, x))
        return eq(x, y)

    def forall(self, label, shape, f, where=None):
        c = ctx()
        save = list(c.pc)
        idx = self.indices(shape)
        if where is not None:
            c.assume(bterm(where(*idx)))
        c.ensure(label, bterm(f(*idx)))
        c.pc[:] = save

    def snapshot(self, *arrs):
        return [(a, a.buf, a.snap(), a.tshape, a.dtype) for a in arrs]

    def unchanged(self, label, snap):
        for k, (a, buf, f, sh, d) in enumerate(snap):
            lab = '%s[%d]' % (label, k)
            if a.ndim != len(sh) or a.dtype is not d:
                ctx().ensure(lab, FALSE)
                continue
            c = ctx()
            save = list(c.pc)
            idx = tuple(it(i) for i in self.indices([wrapv((x, FALSE), True) for x in sh]))
            x, y = a.get(idx), f(idx)
            c.ensure(lab, and_(*([eq(p, q) for p, q in zip(a.tshape, sh)]
                                 + [self._te(x[0], y[0]), implies(x[1], y[1]), implies(y[1], x[1])])))
            c.pc[:] = save

    def fresh_memory(self, label, a, b):
        """a and b do not share memory"""
        ctx().ensure(label, TRUE if a.buf is not b.buf else FALSE)

    def isa(self, label, x, cls):
        ctx().ensure(label, TRUE if loader.xisinstance(x, cls) else FALSE)

    def raises(self, label, exc, thunk):
        try:
            thunk()
        except exc:
            ctx().ensure(label, TRUE)
            return
        ctx().ensure(label, FALSE)

    def get(self, a, *idx):
        return wrapv(asarr(a).get(tuple(it(i) for i in idx)), True)

    # -------------------------------------------------- stubs
    def stub(self, target, attr, fn):
        old = target.__dict__.get(attr, self) if hasattr(target, '__dict__') else self
        self.undo.append((target, attr, old))
        setattr(target, attr, fn)

    def tmpdir(self):
        return '/scratch'

    def cleanup(self):
        for target, attr, old in reversed(self.undo):
            if old is self:
                delattr(target, attr)
            else:
                setattr(target, attr, old)
        self.undo = []

    # -------------------------------------------------- functions
    def _f1(self, n, x):
        return wrapv(vfn(n, vt(x)), True)

    def sin(self, x): return self._f1('sin', x)
    def cos(self, x): return self._f1('cos', x)
    def tan(self, x): return self._f1('tan', x)
    def sqrt(self, x): return self._f1('sqrt', x)
    def atan(self, x): return self._f1('arctan', x)
    def acos(self, x): return self._f1('arccos', x)
    def asin(self, x): return self._f1('arcsin', x)
    def log(self, x): return self._f1('log', x)
    def atan2(self, y, x): return wrapv(vfn('arctan2', vt(y), vt(x)), True)
    def floor(self, x): return wrapv((floor(vt(x)[0]), vt(x)[1]), True)
    def ceil(self, x): return wrapv((ceil(vt(x)[0]), vt(x)[1]), True)
    def trunc(self, x): return wrapv((trunc(vt(x)[0]), vt(x)[1]), True)
    def round(self, x): return wrapv((round_even(vt(x)[0]), vt(x)[1]), True)

    def abs(self, x):
        v = vt(x)
        return wrapv((abs_(v[0]), v[1]), True)

    def max(self, a, *bs):
        for b in bs:
            a = wrapv((max_(vt(a)[0], vt(b)[0]), or_(vt(a)[1], vt(b)[1])), True)
        return a

    def min(self, a, *bs):
        for b in bs:
            a = wrapv((min_(vt(a)[0], vt(b)[0]), or_(vt(a)[1], vt(b)[1])), True)
        return a

    def clamp(self, x, lo, hi):
        return self.min(self.max(x, lo), hi)

    def ite(self, c, a, b):
        ct = bterm(c)
        (x, u), (y, w) = tm(a), tm(b)
        return wrapv((ite(ct, x, y), ite(ct, u, w)), True)

    def and_(self, *xs): return wrapb(and_(*[bterm(x) for x in xs]))
    def or_(self, *xs): return wrapb(or_(*[bterm(x) for x in xs]))
    def not_(self, x): return wrapb(not_(bterm(x)))
    def implies(self, a, b): return wrapb(implies(bterm(a), bterm(b)))
    def iff(self, a, b): return wrapb(and_(implies(bterm(a), bterm(b)), implies(bterm(b), bterm(a))))
    def eq(self, a, b, tol=None): return wrapb(self.equal(a, b))
    def same(self, a, b, tol=None):
        """equal, or both NaN"""
        (x, u), (y, w) = tm(a), tm(b)
        return wrapb(and_(implies(u, w), implies(w, u), or_(u, self._te(x, y))))

    def isnan(self, x): return wrapb(tm(x)[1])
    nan = SymNum(const(0, 'R'), TRUE, True)

    def sum(self, lo, hi, f):
        l, h = it(lo), it(hi)
        c = ctx()
        # nested sums must not share a bound variable
        self.sumdepth = getattr(self, 'sumdepth', 0)
        b = binder(l, h, 60 + self.sumdepth)
        c.nofork += 1
        self.sumdepth += 1
        try:
            v = tm(f(wrapv((b, FALSE), True)))
        finally:
            c.nofork -= 1
            self.sumdepth -= 1
        t = v[0]
        if t.sort == 'B':
            t = ite(t, ONE, const(0))
        return wrapv((sum_(b, l, h, t), FALSE), True)

    def sum2(self, n, m, f):
        return self.sum(0, n, lambda i: self.sum(0, m, lambda j: f(i, j)))

    def sum2_le(self, label, n, m, f, g):
        """lemma schema: f <= g pointwise (proved) gives sum f <= sum g"""
        self.forall('lemma ' + label, (n, m), lambda i, j: f(i, j) <= g(i, j))
        ctx().assume(bterm(self.sum2(n, m, f) <= self.sum2(n, m, g)))

    def sum2_ge_term(self, label, n, m, f, r, c):
        """lemma schema: f >= 0 pointwise (proved) gives f(r, c) <= sum f for every (r, c) in range (proved)"""
        self.forall('lemma ' + label, (n, m), lambda i, j: f(i, j) >= 0)
        self.ensure('lemma ' + label + ' (index)', self.and_(0 <= r, r < n, 0 <= c, c < m))
        ctx().assume(bterm(f(r, c) <= self.sum2(n, m, f)))

    def exists_pair(self, label, n, f, i, j):
        """some q < n has f(q): q is the position in a row-major grid over the distinct values of two lists, the i-th
        value of the one and the j-th of the other (whichever order the code uses)"""
        sets = getattr(ctx(), 'sets', [])
        if len(sets) != 2:
            raise Unsupported('no witness for ' + label)
        alts = []
        for s, t in (sets, sets[::-1]):
            for a, b, m in ((s.position(it(i)), t.position(it(j)), t.m),):
                q = wrapv((add(mul(a, m), b), FALSE), True)
                alts.append(self.and_(0 <= q, q < n, f(q)))
        ctx().ensure(label, bterm(self.or_(*alts)))

    def index(self, f):
        return f

    def exhausted(self):
        """some loop of symbolic length that could have been left early ran to its end on this path"""
        return getattr(ctx(), 'exhausted', False)
