"""Symbolic for-loops: an invariant is inferred, checked inductively on one arbitrary
iteration (every path of the body), and used to summarise the whole loop."""
from .arr import *
from . import arr as A
from .sym import *
from .term import *
from . import ctx as ctxmod
from .ctx import ctx, Unsupported, Infeasible


class _Undef:
    def __repr__(self):
        return '<undef>'


UNDEF = _Undef()
UNROLL = 6


class SymIter:
    """iterable with symbolic length n and element function at(k)"""
    def __init__(self, n, at):
        self.n, self.at = n, at

    def _symlen(self):
        return pdim(self.n)

    def __iter__(self):
        if self.n.op == 'const':
            for k in range(int(self.n.data)):
                yield self.at(const(k))
        else:
            raise Unsupported('iteration over a symbolic sequence outside a for statement')

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, step, ln = norm_slice(i, self.n)
            return SymIter(ln, lambda k: self.at(add(st, scale(step, k))))
        return self.at(norm_int_index(it(i), self.n))


class SymList(SymIter):
    """list of symbolic length (fixed once built)"""
    def _to_array(self):
        n, at = self.n, self.at
        k = binder(const(0), n, 120)
        with nofork():
            x = asarr(at(k))
        sh = x.tshape
        for d in sh:
            if k in free_vars(d):
                raise Unsupported('ragged symbolic list')

        def f(idx):
            y = asarr(at(idx[0]))
            return y.get(idx[1:])
        return new(f, (n,) + sh, x.dtype)

    def reverse(self):
        old, n = self.at, self.n
        self.at = lambda k: old(sub(sub(n, ONE), k))

    def append(self, v):
        old, n = self.at, self.n
        self.at = lambda k: _sel(eq(k, n), v, lambda: old(k))
        self.n = add(n, ONE)

    def __add__(self, o):
        raise Unsupported('concatenation of symbolic lists')


def _sel(c, v, f):
    if c is TRUE or ctx().entails(c):
        return v
    if c is FALSE or ctx().entails(not_(c)):
        return f()
    return merge(c, v, f())


def merge(c, a, b):
    """if-then-else of two python values"""
    if a is b:
        return a
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return wrapb(ite(c, as_boolt(a), as_boolt(b)))
    va, vb = (None if is_arr(a) else val(a)), (None if is_arr(b) else val(b))
    if va is not None and vb is not None and not is_arr(a) and not is_arr(b):
        return SymNum(ite(c, va[0], vb[0]), ite(c, va[1], vb[1]), getattr(a, 'py', True) and getattr(b, 'py', True))
    if is_arr(a) and is_arr(b) and a.ndim == b.ndim and all(x is y or ring_zero(sub(x, y)) for x, y in zip(a.tshape, b.tshape)):
        fa, fb = a.snap(), b.snap()

        def g(i):
            x, y = fa(i), fb(i)
            return ite(c, x[0], y[0]), ite(c, x[1], y[1])
        return new(g, a.tshape, promote(a.dtype, b.dtype))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    raise Unsupported('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))


class nofork:
    def __enter__(self):
        ctx().nofork += 1

    def __exit__(self, *a):
        ctx().nofork -= 1
        return False


class SymSet:
    """the distinct values of a 1-d integer array, in no particular order"""
    def __init__(self, a):
        c = ctx()
        n = a.tshape[0]
        if not c.entails(le(ONE, n)) and not c.branch(le(ONE, n)):
            raise Unsupported('set of an empty sequence')
        if a.dtype.kind not in 'iu' or c.local is not None or c.nofork:
            raise Unsupported('set of a symbolic sequence')
        f = a.snap()
        self.a, self.n, self.f = a, n, f
        m = var(c.fresh('$m'), 'I')
        self.m = m
        c.assume(le(ONE, m))
        c.assume(le(m, n))
        self.w = c.fresh('$w')
        self.v = c.fresh('$v')
        from . import smt
        smt.ASSUMED_UF[self.w] = lambda t: [le(const(0), t), lt(t, n)]
        smt.ASSUMED_UF[self.v] = lambda t: [le(const(0), t), lt(t, m), eq(self.at(t), f((t.args[0],))[0])]
        c.sets = getattr(c, 'sets', []) + [self]

    def at(self, j):
        """the j-th smallest value"""
        return self.f((uf(self.w, (j,), 'I'),))[0]

    def position(self, i):
        """the position of the i-th element of the array among the sorted values"""
        return uf(self.v, (i,), 'I')

    def sorted(self):
        return SymList(self.m, lambda j: wrapv((self.at(j), FALSE), False))

    def _symlen(self):
        return pdim(self.m)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic set')


def as_symiter(x):
    if isinstance(x, SymRange):
        return SymIter(x.n, x.at)
    if isinstance(x, SymIter):
        return x
    if isinstance(x, SymArr) and x.ndim:
        return SymIter(x.tshape[0], lambda k: x[wrapv((k, FALSE), True)] if True else None)
    if isinstance(x, A.IndexArrays1):
        raise Unsupported('iteration over where()')
    return None


class Step:
    __slots__ = ('item', 'sym', 'final', 'brk', 'local', 'exc', '_state', 'captured', 'lists')

    def __init__(self, item=None, sym=False, final=False, state=None, local=False):
        self.item, self.sym, self.final, self._state, self.local = item, sym, final, state, local
        self.brk = False
        self.exc = None
        self.captured = None

    def state(self):
        return self._state

    def capture(self, gets):
        self.captured = [getv(g) for g in gets]

    def caught(self, e):
        """called from the except clause of the instrumented body; re-raise outside local mode"""
        if self.local and not isinstance(e, (Infeasible,)):
            self.exc = e
            return True
        return False


class LoopReturn(Exception):
    pass


class Local:
    """exploration of the paths of one loop body"""
    def __init__(self, c):
        self.c = c
        self.stack = [[]]
        self.base = len(c.pc)

    def start(self):
        self.dec = self.stack.pop()
        self.pos = 0
        self.taken = []
        del self.c.pc[self.base:]
        self.conds = []

    def branch(self, t):
        c = self.c
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        elif c.nofork:
            raise Unsupported('data dependent branch inside an element expression: %s' % show(t))
        else:
            if c.entails(t):
                d = (True, None)
            elif c.entails(not_(t)):
                d = (False, None)
            else:
                d = (True, 'f')
                self.stack.append(self.taken + [(False, 'f')])
                if len(self.stack) > 64:
                    raise Unsupported('too many paths in loop body')
            self.dec = self.dec + [d]
        self.pos += 1
        self.taken.append(d)
        if d[1] is not None:
            x = t if d[0] else not_(t)
            c.assume(x)
            self.conds.append(x)
        return d[0]


def deep_state(objs, depth=4):
    out = {}

    def go(o, d):
        if id(o) in out or d < 0:
            return
        if isinstance(o, list):
            out[id(o)] = (o, tuple(id(x) for x in o))
            for x in o[:50]:
                go(x, d - 1)
        elif isinstance(o, dict):
            out[id(o)] = (o, tuple((k if isinstance(k, (str, int)) else id(k), id(v)) for k, v in o.items()))
            for x in list(o.values())[:50]:
                go(x, d - 1)
        elif isinstance(o, tuple):
            for x in o:
                go(x, d - 1)
        elif isinstance(o, SymList):
            out[id(o)] = (o, (o.n, id(o.at)))
        elif hasattr(o, '__dict__') and not isinstance(o, (type, SymArr, SymNum, SymBool)) and type(o).__module__.startswith(('resippy', 'props', 'contracts')):
            out[id(o)] = (o, tuple((k, id(v)) for k, v in o.__dict__.items()))
            for x in list(o.__dict__.values()):
                go(x, d - 1)
    for o in objs:
        go(o, depth)
    return out


def contents(o):
    if isinstance(o, list):
        return tuple(id(x) for x in o)
    if isinstance(o, dict):
        return tuple((k if isinstance(k, (str, int)) else id(k), id(v)) for k, v in o.items())
    if isinstance(o, SymList):
        return (o.n, id(o.at))
    return tuple((k, id(v)) for k, v in o.__dict__.items())


_loopid = [0]


def loop(iterable, site, assigned, getters, ref_getters):
    """generator driving an instrumented for statement"""
    if isinstance(iterable, (SymRange, SymIter, SymArr, A.IndexArrays1)):
        s = as_symiter(iterable)
        if s is None:
            raise TypeError('iteration over a 0-d array')
        if s.n.op == 'const':
            for k in range(int(s.n.data)):
                yield Step(s.at(const(k)))
            return
        yield from sym_loop(s, site, assigned, getters, ref_getters)
        return
    for x in iterable:
        yield Step(x)


def getv(g):
    try:
        return g()
    except NameError:
        return UNDEF


def sym_loop(s, site, assigned, getters, ref_getters):
    c = ctx()
    n = s.n
    if c.local is None:
        if not c.branch(lt(const(0), n)):
            return
    elif not c.entails(lt(const(0), n)):
        raise Unsupported('nested symbolic loop that may be empty')
    pre = [getv(g) for g in getters]
    refs = [getv(g) for g in ref_getters]
    outer_local, outer_log = c.local, c.log
    k = c.fresh_int('$k', const(0), n)
    for x in (le(const(0), k), lt(k, n)):
        pass
    # --- havoc values
    hv = []
    hterms = []
    for nm, v in zip(assigned, pre):
        vv = None if is_arr(v) else (val(v) if v is not UNDEF else None)
        if isinstance(v, SymBool) or isinstance(v, bool):
            t = var(c.fresh('$hb_' + nm), 'B')
            hv.append(SymBool(t))
            hterms.append(t)
        elif vv is not None:
            t = var(c.fresh('$h_' + nm), vv[0].sort)
            hv.append(SymNum(t, FALSE, getattr(v, 'py', True)))
            hterms.append(t)
        else:
            hv.append(v)
            hterms.append(None)
    stamp = _loopid[0] = _loopid[0] + 1
    obl_mark = len(c.obls)

    def run_paths(bufs):
        """yield steps for every path of the body; collect path records"""
        recs = []
        loc = Local(c)
        saved_pc = list(c.pc)
        while loc.stack:
            loc.start()
            c.local = loc
            c.log = []
            saved = {b: b.fn for b in bufs}
            for b, h in bufs.items():
                b.fn = h
            st0 = deep_state(refs + pre)
            lens = {i: len(r) for i, r in enumerate(refs) if isinstance(r, list)}
            syms = {i: r._sym for i, r in enumerate(refs) if isinstance(r, PyList)}
            step = Step(s.at(k), True, False, tuple(hv), True)
            yield step, None
            rec = {'cond': and_(*loc.conds), 'brk': step.brk, 'exc': step.exc, 'post': step.captured,
                   'log': c.log, 'fns': {}, 'appends': {}}
            touched = []
            for b, _, _ in c.log:
                if b not in touched:
                    touched.append(b)
            for b in touched:
                rec['fns'][b] = b.fn
            # undo writes to buffers that existed before
            for b, f in saved.items():
                b.fn = f
            for i, ln in lens.items():
                r = refs[i]
                if isinstance(r, PyList) and r._sym is not None and r._sym is not syms.get(i):
                    # appended to by an inner symbolic loop
                    if ln or len(r) > ln:
                        raise Unsupported('mixed appends in nested loops')
                    rec['appends'][i] = r._sym
                    r._sym = syms.get(i)
                elif len(r) > ln:
                    rec['appends'][i] = r[ln:]
                    del r[ln:]
            for _, (o, cont) in st0.items():
                if contents(o) != cont:
                    raise Unsupported('loop body modifies an object: %s' % type(o).__name__)
            recs.append(rec)
        c.local = outer_local
        c.log = outer_log
        c.pc[:] = saved_pc
        yield None, recs

    # phase A: find the buffers written by the body
    known = {}
    recs = None
    # snapshot of existing buffers happens lazily: a buffer is "old" if it is first written in the log with a
    # function that existed before the loop.  Track through creation stamps.
    all_before = set(id(b) for b in _live_bufs(refs + pre))
    gen = run_paths({b: b.fn for b in _live_bufs(refs + pre)})
    for st, recs_ in gen:
        if st is None:
            recs = recs_
        else:
            yield st
    written = []
    for r in recs:
        for b, _, _ in r['log']:
            if id(b) in all_before and b not in written:
                written.append(b)
    # a body that cannot be followed from an arbitrary counter value: follow it leniently, only to guess how the
    # counters advance; the guesses are verified on an arbitrary iteration below
    guess = {}
    lrecs = recs
    if any(isinstance(r['exc'], Unsupported) for r in recs):
        c.lenient += 1
        try:
            gen = run_paths({b: b.fn for b in _live_bufs(refs + pre)})
            for st, recs_ in gen:
                if st is None:
                    lrecs = recs_
                else:
                    yield st
        finally:
            c.lenient -= 1
        for r in lrecs:
            for b, _, _ in r['log']:
                if id(b) in all_before and b not in written:
                    written.append(b)
    for j, h in enumerate(hterms):
        ps = [val(r['post'][j]) if r['post'] is not None and r['post'][j] is not UNDEF and not is_arr(r['post'][j]) else None
              for r in lrecs if r['exc'] is None and not r['brk']]
        if h is None or h.sort == 'B' or not ps or any(p is None or p[1] is not FALSE for p in ps):
            continue
        es = [_delta(p[0], h) for p in ps]
        if es[0] is not None and all(e is es[0] for e in es) and not free_vars(es[0]) & (set(hterms) | {k}):
            guess[j] = (lambda v0, e: lambda x: add(v0, mul(x, e)))(val(pre[j])[0], es[0])
    for j, g in guess.items():
        t = g(k)
        hterms[j] = None
        hv[j] = SymNum(t, FALSE, True)
    # phase B: contents of written buffers and carried arrays unknown at the start of iteration k
    del c.obls[obl_mark:]
    hav = {}
    live = {b: b.fn for b in _live_bufs(refs + pre)}
    for b in written:
        nm = c.fresh('$H')
        srt = 'B' if b.dtype.kind == 'b' else ('I' if b.dtype.kind in 'iu' else 'R')
        hav[b] = (nm, srt)
        live[b] = A.memoize((lambda nm, srt: lambda i: (uf(nm, i, srt), FALSE))(nm, srt))
    # carried array locals that are rebound
    carried = {}
    for j, (nm, v) in enumerate(zip(assigned, pre)):
        if is_arr(v) and any(r['post'] is not None and r['post'][j] is not v for r in recs if not r['brk'] and r['exc'] is None):
            hn = c.fresh('$A_' + nm)
            srt = 'B' if v.dtype.kind == 'b' else ('I' if v.dtype.kind in 'iu' else 'R')
            post = [r['post'][j] for r in recs if r['post'] is not None and r['exc'] is None and not r['brk']]
            d = v.dtype
            for p in post:
                if is_arr(p) and p.dtype is not v.dtype:
                    d = promote(d, p.dtype)
            srt = 'B' if d.kind == 'b' else ('I' if d.kind in 'iu' else 'R')
            hv[j] = new((lambda hn, srt: lambda i: (uf(hn, i, srt), FALSE))(hn, srt), v.tshape, d)
            carried[j] = hn
    # an int counter that becomes real inside the body must be havocked as real
    for j, t in enumerate(hterms):
        if t is not None and t.sort == 'I':
            for r in recs:
                if r['post'] is not None and r['post'][j] is not UNDEF:
                    v2 = val(r['post'][j]) if not is_arr(r['post'][j]) else None
                    if v2 is not None and v2[0].sort == 'R':
                        hterms[j] = var(c.fresh('$hr_' + assigned[j]), 'R')
                        hv[j] = SymNum(hterms[j], FALSE, getattr(hv[j], 'py', True))
                        break
    gen = run_paths(live)
    for st, recs_ in gen:
        if st is None:
            recs = recs_
        else:
            yield st
    normal = [r for r in recs if not r['brk'] and r['exc'] is None]
    exits = [r for r in recs if r['brk'] or r['exc'] is not None]
    for r in recs:
        if isinstance(r['exc'], Unsupported):
            raise r['exc']
    allh = set(t for t in hterms if t is not None)

    def sub_ok(t):
        return not (free_vars(t) & allh)

    # --- locals
    closed = [None] * len(pre)           # function k -> value (before iteration k)
    for j, (nm, v) in enumerate(zip(assigned, pre)):
        posts = [(r['cond'], r['post'][j]) for r in normal]
        if j in guess:
            for _, p in posts:
                pv = val(p) if p is not UNDEF and not is_arr(p) else None
                if pv is None or pv[1] is not FALSE or not ring_zero(sub(pv[0], guess[j](add(k, ONE)))):
                    raise Unsupported('counter %s does not advance regularly' % nm)
            closed[j] = (lambda g: lambda x: SymNum(g(x), FALSE, True))(guess[j])
            continue
        if not posts:
            closed[j] = (lambda v: lambda t: v)(v)
            continue
        if hterms[j] is not None and all(p is hv[j] for _, p in posts):
            closed[j] = (lambda v: lambda t: v)(v)
            continue
        if hterms[j] is None:
            if all(p is v for _, p in posts) and j not in carried:
                closed[j] = (lambda v: lambda t: v)(v)
                continue
            if j in carried and all(is_arr(p) for _, p in posts):
                for _, p in posts:
                    if p.ndim != v.ndim or not all(same_dim(x, y) for x, y in zip(p.tshape, v.tshape)):
                        raise Unsupported('array local changes shape in loop')
                m = posts[-1][1]
                for cnd, p in reversed(posts[:-1]):
                    m = merge(cnd, p, m)
                r = _close_array(c, v, m, hv[j], carried[j], k, allh, n, set(carried.values()))
                if r is not None:
                    closed[j] = r
                else:
                    c.overapprox = True
                    nm2 = c.fresh('$L_' + nm)
                    a0 = hv[j]
                    srt = 'B' if a0.dtype.kind == 'b' else ('I' if a0.dtype.kind in 'iu' else 'R')
                    closed[j] = (lambda nm2, a0, srt, v: lambda t: _ite_k0(t, v, new(lambda i: (uf(nm2, (t,) + tuple(i), srt), FALSE), a0.tshape, a0.dtype)))(nm2, a0, srt, v)
                continue
            # value produced only inside the loop (undefined before): last iteration's value
            m = posts[-1][1]
            try:
                for cnd, p in reversed(posts[:-1]):
                    m = merge(cnd, p, m)
            except Unsupported:
                m = None
            closed[j] = ('last', m, v)
            continue
        # scalar
        ts = [(cnd, (as_boolt(p), FALSE) if isinstance(p, (bool, SymBool)) else (val(p) if not is_arr(p) else None)) for cnd, p in posts]
        if any(x[1] is None for x in ts):
            closed[j] = ('last', None, v)
            continue
        t, u = ts[-1][1]
        for cnd, (a, ua) in reversed(ts[:-1]):
            t, u = ite(cnd, a, t), ite(cnd, ua, u)
        h = hterms[j]
        if sub_ok(t) and u is FALSE:
            closed[j] = ('last', wrapv((t, u), True), v)
            continue
        if t.sort != 'B':
            e = _delta(t, h)
            if e is not None and sub_ok(e) and u is FALSE:
                v0 = val(v)[0]

                def cl(x, e=e, v0=v0):
                    if k not in free_vars(e):
                        return SymNum(add(v0, mul(x, e)), FALSE, True)
                    b = binder(const(0), x, 30)
                    return SymNum(add(v0, sum_(b, const(0), x, subst(e, {k: b}))), FALSE, True)
                closed[j] = cl
                continue
            others = [val(q) for r in normal for i, q in enumerate(r['post']) if i != j and q is not UNDEF and not is_arr(q)]
            if e is not None and sub_ok(e) and sub_ok(u) and not written and not any(r['appends'] or r['log'] or h in free_vars(r['cond']) for r in recs) \
                    and not any(is_arr(q) for r in normal for i, q in enumerate(r['post']) if i != j) \
                    and not any(q is not None and (h in free_vars(q[0]) or h in free_vars(q[1])) for q in others):
                # a sum with undefined terms is undefined; nothing else in the loop uses it
                v0 = val(v)[0]

                def cu(x, e=e, u=u, v0=v0):
                    b = binder(const(0), x, 30)
                    und = A.bool_red('any', lambda i: (subst(u, {k: i[0]}), FALSE), [x])
                    return SymNum(add(v0, sum_(b, const(0), x, subst(e, {k: b}))), und, True)
                closed[j] = cu
                continue
        c.overapprox = True
        nm2 = c.fresh('$L_' + nm)

        def clh(x, nm2=nm2, h=h, v=v):
            t2 = uf(nm2, (x,), h.sort)
            return _ite_k0(x, v, wrapv((t2, FALSE), True) if h.sort != 'B' else SymBool(t2))
        closed[j] = clh

    def state_at(x):
        """values of the assigned locals before iteration x (x >= 1 may be assumed for 'last')"""
        out = []
        m = None
        for j in range(len(pre)):
            f = closed[j]
            if isinstance(f, tuple):
                _, post, v = f
                if post is None:
                    out.append(UNDEF)
                    continue
                mm = kmap(sub(x, ONE))
                pv = vsubst(post, mm)
                if v is UNDEF or ctx().entails(le(ONE, x)):
                    out.append(pv)
                else:
                    out.append(merge(le(ONE, x), pv, v))
            else:
                out.append(f(x))
        return out

    _km = {}

    def kmap(x):
        """substitution taking the arbitrary iteration k to iteration x"""
        if x in _km:
            return _km[x]
        m = {k: x}
        _km[x] = m
        for j, h in enumerate(hterms):
            if h is None:
                continue
            f = closed[j]
            if isinstance(f, tuple):
                _, post, v = f
                if post is None:
                    continue
                pv = vsubst(post, {k: sub(x, ONE)})
                w = pv if v is UNDEF else (pv if ctx().entails(le(ONE, x)) else merge(le(ONE, x), pv, v))
            else:
                w = f(x)
            m[h] = as_boolt(w) if h.sort == 'B' else val(w)[0]
        return m

    # --- buffers
    summaries = {}
    for b in written:
        summaries[b] = _summarise(c, b, [r for r in normal], hav[b], k, n, kmap, live, allh)
    # --- obligations raised inside the body hold for every iteration: keep them with closed-form state
    newobl = c.obls[obl_mark:]
    if newobl:
        m = kmap(k)
        for o in newobl:
            o.goal = subst(o.goal, m)
            o.pc = [subst(p, m) for p in o.pc] + [le(const(0), k), lt(k, n)]
    # --- lists
    appended = {}
    for r in normal:
        for i, xs in r['appends'].items():
            appended.setdefault(i, []).append((r, xs))
    for i, lst in appended.items():
        if any(isinstance(xs, SymList) for _, xs in lst):
            if len(lst) != 1 or len(normal) != 1 or k in free_vars(lst[0][1].n) or free_vars(lst[0][1].n) & allh:
                raise Unsupported('conditional append in a symbolic loop')
            if refs[i] != [] or refs[i]._sym is not None:
                raise Unsupported('append to a non-empty list in a symbolic loop')
            continue
        if len(lst) != len(normal) or any(len(xs) != len(lst[0][1]) for _, xs in lst):
            raise Unsupported('conditional append in a symbolic loop')
        if len(lst[0][1]) != 1:
            raise Unsupported('several appends per iteration')
        if refs[i] != [] or getattr(refs[i], '_sym', None) is not None:
            raise Unsupported('append to a non-empty list in a symbolic loop')

    def apply_final(x):
        """install the state after x iterations"""
        for b in written:
            b.fn = A.memoize(summaries[b](x))
            b.version += 1
            if outer_log is not None:
                f = b.fn
                outer_log.append((b, lambda i: TRUE, f))
        return tuple(state_at(x))

    mode = 0
    if exits:
        if outer_local is not None:
            raise Unsupported('break in nested symbolic loop')
        conds = not_(and_(*[not_(r['cond']) for r in exits]))
        mode = c.choose(2)
    if mode == 1:
        for x in (le(const(0), k), lt(k, n)):
            c.assume(x)
        fin = apply_final(k)
        step = Step(s.at(k), True, False, fin, False)
        yield step
        if not step.brk:
            raise Infeasible()
        return
    if exits:
        # no iteration exits: in particular the last one does not
        c.exhausted = True
        m = kmap(sub(n, ONE))
        for r in exits:
            hb = [hav[b][0] for b in written]
            cnd = r['cond']
            if not (A.deep_ufs(cnd) & set(hb)) and not carried_syms(cnd, carried):
                c.assume(not_(subst(cnd, m)))
            else:
                c.assumed.append('loop exit condition dropped')
    fin = apply_final(n)
    for i, lst in appended.items():
        if isinstance(lst[0][1], SymList):
            ch = lst[0][1]

            def flat(x, ch=ch):
                q, r = unravel_index_t(x, [n, ch.n])
                return vsubst(ch.at(r), kmap(q))
            _replace_list(refs[i], SymList(mul(n, ch.n), flat))
            continue
        v = lst[-1][1][0]
        for r, xs in reversed(lst[:-1]):
            v = merge(r['cond'], xs[0], v)
        nl = SymList(n, (lambda v: lambda x: vsubst(v, kmap(x)))(v))
        _replace_list(refs[i], nl)
    yield Step(None, True, True, fin, False)


def carried_syms(t, carried):
    names = set(carried.values())
    return bool(names & A.deep_ufs(t))


def _replace_list(lst, nl):
    if isinstance(lst, PyList):
        lst._sym = nl
    else:
        raise Unsupported('append to a plain list in a symbolic loop')


class PyList(list):
    """list display of instrumented code: can turn symbolic after a symbolic loop"""
    _sym = None

    def _to_array(self):
        if self._sym is not None:
            return self._sym._to_array()
        return list(self)


def _ite_k0(x, v, w):
    if ctx().entails(le(ONE, x)):
        return w
    if x.op == 'const' and x.data == 0:
        return v
    return merge(le(ONE, x), w, v)


def vsubst(v, m):
    if isinstance(v, SymNum):
        return SymNum(subst(v.t, m), subst(v.u, m), v.py)
    if isinstance(v, SymBool):
        return wrapb(subst(v.t, m))
    if is_arr(v):
        f = v.snap()

        def g(i):
            # the index may contain k: substitute through fresh placeholders
            ph = tuple(var('$ph%d' % q, 'I') for q in range(len(i)))
            t, u = f(ph)
            t, u = subst(t, m), subst(u, m)
            mm = dict(zip(ph, i))
            return subst(t, mm), subst(u, mm)
        return new(g, [subst(d, m) for d in v.tshape], v.dtype)
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, list) and not isinstance(v, PyList):
        return [vsubst(x, m) for x in v]
    if isinstance(v, PyList) and v._sym is None:
        return PyList(vsubst(x, m) for x in v)
    if v is None or isinstance(v, (int, float, str, bool)) or v is UNDEF:
        return v
    return v


def _delta(t, h):
    """e with t = h + e and e free of h (through ite)"""
    if h not in free_vars(t):
        return None
    if t.op == 'ite':
        a, b = _delta(t.args[1], h), _delta(t.args[2], h)
        if h in free_vars(t.args[0]) or a is None or b is None:
            return None
        return ite(t.args[0], a, b)
    if t is h:
        return const(0)
    try:
        e = from_poly(poly(sub(t, h)))
    except TooBig:
        return None
    if h in free_vars(e):
        # distribute over ite
        d = sub(t, h)
        ites = [x for x in subterms(t) if x.op == 'ite' and h in free_vars(x)]
        if len(ites) == 1 and t.op == 'lin':
            i = ites[0]
            a, b = _delta(subst(t, {i: i.args[1]}), h), _delta(subst(t, {i: i.args[2]}), h)
            if a is not None and b is not None and h not in free_vars(i.args[0]):
                return ite(i.args[0], a, b)
        return None
    return e


def _live_bufs(objs):
    """buffers reachable from python values"""
    out = []
    seen = set()

    def go(o, d):
        if id(o) in seen or d < 0:
            return
        seen.add(id(o))
        if isinstance(o, SymArr):
            if o.buf not in out:
                out.append(o.buf)
        elif isinstance(o, (list, tuple)):
            for x in o:
                go(x, d - 1)
        elif isinstance(o, dict):
            for x in o.values():
                go(x, d - 1)
        elif hasattr(o, '__dict__') and not isinstance(o, type) and not type(o).__name__ == 'module':
            if isinstance(getattr(o, '__dict__', None), dict):
                for x in list(o.__dict__.values()):
                    go(x, d - 1)
    for o in objs:
        go(o, 6)
    return out


def _has_uf(t, name):
    return name in A.deep_ufs(t)


def _without_state(t, names):
    """t with the carried state replaced by 0, when t provably does not depend on it"""
    if not (A.deep_ufs(t) & names):
        return t
    st = [x for x in subterms(t) if x.op == 'uf' and x.data in names]
    m = {x: (FALSE if x.sort == 'B' else const(0, x.sort)) for x in st}
    t0 = subst(t, m)
    if A.deep_ufs(t0) & names:
        return None
    return t0 if _same_nf(t, t0) else None


def _same_nf(a, b):
    if a is b:
        return True
    if a.sort != 'B':
        return b.sort != 'B' and ring_zero(sub(a, b))
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    if a.op == 'eq0':
        return ring_zero(sub(a.args[0], b.args[0])) or ring_zero(add(a.args[0], b.args[0]))
    if a.op in ('le0', 'lt0'):
        return ring_zero(sub(a.args[0], b.args[0]))
    if a.op in ('and', 'not'):
        rest = list(b.args)
        for x in a.args:
            y = next((y for y in rest if _same_nf(x, y)), None)
            if y is None:
                return False
            rest.remove(y)
        return True
    return False


def _close_array(c, v, post, h, hname, k, allh, n, names):
    """closed form of an array local rebound in the loop: accumulation A = A + e(k)"""
    ph = tuple(c.fresh_int('$g', const(0), d) for d in v.tshape)
    t, u = post.get(ph)
    # the new value may mention the old state only apparently
    t0, u0 = _without_state(t, names), _without_state(u, names)
    if t0 is not None and u0 is not None and not free_vars(t0) & allh and not free_vars(u0) & allh:
        def last(x):
            mm = {k: sub(x, ONE)}
            t1, u1 = subst(t0, mm), subst(u0, mm)

            def g(i):
                m2 = dict(zip(ph, i))
                return subst(t1, m2), subst(u1, m2)
            return _ite_k0(x, v, new(g, v.tshape, post.dtype))
        return last
    if u is not FALSE:
        return None
    me = uf(hname, ph, t.sort)
    tmp = var('$self', t.sort)
    t2 = subst(t, {me: tmp})
    if _has_uf(t2, hname):
        return None
    e = _delta(t2, tmp)
    if e is None or free_vars(e) & allh:
        return None
    vf = v.snap()

    def cl(x):
        def g(i):
            ee = subst(e, dict(zip(ph, i)))
            b = binder(const(0), x, 31)
            s = sum_(b, const(0), x, subst(ee, {k: b})) if k in free_vars(ee) else mul(x, ee)
            o = vf(i)
            return add(num(o[0]), s), o[1]
        return new(g, v.tshape, post.dtype)
    return cl


def _summarise(c, b, normal, hv, k, n, kmap, live, allh):
    """summary(x): element function of buffer b after x iterations"""
    old = b.fn
    hname, srt = hv
    rank = len(b.shape)
    ph = tuple(c.fresh_int('$g', const(0), d) for d in b.shape)

    def reg(r, i):
        return not_(and_(*[not_(rg(i)) for bb, rg, _ in r['log'] if bb is b]))

    R = FALSE
    cur = None
    groups = {}          # paths with the same effect on the buffer
    for r in normal:
        f = r['fns'].get(b)
        rr = reg(r, ph) if f is not None else FALSE
        v = f(ph) if f is not None else (uf(hname, ph, srt), FALSE)
        groups.setdefault((rr, v), []).append(r['cond'])
    for (rr, v), conds in groups.items():
        r = {'cond': _join(conds)}
        R = or_(R, and_(r['cond'], rr))
        cur = v if cur is None else (ite(r['cond'], v[0], cur[0]), ite(r['cond'], v[1], cur[1]))
    if cur is None:
        return lambda x: old
    val_, und = cur
    me = uf(hname, ph, srt)
    if R is TRUE:
        # writes of an inner loop: the elements that keep their value are not written
        R = or_(_changed(val_, me), _changed(und, FALSE))
    # simplify the value under the write condition
    V = _under(val_, R, c, True)
    U = _under(und, R, c, True)
    if not _has_uf(V, hname) and not _has_uf(U, hname) and not _has_uf(R, hname):
        ks = _solve_k(R, k, c)
        if ks is not None:
            def summ(x):
                def f(i):
                    m0 = dict(zip(ph, i))
                    kk = subst(ks, m0)
                    # region at kk
                    m = kmap(ks)
                    g = and_(le(const(0), kk), lt(kk, x), subst(subst(R, m), m0))
                    if g is not TRUE and g is not FALSE and ctx().entails(g):
                        g = TRUE
                    if g is FALSE:
                        return old(i)
                    t, u = subst(subst(V, m), m0), subst(subst(U, m), m0)
                    if g is TRUE:
                        return t, u
                    o = old(i)
                    return ite(g, t, o[0]), ite(g, u, o[1])
                return f
            return summ
        if k not in free_vars(R):
            def summ2(x):
                def f(i):
                    m0 = dict(zip(ph, i))
                    m = kmap(sub(x, ONE))
                    g = and_(lt(const(0), x), subst(subst(R, m), m0))
                    t, u = subst(subst(V, m), m0), subst(subst(U, m), m0)
                    o = old(i)
                    return ite(g, t, o[0]), ite(g, u, o[1])
                return f
            return summ2
        if not (free_vars(R) & allh) and not (free_vars(V) & allh) and not (free_vars(U) & allh):
            # the last iteration that writes the element decides
            def summ5(x):
                def f(i):
                    m0 = dict(zip(ph, i))
                    Ri, Vi, Ui = [resimp(subst(y, m0)) for y in (R, V, U)]
                    j = A.first_true(lambda q: subst(Ri, {k: sub(sub(x, ONE), q)}), x)
                    last = sub(sub(x, ONE), j)
                    g = lt(j, x)
                    o = old(i)
                    return ite(g, subst(Vi, {k: last}), o[0]), ite(g, subst(Ui, {k: last}), o[1])
                return f
            return summ5
    # accumulation b[i] = b[i] + e(k, i)
    tmp = var('$self', srt)
    t2 = subst(V, {me: tmp})
    if not _has_uf(t2, hname) and und is FALSE and not _has_uf(R, hname) and tmp in free_vars(t2):
        e = _delta(t2, tmp)
        if e is not None:
            ee = ite(R, e, const(0, e.sort))

            def summ3(x):
                def f(i):
                    m = kmap(binder(const(0), x, 32))
                    bb = binder(const(0), x, 32)
                    body = subst(subst(ee, m), dict(zip(ph, i)))
                    o = old(i)
                    return add(num(o[0]), sum_(bb, const(0), x, body)), o[1]
                return f
            return summ3
    c.overapprox = True
    nm = c.fresh('$S')

    def summ4(x):
        def f(i):
            # untouched elements keep their value when the region does not depend on k
            return uf(nm, (x,) + tuple(i), srt), FALSE
        return f
    return summ4


def _join(conds):
    """disjunction of path conditions (c and a, c and not a give c)"""
    cs = [frozenset(x.args) if x.op == 'and' else frozenset() if x is TRUE else frozenset((x,)) for x in conds]
    again = True
    while again:
        again = False
        for i, p in enumerate(cs):
            for j in range(i + 1, len(cs)):
                q = cs[j]
                if p <= q or q <= p:
                    cs[i] = p if p <= q else q
                elif len(p) == len(q) and len(p - q) == 1 and not_(next(iter(p - q))) is next(iter(q - p)):
                    cs[i] = p & q
                else:
                    continue
                del cs[j]
                again = True
                break
            if again:
                break
    return or_(*[and_(*sorted(x, key=lambda t: t.id)) for x in cs])


def _changed(t, me):
    if t is me:
        return FALSE
    if t.op == 'ite':
        a, b = _changed(t.args[1], me), _changed(t.args[2], me)
        return or_(and_(t.args[0], a), and_(not_(t.args[0]), b))
    return TRUE


def _under(t, g, c, want):
    """simplify t assuming g"""
    conds = set()
    for x in subterms(t):
        if x.op == 'ite':
            conds.add(x.args[0])
    m = {}
    gs = set(g.args) if g.op == 'and' else {g}
    save = list(c.pc)
    try:
        if g is not FALSE and g is not TRUE:
            c.pc = save + list(gs)
        for q in conds:
            if c.entails(q):
                m[q] = TRUE
            elif c.entails(not_(q)):
                m[q] = FALSE
    finally:
        c.pc = save
    return _ite_simpl(t, m) if m else t


def _ite_simpl(t, m, cache=None):
    if cache is None:
        cache = {}
    r = cache.get(t)
    if r is not None:
        return r
    if t.op == 'ite' and t.args[0] in m:
        r = _ite_simpl(t.args[1] if m[t.args[0]] is TRUE else t.args[2], m, cache)
    elif t in m and t.sort == 'B':
        r = m[t]
    elif not t.args or t.op == 'sum':
        r = t
    else:
        args = [_ite_simpl(a, m, cache) for a in t.args]
        r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
    cache[t] = r
    return r


def _solve_k(R, k, c):
    """k as a function of the index from the write condition, when it determines k"""
    cs = list(R.args) if R.op == 'and' else [R]
    for q in cs:
        if q.op == 'eq0':
            d = q.args[0]
            if k in free_vars(d):
                co, rest = _coef(d, k)
                if co is not None and abs(co) == 1:
                    return scale(-co, rest)
    # block pattern: s*k + lo <= g < s*k + lo + w with w <= s
    los, his = [], []
    for q in cs:
        if q.op == 'le0' and k in free_vars(q.args[0]):
            co, rest = _coef_term(q.args[0], k)
            if co is None:
                continue
            # co*k + rest <= 0
            (los if _sgn(co, c) > 0 else his).append((co, rest))
    for co, rest in los:
        if _sgn(co, c) <= 0:
            continue
        # co*k <= -rest  -> candidate k = floor(-rest / co)
        cand = simp_div(neg(rest), co)
        # determines k if R(k) implies k = cand
        for co2, r2 in his:
            # co k <= -rest and r2 <= -co2 k with -co2 = co: k is the quotient if -rest < co (k + 1)
            if ring_zero(add(co, co2)) and c.entails(le(add(sub(neg(rest), co), ONE), r2)):
                return cand
        if c.entails(implies(R, eq(k, cand)), 4000):
            return cand
    # disjunctions: all disjuncts must give the same k
    if R.op == 'not' and R.args[0].op == 'and':
        sols = [_solve_k(not_(x), k, c) for x in R.args[0].args]
        if sols and all(s is sols[0] for s in sols) and sols[0] is not None:
            return sols[0]
    return None


def _sgn(co, c):
    if co.op == 'const':
        return 1 if co.data > 0 else -1
    if c.entails(lt(const(0), co)):
        return 1
    if c.entails(lt(co, const(0))):
        return -1
    return 0


def _coef(d, k):
    if d is k:
        return 1, const(0)
    if d.op != 'lin' or k not in d.args:
        return None, None
    co = d.data[1][d.args.index(k)]
    rest = sub(d, scale(co, k))
    if k in free_vars(rest):
        return None, None
    return co, rest


def _coef_term(d, k):
    p = poly(d)
    co, rest = {}, {}
    for m, cf in p.items():
        dm = dict(m)
        if k in dm:
            if dm[k] != 1:
                return None, None
            del dm[k]
            co[tuple(sorted(dm.items(), key=lambda q: q[0].id))] = cf
        elif any(k in free_vars(a) for a, _ in m):
            return None, None
        else:
            rest[m] = cf
    if not co:
        return None, None
    return from_poly(co), from_poly(rest)
