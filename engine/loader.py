"""Imports resippy from /repo's current source with the for statements, comprehensions and
list displays instrumented (nothing else is changed and nothing is dropped), and with numpy,
pint, pyproj, ... replaced by their contracts (shims)."""
import ast
import builtins as B
import importlib.abc
import importlib.machinery
import math as _math
import numbers
import os
import sys
import types
from .sym import *
from .term import *
from .arr import *
from . import arr as A
from . import loops
from .ctx import ctx, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')


# ------------------------------------------------------------------ AST transform
class _Stores(ast.NodeVisitor):
    def __init__(self):
        self.names = []
        self.loads = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.add(n.id)
        elif n.id not in self.loads:
            self.loads.append(n.id)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            if n.target.id not in self.loads:
                self.loads.append(n.target.id)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.add(n.name)
        self._inner(n)

    def visit_Lambda(self, n):
        self._inner(n)

    def _inner(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in self.loads:
                self.loads.append(x.id)

    def visit_ListComp(self, n):
        self._inner(n)
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)


def _parse(s):
    return ast.parse(s).body


class Transform(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.k = 0
        self.infunc = 0
        self.loops = []          # enclosing instrumented loops (variable names)
        self.inner_plain = []    # depth of uninstrumented loops inside the innermost instrumented one

    def visit_FunctionDef(self, n):
        sl, sp = self.loops, self.inner_plain
        self.loops, self.inner_plain = [], []
        self.infunc += 1
        n.body = [self.visit(x) for x in n.body]
        n.body = _flat(n.body)
        self.infunc -= 1
        self.loops, self.inner_plain = sl, sp
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def visit_ClassDef(self, n):
        s, self.infunc = self.infunc, 0
        sl, self.loops = self.loops, []
        self.generic_visit(n)
        self.infunc = s
        self.loops = sl
        return n

    def visit_While(self, n):
        self.inner_plain.append(1)
        n.test = self.visit(n.test)
        n.body = _flat([self.visit(x) for x in n.body])
        self.inner_plain.pop()
        n.orelse = _flat([self.visit(x) for x in n.orelse])
        return n

    def visit_For(self, n):
        if not self.infunc or n.orelse or not _delable(n):
            self.inner_plain.append(1)
            n.iter = self.visit(n.iter)
            n.body = _flat([self.visit(x) for x in n.body])
            self.inner_plain.pop()
            n.orelse = _flat([self.visit(x) for x in n.orelse])
            return n
        st = _Stores()
        st.visit(n.target)
        for x in n.body:
            st.visit(x)
        names = st.names
        st2 = _Stores()
        st2.visit(n.iter)
        loads = [x for x in st.loads + st2.loads if x not in names]
        loads = list(dict.fromkeys(loads))
        self.k += 1
        v = '__st%d' % self.k
        it_ = self.visit(n.iter)
        self.loops.append(v)
        sp, self.inner_plain = self.inner_plain, []
        body = _flat([self.visit(x) for x in n.body])
        self.inner_plain = sp
        self.loops.pop()
        tup = '(%s,)' % ', '.join(names)
        gets = '(%s,)' % ', '.join('(lambda: %s)' % x for x in names)
        refs = '(%s)' % ''.join('(lambda: %s),' % x for x in loads)
        src = '''
for {v} in __loop__(None, {site!r}, {names!r}, {gets}, {refs}):
    if {v}.sym:
        {tup} = {v}.state()
        if {v}.final:
            break
    None
    try:
        for __once in (0,):
            pass
    except BaseException as __e:
        if not {v}.caught(__e):
            raise
    if {v}.local:
        {v}.capture({gets})
    if {v}.brk and not {v}.local:
        break
'''.format(v=v, site='%s:%d' % (self.fname, n.lineno), names=tuple(names), gets=gets, refs=refs, tup=tup)
        new = _parse(src)[0]
        new.iter.args[0] = it_
        asg = ast.Assign(targets=[n.target], value=_parse(v + '.item')[0].value, lineno=n.lineno)
        new.body[1] = asg
        new.body[2].body[0].body = body
        for x in ast.walk(new):
            if not hasattr(x, 'lineno') or x not in body:
                pass
        ast.copy_location(new, n)
        _relocate(new, n, set(id(x) for b in body for x in ast.walk(b)) | set(id(x) for x in ast.walk(it_)))
        return new

    def visit_Break(self, n):
        if self.loops and not self.inner_plain:
            a = _parse('%s.brk = True' % self.loops[-1])[0]
            _relocate(a, n, set())
            return [a, n]
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if self.loops:
            t = _parse('if %s: raise __LoopReturn__()' % ' or '.join('%s.local' % v for v in self.loops))[0]
            _relocate(t, n, set())
            return [t, n]
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            call = _parse('__comp__(None, None)')[0].value
            if isinstance(g.target, ast.Name):
                f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.elt)
            elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=e.id) for e in g.target.elts], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.elt)
                f = _parse('lambda __t: (None)(*__t)')[0].value
                f.body.func = inner
            else:
                return n
            if any(isinstance(x, (ast.Yield, ast.NamedExpr, ast.Await)) for x in ast.walk(n.elt)):
                return n
            if not self.infunc:
                return n
            call.args = [f, g.iter]
            _relocate(call, n, set(id(x) for x in ast.walk(n.elt)) | set(id(x) for x in ast.walk(g.iter)))
            return call
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infunc:
            call = _parse('__pylist__(None)')[0].value
            _relocate(call, n, set())
            call.args = [n]
            return call
        return n


def _delable(n):
    """del statements or global declarations inside the loop keep it uninstrumented"""
    for b in n.body:
        for x in ast.walk(b):
            if isinstance(x, (ast.Delete, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)):
                return False
    return True


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out.extend(x)
        elif x is not None:
            out.append(x)
    return out


def _relocate(root, ref, keep):
    for x in ast.walk(root):
        if id(x) in keep:
            continue
        if hasattr(x, 'lineno') or isinstance(x, (ast.expr, ast.stmt, ast.arg, ast.excepthandler)):
            x.lineno = ref.lineno
            x.end_lineno = ref.lineno
            x.col_offset = ref.col_offset
            x.end_col_offset = ref.col_offset


def instrument(src, fname):
    tree = ast.parse(src, fname)
    # statement lists holding break/return need flattening
    tr = Transform(fname)
    orig = tr.generic_visit

    def gv(node):
        return orig(node)
    tree = tr.visit(tree)
    ast.fix_missing_locations(tree)
    return tree


# ------------------------------------------------------------------ builtins
def symlen(x):
    if isinstance(x, SymArr):
        if not x.tshape:
            raise TypeError('len() of unsized object')
        return pdim(x.tshape[0])
    if isinstance(x, loops.PyList) and x._sym is not None:
        return x._sym._symlen()
    if hasattr(x, '_symlen'):
        return x._symlen()
    return B.len(x)


def xrange(*a):
    ts = [it(x) for x in a]
    if all(t.op == 'const' for t in ts):
        return B.range(*[int(t.data) for t in ts])
    if B.len(ts) == 1:
        return SymRange(const(0), ts[0])
    if B.len(ts) == 2:
        return SymRange(*ts)
    if ts[2].op != 'const':
        if ctx().entails(lt(const(0), ts[2])) is False and ctx().entails(lt(ts[2], const(0))) is False:
            raise Unsupported('range with symbolic step of unknown sign')
    return SymRange(*ts)


def scal(x):
    if is_arr(x):
        return x._as_scalar()
    if hasattr(x, '_symq'):
        return x._as_scalar()
    return x


class IntMeta(type):
    def __instancecheck__(cls, x):
        return B.isinstance(x, B.int) or (B.isinstance(x, SymNum) and x.py and x.t.sort == 'I')

    def __subclasscheck__(cls, x):
        return x is cls or B.issubclass(x, B.int)


class xint(B.int, metaclass=IntMeta):
    def __new__(cls, x=0, *a):
        if B.isinstance(x, str) or a:
            return B.int(x, *a)
        x = scal(x)
        if B.isinstance(x, SymBool):
            return wrapv((ite(x.t, ONE, const(0)), FALSE), True)
        if B.isinstance(x, SymNum):
            if x.u is not FALSE and ctx().branch(x.u):
                raise ValueError('cannot convert float NaN to integer')
            return wrapv((trunc(x.t), FALSE), True)
        return B.int(x)


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return B.isinstance(x, B.float) or (B.isinstance(x, SymNum) and x.t.sort == 'R' and (x.py or x.dtype is A.FLOAT64))

    def __subclasscheck__(cls, x):
        return x is cls or B.issubclass(x, B.float)


class xfloat(B.float, metaclass=FloatMeta):
    def __new__(cls, x=0.0):
        if B.isinstance(x, str):
            return B.float(x)
        x = scal(x)
        if B.isinstance(x, SymBool):
            return wrapv((num(ite(x.t, ONE, const(0))), FALSE), True)
        if B.isinstance(x, SymNum):
            t = x.t
            return floating(wrapv((tofloat(t), x.u), True))
        if x is None or B.isinstance(x, (list, dict)):
            raise TypeError('float() argument')
        return B.float(x)


def tofloat(t):
    return as_real(t)


def _tofloat_old(t):
    if t.sort == 'R':
        return t
    if t.op == 'const':
        return const(t.data, 'R')
    return mk_real(t)


def mk_real(t):
    return add(t, const(0, 'R')) if add(t, const(0, 'R')).sort == 'R' else t


xint.__name__ = 'int'
xfloat.__name__ = 'float'
xint.__qualname__ = 'int'
xfloat.__qualname__ = 'float'


class BoolMeta(type):
    def __instancecheck__(cls, x):
        return B.isinstance(x, (B.bool, SymBool))


class xbool(metaclass=BoolMeta):
    def __new__(cls, x=False):
        if B.isinstance(x, SymBool):
            return x
        if B.isinstance(x, SymNum):
            return x != 0
        return B.bool(x)


xbool.__name__ = 'bool'


class TypeMeta(type):
    def __instancecheck__(cls, x):
        return B.isinstance(x, B.type)


class xtype(B.type):
    def __new__(cls, *a, **k):
        if B.len(a) == 1:
            x = a[0]
            if B.isinstance(x, SymBool) or B.isinstance(x, B.bool):
                return xbool
            if B.isinstance(x, SymNum):
                if x.py:
                    return xint if x.t.sort == 'I' else xfloat
                return x.dtype
            if B.isinstance(x, B.int):
                return xint
            if B.isinstance(x, B.float):
                return xfloat
            if B.isinstance(x, loops.PyList):
                return list
            if B.isinstance(x, str):
                return xstr
            return B.type(x)
        return B.type(*a, **k)


class StrMeta(type):
    def __instancecheck__(cls, x):
        return B.isinstance(x, B.str)


class xstr(B.str, metaclass=StrMeta):
    def __new__(cls, x='', *a):
        return B.str(x, *a)


xstr.__name__ = 'str'


def xisinstance(x, t):
    ts = t if B.isinstance(t, tuple) else (t,)
    for q in ts:
        if q is SymArr or q is loops.SymList:
            if B.isinstance(x, q):
                return True
        elif B.isinstance(q, A.DType):
            if B.isinstance(x, SymNum) and x.dtype is q and not x.py:
                return True
        elif q is list:
            if B.isinstance(x, (list, loops.SymList)):
                return True
        elif B.isinstance(x, q):
            return True
    return False


def _red(a, f, tf):
    if B.len(a) == 1:
        x = a[0]
        if B.isinstance(x, SymArr):
            if x.ndim != 1:
                raise ValueError('ambiguous')
            return x.max() if f is B.max else x.min()
        a = list(x)
    vs = [val(scal(x)) for x in a]
    if B.any(v is None for v in vs):
        return f(a)
    if all_const(vs):
        return f(a)
    t, u = vs[0]
    for v in vs[1:]:
        t, u = tf(t, v[0]), or_(u, v[1])
    return wrapv((t, u), all(B.getattr(x, 'py', True) for x in a))


def all_const(vs):
    return B.all(v[0].op == 'const' and v[1] is FALSE for v in vs)


def xmax(*a, **k):
    if k:
        return B.max(*a, **k)
    return _red(a, B.max, max_)


def xmin(*a, **k):
    if k:
        return B.min(*a, **k)
    return _red(a, B.min, min_)


def xsum(x, start=0):
    if B.isinstance(x, SymArr):
        if x.ndim == 1:
            return x.sum()
        return A.reduce_sum(x, 0)
    if B.isinstance(x, loops.SymIter) and x.n.op != 'const':
        b = binder(const(0), x.n, 77)
        v = vt(x.at(b))
        return wrapv((sum_(b, const(0), x.n, v[0]), FALSE), True)
    r = start
    for e in x:
        r = r + e
    return r


def xround(x, n=None):
    x = scal(x)
    if B.isinstance(x, SymNum):
        if n is not None and n != 0:
            raise Unsupported('round to decimals')
        return wrapv((round_even(x.t), x.u), True)
    return B.round(x, n)


def xenumerate(x, start=0):
    s = loops.as_symiter(_ls(x))
    if s is not None and s.n.op != 'const':
        st = it(start)
        return loops.SymIter(s.n, lambda k: (wrapv((add(k, st), FALSE), True), s.at(k)))
    return B.enumerate(x, start)


def _ls(x):
    if B.isinstance(x, loops.PyList) and x._sym is not None:
        return x._sym
    return x


def xzip(*xs):
    ss = [loops.as_symiter(_ls(x)) for x in xs]
    if B.any(s is not None and s.n.op != 'const' for s in ss):
        if B.any(s is None for s in ss):
            raise Unsupported('zip of symbolic and concrete sequences')
        n = ss[0].n
        for s in ss[1:]:
            if not same_dim(n, s.n):
                n = min_(n, s.n)
        return loops.SymIter(n, lambda k: tuple(s.at(k) for s in ss))
    return B.zip(*xs)


def xlist(x=()):
    x = _ls(x)
    if B.isinstance(x, loops.SymSet):
        return x
    s = None if B.isinstance(x, (list, tuple)) else loops.as_symiter(x)
    if s is not None and s.n.op != 'const':
        return loops.SymList(s.n, s.at)
    return loops.PyList(x)


class ListMeta(type):
    def __instancecheck__(cls, x):
        return B.isinstance(x, (list, loops.SymList))


def xreversed(x):
    s = None if B.isinstance(x, (list, tuple)) else loops.as_symiter(_ls(x))
    if s is not None and s.n.op != 'const':
        return loops.SymIter(s.n, lambda k: s.at(sub(sub(s.n, ONE), k)))
    return B.reversed(x)


def comp(f, itr):
    itr = _ls(itr)
    s = None if B.isinstance(itr, (list, tuple, B.range)) else loops.as_symiter(itr)
    if s is not None and s.n.op != 'const':
        memo = {}

        def at(k):
            if k not in memo:
                with loops.nofork():
                    memo[k] = f(s.at(k))
            return memo[k]
        return loops.SymList(s.n, at)
    if s is not None:
        itr = [s.at(const(i)) for i in B.range(B.int(s.n.data))]
    return loops.PyList([f(x) for x in itr])


def xprint(*a, **k):
    pass


def xmap(f, *xs):
    if B.len(xs) == 1:
        s = None if B.isinstance(xs[0], (list, tuple)) else loops.as_symiter(xs[0])
        if s is not None and s.n.op != 'const':
            return loops.SymIter(s.n, lambda k: f(s.at(k)))
    return B.map(f, *xs)


def xset(*a):
    x = _ls(a[0]) if a else ()
    s = None if B.isinstance(x, (tuple, B.set)) or B.isinstance(x, list) else loops.as_symiter(x)
    if s is not None and s.n.op != 'const':
        return loops.SymSet(x if B.isinstance(x, SymArr) else asarr(x))
    return B.set(*a)


class SetMeta(type):
    def __instancecheck__(cls, x):
        return B.isinstance(x, (B.set, loops.SymSet))


class xsetT(B.set, metaclass=SetMeta):
    def __new__(cls, *a):
        return xset(*a)


def xsorted(x, **k):
    x = _ls(x)
    if B.isinstance(x, loops.SymSet) and not k:
        return x.sorted()
    if hasattr(x, '_symlen'):
        raise Unsupported('sorting a symbolic sequence')
    return loops.PyList(B.sorted(x, **k))


def xabs(x):
    return B.abs(x)


def xpow(x, y, *a):
    return x ** y


OPENER = [None]


def xopen(fname, mode='r', *a, **k):
    if OPENER[0] is not None:
        return OPENER[0](fname, mode)
    raise Unsupported('open(%r)' % (fname,))


def ximport(name, globals=None, locals=None, fromlist=(), level=0):
    from . import shims
    if level == 0 and (name in shims.MODS or name.split('.')[0] in shims.MODS):
        if name not in shims.MODS:
            raise ImportError(name)
        return shims.MODS[name] if fromlist else shims.MODS[name.split('.')[0]]
    return B.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(B))
BUILTINS['__import__'] = ximport
BUILTINS.update(dict(len=symlen, range=xrange, int=xint, float=xfloat, bool=xbool, type=xtype, isinstance=xisinstance,
                     max=xmax, min=xmin, sum=xsum, round=xround, enumerate=xenumerate, zip=xzip, reversed=xreversed, print=xprint,
                     map=xmap, sorted=xsorted, set=xsetT, open=xopen, str=xstr,
                     __loop__=loops.loop, __pylist__=loops.PyList, __comp__=comp, __LoopReturn__=loops.LoopReturn))
# list() needs to stay a type
class xlistT(list, metaclass=ListMeta):
    def __new__(cls, *a):
        return xlist(*a)


xlistT.__name__ = 'list'
BUILTINS['list'] = xlistT


# ------------------------------------------------------------------ import hook
SOURCES = {}      # file -> source text read in this run


class RepoLoader(importlib.abc.Loader):
    def __init__(self, fname, pkg):
        self.fname, self.pkg = fname, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.fname) as f:
            src = f.read()
        SOURCES[self.fname] = src
        tree = instrument(src, self.fname)
        code = compile(tree, self.fname, 'exec')
        module.__dict__['__builtins__'] = BUILTINS
        exec(code, module.__dict__)


class RepoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'resippy' and not name.startswith('resippy.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            if not os.path.exists(f):
                sp = importlib.machinery.ModuleSpec(name, None, is_package=True)
                sp.submodule_search_locations = [base]
                return sp
            sp = importlib.machinery.ModuleSpec(name, RepoLoader(f, True), origin=f, is_package=True)
            sp.submodule_search_locations = [base]
            sp.has_location = True
            return sp
        if os.path.exists(base + '.py'):
            sp = importlib.machinery.ModuleSpec(name, RepoLoader(base + '.py', False), origin=base + '.py')
            sp.has_location = True
            return sp
        return None


INSTALLED = [False]


def install():
    if INSTALLED[0]:
        return
    INSTALLED[0] = True
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    from . import shims
    shims.build()
    numbers.Number.register(SymNum)
    sys.meta_path.insert(0, RepoFinder())
    sys.path.insert(0, REPO)
    sys.path.remove(REPO)


def load(name):
    install()
    import importlib as il
    return il.import_module(name)
