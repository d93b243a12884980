"""Path exploration by re-execution, path condition, obligations."""
import os
import time
from . import smt, nonlin
from .term import *
from . import term as tm


class Unsupported(Exception):
    """the code left the fragment the generator handles: the contract is undecided"""


class Infeasible(BaseException):
    pass


class PathLimit(Unsupported):
    pass


class Obl:
    __slots__ = ('label', 'goal', 'pc', 'path', 'status', 'backend', 'time', 'model')

    def __init__(self, label, goal, pc, path):
        self.label, self.goal, self.pc, self.path = label, goal, pc, path
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None


class Ctx:
    def __init__(self, decisions=()):
        self.pc = []
        self.decisions = list(decisions)
        self.pos = 0
        self.taken = []
        self.alts = []
        self.obls = []
        self.counter = {}
        self.lenient = 0
        self.nofork = 0
        self.log = None          # loop write logs (stack of lists)
        self.overapprox = False
        self.local = None        # local (loop body) exploration
        self.assumed = []

    def fresh(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return '%s!%d' % (base, k) if k or base.startswith('$') else base

    def fresh_int(self, base, lo=None, hi=None):
        v = var(self.fresh(base), 'I')
        if lo is not None:
            # ranges are attached to names for good: never reuse a name with another range
            while RANGE.get(v, (lo, hi)) != (lo, hi):
                v = var(self.fresh(base), 'I')
            RANGE[v] = (lo, hi)
        return v

    # -- assumptions
    def assume(self, t):
        if t is TRUE:
            return
        for x in (t.args if t.op == 'and' else (t,)):
            if x not in self.pc:
                self.pc.append(x)
        if t is FALSE:
            raise Infeasible()

    def relevant(self, goal):
        """cone of influence of goal in the path condition"""
        fv = set(_syms(goal))
        rest = [(c, _syms(c)) for c in self.pc]
        out = []
        changed = True
        while changed:
            changed = False
            nxt = []
            for c, s in rest:
                if not s or s & fv:
                    out.append(c)
                    if not s <= fv:
                        fv |= s
                        changed = True
                else:
                    nxt.append((c, s))
            rest = nxt
        return out

    def entails(self, g, timeout=1000):
        if g is TRUE:
            return True
        if g in self.pc:
            return True
        if g is FALSE:
            return False
        ng = not_(g)
        if ng in self.pc:
            return False
        if g.op == 'and':
            return all(self.entails(a, timeout) for a in g.args)
        if g.op == 'eq0' and ring_zero(g.args[0]):
            return True
        if nonlin.holds(g, self.pc):
            return True
        if nonlin.holds(ng, self.pc):
            return False
        return smt.check(self.relevant(g) + [ng], timeout) == 'unsat'

    def feasible(self, extra=()):
        return smt.check(self.pc + list(extra), 1500) != 'unsat'

    # -- branching
    def branch(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.pc:
            return True
        if not_(c) in self.pc:
            return False
        if self.local is not None:
            return self.local.branch(c)
        if self.nofork:
            if self.entails(not_(c)):
                return False
            if self.entails(c):
                return True
            raise Unsupported('data dependent branch inside an element expression: %s' % show(c))
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.taken.append(d)
            if d[1] is None:           # forced earlier
                return d[0]
            self.assume(c if d[0] else not_(c))
            return d[0]
        if self.entails(c):
            d = (True, None)
        elif self.entails(not_(c)):
            d = (False, None)
        else:
            d = (True, 'f')
            self.alts.append(self.taken + [(False, 'f')])
        self.pos += 1
        self.decisions.append(d)
        self.taken.append(d)
        if d[1] is not None:
            self.assume(c if d[0] else not_(c))
        return d[0]

    def choose(self, n, what=''):
        """n-way choice (no condition)"""
        for i in range(n - 1):
            v = var(self.fresh('$choice'), 'B')
            if self.branch(v):
                return i
        return n - 1

    def ensure(self, label, goal):
        self.obls.append(Obl(label, goal, list(self.pc), len(self.taken)))


_symcache = {}


def _syms(t):
    s = _symcache.get(t)
    if s is None:
        s = set()
        for x in subterms(t):
            if x.op == 'var' and x is not PI:
                s.add(x.data)
            elif x.op == 'uf' and not x.data.startswith('$inv0'):
                s.add(x.data)
                s |= LINKSYMS.get(x.data, frozenset())
        s = frozenset(s)
        _symcache[t] = s
    return s


LINKSYMS = {}       # symbols inside the elements of a reduction atom
CTX = [Ctx()]


def ctx():
    return CTX[-1]


class Result:
    def __init__(self):
        self.obls = []
        self.paths = 0
        self.unsupported = []
        self.errors = []
        self.overapprox = False
        self.returns = []


def shim_limit(e):
    """the exception may only say that a library model lacks a parameter or an attribute"""
    if isinstance(e, TypeError):
        m = str(e)
        return 'unexpected keyword argument' in m or 'positional argument' in m or 'keyword-only' in m
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        return o is not None and type(o).__module__.startswith('engine')
    return False


def explore(run, max_paths=400, max_time=300, on_exception=None):
    res = Result()
    stack = [[]]
    t0 = time.time()
    while stack:
        if res.paths >= max_paths or time.time() - t0 > max_time:
            res.unsupported.append('path or time limit reached (%d paths)' % res.paths)
            break
        dec = stack.pop()
        c = Ctx(dec)
        CTX.append(c)
        try:
            r = run()
            res.returns.append(r)
        except Infeasible:
            pass
        except Unsupported as e:
            if os.environ.get('TB'):
                import traceback
                traceback.print_exc()
            if c.feasible():
                res.unsupported.append(str(e) or type(e).__name__)
        except RecursionError as e:
            res.unsupported.append('recursion')
        except Exception as e:
            if shim_limit(e):
                if c.feasible():
                    res.unsupported.append('%s: %s' % (type(e).__name__, e))
            elif c.feasible():
                if on_exception is None or not on_exception(c, e):
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    where = ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-5:]))
                    res.errors.append('%s: %s at %s' % (type(e).__name__, e, where))
        finally:
            CTX.pop()
        res.paths += 1
        res.overapprox |= c.overapprox
        res.obls.extend(c.obls)
        stack.extend(c.alts)
    return res
