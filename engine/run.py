"""Proof of one contract: explore the paths, then discharge every obligation."""
import time
import traceback
from . import smt, prover
from .ctx import explore, ctx, CTX, Unsupported
from .term import *
from . import loader, vapi, shims, loops


class CReport:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.paths = 0
        self.unsupported = []
        self.errors = []
        self.overapprox = False
        self.wall = 0
        self.models = []
        self.feasible = False


def reset():
    smt._cache.clear()


def prove(contract, max_time=200, obl_budget=90):
    t0 = time.time()
    loader.install()
    rep = CReport(contract.name)
    inputs = []

    feas = [False]

    def body():
        V = vapi.VS()
        inputs[:] = []
        try:
            contract.fn(V)
            if not feas[0] and ctx().feasible():
                feas[0] = True
        finally:
            V.cleanup()
            inputs.append(V.inputs)
        return V.inputs

    errs = []

    def on_exc(c, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-4:]))
        # an exception on a path whose condition is satisfiable
        c.ensure('no exception: %s: %s at %s' % (type(e).__name__, str(e)[:120], where), FALSE)
        c.obls[-1].path = list(inputs[-1]) if inputs else None
        errs.append(where)
        return True

    res = explore(body, max_paths=contract.max_paths, max_time=max_time, on_exception=on_exc)
    rep.paths = res.paths
    rep.unsupported = sorted(set(res.unsupported))
    rep.errors = res.errors
    rep.overapprox = res.overapprox
    rep.feasible = feas[0]
    seen = {}
    for o in res.obls:
        key = (o.label, o.goal, frozenset(o.pc))
        if key in seen:
            continue
        seen[key] = o
        rep.obls.append(o)
        prover.discharge(o, obl_budget if time.time() - t0 < max_time else 5)
    rep.inputs = inputs[-1] if inputs else []
    rep.wall = time.time() - t0
    return rep


def model_values(o, inputs, limit=4000):
    """values of the declared inputs in the counterexample model of an obligation"""
    import z3
    m = o.model
    if m is None:
        return None
    out = {}

    def num_(e):
        e = m.eval(e, model_completion=True)
        if z3.is_algebraic_value(e):
            e = e.approx(20)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return e.numerator_as_long() / e.denominator_as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return None
    dims = {}
    for name, kind, t, srt in inputs:
        try:
            if kind in ('int', 'real', 'bool'):
                out[name] = num_(smt.z(t))
            elif kind == 'choice':
                out[name] = t
            elif kind == 'array':
                sh = [num_(smt.z(d)) for d in t]
                n = 1
                for d in sh:
                    n *= max(d, 0)
                if n <= limit:
                    import itertools
                    out[name] = {'shape': sh, 'data': [num_(smt.z(uf(name, tuple(const(i) for i in idx), srt)))
                                                       for idx in itertools.product(*[range(d) for d in sh])]}
        except Exception:
            pass
    return out
