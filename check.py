"""check.py PROP: generate and discharge the proof obligations of PROP from /repo's current source.

exit 0: every obligation discharged (contracts outside the verifier's reach: bounded run passed)
exit 1: VIOLATION property=PROP replay=FILE [no-failing-input-found]"""
import json
import multiprocessing as mp
import os
import re
import subprocess
import tempfile
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'


def worker(args):
    prop, i, budget = args
    sys.path.insert(0, HERE)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    from engine import capi, run, smt, prover, shims, loader
    from engine.term import show
    c = capi.load(prop)[i]
    try:
        r = run.prove(c, max_time=budget, obl_budget=budget / 2)
    except BaseException as e:
        import traceback
        return {'name': c.name, 'crash': '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-800:])}
    obls = []
    for o in r.obls:
        d = {'label': o.label, 'status': o.status, 'time': round(o.time, 3)}
        if o.status != 'discharged':
            d['goal'] = show(o.goal)[:3000]
            d['pc'] = [show(p)[:500] for p in o.pc][:30]
            d['genuine'] = genuine(o)
            inp = o.path if isinstance(o.path, list) else r.inputs
            try:
                d['model'] = run.model_values(o, inp)
            except Exception as e:
                d['model'] = None
            if o.backend:
                d['failed_subgoal'] = show(o.backend[1])[:2000]
        obls.append(d)
    return {'name': c.name, 'paths': r.paths, 'obls': obls, 'unsupported': r.unsupported, 'errors': r.errors, 'over': r.overapprox,
            'feasible': r.feasible, 'wall': round(r.wall, 2), 'backends': dict(prover.BACKENDS), 'stats': dict(smt.stats),
            'libs': sorted(shims.USED)}


def genuine(o):
    """the counterexample of z3 is a real one: nothing abstracted in the query"""
    from engine.term import subterms
    if o.status != 'refuted' or o.label.startswith('no exception'):
        return False        # an exception must be reproduced on the real code
    ts = set(subterms(o.goal))
    for p in o.pc:
        ts |= subterms(p)
    for t in ts:
        if t.op in ('fn', 'sum', 'rmax', 'rmin'):
            return False
        if t.op == 'uf' and t.data.startswith('$'):
            return False
        if t.op == 'var' and (t.data == 'pi' or str(t.data).startswith(('$h', '$L', '$choice'))):
            return False
    return True


def concrete(prop, args, timeout):
    env = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', PROJ_NETWORK='OFF',
               OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2')
    f = tempfile.TemporaryFile('w+')
    json.dump(args, f)
    f.seek(0)
    return subprocess.Popen([PY, os.path.join(HERE, 'engine', 'concrete.py'), prop, '-'], env=env, stdin=f,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=HERE)


def collect(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
    reps = {}
    for l in out.split('\n'):
        if l.startswith('@@'):
            d = json.loads(l[2:])
            reps[d['contract']] = d
    return reps, err[-2000:] if p.returncode else ''


def known(prop):
    out = []
    f = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == prop and d.get('kind') == 'finding':
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = TIER
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    from engine import capi
    cs = capi.load(prop)
    budget = 150 if tier == 'quick' else 500
    mult = 1 if tier == 'quick' else 8
    pc = concrete(prop, {'seed': SEED, 'mult': mult}, 0)
    jobs = [(prop, i, min(budget, c.max_time)) for i, c in enumerate(cs) if not c.bounded]
    results = {}
    ctxm = mp.get_context('fork')
    with ctxm.Pool(7, maxtasksperchild=1) as pool:
        asyncs = [(cs[j[1]].name, pool.apply_async(worker, (j,))) for j in jobs]
        deadline = time.time() + (420 if tier == 'quick' else 1500)
        for name, a in asyncs:
            try:
                results[name] = a.get(timeout=max(5, deadline - time.time()))
            except mp.TimeoutError:
                results[name] = {'name': name, 'crash': 'time limit'}
        pool.terminate()
    left = lambda end: max(10, t0 + end - time.time())
    reps, err = collect(pc, min(300, left(600)) if tier == 'quick' else 1200)

    # second concrete run for what was not proved, guided by the solver's counterexamples
    todo, givens = [], {}
    for c in cs:
        r = results.get(c.name)
        if c.bounded or r is None:
            continue
        bad = bool(r.get('crash')) or r.get('unsupported') or r.get('errors') or r.get('over') or not r.get('feasible') \
            or not r.get('obls') or any(o['status'] != 'discharged' for o in r['obls'])
        if bad and not (reps.get(c.name) or {}).get('fail'):
            todo.append(c.name)
            gs = [o['model'] for o in r.get('obls', []) if o.get('model')]
            givens[c.name] = gs[:40]
    if todo:
        p2 = concrete(prop, {'seed': SEED + 1000, 'mult': 6 * mult, 'names': todo, 'givens': givens}, 0)
        reps2, err2 = collect(p2, min(240, left(820)) if tier == 'quick' else 600)
        err = err or err2
        for n, d in reps2.items():
            if n in reps:
                d['ok'] += reps[n]['ok']
                d['checks'] += reps[n]['checks']
            reps[n] = d

    kf = known(prop)
    violations = []        # (contract, label, detail, failing input or None)
    kfout = []
    nobl = ndis = 0
    per = []
    backends, stats, libs = {}, {}, set()
    funcs = []
    bounded_notes = []
    for c in cs:
        r = results.get(c.name)
        rep = reps.get(c.name)
        ent = {'contract': c.name, 'functions': c.funcs}
        fail = rep and rep.get('fail')
        if fail:
            violations.append((c.name, fail['label'], fail['message'], fail))
        if c.bounded:
            ent['status'] = 'bounded'
            ent['note'] = c.note
        elif r is None or r.get('crash'):
            ent['status'] = 'undecided (bounded stand-in)'
            ent['reason'] = (r or {}).get('crash', 'no result')
        else:
            for k, v in r['backends'].items():
                backends[k] = backends.get(k, 0) + v
            for k, v in r['stats'].items():
                stats[k] = stats.get(k, 0) + v
            libs |= set(r['libs'])
            n, d = len(r['obls']), sum(o['status'] == 'discharged' for o in r['obls'])
            nobl += n
            ndis += d
            ent.update(obligations=n, discharged=d, paths=r['paths'], wall_s=r['wall'])
            reasons = list(r['unsupported']) + list(r['errors'])
            if not n:
                reasons.append('no obligation generated')
            if not r['feasible']:
                reasons.append('precondition unsatisfiable on every explored path')
            undis = [o for o in r['obls'] if o['status'] != 'discharged']
            if undis and not fail:
                gen = [o for o in undis if o.get('genuine')] if not r['over'] else []
                if gen:
                    violations.append((c.name, gen[0]['label'], 'obligation refuted by the solver', None))
                reasons += ['obligation not discharged: %s (%s)' % (o['label'], o['status']) for o in undis[:5]]
            if reasons:
                ent['status'] = 'undecided (bounded stand-in)'
                ent['reason'] = reasons[:6]
                ent['undischarged'] = undis[:5]
            else:
                ent['status'] = 'proved'
                funcs += c.funcs
        if rep:
            ent['concrete_runs'] = rep['ok']
            ent['concrete_checks'] = rep['checks']
        else:
            ent['concrete_runs'] = 0
        if ent['status'] != 'proved':
            bounded_notes.append('%s: %s, %d concrete runs of the real code' % (c.name, ent['status'], ent['concrete_runs']))
        per.append(ent)

    real = []
    for v in violations:
        k = next((d for d in kf if d['contract'] == v[0] and re.search(d['label'], v[1]) and re.search(d.get('message', ''), v[2] or '')), None)
        if k:
            kfout.append(k)
        else:
            real.append(v)
    nfail = len(real)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = None
    if real:
        real.sort(key=lambda v: v[3] is None)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        replay = os.path.join('replays', '%s.json' % prop)
        n, lab, det, fi = real[0]
        r = results.get(n) or {}
        with open(os.path.join(HERE, replay), 'w') as f:
            json.dump({'property': prop, 'contract': n, 'obligation': lab, 'detail': det, 'failing_input': fi,
                       'failed_obligations': [o for o in r.get('obls', []) if o['status'] != 'discharged'][:10],
                       'solver': 'z3 %s, ring normaliser' % _z3v(), 'replay_cmd': '%s engine/concrete.py --replay %s' % (PY, replay),
                       'other_failures': [[a, b, c_] for a, b, c_, _ in real[1:]]}, f, indent=1, default=str)
    proved = [e for e in per if e['status'] == 'proved']
    samples = [{'contract': e['contract'], 'obligations': e.get('obligations'), 'status': e['status']} for e in per[:6]]
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': 'proof', 'coverage': {
        'obligations': max(nobl, 0), 'discharged': ndis, 'checker_cmd': 'python3-vt check.py %s' % prop,
        'trusted_base': ['engine/ (obligation generator, ring normaliser)', 'z3 %s' % _z3v(), 'CPython 3.12 semantics of straight-line code',
                         'engine/npshim.py, engine/arr.py (numpy contracts, cross-checked against numpy by the concrete runs)'] + sorted(libs),
        'functions_under_contract': sorted(set(funcs)), 'contracts': per, 'back_ends': backends, 'solver_calls': stats.get('z3_calls', 0),
        'solver_time_s': round(stats.get('z3_time', 0), 2), 'cvc5_calls': stats.get('cvc5_calls', 0),
        'contracts_proved': len(proved), 'contracts_total': len(per), 'bounded': bounded_notes,
        'evaluations': sum(e.get('concrete_runs', 0) for e in per),
        'rule': 'concrete runs: pseudo-random inputs satisfying the precondition, real code with real libraries', 'samples': samples,
        'known_findings': [k['what'] for k in kfout]},
        'assumptions': ['floating point arithmetic is treated as exact real arithmetic, integers as unbounded (8/16-bit array dtypes wrap)',
                        'array arguments do not alias each other unless the contract says so'] + sorted(libs),
        'wall_s': round(time.time() - t0, 2), 'violations': nfail}
    if err:
        ev['coverage']['concrete_runner_error'] = err[-500:]
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d/%d contracts proved, %d concrete runs, %.1fs'
          % (prop, nobl, ndis, len(proved), len(per), ev['coverage']['evaluations'], time.time() - t0))
    for b in bounded_notes:
        print('  bounded: ' + b)
    for e in per:
        if e['status'].startswith('undecided'):
            print('  undecided: %s: %s' % (e['contract'], str(e.get('reason'))[:600]))
    for k in kfout:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if not reps:
        print('error: the concrete runner gave no result: %s' % err)
        sys.exit(2)
    if real:
        n, lab, det, fi = real[0]
        print('  failed obligation: %s / %s: %s' % (n, lab, det))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if fi else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
