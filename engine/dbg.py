import sys, time, os
sys.path.insert(0, '/verif')
from engine import capi, run, prover, smt
from engine.term import show
cs = capi.load(sys.argv[1])
for c in cs:
    if len(sys.argv) > 2 and sys.argv[2] not in c.name and sys.argv[2] != c.fn.__name__:
        continue
    if c.bounded:
        print('--', c.name, 'bounded only'); continue
    r = run.prove(c)
    st = {}
    for o in r.obls:
        st[o.status] = st.get(o.status, 0) + 1
    print('--', c.name, '| paths', r.paths, st, 'feasible', r.feasible, 'unsup', r.unsupported[:3], 'over', r.overapprox, '%.1fs' % r.wall)
    for o in r.obls:
        if o.status != 'discharged':
            print('   ', o.label, o.status, '%.1f' % o.time)
            print('      goal', show(o.goal)[:700])
            print('      pc', [show(p)[:160] for p in o.pc][:12])
            if o.backend: print('      failed', show(o.backend[1])[:500])
            m = run.model_values(o, r.inputs)
            print('      model', str(m)[:400])
            if not os.environ.get('ALL'): break
print(prover.BACKENDS, smt.stats)
