"""plant.py SPEC.py [ids]: build, confirm and try planted bugs. SPEC defines BUGS = [dict(id, prop, file, edits=[(old,new)], demo, needs, breaks)].
Confirms in a scratch copy (/tmp/plant), then applies each to /repo only while the check runs (--check)."""
import json, os, re, runpy, shutil, subprocess, sys
V = '/verif'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', PROJ_NETWORK='OFF')
def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
spec = sys.argv[1]
ids = [a for a in sys.argv[2:] if not a.startswith('--')]
check = '--check' in sys.argv
only_check = '--only-check' in sys.argv
W = '/tmp/plant_' + os.path.basename(spec).replace('.py', '')
bugs = runpy.run_path(spec)['BUGS']
if not only_check:
    shutil.rmtree(W, ignore_errors=True)
    sh('cp -a /repo %s' % W)
for b in bugs:
    if ids and b['id'] not in ids:
        continue
    d = '%s/seeded/%s' % (V, b['id'])
    if not only_check:
        sh('git checkout -q -- . && git clean -fdq', W)
        f = W + '/' + b['file']
        s = open(f, newline='').read()
        crlf = '\r\n' in s
        ok = True
        for old, new in b['edits']:
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                print(b['id'], 'EDIT MATCHES', s.count(old), repr(old[:60])); ok = False
                break
            s = s.replace(old, new)
        if not ok:
            continue
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, W, 300)
        open(f, 'w', newline='').write(s)
        p = sh('git diff', W)
        open(d + '/patch.diff', 'w').write(p.stdout)
        r1 = sh('bash %s/demo.sh' % d, W, 300)
        t = sh('/opt/venv/bin/python -m pytest tests/tests tests/timings -q -p no:cacheprovider -W ignore 2>&1 | tail -3', W)
        # changed lines must be original ones
        good = r0.returncode == 0 and r1.returncode != 0 and 'failed' not in t.stdout and 'passed' in t.stdout
        print(b['id'], 'demo', r0.returncode, r1.returncode, t.stdout.strip().split('\n')[-1], 'OK' if good else 'BAD')
        if r0.returncode:
            print(r0.stdout[-1500:], r0.stderr[-1500:])
        if r1.returncode == 0:
            print(r1.stdout[-300:])
        if not good:
            shutil.rmtree(d)
            continue
    if check or only_check:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode:
            print(b['id'], 'does not apply', a.stderr); continue
        try:
            r = sh('python3-vt check.py %s' % b['prop'], V)
        finally:
            sh('git -C /repo checkout -q -- .')
        print(b['id'], 'check exit', r.returncode, [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'undecided' in l][:3])
if not only_check:
    shutil.rmtree(W, ignore_errors=True)
