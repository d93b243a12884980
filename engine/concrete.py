"""Runs contracts on the real code (bounded): /opt/venv/bin/python concrete.py PROP JSON-ARGS"""
import ast
import contextlib
import io
import json
import os
import resource
import signal
import sys
import time
import traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('PROJ_NETWORK', 'OFF')
from engine import vconc, capi
vconc.install()


def numbers(c):
    """the numbers written in the functions under contract: inputs next to them are tried as well"""
    if hasattr(c, 'numbers'):
        return c.numbers
    own, rest = set(), set()
    for mod in {f.split(':')[0] for f in c.funcs}:
        names = {f.split(':')[1].split('.')[-1] for f in c.funcs if f.split(':')[0] == mod}
        try:
            tree = ast.parse(open(os.path.join(vconc.REPO, mod.replace('.', '/') + '.py')).read())
        except Exception:
            continue
        inner = set()
        for d in ast.walk(tree):
            if isinstance(d, ast.FunctionDef) and d.name in names:
                inner |= set(ast.walk(d))
        for x in ast.walk(tree):
            if isinstance(x, ast.Constant) and type(x.value) in (int, float) and abs(x.value) < 1e9:
                for v in (x.value, -x.value):
                    (own if x in inner else rest).add(v)
    c.numbers = sorted(own), sorted(rest - own)
    return c.numbers


class Slow(BaseException):
    pass


def slow(*_):
    raise Slow()


def one(c, seed, it, given=None):
    """('ok'|'reject'|'fail', detail)"""
    v = vconc.VC(seed, it, given, numbers(c))
    large = str(it).startswith('large')
    out = io.StringIO()
    try:
        if large:
            v.enlarge()
            signal.signal(signal.SIGALRM, slow)
            signal.setitimer(signal.ITIMER_REAL, 3)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            c.fn(v)
        return 'ok', v.checks, v
    except vconc.Reject:
        return 'reject', None, v
    except Slow:
        return 'reject', 'slow', v
    except MemoryError:
        return 'reject', None, v        # more than this process may use
    except vconc.Fail as e:
        return 'fail', {'label': e.label, 'message': e.msg}, v
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.relpath(f.filename, vconc.REPO), f.lineno) for f in reversed(tb[-4:]))
        return 'fail', {'label': 'no exception', 'message': '%s: %s at %s' % (type(e).__name__, e, where)}, v
    finally:
        if large:
            signal.setitimer(signal.ITIMER_REAL, 0)
        v.cleanup()


def run_contract(c, seed, samples, seconds, givens=()):
    t0 = time.time()
    rep = {'contract': c.name, 'ok': 0, 'reject': 0, 'checks': 0, 'fail': None}

    def failed(d, v, origin):
        d = dict(d)
        d['inputs'] = {k: vconc.tojson(x) for k, x in v.inputs.items()}
        d['origin'] = origin
        rep['fail'] = d
    for g in givens:
        if time.time() - t0 > 60:
            break
        for k in range(4):
            st, d, v = one(c, seed, 'given%d' % k, g)
            if st == 'fail':
                failed(d, v, {'given': g, 'it': 'given%d' % k, 'seed': seed})
                return rep
    it = 0
    while rep['ok'] < samples and time.time() - t0 < seconds and it < samples * 30 + 100:
        st, d, v = one(c, seed, it)
        if st == 'ok':
            rep['ok'] += 1
            rep['checks'] += d
        elif st == 'reject':
            rep['reject'] += 1
        else:
            failed(d, v, {'given': None, 'it': it, 'seed': seed})
            break
        it += 1
    t1, it, got = time.time(), 0, 0
    while rep['fail'] is None and it < 20 and got < 8 and time.time() - t1 < seconds / 2:
        st, d, v = one(c, seed, 'large%d' % it)
        it += 1
        if st == 'ok' and v.big:
            got += 1
            rep['checks'] += d
        elif st == 'fail':
            failed(d, v, {'given': None, 'it': 'large%d' % (it - 1), 'seed': seed})
        elif d == 'slow':
            break
    rep['large'] = got
    rep['wall'] = round(time.time() - t0, 2)
    return rep


def main():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    prop = sys.argv[1]
    a = sys.argv[2] if len(sys.argv) > 2 else '{}'
    args = json.load(sys.stdin) if a == '-' else json.loads(a)
    cs = capi.load(prop)
    names = args.get('names')
    out = []
    for c in cs:
        if names and c.name not in names:
            continue
        g = (args.get('givens') or {}).get(c.name, ())
        n = int(c.samples * args.get('mult', 1))
        out.append(run_contract(c, args.get('seed', 1), n, c.seconds * args.get('mult', 1), g))
        print('@@' + json.dumps(out[-1]), flush=True)


def replay(path):
    d = json.load(open(path))
    if 'failing_input' not in d or not d['failing_input']:
        print('no failing input recorded; failed obligation:', d.get('obligation'))
        return 1
    cs = [c for c in capi.load(d['property']) if c.name == d['contract']]
    o = d['failing_input']['origin']
    st, r, v = one(cs[0], o['seed'], o['it'], o['given'])
    print(st, r)
    return 1 if st == 'fail' else 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    main()
