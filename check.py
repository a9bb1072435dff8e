#!/opt/venv/bin/python
"""Run the solver-based check of one property.

  check.py PROP [--tier quick|thorough] [--case SUBSTR] [-v] [--jobs N]
  check.py --replay FILE        re-run a recorded counterexample
  check.py --server             (internal) concrete replays, request on stdin
  check.py --witness PROP TIER  (internal) concrete witness runs
"""
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEF = {'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1', 'NUMEXPR_NUM_THREADS': '1',
       'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
       'OMPI_MCA_btl': 'self', 'OMPI_MCA_plm': 'isolated',
       'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'}
for _k, _v in DEF.items():
    os.environ.setdefault(_k, _v)
if os.environ.get('PYTHONHASHSEED') != '0' or sys.flags.hash_randomization and \
        os.environ.get('_VERIF_REEXEC') != '1':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['_VERIF_REEXEC'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
if not os.environ.get('MPLCONFIGDIR'):
    import atexit
    import shutil
    import tempfile
    _d = tempfile.mkdtemp(prefix='verif_mpl_')
    os.environ['MPLCONFIGDIR'] = _d
    atexit.register(lambda p=os.getpid(): os.getpid() == p and
                    shutil.rmtree(_d, ignore_errors=True))
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
sys.setrecursionlimit(20000)

from sx import run as R   # noqa: E402


def load(prop):
    return importlib.import_module('checks.' + prop.lower())


def cases_of(prop, tier, sub=None):
    m = load(prop)
    out = []
    seen = set()
    for c in m.reg.cases:
        if tier == 'quick' and c.tier != 'quick':
            continue
        if sub and sub not in c.name:
            continue
        if c.name in seen:
            raise SystemExit('duplicate case %s' % c.name)
        seen.add(c.name)
        out.append(c)
    return m, out


def find_case(prop, name):
    for c in load(prop).reg.cases:
        if c.name == name:
            return c
    raise KeyError(name)


def server():
    req = json.load(sys.stdin)
    case = find_case(req['prop'], req['case'])
    out = []
    for v in req['cands']:
        r = R.run_concrete(case, v)
        r.pop('seen', None)
        out.append(r)
        if r['status'] in ('fail', 'exception'):
            break
    sys.stdout.write('\nRESULT ' + json.dumps(out) + '\n')
    sys.stdout.flush()
    os._exit(0)


# ------------------------------------------------------------ process pool

def pool(tasks, fn, jobs, limit_of):
    """Fork one process per task; -> {index: result or error string}."""
    import select
    import signal
    todo = list(range(len(tasks)))
    todo.sort(key=lambda i: -limit_of(tasks[i]))
    run = {}
    res = {}
    bufs = {}
    while todo or run:
        while todo and len(run) < jobs:
            i = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    out = fn(tasks[i])
                    data = json.dumps(out, default=str).encode()
                except BaseException as e:
                    import traceback
                    data = json.dumps({'crash': '%s: %s' % (type(e).__name__, e),
                                       'tb': traceback.format_exc()[-1500:]}).encode()
                try:
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (i, pid, time.time() + limit_of(tasks[i]))
            bufs[r] = b''
        rd, _, _ = select.select(list(run), [], [], 0.5)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d:
                bufs[r] += d
                continue
            i, pid, dl = run.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res[i] = json.loads(bufs.pop(r))
            except ValueError:
                res[i] = {'crash': 'worker died'}
        now = time.time()
        for r in list(run):
            i, pid, dl = run[r]
            if now > dl:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                run.pop(r)
                bufs.pop(r, None)
                res[i] = {'crash': 'hard time limit'}
    return res


def witness_worker(case, seed, n=3):
    """Concrete runs of one harness on the real library."""
    import zlib
    out = []
    base = zlib.crc32(case.name.encode()) + 7919 * seed
    good = 0
    for t in range(case.tries):
        r = R.run_concrete(case, None, base + t, edge=(t % 3 == 2))
        if r['status'] == 'assume':
            continue
        good += 1
        out.append(r)
        if r['status'] != 'ok' or good >= n:
            break
    return out


def witness_main(prop, tier, sub):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    m, cases = cases_of(prop, tier, sub)
    import numpy      # noqa: F401  (shared by the forks)
    for mod in getattr(m, 'MODULES', ()):
        importlib.import_module(mod)
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    res = pool(cases, lambda c: witness_worker(c, seed), jobs, lambda c: 90)
    sys.stdout.write('\nRESULT ' + json.dumps(
        {cases[i].name: r for i, r in res.items()}, default=str) + '\n')
    sys.stdout.flush()


# ------------------------------------------------------------------- main

FUNCS = set()


def monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, 'verif')
    except ValueError:
        pass
    pre = os.path.join(REPO, 'sporco')

    def start(code, off):
        if code.co_filename.startswith(pre) and code.co_name != '<module>':
            FUNCS.add('%s:%s' % (os.path.relpath(code.co_filename, REPO),
                                 code.co_qualname))
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def sym_worker(args):
    prop, case, seed = args
    FUNCS.clear()
    monitor()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        o = R.explore(prop, case, case.limit, seed)
    except MemoryError:
        return {'crash': 'memory limit'}
    o.funcs = sorted(FUNCS)
    return o.__dict__


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def match_known(prop, case, label, desc):
    for k in known_findings():
        if k['property'] == prop and k.get('status') == 'known' and \
                re.fullmatch(k['case'], case) and re.fullmatch(k['label'], label) and \
                re.search(k.get('desc', ''), desc):
            return k
    return None


def main(argv):
    import argparse
    import subprocess
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--noevidence', action='store_true')
    ap.add_argument('--total', type=float, default=None)
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    m, cases = cases_of(prop, tier, a.case)
    if tier == 'thorough':
        for c in cases:
            c.limit = int(c.limit * 4)
            c.paths = c.paths * 4
    # 1. concrete witnesses on the unmodified library
    cmd = [sys.executable, os.path.join(HERE, 'check.py'), '--witness', prop, tier]
    if a.case:
        cmd.append(a.case)
    wit = {}
    werr = ''
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=420,
                           env=dict(os.environ, VERIF_JOBS=str(a.jobs)))
        for line in p.stdout.splitlines()[::-1]:
            if line.startswith('RESULT '):
                wit = json.loads(line[7:])
                break
        else:
            werr = (p.stdout[-500:] + p.stderr[-1500:])
    except subprocess.TimeoutExpired:
        werr = 'witness runs timed out'
    viols, known = [], []

    def report(case, label, desc, values, how):
        k = match_known(prop, case, label, desc)
        if k:
            known.append((k, case, label))
            return
        viols.append({'property': prop, 'case': case, 'label': label,
                      'desc': desc, 'values': values, 'how': how})

    nwit = 0
    nowit = []
    wfail = {}
    for c in cases:
        w = wit.get(c.name, [])
        if isinstance(w, dict):
            nowit.append((c.name, w.get('crash')))
            w = []
        c.witness = []
        for r in w:
            if r['status'] == 'ok':
                nwit += 1
                c.witness.append(r)
            else:
                f = r['fails'][0]
                wfail[c.name] = (f[0], f[1], r['values'])
        if not w:
            nowit.append((c.name, 'no input satisfied the assumptions'))
    # 2. symbolic execution + solver
    from sx import hook
    hook.install()
    for mod in getattr(m, 'MODULES', ()):
        importlib.import_module(mod)
    todo = cases
    res = pool([(prop, c, seed) for c in todo], sym_worker, a.jobs,
               lambda t: t[1].limit + 45)
    tot = dict(paths=0, goals=0, queries=0, qtime=0.0, validated=0, norm=0)
    funcs, stubs = set(), {}
    decided, undecided, mism = [], [], []
    samples = []
    for i, c in enumerate(todo):
        r = res.get(i, {'crash': 'missing'})
        if 'crash' in r:
            undecided.append((c.name, r['crash'] + (r.get('tb', '') if a.v else '')))
            if c.name in wfail:
                report(c.name, *wfail[c.name], 'witness')
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        funcs.update(r['funcs'])
        for k, n in r['stubs'].items():
            stubs[k] = stubs.get(k, 0) + n
        for v in r['viol']:
            report(c.name, v['label'], v['desc'], v['values'], 'solver')
        if c.name in wfail and not r['viol']:
            report(c.name, *wfail[c.name], 'witness')
        why = []
        if r['error']:
            why.append(r['error'] + (' %s' % (r.get('error_tb'),) if a.v else ''))
        why += ['%s: %s' % tuple(u) for u in r['unknown']]
        why += ['%s: %s (spurious)' % tuple(u) for u in r['spurious']]
        if r['mismatch']:
            mism.append((c.name, r['mismatch'][:3]))
            why.append('encoding differs from real run: %s' % (r['mismatch'][:2],))
        if r['paths'] == 0 and not r['error']:
            why.append('no feasible path')
        if why:
            undecided.append((c.name, '; '.join(why)[:600]))
        elif not r['viol'] and c.name not in wfail:
            decided.append(c.name)
        if a.v:
            print('%-70s %6.1fs paths=%d goals=%d q=%d atoms=%d val=%d %s' % (
                c.name, r['wall'], r['paths'], r['goals'], r['queries'],
                r['atoms'], r['validated'], '' if not why else 'UNDEC ' + '; '.join(why)[:900]))
        if len(samples) < 6:
            samples.append({'case': c.name, 'paths': r['paths'], 'goals': r['goals'],
                            'solver_queries': r['queries'],
                            'solver_s': round(r['qtime'], 3),
                            'witness': (c.witness or [{}])[0].get('values')})
    wall = time.time() - t0
    for n, w in undecided:
        print('UNDECIDED %s: %s' % (n, w))
    for n, w in nowit:
        if w:
            print('NO-WITNESS %s: %s' % (n, w))
    if werr:
        print('WITNESS-ERROR', werr)
    kseen = set()
    for k, c, l in known:
        if k['what'] not in kseen:
            kseen.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': (
                'Bounded symbolic execution of the sporco source by operator '
                'overloading; every goal on every feasible path is decided by z3 '
                'over exact real/complex arithmetic for all values of the symbolic '
                'inputs at the sizes and options listed as cases.'),
            'technique_bounds': getattr(m, 'BOUNDS', ''),
            'cases': len(cases), 'cases_decided': len(decided),
            'cases_undecided': [{'case': n, 'why': w} for n, w in undecided],
            'paths': tot['paths'], 'goals': tot['goals'],
            'solver_queries': tot['queries'],
            'solver_seconds': round(tot['qtime'], 2),
            'outputs_compared_with_real_runs': tot['validated'],
            'witness_runs_on_real_code': nwit,
            'encoding_mismatches': mism,
            'functions_encoded': sorted(funcs),
            'library_models_used': stubs,
            'samples': samples,
            'decided_cases': decided,
        },
        'assumptions': getattr(m, 'ASSUMPTIONS', []) + [
            'Floating point is abstracted to exact real/complex arithmetic; '
            'NaN/Inf from division by zero and square roots of negatives are '
            'tracked, rounding and overflow are not.',
            'numpy/scipy/pyfftw/numexpr primitives are replaced by exact models '
            '(listed in library_models_used), cross-checked against real runs.'],
        'wall_s': round(wall, 2), 'violations': len(viols),
    }
    if not a.noevidence and not a.case:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s cases=%d decided=%d undecided=%d paths=%d goals=%d queries=%d '
          'solver=%.1fs validated=%d witnesses=%d wall=%.1fs' % (
              prop, tier, len(cases), len(decided), len(undecided), tot['paths'],
              tot['goals'], tot['queries'], tot['qtime'], tot['validated'], nwit, wall))
    if viols:
        d = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        for k, v in enumerate(viols[:40]):
            f = os.path.join(d, '%s_%d.json' % (prop, k))
            with open(f, 'w') as fh:
                json.dump(v, fh, indent=1, default=str)
            print('  %s / %s: %s (%s)' % (v['case'], v['label'], v['desc'], v['how']))
            print('VIOLATION property=%s replay=%s' % (prop, f))
        return 1
    if not decided and cases:
        print('ERROR: nothing could be decided')
        return 2
    return 0


def replay(f):
    with open(f) as fh:
        v = json.load(fh)
    r = R.run_concrete(find_case(v['property'], v['case']), v['values'])
    print(json.dumps({k: r.get(k) for k in ('status', 'fails', 'values')}, indent=1, default=str))
    return 1 if r['status'] in ('fail', 'exception') else 0


if __name__ == '__main__':
    if sys.argv[1:2] == ['--server']:
        server()
    elif sys.argv[1:2] == ['--selftest']:
        import z3
        x = z3.Real('x')
        s = z3.Solver()
        s.add(x * x < 0)
        assert str(s.check()) == 'unsat'
        print('ok: z3', z3.get_version_string())
    elif sys.argv[1:2] == ['--witness']:
        witness_main(sys.argv[2], sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else None)
    elif sys.argv[1:2] == ['--replay']:
        sys.exit(replay(sys.argv[2]))
    else:
        sys.exit(main(sys.argv[1:]))
