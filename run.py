#!/usr/bin/env python3
"""Run the checks of one property: run.py <id> --tier quick|thorough, or --replay FILE."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and not os.environ.get('SX_NOEXEC'):
    os.environ['SX_NOEXEC'] = '1'
    os.execv(VENV, [VENV, '-B', os.path.abspath(__file__)] + sys.argv[1:])

sys.dont_write_bytecode = True
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

LEVEL = 'model_checking'


def work(job):
    prop, idx, tier, seed, deadline, known = job
    os.environ['PYTHONHASHSEED'] = '0'
    from sx import harness
    sc = harness.REGISTRY[prop][idx]
    try:
        return harness.Runner(sc, tier, seed, deadline, known).run()
    except BaseException as x:   # keep the check alive: report as inconclusive
        import traceback
        return dict(scenario=sc.name, property=prop, params={}, bounds=sc.bounds, stats={}, notes={'harness error: ' + repr(x): 1},
                    errors={traceback.format_exc()[-600:]: 1}, violations=[], known=[], complete=False, reached=0,
                    pending=0, validated=0, samples=[], funcs=[], wall=0)


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--scenario')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--limit', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='sxrun.')
    tempfile.tempdir = scratch
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    try:
        return run(a, seed, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, seed, t0):
    from sx import harness
    for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('checks.' + f[:-3])
    scs = harness.REGISTRY.get(a.property, [])
    if a.replay:
        rec = json.load(open(a.replay))
        sc = [s for s in scs if s.name == rec['scenario']][0]
        res = harness.replay_forked(sc, {k: harness.dec(v) for k, v in rec['inputs'].items()})
        print(json.dumps(res, indent=1, default=str))
        return 1 if res['failures'] or res['exception'] else 0
    jobs = []
    limit = a.limit or (400 if a.tier == 'quick' else 780)
    deadline = t0 + limit
    known = [k for k in load_known() if k.get('property') == a.property]
    for i, s in enumerate(scs):
        if a.tier in s.tiers and (not a.scenario or s.name.startswith(a.scenario)):
            jobs.append((a.property, i, a.tier, seed, deadline, known))
    if not jobs:
        print(f'no scenarios for {a.property}')
        return 0
    jobs.sort(key=lambda j: -scs[j[1]].budget[a.tier])
    try:
        import gempakio  # noqa: F401  (real package, inherited by forked replays)
        import gempakio.encode.vgf  # noqa: F401
    except Exception as x:
        print(f'note: the package does not import: {x!r}')
    results = []
    violated = False
    ctx = mp.get_context('fork')
    # one process per scenario: a crash of one is inconclusive for that scenario only
    import concurrent.futures as cf
    pend = list(jobs)
    running = {}
    import pickle
    import select
    while pend or running:
        while pend and len(running) < a.jobs and not violated:
            j = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                except OSError:
                    pass
                try:
                    res = work(j)
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (pid, j, b'', time.time())
        if violated:
            pend = []
        if not running:
            break
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in rd:
            pid, j, buf, ts = running[r]
            d = os.read(r, 1 << 20)
            if d:
                running[r] = (pid, j, buf + d, ts)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            if buf:
                results.append(pickle.loads(buf))
                if results[-1]['violations']:
                    violated = True
            else:
                results.append(lost(scs[j[1]], 'worker died'))
        now = time.time()
        for r in list(running):
            pid, j, buf, ts = running[r]
            grace = 60 if not violated else 5
            if now > deadline + grace or (violated and now > results[-1].get('tv', results[-1].setdefault('tv', now)) + 5):
                kill(pid)
                os.close(r)
                del running[r]
                results.append(lost(scs[j[1]], 'stopped at the overall deadline' if not violated else 'stopped after a violation elsewhere'))
    return report(a, seed, t0, results, scs, known)


def kill(pid):
    import signal
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    try:
        os.waitpid(pid, 0)
    except ChildProcessError:
        pass


def lost(sc, why):
    return dict(scenario=sc.name, property=sc.prop, params={}, bounds=sc.bounds, stats={}, notes={why: 1}, errors={},
                violations=[], known=[], complete=False, reached=0, pending=0, validated=0, samples=[], funcs=[], wall=0)


def report(a, seed, t0, results, scs, known):
    results.sort(key=lambda r: r['scenario'])
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    viol = [v for r in results for v in r['violations']]
    wall = time.time() - t0
    paths = tot.get('paths', 0) + tot.get('stopped', 0)
    queries = tot.get('branch_queries', 0) + tot.get('obligations', 0)
    samples = []
    for r in results:
        for s in r['samples'][:1]:
            samples.append({'scenario': r['scenario'], 'inputs': s})
    funcs = sorted({f for r in results for f in r['funcs']})
    per = {r['scenario']: dict(complete_within_bounds=r['complete'], bounds=r['bounds'], paths=r['stats'].get('paths', 0),
                               stopped=r['stats'].get('stopped', 0), unsupported=r['stats'].get('unsupported', 0),
                               obligations=r['stats'].get('obligations', 0), discharged=r['stats'].get('discharged', 0),
                               inconclusive=r['stats'].get('inconclusive', 0), pending=r['pending'],
                               reaches_assertion=r['reached'], validated=r['validated'],
                               solver_s=round(r['stats'].get('solver_s', 0), 2), wall_s=r['wall'],
                               errors=r['errors'], notes=r['notes']) for r in results}
    ev = dict(property=a.property, tier=a.tier, seed=seed, level=LEVEL,
              coverage=dict(states=paths, transitions=queries,
                            traces_validated_against_impl=tot.get('validated', 0), samples=samples[:12] or ['none'],
                            functions_encoded=funcs, queries_discharged=tot.get('discharged', 0),
                            trivially_true=tot.get('trivially_true', 0),
                            solver_s=round(tot.get('solver_s', 0), 2), scenarios=per,
                            exhaustive=bool(results) and all(r['complete'] for r in results),
                            explanation='states = symbolic paths run to their end; transitions = solver queries (branch feasibility and obligations)'),
              assumptions=ASSUME, wall_s=round(wall, 2), violations=len(viol))
    OUT = os.environ.get('SX_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(OUT, exist_ok=True)
    p = os.path.join(OUT, a.property + '.json')
    if not a.scenario:
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
    for r in results:
        s = r['stats']
        st = 'complete' if r['complete'] else 'VIOLATED' if r['violations'] else 'partial'
        print(f"  {r['scenario']}: {st} paths={s.get('paths', 0)} obligations={s.get('obligations', 0)} "
              f"discharged={s.get('discharged', 0)} unsupported={s.get('unsupported', 0)} pending={r['pending']} "
              f"nonrepro={s.get('nonreproduced', 0)} validated={r['validated']} "
              f"solver={s.get('solver_s', 0):.1f}s wall={r['wall']}s")
        if a.v or not r['reached']:
            for k, n in {**r['errors'], **r['notes']}.items():
                print(f'      {n}x {k}')
        if not r['reached'] and not r['violations']:
            print('      note: no path reached an assertion (inconclusive)')
    hits = {}
    for r in results:
        for kid, what in r['known']:
            hits.setdefault(kid, what)
    for k in known:
        if k.get('id') in hits:
            print(f"KNOWN-FINDING: property={a.property} {k['what']}")
    if viol:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        for n, v in enumerate(viol[:5]):
            fp = os.path.join(HERE, 'replay', f"{a.property}-{v['scenario']}-{n}.json")
            with open(fp, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print(f"  {v['scenario']}: {v['label']}  inputs={json.dumps(v['inputs'])[:600]}")
            print(f"VIOLATION property={a.property} replay={fp}")
        return 1
    print(f'OK property={a.property} paths={paths} queries={queries} wall={wall:.1f}s')
    return 0


ASSUME = [
    'float64 arithmetic in the code under test is treated as exact real arithmetic',
    'single-precision rounding is modelled only where a value is stored or converted (relative error 2**-24, monotone)',
    'log/exp are uninterpreted monotone functions with anchored bounds',
    'arithmetic between float32 array elements is treated as exact',
    'every counterexample is replayed on the real package before it is reported',
]

if __name__ == '__main__':
    sys.exit(main())
