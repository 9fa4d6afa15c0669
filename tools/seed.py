#!/usr/bin/env python3
"""Plant bugs: each entry of the given file is tried in a scratch copy of /repo and kept in seeded/.

usage: seed.py FILE [ID...]         FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]
       seed.py --run [ID...]        runs the checks against the bugs already kept
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
WORK = '/tmp/seedwork'
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# exit 0 when the property holds, 1 when it does not; run in the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PROJ_NETWORK=OFF
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
timeout 250 /opt/venv/bin/python "$here/demo.py" "$scratch"
'''
BASE = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--reverse'], capture_output=True, text=True).stdout.split()[0]


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', **env})


def copy(i):
    d = f'{WORK}/{i}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return d


def original_only(f, old):
    """The lines the change replaces were in the original repository."""
    text = open(f'/repo/{f}').read()
    first = text[:text.index(old)].count('\n') + 1
    last = first + old.rstrip('\n').count('\n')
    out = sh(['git', 'blame', '-l', '-s', f'-L{first},{last}', f], '/repo').stdout.splitlines()
    return [l for l in out if BASE not in l.split(' ')[0].lstrip('^') and not BASE.startswith(l.split(' ')[0].lstrip('^'))]


def check(i, prop, d, tier='quick'):
    o = sh(['python3', 'run.py', prop, '--tier', tier, '--jobs', '4'], HERE, SX_REPO=d, SX_EVIDENCE='/tmp/seedwork/ev_' + i)
    v = [l for l in o.stdout.splitlines() if 'VIOLATION' in l]
    extra = [l.strip() for l in o.stdout.splitlines() if l.startswith('   ')][:3]
    return o.returncode == 1 and bool(v), (v[:1] or [o.stdout[-200:] + o.stderr[-300:]]), extra


def plant(s):
    i = s['id']
    d = copy(i)
    try:
        patch = ''
        for f, old, new in s['edits']:
            if not f.startswith('src'):
                f = 'src/gempakio/' + f
            p = f'{d}/{f}'
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return i, f'edit of {f} matches {n} times'
            rest = original_only(f, old)
            changed = [l for l in rest]
            if changed:
                print(i, 'WARNING touches lines not original:', changed)
            open(p, 'w').write(t.replace(old, new))
        for f in sorted({('src/gempakio/' + f) if not f.startswith('src') else f for f, *_ in s['edits']}):
            o = sh(['git', 'diff', '--no-index', '--no-color', f'/repo/{f}', f'{d}/{f}'], '/').stdout
            o = o.replace(f'a/repo/{f}', f'a/{f}').replace(f'b{d}/{f}', f'b/{f}')
            patch += o
        k = f'{SEEDED}/{i}'
        os.makedirs(k, exist_ok=True)
        open(f'{k}/patch.diff', 'w').write(patch)
        open(f'{k}/demo.sh', 'w').write(SH)
        os.chmod(f'{k}/demo.sh', 0o755)
        open(f'{k}/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{k}/meta.json', 'w'), indent=1)
        a = sh(['git', 'apply', '--check', f'{k}/patch.diff'], '/repo')
        good = sh(['bash', f'{k}/demo.sh'], '/repo')
        bad = sh(['bash', f'{k}/demo.sh'], d)
        t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'tests'], d, PYTHONPATH=f'{d}/src', TZ='UTC', PROJ_NETWORK='OFF')
        tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        ok = not a.returncode and good.returncode == 0 and bad.returncode != 0 and t.returncode == 0
        msg = '' if ok else (f'INVALID apply={a.stderr[:200]} good={good.returncode} {good.stderr[-300:]} bad={bad.returncode} {bad.stderr[-200:]} '
                             f'tests={tail} {[l for l in t.stdout.splitlines() if l.startswith("FAILED")][:3]}')
        if not ok:
            shutil.rmtree(k)
            return i, msg
        c = check(i, s['prop'], d)
        return i, ('CAUGHT ' if c[0] else 'MISSED ') + s['prop'] + ' ' + ' '.join(c[1]) + (' | ' + '; '.join(c[2]) if not c[0] else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rerun(i):
    d = copy(i)
    try:
        o = sh(['git', 'apply', '--directory=' + d.lstrip('/'), f'{SEEDED}/{i}/patch.diff'], '/')
        if o.returncode:
            o = sh(['patch', '-p1', '-i', f'{SEEDED}/{i}/patch.diff'], d)
            if o.returncode:
                return i, 'does not apply ' + o.stdout[-200:]
        prop = json.load(open(f'{SEEDED}/{i}/meta.json'))['property']
        c = check(i, prop, d)
        return i, ('CAUGHT ' if c[0] else 'MISSED ') + prop + ' ' + ' '.join(c[1]) + (' | ' + '; '.join(c[2]) if not c[0] else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--run':
        ids, fn = a[1:] or sorted(os.listdir(SEEDED)), rerun
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        ids, fn = [s for s in ns['SEEDS'] if not a[1:] or s['id'] in a[1:]], plant
    with ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(fn, ids):
            print(i, m, flush=True)
    shutil.rmtree(WORK, ignore_errors=True)
