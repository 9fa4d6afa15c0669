#!/usr/bin/env python3
"""Small changes to the code, made mechanically: which pass the tests of the repository, and which of those the checks catch.

usage: mutants.py make FILE N SEED OUT.json     N changes to src/gempakio/FILE, kept if the tests pass
       mutants.py run OUT.json [ID...]          run the checks against them (results go into OUT.json)
       mutants.py show OUT.json                 those not caught
"""
import ast, json, os, random, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/mutwork'
CHECKS = {
    'encode/gempak.py': {None: 'C10 C08 C07 C05 C29 C33 C09 C03 C01', 'GridFile': 'C05 C01 C02 C03 C04 C06 C29 C31 C33 C10 C34',
                         'SoundingFile': 'C07 C09 C06 C10 C29 C33', 'SurfaceFile': 'C08 C09 C06 C10 C29 C30 C33'},
    'decode/gempak.py': {None: 'C11 C24 C12 C13 C30 C03 C04 C08 C34 C31', 'GempakGrid': 'C13 C14 C15 C05 C01 C02 C31 C24 C03 C04 C11 C34 C06',
                         'GempakSounding': 'C07 C16 C26 C28 C25 C24 C12 C11 C27 C34 C06', 'GempakSurface': 'C30 C08 C17 C18 C28 C24 C12 C11 C34 C06'},
    'gemcalc.py': {None: 'C27 C25 C26'},
    'tools.py': {None: 'C11 C34 C22 C19 C25 C18'},
    'common.py': {None: 'C11 C03 C15 C26'},
    'decode/vgf.py': {None: 'C22 C21 C23 C34 C19 C11'},
    'encode/vgf.py': {None: 'C19 C20 C06 C33'},
}


def env(d, **more):
    return {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': d + '/src', 'PROJ_NETWORK': 'OFF', 'TZ': 'UTC', **more}


def sites(text):
    """(position, end, new text, class, function, kind) for every small change."""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    at = [0]
    for l in lines:
        at.append(at[-1] + len(l.encode()))
    raw = text.encode()
    pos = lambda n: (at[n.lineno - 1] + n.col_offset, at[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    out = []
    ops = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!=', '<='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
    bins = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&'}

    def visit(n, cls, fn, top=True):
        if isinstance(n, ast.ClassDef):
            cls = n.name
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) :
            fn = getattr(n, 'name', fn)
        body = getattr(n, 'body', None)
        add = lambda node, new, kind: out.append((*pos(node), new, cls, fn, kind, node.lineno))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in ops.get(type(n.ops[0]), ()):
                add(n, f'{seg(n.left)} {o} {seg(n.comparators[0])}', 'compare')
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + j.join(f'({seg(v)})' for v in n.values) + ')', 'boolop')
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(f'({seg(v)})' for v in rest) + ')', 'operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, seg(n.operand), 'not')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, seg(n.operand), 'sign')
        elif isinstance(n, ast.BinOp) and type(n.op) in bins:
            add(n, f'{seg(n.left)} {bins[type(n.op)]} {seg(n.right)}', 'arith')
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            add(n, repr(n.value + 1), 'number')
            add(n, repr(n.value - 1), 'number')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, repr(not n.value), 'bool')
        elif isinstance(n, ast.IfExp):
            add(n, seg(n.body), 'ifexp')
            add(n, seg(n.orelse), 'ifexp')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    args = [seg(a) for a in n.args] + [f'{q.arg}={seg(q.value)}' if q.arg else f'**{seg(q.value)}' for q in n.keywords if q is not k]
                    add(n, f'{seg(n.func)}({", ".join(args)})', 'keyword')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('upper', 'lower', 'strip', 'copy', 'ravel', 'ljust') and not n.keywords:
                add(n, f'({seg(n.func.value)})', 'method')
            if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'int', 'round', 'set') and len(n.args) == 1:
                add(n, f'({seg(n.args[0])})', 'wrapper')
        elif isinstance(n, ast.Dict) is False and isinstance(n, ast.stmt) and isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Raise)) and fn is not None:
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, 'pass', 'dropped')
        if isinstance(n, ast.If) and fn is not None:
            add(n.test, 'True', 'if')
            add(n.test, 'False', 'if')
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and c in n.decorator_list:
                continue
            if isinstance(c, ast.JoinedStr) or (isinstance(c, ast.arguments)) or (isinstance(n, ast.AnnAssign) and c is n.annotation):
                continue
            visit(c, cls, fn)

    visit(tree, None, None)
    return [s for s in out if s[4] is not None or s[3] is not None], raw


def copy(i):
    d = f'{WORK}/{i}'
    if not os.path.isdir(d):
        os.makedirs(WORK, exist_ok=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return d


def make(name, n, seed, out):
    path = f'src/gempakio/{name}'
    text = open(f'/repo/{path}').read()
    # message texts and raises of errors are of no interest
    every, raw = sites(text)
    rnd = random.Random(seed)
    rnd.shuffle(every)
    used, chosen = set(), []
    for s in every:
        if (s[0], s[1]) not in used and len(chosen) < n:
            used.add((s[0], s[1]))
            chosen.append(s)
    free, lock, kept = list(range(6)), threading.Lock(), []

    def one(k, s):
        with lock:
            w = free.pop()
        d = copy(f'w{w}')
        try:
            new = raw[:s[0]] + s[2].encode() + raw[s[1]:]
            try:
                ast.parse(new)
            except SyntaxError:
                return
            open(f'{d}/{path}', 'wb').write(new)
            try:
                o = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=env(d), capture_output=True, text=True, timeout=200)
            except subprocess.TimeoutExpired:
                return
            if o.returncode == 0:
                with lock:
                    kept.append(dict(id=f'{name.replace("/", "_")[:-3]}-{seed}-{k}', file=path, start=s[0], end=s[1], old=raw[s[0]:s[1]].decode(), new=s[2], cls=s[3], fn=s[4], kind=s[5], line=s[6]))
                    json.dump(kept, open(out, 'w'), indent=1)
        finally:
            open(f'{d}/{path}', 'wb').write(raw)
            with lock:
                free.append(w)

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda a: one(*a), enumerate(chosen)))
    print(f'{len(kept)} of {len(chosen)} pass the tests')


def run(out, only):
    ms = json.load(open(out))
    lock, free = threading.Lock(), [0, 1]

    def one(m):
        if m.get('result') and m['id'] not in only:
            return
        with lock:
            w = free.pop()
        d = copy(f'r{w}')
        p = f'{d}/{m["file"]}'
        raw = open(f'/repo/{m["file"]}', 'rb').read()
        try:
            if raw[m['start']:m['end']].decode() != m['old']:
                m['result'] = 'stale'
                return
            open(p, 'wb').write(raw[:m['start']] + m['new'].encode() + raw[m['end']:])
            table = CHECKS[m['file'][len('src/gempakio/'):]]
            m['result'] = 'MISSED'
            for c in table.get(m['cls'], table[None]).split():
                o = subprocess.run(['python3', 'run.py', c, '--jobs', '4'], cwd=HERE, capture_output=True, text=True, env={**env(d), 'SX_REPO': d, 'SX_EVIDENCE': f'{WORK}/ev{w}', 'PYTHONPATH': ''})
                if o.returncode == 1 and 'VIOLATION' in o.stdout:
                    m['result'] = c
                    break
                if o.returncode != 0:
                    m['result'] = f'{c} fails ({o.returncode}) {o.stdout[-200:]} {o.stderr[-200:]}'
                    break
            print(m['result'], m['id'], m['cls'], m['fn'], m['line'], repr(m['old'][:60]), '->', repr(m['new'][:60]), flush=True)
        finally:
            open(p, 'wb').write(raw)
            with lock:
                free.append(w)
                json.dump(ms, open(out, 'w'), indent=1)

    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, [m for m in ms if not only or m['id'] in only]))


def show(out):
    for m in json.load(open(out)):
        if m.get('result') and not m['result'].startswith('C') or ' fails' in m.get('result', ''):
            print(m['result'], m['id'], m['cls'], m['fn'], m['line'], repr(m['old'][:100]), '->', repr(m['new'][:100]))


if sys.argv[1] == 'make':
    make(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
elif sys.argv[1] == 'run':
    run(sys.argv[2], sys.argv[3:])
else:
    show(sys.argv[2])
