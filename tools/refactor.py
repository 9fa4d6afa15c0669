#!/usr/bin/env python3
"""Rewrite the code without changing what it does, to see that the checks stay quiet.

usage: refactor.py SEED OUT_DIR        copy of /repo with every source file rewritten
       refactor.py --run SEED [ID...]  the same, its tests, and the checks on it
"""
import ast, os, random, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


class Rewrite(ast.NodeTransformer):
    def __init__(self, rnd, p=0.4):
        self.rnd, self.p, self.n, self.depth = rnd, p, 0, 0
        self.count = {}

    def go(self, kind):
        ok = self.rnd.random() < self.p
        if ok:
            self.count[kind] = self.count.get(kind, 0) + 1
        return ok

    def fresh(self):
        self.n += 1
        return f'_tmp{self.n}'

    def visit_FunctionDef(self, f):
        self.depth += 1
        self.generic_visit(f)
        self.depth -= 1
        if not self.depth:
            self.rename(f)
        return f

    def rename(self, f):
        """Locals get other names."""
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            return
        args = {a.arg for n in ast.walk(f) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs + n.posonlyargs + [x for x in (n.vararg, n.kwarg) if x]}
        names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
        inner = {n.name for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f}
        chosen = {n: n + '_v' for n in names - inner if not n.startswith('__') and self.go('rename')}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in chosen:
                n.id = chosen[n.id]

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP and self.go('flip'):
            return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.List) and self.go('list'):
            n.comparators[0] = ast.Tuple(n.comparators[0].elts, ast.Load())
        if len(n.ops) == 2 and isinstance(n.comparators[0], (ast.Name, ast.Constant, ast.Subscript)) and self.go('chain'):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]])])
        return n

    def negate(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return t.operand
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in (ast.Is, ast.IsNot, ast.In, ast.NotIn):
            return ast.Compare(t.left, [NEG[type(t.ops[0])]()], t.comparators)
        return ast.UnaryOp(ast.Not(), t)

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.go('ifexp'):
            return ast.IfExp(self.negate(n.test), n.orelse, n.body)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and self.go('ifelse'):
            return ast.If(self.negate(n.test), n.orelse, n.body)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and self.go('nest'):
            out = n.body
            for v in reversed(n.test.values):
                out = [ast.If(v, out, [])]
            return out[0]
        if isinstance(n.test, ast.BoolOp) and self.go('test'):
            t = self.fresh()
            # an elif may not be split, which is why the assignment is an expression
            return ast.If(ast.NamedExpr(ast.Name(t, ast.Store()), n.test), n.body, n.orelse) if self.depth else n
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant) and self.go('aug'):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n

    def visit_JoinedStr(self, n):
        if not all(isinstance(v, ast.Constant) or (isinstance(v, ast.FormattedValue) and (v.format_spec is None or all(isinstance(x, ast.Constant) for x in v.format_spec.values))) for v in n.values):
            return n
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        if not self.go('fstring'):
            return n
        text, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace('{', '{{').replace('}', '}}')
            else:
                text += '{' + ('' if v.conversion < 0 else '!' + chr(v.conversion)) + (':' + ''.join(x.value for x in v.format_spec.values) if v.format_spec else '') + '}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(text), 'format', ast.Load()), args, [])

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)) and self.depth and self.go('return'):
            t = self.fresh()
            return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Return(ast.Name(t, ast.Load()))]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if not self.depth:
            return n
        v = n.value
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].is_async and self.go('loop'):
                g, t = v.generators[0], self.fresh()
                stored = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                new = {x: self.fresh() for x in stored}
                sub = lambda e: Names(new).visit(e)
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [sub(v.elt)], []))]
                if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for x in ast.walk(v.elt)):
                    return n
                for c in reversed(g.ifs):
                    body = [ast.If(sub(c), body, [])]
                return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(sub(g.target), g.iter, body, []),
                        ast.Assign(n.targets, ast.Name(t, ast.Load()))]
            if isinstance(v, ast.IfExp) and self.go('statement'):
                return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(n.targets, v.orelse)])
            if isinstance(v, ast.BinOp) and self.go('split'):
                t = self.fresh()
                return [ast.Assign([ast.Name(t, ast.Store())], v.left), ast.Assign(n.targets, ast.BinOp(ast.Name(t, ast.Load()), v.op, v.right))]
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('dict', 'list') and not n.args and not n.keywords and self.go('literal'):
            return ast.Dict([], []) if n.func.id == 'dict' else ast.List([], ast.Load())
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Constant) and n.left.value == 2 and isinstance(n.right, ast.Constant) and isinstance(n.right.value, int) and n.right.value >= 0 and self.go('pow'):
            return ast.BinOp(ast.Constant(1), ast.LShift(), n.right)
        return n


class Names(ast.NodeTransformer):
    def __init__(self, new):
        self.new = new

    def visit_Name(self, n):
        return ast.Name(self.new.get(n.id, n.id), n.ctx)


def rewrite(seed, d):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    rnd = random.Random(seed)
    for base, _, files in os.walk(d + '/src/gempakio'):
        for f in sorted(files):
            if f.endswith('.py') and f not in ('_version.py', '__init__.py'):
                p = os.path.join(base, f)
                tree = ast.parse(open(p).read())
                r = Rewrite(rnd)
                tree = ast.fix_missing_locations(r.visit(tree))
                open(p, 'w').write(ast.unparse(tree) + '\n')
                print(f, r.count)


if __name__ == '__main__':
    if sys.argv[1] != '--run':
        rewrite(int(sys.argv[1]), sys.argv[2])
        sys.exit()
    seed, ids = int(sys.argv[2]), sys.argv[3:]
    d = f'/tmp/refwork{seed}'
    rewrite(seed, d)
    env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': d + '/src', 'PROJ_NETWORK': 'OFF', 'TZ': 'UTC'}
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=env, capture_output=True, text=True)
    print(t.stdout.strip().splitlines()[-1])
    bad = t.returncode
    if not bad:
        for i in ids or [f'C{k:02d}' for k in range(1, 37) if k != 32]:
            o = subprocess.run(['python3', 'run.py', i, '--tier', 'quick', '--jobs', '8'], cwd=HERE, env={**os.environ, 'SX_REPO': d, 'SX_EVIDENCE': d + '/ev'}, capture_output=True, text=True)
            keep = [l for l in o.stdout.splitlines() if 'VIOLATION' in l or 'nsupported' in l and ' unsupported=0' not in l or 'note:' in l]
            print(i, o.returncode, (o.stdout.strip().splitlines() or [o.stderr[-300:]])[-1], flush=True)
            for l in keep[:8]:
                print('     ', l[:200], flush=True)
            bad |= o.returncode
    shutil.rmtree(d, ignore_errors=True)
    sys.exit(1 if bad else 0)
