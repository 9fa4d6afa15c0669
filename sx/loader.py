"""Loads /repo's current sources as shadow modules that run on the symbolic layer.

The source text is parsed on every run; a small set of expressions that CPython
would evaluate in C (f-strings, `in`, `%`, displays, string methods) is rewritten
into calls that understand symbolic operands.  Nothing else is changed.
"""
import ast
import builtins
import importlib
import os
import sys
import types

from . import shims

REPO = os.environ.get('SX_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class Rewrite(ast.NodeTransformer):
    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, fn, args, node):
        return ast.copy_location(ast.Call(func=self._name(fn), args=args, keywords=[]), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = ast.Constant(value={-1: '', 115: 's', 114: 'r', 97: 'a'}[v.conversion])
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[self.visit(v.value), conv, spec], ctx=ast.Load()))
        return self._call('__sx_fstr__', parts, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return self._call('__sx_in__', [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                return self._call('__sx_notin__', [node.left, node.comparators[0]], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('__sx_mod__', [node.left, node.right], node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                pairs.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self._call('__sx_dict__', pairs, node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return self._call('__sx_dictcomp__', [ast.copy_location(lc, node)], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call('__sx_set__', [ast.List(elts=node.elts, ctx=ast.Load())], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return self._call('__sx_set__', [ast.copy_location(lc, node)], node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in shims.METHODS and not (
                isinstance(f.value, ast.Name) and f.value.id in ('re', 'np', 'struct', 'os')):
            return ast.copy_location(ast.Call(
                func=self._name('__sx_method__'),
                args=[f.value, ast.Constant(value=f.attr)] + node.args, keywords=node.keywords), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            return self._call('__sx_get__', [node.value, node.slice], node)
        return node

    def visit_AnnAssign(self, node):
        # annotations are left alone
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [None if d is None else self.visit(d) for d in node.kw_defaults]
        return node

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.visit_arguments(node.args)
        node.body = [self.visit(b) for b in node.body]
        return node

    def visit_match_case(self, node):
        # patterns stay as they are
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = [self.visit(b) for b in node.body]
        return node


class World:
    """One set of shadow modules."""

    def __init__(self, overrides=None):
        self.modules = {}
        self.overrides = dict(shims.MODULES)
        self.overrides.setdefault('pyproj', None)
        if overrides:
            self.overrides.update(overrides)
        self.builtins = shims.builtins_dict(self._import)
        self.sources = {}

    def _external(self, name):
        if name in self.overrides:
            if self.overrides[name] is None and name == 'pyproj':
                self.overrides[name] = shims.make_pyproj()
            return self.overrides[name]
        m = importlib.import_module(name)
        if name == 'collections':
            w = types.ModuleType('collections')
            w.__dict__.update(m.__dict__)
            w.defaultdict = shims.DefaultDict
            w.OrderedDict = shims.SxDict
            self.overrides[name] = w
            return w
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__name__'] if '__path__' in globals else globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name == 'gempakio' or name.startswith('gempakio.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._path(name + '.' + f):
                        self.load(name + '.' + f)
                return m
            return self.load('gempakio')
        if fromlist:
            m = self._external(name)
            for f in fromlist:
                if not hasattr(m, f) and isinstance(m, types.ModuleType) and hasattr(m, '__path__'):
                    try:
                        importlib.import_module(name + '.' + f)
                    except ImportError:
                        pass
            return m
        top = name.split('.')[0]
        if top not in self.overrides:
            importlib.import_module(name)
        return self._external(top)

    def _path(self, name):
        base = os.path.join(SRC, *name.split('.'))
        for p in (os.path.join(base, '__init__.py'), base + '.py'):
            if os.path.exists(p):
                return p
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        path = self._path(name)
        if path is None:
            raise ModuleNotFoundError(f'No module named {name!r}', name=name)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        self.sources[path] = src
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        if path.endswith('__init__.py'):
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.modules[name] = m
        code = compile(tree, path, 'exec')
        exec(code, m.__dict__)
        if '.' in name:
            setattr(parent, name.rpartition('.')[2], m)
        return m
