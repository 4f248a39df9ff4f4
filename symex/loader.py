"""Loads the code under test (and the check modules) from source, rewritten so that it can run on symbolic values.

The rewriting is mechanical and semantics-preserving for native values: calls, membership and identity tests, '%', f-strings
and dict/set displays are routed through symex.calls.  It is applied to /repo's current source on every run.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import calls

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NO_CALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.modname = modname
        self.track = track
        self.scope = []

    @staticmethod
    def sx(name):
        return ast.Attribute(value=ast.Name(id='__sx__', ctx=ast.Load()), attr=name, ctx=ast.Load())

    def mk(self, name, args, node):
        return ast.copy_location(ast.Call(func=self.sx(name), args=args, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_CALL:
            return node
        return ast.copy_location(ast.Call(func=self.sx('call'), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, a, b = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return self.mk('contains', [a, b], node)
            if isinstance(op, ast.NotIn):
                return self.mk('not_contains', [a, b], node)
            if isinstance(op, ast.Is):
                return self.mk('is_', [a, b], node)
            if isinstance(op, ast.IsNot):
                return self.mk('is_not', [a, b], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.mk('mod', [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.Name(id=node.target.id, ctx=ast.Load())
            return ast.copy_location(ast.Assign(targets=[node.target], value=self.mk('mod', [load, node.value], node)), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant(value='' if v.conversion == -1 else chr(v.conversion))
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[val, conv, spec], ctx=ast.Load()))
        return self.mk('fstring', parts, node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                elts.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                elts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self.mk('mkdict', [ast.List(elts=elts, ctx=ast.Load())], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.mk('mkset', [ast.List(elts=node.elts, ctx=ast.Load())], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.mk('mkset', [ast.ListComp(elt=node.elt, generators=node.generators)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        t = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return self.mk('mkdict', [ast.ListComp(elt=t, generators=node.generators)], node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.type = self.sx('Catchable')
        return node

    def _def(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        if self.track and not isinstance(node, ast.ClassDef):
            mark = ast.Expr(value=self.mk('enter', [ast.Constant(value=self.modname + ':' + '.'.join(self.scope))], node))
            ast.copy_location(mark, node)
            i = 0
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                i = 1
            node.body.insert(i, mark)
        self.scope.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = _def


def compile_source(path, modname, track):
    with open(path, 'rb') as f:
        src = f.read()
    tree = ast.parse(src, path)
    tree = Rewriter(modname, track).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """hgpl.*, hgaa.* from the repository and checks.* from here, rewritten; models for what is not installed."""

    def __init__(self, roots, models):
        self.roots = roots            # {top package: directory that contains it}
        self.models = models          # {module name: factory(module)}
        self.loaded = []
        self.missing = None

    def find_spec(self, name, path=None, target=None):
        if name in self.models:
            return importlib.machinery.ModuleSpec(name, self, is_package=True, origin='model')
        top = name.split('.')[0]
        if top in self.models and '.' in name and self.missing:
            self.missing(name)              # a part of a modelled library without model
            return importlib.machinery.ModuleSpec(name, self, is_package=True, origin='model')
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(name, self, origin=init if os.path.isfile(init) else None, is_package=True)
            spec.submodule_search_locations = [base]
            spec.loader_state = init if os.path.isfile(init) else None
            return spec
        if os.path.isfile(base + '.py'):
            spec = importlib.machinery.ModuleSpec(name, self, origin=base + '.py')
            spec.loader_state = base + '.py'
            return spec
        return None

    def create_module(self, spec):
        return types.ModuleType(spec.name)

    def exec_module(self, module):
        name = module.__spec__.name
        if name in self.models:
            self.models[name](module)
            return
        path = module.__spec__.loader_state
        if path is None:
            return
        module.__file__ = path
        module.__dict__['__sx__'] = calls
        track = name.split('.')[0] != 'checks'
        exec(compile_source(path, name, track), module.__dict__)
        self.loaded.append(module)

    # -- state between paths ----------------------------------------------------------------------------------
    def snapshot(self):
        snap = []
        for m in self.loaded:
            snap.append((m, self._copy(m.__dict__)))
            for v in list(m.__dict__.values()):
                if isinstance(v, type) and getattr(v, '__module__', None) == m.__name__:
                    snap.append((v, self._copy({k: x for k, x in v.__dict__.items() if not (k.startswith('__') and k.endswith('__'))})))
        return snap

    @staticmethod
    def _copy(d):
        out = {}
        for k, v in d.items():
            if type(v) is list:
                out[k] = (v, list(v))
            elif isinstance(v, dict) and k not in ('__builtins__', '__sx__'):
                out[k] = (v, type(v)(v) if type(v) in (dict, calls.V.SxDict) else None)
            elif type(v) is calls.V.SymSet:
                out[k] = (v, list(v.items))
            else:
                out[k] = (v, None)
        return out

    @staticmethod
    def restore(snap):
        for obj, saved in snap:
            cur = obj.__dict__
            is_mod = isinstance(obj, types.ModuleType)
            for k in list(cur):
                if k not in saved and not (k.startswith('__') and k.endswith('__')):
                    delattr(obj, k)
            for k, (v, content) in saved.items():
                if k not in cur or cur[k] is not v:
                    if is_mod:
                        cur[k] = v
                    else:
                        try:
                            type.__setattr__(obj, k, v)
                        except (AttributeError, TypeError):
                            pass
                if content is not None:
                    if type(v) is list:
                        v[:] = content
                    elif type(v) is calls.V.SymSet:
                        v.items = list(content)
                    else:
                        v.clear()
                        v.update(content)


FINDER = None


def install(models):
    global FINDER
    FINDER = Finder({'hgpl': REPO, 'hgaa': REPO, 'checks': HERE}, models)
    sys.meta_path.insert(0, FINDER)
    return FINDER
