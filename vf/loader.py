"""Loads /repo's durus package from its current source.

symbolic mode: every module is parsed, and operations that would force a proxy
into a C function are routed through vf.models (calls of builtins, dict and set
displays, subscripts, `in`); every function is marked so that the evidence can
name the functions executed.  No statement is added, dropped or reordered.

concrete mode: the source is compiled unchanged; only `open` and the imports a
harness replaces (file system, sockets, clock) differ.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import types

REPO = os.environ.get('VF_REPO', '/repo')
_SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'exec', 'eval',
               '__import__'}


class _Transform(ast.NodeTransformer):

    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    def _n(self, name):
        return ast.Name(id=name, ctx=ast.Load())

    def _call(self, name, args, keywords=()):
        return ast.Call(func=self._n(name), args=list(args),
                        keywords=list(keywords))

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _SKIP_CALLS:
            return node
        return self._call('_vf_call', [node.func] + node.args, node.keywords)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            out = self._call('_vf_dict', [ast.Tuple(elts=[], ctx=ast.Load())])
            for k, v in zip(node.keys, node.values):
                if k is None:
                    part = self._call('_vf_dictof', [v])
                else:
                    part = self._call('_vf_dict', [ast.List(elts=[ast.Tuple(
                        elts=[k, v], ctx=ast.Load())], ctx=ast.Load())])
                out = ast.BinOp(left=out, op=ast.BitOr(), right=part)
            return out
        return self._call('_vf_dict', [ast.List(elts=[
            ast.Tuple(elts=[k, v], ctx=ast.Load())
            for k, v in zip(node.keys, node.values)], ctx=ast.Load())])

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call('_vf_set', [ast.List(elts=node.elts,
                                                ctx=ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._call('_vf_dict', [ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators)])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call('_vf_set', [ast.ListComp(
            elt=node.elt, generators=node.generators)])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        if isinstance(node.slice, ast.Slice):
            s = node.slice
            none = ast.Constant(value=None)
            idx = self._call('_vf_slice', [s.lower or none, s.upper or none,
                                            s.step or none])
        else:
            idx = node.slice
        return self._call('_vf_getitem', [node.value, idx])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self._call('_vf_in', [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return r
        return node

    def _function(self, node):
        self.stack.append(node.name)
        name = '%s:%s' % (self.modname, '.'.join(self.stack))
        self.generic_visit(node)
        self.stack.pop()
        mark = ast.Expr(self._call('_vf_fn', [ast.Constant(value=name)]))
        body = node.body
        i = 1 if (body and isinstance(body[0], ast.Expr) and
                  isinstance(body[0].value, ast.Constant) and
                  isinstance(body[0].value.value, str)) else 0
        body.insert(i, mark)
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):

    def __init__(self, spec):
        self.spec = spec

    def find_spec(self, name, path=None, target=None):
        if name != 'durus' and not name.startswith('durus.'):
            return None
        if name == 'durus._persistent' and not self.spec.c_ext:
            raise ImportError('durus._persistent is not used')
        parts = name.split('.')
        base = os.path.join(REPO, *parts)
        if len(parts) == 2 and parts[1].startswith('script_'):
            # a script of bin, loaded as if it was a module
            base = os.path.join(REPO, 'bin', parts[1][7:])
        if name == 'durus._persistent':
            return importlib.machinery.ModuleSpec(
                name, importlib.machinery.ExtensionFileLoader(
                    name, self.spec.c_ext), origin=self.spec.c_ext)
        if os.path.isdir(base):
            fn = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(
                name, self, origin=fn, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + '.py'):
            fn = base + '.py'
            spec = importlib.machinery.ModuleSpec(name, self, origin=fn)
        else:
            return None
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, 'rb') as f:
            source = f.read()
        tree = ast.parse(source, fn)
        g = module.__dict__
        if self.spec.symbolic:
            from vf import models
            tree = _Transform(module.__name__).visit(tree)
            ast.fix_missing_locations(tree)
            g.update(models.NAMES)
        b = dict(builtins.__dict__)
        b['__import__'] = self.spec.importer(module.__name__)
        if self.spec.open is not None:
            b['open'] = self.spec.open
        g['__builtins__'] = b
        exec(compile(tree, fn, 'exec', dont_inherit=True), g)


class _Fake(types.ModuleType):
    """A module in which some names are replaced; the rest is the real one."""

    def __init__(self, name, real, names):
        types.ModuleType.__init__(self, name)
        self.__dict__['_real'] = real
        self.__dict__.update(names)

    def __getattr__(self, name):
        return getattr(self.__dict__['_real'], name)


class Spec(object):
    """How to load durus: symbolic or not, and which imports are replaced."""

    def __init__(self, symbolic, fakes=None, open=None, c_ext=None):
        self.symbolic = symbolic
        self.open = open
        self.c_ext = c_ext
        self.fakes = fakes or {}

    def importer(self, modname):
        fakes = self.fakes

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0:
                if name in fakes and (fromlist or '.' not in name):
                    return fakes[name]
                top = name.split('.')[0]
                if not fromlist and top in fakes:
                    __import__(name)
                    return fakes[top]
            return __import__(name, globals, locals, fromlist, level)
        return imp


_installed = None


def load(spec):
    """(Re)load the durus package. Returns the package."""
    global _installed
    if _installed is not None:
        sys.meta_path.remove(_installed)
    for name in list(sys.modules):
        if name == 'durus' or name.startswith('durus.'):
            del sys.modules[name]
    _installed = _Finder(spec)
    sys.meta_path.insert(0, _installed)
    import io
    import logging
    logger = logging.getLogger('durus')
    logger.handlers[:] = [logging.NullHandler()]
    logger.propagate = False
    logger.setLevel(logging.INFO)
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        import importlib
        importlib.import_module('durus')
        for m in ('persistent', 'utils', 'connection'):
            importlib.import_module('durus.' + m)
    finally:
        sys.stderr = err
    return sys.modules['durus']
