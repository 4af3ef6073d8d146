"""Import hook: executes the modules of the code under test (read from /repo at every run) with
shimmed builtins/math/numpy so that they operate on symbolic values.  Sources are not rewritten, but for
'text' % values, which Python would format in C."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import sys

from . import shims, sym

REPO = os.environ.get('VERIF_REPO', '/repo')
SYMBOLIC_ROOTS = ('Patro', 'IntervalArithmetic')

LOADED = {}          # module name -> path
_custom_builtins = None


def custom_builtins():
    global _custom_builtins
    if _custom_builtins is not None:
        return _custom_builtins
    d = dict(vars(builtins))
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == 'math':
                return shims.MATH
            if name == 'numpy':
                return shims.NUMPY
            if name == 'numpy.linalg':
                return shims.NUMPY.linalg if fromlist else shims.NUMPY
            if name == 'cmath':
                return shims.CmathStub('cmath')
            st = STUBS.get(name)
            if st is not None:
                return st
        return real_import(name, globals, locals, fromlist, level)

    d['__import__'] = imp
    d['float'] = shims.FloatShim
    d['int'] = shims.IntShim
    d['bool'] = shims.BoolShim
    d['sum'] = shims.sum_
    d['print'] = shims.PrintSink()
    _custom_builtins = d
    return d


STUBS = {}


class TextFormat(ast.NodeTransformer):
    """'...' % x, which Python formats in C, goes through format_text"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, (ast.Constant, ast.JoinedStr)):
            if isinstance(node.left, ast.JoinedStr) or isinstance(node.left.value, str):
                f = ast.copy_location(ast.Name('__format_text__', ast.Load()), node)
                return ast.copy_location(ast.Call(f, [node.left, node.right], []), node)
        return node


_SPEC = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d*)((?:\.\d+)?)([a-zA-Z%])')


def format_text(text, value):
    values = value if isinstance(value, (tuple, dict)) else (value,)
    content = values.values() if isinstance(values, dict) else values
    if not any(isinstance(v, sym.SymReal) for v in content):
        return text % value
    it = iter(values)

    def one(m):
        name, flags, width, precision, kind = m.groups()
        if kind == '%':
            return '%'
        v = values[name] if name else next(it)
        if not isinstance(v, sym.SymReal) or kind in 'sra':
            return ('%' + flags + width + precision + kind) % (v,)
        if kind in 'di':
            return str(int(v))
        return v.__format__((flags + width if kind in 'xX' else precision) + kind)
    return _SPEC.sub(one, text)


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = TextFormat().visit(ast.parse(src, self.path))
        code = compile(ast.fix_missing_locations(tree), self.path, 'exec', dont_inherit=True)
        builtins = module.__dict__['__builtins__'] = custom_builtins()
        builtins['__format_text__'] = format_text
        LOADED[self.name] = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        root = fullname.split('.')[0]
        if root not in SYMBOLIC_ROOTS:
            return None
        if root == 'Patro':
            base = os.path.join(REPO, *fullname.split('.'))
        else:
            real = importlib.machinery.PathFinder.find_spec(fullname, path)
            if real is None or not real.origin or not real.origin.endswith('.py'):
                return real
            base = real.origin[:-len('/__init__.py')] if real.origin.endswith('__init__.py') else real.origin[:-3]
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            p, is_pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isdir(base):
            # namespace package (directories without __init__)
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        elif os.path.exists(base + '.py'):
            p, is_pkg = base + '.py', False
        else:
            return None
        spec = importlib.util.spec_from_file_location(
            fullname, p, loader=Loader(fullname, p, is_pkg),
            submodule_search_locations=[base] if is_pkg else None)
        return spec


def install():
    sys.dont_write_bytecode = True
    shims._math_init()
    sys.meta_path.insert(0, Finder())
