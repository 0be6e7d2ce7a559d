"""Loads the package under test from its current source, rewritten for symbolic execution.

Python lets a proxy overload most operators; the ones it does not (``is``, ``in``, ``type(x)``,
``isinstance``, ``hash``) are rewritten here to calls of hooks of ``sx.engine``.  Nothing else of
the code changes and nothing is written to the repository.
"""
import ast
import builtins
import copy
import importlib.abc
import importlib.machinery
import os
import re
import shutil
import sys
import tempfile
import types

from . import engine as en

PACKAGE = 'paradigm'
TOKEN = re.compile(r'sx[no]_[A-Za-z0-9]+_')

entered = set()
FUNCTIONS = []


def repo():
    return os.environ.get('PARADIGM_REPO', '/repo')


def copy_package():
    """Copy of the package's current sources, without caches (a crashed check can hurt nothing)."""
    root = tempfile.mkdtemp(prefix='sxcopy')
    source = os.path.join(repo(), PACKAGE)
    for base, dirs, files in os.walk(source):
        dirs[:] = [d for d in dirs if d != '__pycache__']
        target = os.path.join(root, PACKAGE, os.path.relpath(base, source))
        os.makedirs(target, exist_ok=True)
        for name in files:
            if name.endswith('.py') and not name.startswith('_mypy_'):
                shutil.copyfile(os.path.join(base, name), os.path.join(target, name))
    return root


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module, self.stack = module, []

    def _pair(self, left, op, right):
        hook = {ast.Is: '__sx_is__', ast.IsNot: '__sx_is_not__', ast.In: '__sx_in__',
                ast.NotIn: '__sx_not_in__'}.get(type(op))
        if hook is None:
            return ast.Compare(left, [op], [right])
        return ast.Call(ast.Name(hook, ast.Load()), [left, right], [])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for op in node.ops):
            return node
        if len(node.ops) == 1:
            return ast.copy_location(self._pair(node.left, node.ops[0], node.comparators[0]), node)
        thunk = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
        names = ast.Constant(tuple(type(op).__name__ for op in node.ops))
        return ast.copy_location(ast.Call(
                ast.Name('__sx_chain__', ast.Load()),
                [names] + [thunk(e) for e in [node.left] + node.comparators], []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if (isinstance(node.func, ast.Name) and node.func.id == 'type'
                and len(node.args) == 1 and not node.keywords):
            node.func = ast.copy_location(ast.Name('__sx_type__', ast.Load()), node.func)
        return node

    def visit_MatchSingleton(self, node):
        FUNCTIONS.append(('?unsupported match on a singleton', self.module))
        return node

    def _function(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        index = len(FUNCTIONS)
        FUNCTIONS.append((self.module + ':' + '.'.join(self.stack) + f':{node.lineno}', None))
        self.stack.pop()
        position = 1 if ast.get_docstring(node) is not None else 0
        node.body.insert(position, ast.copy_location(ast.Expr(ast.Call(
                ast.Name('__sx_enter__', ast.Load()), [ast.Constant(index)], [])), node))
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


_OPS = {'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b, 'Lt': lambda a, b: a < b,
        'LtE': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b,
        'Is': en.op_is, 'IsNot': en.op_is_not, 'In': en.op_in, 'NotIn': en.op_not_in}


def _chain(names, *thunks):
    left, result = thunks[0](), True
    for name, thunk in zip(names, thunks[1:]):
        right = thunk()
        result = _OPS[name](left, right)
        if not result:
            return result
        left = right
    return result


# ---------------------------------------------------------------- syntax trees with symbolic leaves
def symbolize(tree):
    """Replaces tokens standing for symbolic names in the identifier fields of a tree."""
    engine = en._current
    if engine is None or engine.concrete:
        return tree
    if not engine.tokens:
        return tree
    tree = _Opaque(engine.tokens).visit(tree)
    for node in ast.walk(tree):
        for field, value in ast.iter_fields(node):
            if type(value) is str and not isinstance(node, ast.Constant):
                symbol = engine.tokens.get(value)
                if symbol is not None:
                    setattr(node, field, symbol)
    return tree


class _Opaque(ast.NodeTransformer):
    """A name that stands for an opaque value is a literal."""

    def __init__(self, tokens):
        self.tokens = tokens

    def visit_Name(self, node):
        symbol = self.tokens.get(node.id) if type(node.id) is str else None
        return (ast.copy_location(ast.Constant(symbol), node) if type(symbol) is en.SymObj
                else node)


def desymbolize(tree):
    tree = copy.deepcopy(tree)
    for node in ast.walk(tree):
        for field, value in ast.iter_fields(node):
            if isinstance(value, en.SymName):
                setattr(node, field, str.__add__(value, ''))
    return tree


def _parse(source, *args, **kwargs):
    return symbolize(ast.parse(source, *args, **kwargs))


def sx_eval(source, *namespaces, **kwargs):
    engine = en._current
    if engine is None or engine.concrete or not isinstance(source, str):
        return eval(source, *namespaces, **kwargs)
    tokens = TOKEN.findall(source)
    if tokens and namespaces:
        namespaces = ({**namespaces[0], **{t: engine.tokens[t] for t in tokens
                                           if t in engine.tokens}}, *namespaces[1:])
    result = eval(source, *namespaces, **kwargs)
    return symbolize(result) if isinstance(result, ast.AST) else result


def sx_compile(source, *args, **kwargs):
    return compile(desymbolize(source) if isinstance(source, ast.AST) else source, *args, **kwargs)


ast_shim = types.ModuleType('ast')
ast_shim.__dict__.update({k: v for k, v in vars(ast).items()
                          if k not in ('__builtins__', '__name__', '__spec__', '__loader__',
                                       '__getattr__')})
ast_shim.parse = _parse
import warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    for _name in ('Str', 'Num', 'Bytes', 'NameConstant', 'Ellipsis'):
        setattr(ast_shim, _name, getattr(ast, _name))


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if name == 'ast' and level == 0:
        return ast_shim
    return __import__(name, globals, locals, fromlist, level)


def _enter(index):
    entered.add(index)


def hooked_builtins():
    result = dict(vars(builtins))
    result.update(isinstance=en.op_isinstance, hash=en.op_hash, id=en.op_id, eval=sx_eval,
                  compile=sx_compile, __import__=_import,
                  __sx_is__=en.op_is, __sx_is_not__=en.op_is_not, __sx_in__=en.op_in,
                  __sx_not_in__=en.op_not_in, __sx_type__=en.op_type, __sx_enter__=_enter,
                  __sx_chain__=_chain)
    return result


def compiled(path, module):
    with open(path, encoding='utf-8') as file:
        tree = ast.parse(file.read(), path)
    tree = ast.fix_missing_locations(Rewriter(module).visit(tree))
    return compile(tree, path, 'exec', dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves the package from the copy; refuses its caches (its tables then start out empty)."""

    def __init__(self, root, instrumented):
        self.root, self.instrumented = root, instrumented
        self.builtins = hooked_builtins() if instrumented else None
        self.codes = {}
        self.caches = False

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PACKAGE and not fullname.startswith(PACKAGE + '.'):
            return None
        if fullname.rsplit('.', 1)[-1].startswith('_mypy_') and not self.caches:
            raise ModuleNotFoundError(fullname)
        base = os.path.join(self.root, *fullname.split('.'))
        if os.path.isdir(base):
            file, package = os.path.join(base, '__init__.py'), [base]
        else:
            file, package = base + '.py', None
        if not os.path.exists(file):
            raise ModuleNotFoundError(f'No module named {fullname!r}', name=fullname)
        if not self.instrumented:
            loader = importlib.machinery.SourceFileLoader(fullname, file)
            return importlib.util.spec_from_file_location(fullname, file, loader=loader,
                                                          submodule_search_locations=package)
        spec = importlib.machinery.ModuleSpec(fullname, self, origin=file,
                                              is_package=package is not None)
        spec.has_location = True
        if package:
            spec.submodule_search_locations = package
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        file = module.__spec__.origin
        module.__file__ = file
        if os.path.basename(file).startswith(('sxcache', '_mypy_')):
            # data written by the code under test: tokens in it stand for symbolic values
            module.__dict__.update(getattr(en._current, 'tokens', None) or {})
            exec(importlib.machinery.SourceFileLoader(module.__name__, file)
                 .get_code(module.__name__), module.__dict__)
            return
        code = self.codes.get(file)
        if code is None:
            code = self.codes[file] = compiled(file, module.__name__)
        module.__dict__['__builtins__'] = self.builtins
        module.__dict__['__sx_instrumented__'] = True
        exec(code, module.__dict__)

    def get_source(self, fullname):
        return None


_finder = None


def install(root, instrumented):
    """Makes ``import paradigm`` load the copy; the process must not be the main one."""
    global _finder
    import multiprocessing
    assert multiprocessing.current_process().name != 'MainProcess'
    assert PACKAGE not in sys.modules
    sys.dont_write_bytecode = True
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]
    _finder = Finder(root, instrumented)
    sys.meta_path.insert(0, _finder)


def is_instrumented():
    return _finder.instrumented


def root():
    return _finder.root
