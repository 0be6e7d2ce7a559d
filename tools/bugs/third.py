M = 'paradigm/_core/models.py'
S = 'paradigm/_core/signatures.py'
ST = 'paradigm/_core/stubs.py'
SC = 'paradigm/_core/scoping.py'
EV = 'paradigm/_core/arboreal/evaluation.py'
U = 'paradigm/_core/arboreal/utils.py'
P = 'paradigm/_core/pretty.py'
CO = 'paradigm/_core/arboreal/construction.py'
X = 'paradigm/_core/execution.py'
I = 'paradigm/_core/index.py'
MO = 'paradigm/_core/modules.py'
CA = 'paradigm/_core/caching.py'
HEAD = '''
import typing as t
from paradigm.base import (OptionalParameter as O, OverloadedSignature, ParameterKind as K,
                           PlainSignature, RequiredParameter as R, signature_from_callable)
'''
# runs check(tables, stubs) in a helper process on a copy of the package that has no caches
WORLD = '''
import multiprocessing, pathlib, shutil, sys, tempfile

BUILTINS = """
class object:
    def __init__(self) -> None: ...
    def __new__(cls) -> object: ...
class type: ...
class int: ...
class str: ...
class property: ...
"""
TYPING = """
class TypeVar: ...
class NamedTuple: ...
Any = object()
Generic: object
Protocol: object
Callable: object
Union: object
"""


def child(root, modules, check, queue):
    try:
        sys.path.insert(0, root)
        from paradigm._core import sources, stubs
        modules = dict({'builtins': BUILTINS, 'typing': TYPING}, **modules)
        paths = {}
        for name, text in modules.items():
            path = pathlib.Path(root, 'stubs', *name.split('.')).with_suffix('.pyi')
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_text(text)
            parts = tuple(name.split('.'))
            paths[parts[:-1] if parts[-1] == '__init__' else parts] = path
        sources._stubs_cache.clear()
        sources._stubs_cache.update(paths)
        names = ('definitions', 'nodes_kinds', 'raw_ast_nodes', 'references', 'submodules',
                 'superclasses')
        tables = dict(zip(names, stubs._parse_stubs_state(list(paths))))
        for name in names:
            getattr(stubs, name).clear()
            getattr(stubs, name).update(tables[name])
        check(tables, stubs)
        queue.put(None)
    except BaseException as error:
        import traceback
        queue.put(traceback.format_exc())


def in_world(modules, check):
    with tempfile.TemporaryDirectory() as scratch:
        shutil.copytree('paradigm', scratch + '/paradigm',
                        ignore=lambda d, names: [n for n in names if n.startswith('_mypy_')
                                                 or n == '__pycache__'])
        context = multiprocessing.get_context('fork')
        queue = context.SimpleQueue()
        process = context.Process(target=child, args=(scratch, modules, check, queue))
        process.start()
        error = queue.get()
        process.join()
    if error is not None:
        print(error)
        sys.exit(1)
'''
SPECS = [
    dict(id='bind-variadic-name', property='C03',
         edits=[(M, '''            - {parameter.name
               for parameter in parameters
               if (parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
                   or parameter.kind is ParameterKind.KEYWORD_ONLY)}''',
                 '''            - {parameter.name
               for parameter in parameters
               if parameter.kind is not ParameterKind.POSITIONAL_ONLY}''')],
         needs='a keyword argument that has the name of the *args (or **kwargs) parameter',
         breaks='bind() accepts the name of a variadic positional parameter as a keyword',
         demo=HEAD + '''
s = PlainSignature(O(annotation=int, kind=K.VARIADIC_POSITIONAL, name='args'), returns=None)
assert not s.expects(args=1)
try:
    s.bind(args=1)
except TypeError:
    pass
else:
    raise AssertionError
'''),
    dict(id='overloads-complete-first', property='C05',
         edits=[(M, '''        signatures = [signature.bind(*args, **kwargs)
                      for signature in self._signatures
                      if signature.expects(*args, **kwargs)]
''', '''        signatures = [signature.bind(*args, **kwargs)
                      for signature in self._signatures
                      if signature.all_set(*args, **kwargs)]
        if not signatures:
            signatures = [signature.bind(*args, **kwargs)
                          for signature in self._signatures
                          if signature.expects(*args, **kwargs)]
''')],
         needs='arguments that complete one alternative and are only a beginning for another',
         breaks='bind() on overloads drops alternatives that expect more arguments as soon as one '
                'is complete',
         demo=HEAD + '''
a = R(annotation=int, kind=K.POSITIONAL_ONLY, name='a')
b = R(annotation=int, kind=K.POSITIONAL_ONLY, name='b')
s = OverloadedSignature(PlainSignature(a, returns=None), PlainSignature(a, b, returns=None))
assert s.bind(1) == OverloadedSignature(PlainSignature(returns=None),
                                        PlainSignature(b, returns=None))
'''),
    dict(id='hash-of-text', property='C09',
         edits=[(M, '''        return hash(self._signatures)
''', '''        return hash(str(self))
''')],
         needs='equal signatures whose annotations are written differently (a union in another '
               'order)',
         breaks='equal signatures have different hashes',
         demo=HEAD + '''
z = PlainSignature(returns=int)
x = PlainSignature(R(annotation=t.Union[int, str], kind=K.KEYWORD_ONLY, name='a'), returns=int)
y = PlainSignature(R(annotation=t.Union[str, int], kind=K.KEYWORD_ONLY, name='a'), returns=int)
x, y = OverloadedSignature(x, z), OverloadedSignature(y, z)
assert x == y and hash(x) == hash(y)
'''),
    dict(id='constructor-before-initializer', property='C18',
         edits=[(S, '''        if initializer_path in base_module_annotations:
            return (base_module_path, initializer_path)
        elif constructor_path in base_module_annotations:
            return (base_module_path, constructor_path)
''', '''        if constructor_path in base_module_annotations:
            return (base_module_path, constructor_path)
        elif initializer_path in base_module_annotations:
            return (base_module_path, initializer_path)
''')],
         needs='a class that declares both __init__ and __new__',
         breaks='a class with both is described by its constructor',
         demo=WORLD + '''
TEXT = """
class C:
    def __new__(cls, a: int) -> C: ...
    def __init__(self, b: int) -> None: ...
"""


def check(tables, stubs):
    from paradigm._core import signatures
    assert signatures._to_class_builder_qualified_path(('m',), ('C',)) == (('m',), ('C', '__init__'))


in_world({'m': TEXT}, check)
'''),
    dict(id='relative-import-of-packages', property='C20',
         edits=[(U, '''    depth = (len(parent_module_path)
             + sources.is_package(parent_module_path)
             - level) or None
''', '''    depth = (len(parent_module_path) - level
             or None)
    if depth is not None and sources.is_package(parent_module_path):
        depth += 1
''')],
         needs='a package importing from beyond itself with as many dots as it has parts',
         breaks='a relative import of a package with as many dots as the package is deep resolves '
                'to the package itself',
         demo=WORLD + '''
def check(tables, stubs):
    assert tables['references'][('p', 'q')][('a',)] == (('p', 'm'), ('a',)), tables['references']


in_world({'p.__init__': '', 'p.m': 'a: int', 'p.q.__init__': 'from ..m import a'}, check)
'''),
    dict(id='kind-of-first-definition', property='C21',
         edits=[(ST, '''            self.module_ast_nodes_kinds[self.parent_path + path] = node_kind
''', '''            self.module_ast_nodes_kinds.setdefault(self.parent_path + path,
                                                   node_kind)
''')],
         needs='a name defined twice in a stub by statements of different sorts',
         breaks='the recorded sort of a redefined name is that of its first definition',
         demo=WORLD + '''
def check(tables, stubs):
    assert tables['nodes_kinds'][('m',)][('f',)].name == 'FUNCTION'


in_world({'m': "f: int" + chr(10) + "def f() -> int: ..." + chr(10)}, check)
'''),
    dict(id='first-target-only', property='C21',
         edits=[(ST, '''                for target in node.targets:
                    target_path = _conversion.to_path(target)
                    self._add_reference(target_path, value_module_path,
''', '''                for target in node.targets[:1]:
                    target_path = _conversion.to_path(target)
                    self._add_reference(target_path, value_module_path,
''')],
         needs='an alias with several targets (a = b = c)',
         breaks='only the first target of an alias statement becomes a reference',
         demo=WORLD + '''
def check(tables, stubs):
    assert tables['references'][('m',)][('b',)] == (('m',), ('f',)), tables['references']


in_world({'m': "def f() -> int: ..." + chr(10) + "a = b = f" + chr(10)}, check)
'''),
    dict(id='else-first-only', property='C21',
         edits=[(ST, '''            for child in (node.body if condition else node.orelse):
                self.visit(child)
''', '''            for child in (node.body if condition else node.orelse[:1]):
                self.visit(child)
''')],
         needs='an if statement of a stub whose condition is false and whose else branch has '
               'several statements',
         breaks='only the first statement of an else branch is recorded',
         demo=WORLD + '''
def check(tables, stubs):
    assert set(tables['definitions'][('m',)]) >= {'a', 'b'}, tables['definitions'][('m',)]


in_world({'sys': 'version_info: int',
          'm': """
import sys
if sys.version_info < (3, 0):
    c: int
else:
    a: int
    b: int
"""}, check)
'''),
    dict(id='parameter-replaced-once', property='C22',
         edits=[(ST, '''            candidate = self.table.get(_conversion.to_path(node))
            return (node
                    if candidate is None
                    else _ast.copy_location(_deepcopy(candidate), node))

        def visit_Attribute(''', '''            candidate = self.table.pop(_conversion.to_path(node), None)
            return (node
                    if candidate is None
                    else _ast.copy_location(_deepcopy(candidate), node))

        def visit_Attribute(''')],
         needs='a type parameter that occurs twice in the members of a specialised generic',
         breaks='only the first occurrence of a type parameter is replaced',
         demo=WORLD + '''
TEXT = """
from typing import Generic, TypeVar
T = TypeVar('T')
class G(Generic[T]):
    def f(self, a: T) -> T: ...
class C(G[int]): ...
"""


def check(tables, stubs):
    (module, path), = tables['superclasses'][('m',)][('C',)]
    raw, = tables['raw_ast_nodes'][module][(*path, 'f')]
    assert "'T'" not in raw, raw


in_world({'m': TEXT}, check)
'''),
    dict(id='call-without-positionals', property='C23',
         edits=[(EV, '''    )(*args, **kwargs)


class _LazyEvaluator''', '''    )(*(args or kwargs.values()), **(kwargs if args else {}))


class _LazyEvaluator''')],
         needs='a call with keyword arguments only in a default of a stub',
         breaks='keyword arguments of calls without positional ones are passed by position',
         demo=WORLD + '''
import ast


def check(tables, stubs):
    from paradigm._core.arboreal.evaluation import evaluate_expression_node
    node = ast.parse("dict(a=1)", mode='eval').body
    stubs.definitions[('builtins',)]['dict'] = {}
    assert evaluate_expression_node(node, ('m',), (), {}) == {'a': 1}


in_world({'m': ''}, check)
'''),
    dict(id='bases-of-stub-classes', property='C23',
         edits=[(EV, '''                ) in stubs.superclasses.get(module_path, {}).get(
                        object_path, []
                )
''', '''                ) in sorted(stubs.superclasses.get(module_path, {}).get(
                        object_path, []
                ))
''')],
         needs='a class that only stubs define with two bases not in alphabetical order',
         breaks='the bases of a class that only stubs define are put in alphabetical order',
         demo=WORLD + '''
TEXT = """
class A: ...
class B: ...
class C(B, A): ...
"""


def check(tables, stubs):
    from paradigm._core.arboreal.evaluation import evaluate_qualified_path
    cls = evaluate_qualified_path(('sx_absent',), ('C',), {})
    assert [base.__name__ for base in cls.__bases__] == ['B', 'A'], cls.__mro__


in_world({'sx_absent': TEXT}, check)
'''),
    dict(id='one-element-tuples-indented', property='C24',
         edits=[(P, '''    elif value:
        return f'({repr_from(value[0], indent, depth)},)'
''', '''    elif value:
        element = repr_from(value[0], indent, depth)
        return (element
                if element.startswith('(')
                else f'({element},)')
''')],
         needs='a tuple whose only element is a tuple',
         breaks='a one-element tuple around a tuple is read back as that tuple',
         demo='''
import ast
from paradigm._core import pretty
for value in (((),), ((1, 2),), ('(',), (('a',),)):
    assert ast.literal_eval(pretty.repr_from(value, 4, 0)) == value, value
'''),
    dict(id='ellipsis-class', property='C24',
         edits=[(CO, '''del _AST_NAMESPACE[ast.Ellipsis.__qualname__]
''', '')],
         needs='a stub with "..." anywhere (any default), read back from the cache',
         breaks='"..." in syntax trees is read back as the class ast.Ellipsis',
         demo='''
import ast
from paradigm._core.arboreal import construction, conversion
node = ast.parse('def f(a=...): ...').body[0]
read = construction.from_raw(conversion.to_raw(node))
assert read.args.defaults[0].value is Ellipsis, ast.dump(read)
'''),
    dict(id='newer-cache-trusted', property='C25',
         edits=[(MO, '''    _reload_cache = _cached_version != _version
''', '''    _reload_cache = _cached_version < _version
''')],
         needs='a cache written by a later version of the package',
         breaks='a cache of the index from a later version of the package is used',
         demo='''
import pathlib, re, shutil, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as scratch:
    shutil.copytree('paradigm', scratch + '/paradigm')
    path, = pathlib.Path(scratch).glob('paradigm/_core/_mypy_*_modules.py')
    path.write_text("stdlib_qualified_paths = {}\\nversion = '99.0'\\n")
    code = ("import sys; sys.path.insert(0, sys.argv[1]); from paradigm._core import modules; "
            "sys.exit(not modules.supported_stdlib_qualified_paths)")
    sys.exit(subprocess.run([sys.executable, '-W', 'ignore', '-c', code, scratch],
                            cwd=scratch).returncode)
'''),
    dict(id='false-errors-are-results', property='C26',
         edits=[(X, '''            if error is not None:''', '''            if error:''')],
         needs='a delegated function that raises an exception whose truth value is false',
         breaks='an exception with a length of zero raised in a helper process is lost',
         demo='''
from paradigm._core import execution


class Empty(Exception):
    def __len__(self):
        return 0


def work():
    raise Empty()


if __name__ == '__main__':
    import os
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    try:
        execution.call_in_process(work)
    except Empty:
        pass
    else:
        raise AssertionError
'''),
    dict(id='classes-visited-once', property='C27',
         edits=[(I, '''            if value not in visited_classes:
                object_path''', '''            if value not in visited_classes:
                visited_classes.add(value)
                object_path''')],
         needs='a class bound at two places of a module',
         breaks='only the first place of a class bound twice in a module is listed',
         demo='''
import sys, types
from paradigm._core import index
module = types.ModuleType('sx_demo_module')
module.C = module.D = type('C', (), {'__module__': 'sx_demo_module'})
sys.modules['sx_demo_module'] = module
result = index.from_modules([('sx_demo_module',)])
assert result[('sx_demo_module',)][('C',)] == [(('sx_demo_module',), ('C',)),
                                               (('sx_demo_module',), ('D',))], result
'''),
    dict(id='import-errors-only', property='C27',
         edits=[(I, '''    except Exception as error:
''', '''    except ImportError as error:
''')],
         needs='an indexed module whose import raises something else than ImportError',
         breaks='a module whose import fails with another error makes the whole index fail',
         demo='''
import pathlib, sys, tempfile
from paradigm._core import index
with tempfile.TemporaryDirectory() as scratch:
    pathlib.Path(scratch, 'sx_demo_broken.py').write_text('raise OSError(1)')
    sys.path.insert(0, scratch)
    assert index.from_modules([('sx_demo_broken',)]) == {}
'''),
    dict(id='shortest-import-prefix', property='C19',
         edits=[(SC, '''        for offset in range(len(object_path)):
            sub_object_path = object_path[:len(object_path) - offset]
''', '''        for offset in reversed(range(len(object_path))):
            sub_object_path = object_path[:len(object_path) - offset]
''')],
         needs='import p and import p.q in a stub, with p.q.x looked up and x (or q) not in p',
         breaks='a dotted name is resolved through the shortest imported prefix',
         demo=WORLD + '''
def check(tables, stubs):
    from paradigm._core import scoping
    found = scoping.resolve_object_path(
            ('m',), (), ('p', 'q', 'x'), stubs.definitions, stubs.references, stubs.submodules,
            stubs.superclasses)
    assert found == (('p', 'q'), ('x',)), found


in_world({'p.__init__': '', 'p.q': 'x: int', 'm': 'import p.q'}, check)
'''),
]
