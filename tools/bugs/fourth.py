import sys
sys.path.insert(0, sys.path[0] + '/bugs')
from third import HEAD, M, S, SC, WORLD

STUBS = 'paradigm/_core/stubs.py'
E_ = 'paradigm/_core/arboreal/evaluation.py'

SPECS = [
    dict(id='last-star-first', property='C19',
         edits=[(SC, '''        for sub_module_path in modules_submodules.get(module_path, []):
''', '''        for sub_module_path in reversed(
                modules_submodules.get(module_path, [])
        ):
''')],
         needs='a name that two star-imported modules define',
         breaks='names are looked up in star-imported modules last to first',
         demo=WORLD + '''
def check(tables, stubs):
    from paradigm._core import scoping
    assert scoping.resolve_object_path(
        ('m',), (), ('f',), tables['definitions'], tables['references'], tables['submodules'],
        tables['superclasses']) == (('a',), ('f',))


in_world({'a': 'def f() -> int: ...' + chr(10), 'b': 'def f() -> str: ...' + chr(10),
          'm': 'from a import *' + chr(10) + 'from b import *' + chr(10)}, check)
'''),
    dict(id='only-place-trusted', property='C29',
         edits=[(S, '''        qualified_paths = [path
                           for path in candidates_paths
                           if _value_has_qualified_path(value, path)]
''', '''        qualified_paths = (
            list(candidates_paths)
            if len(candidates_paths) == 1
            else [path
                  for path in candidates_paths
                  if _value_has_qualified_path(value, path)]
        )
''')],
         needs='another function that claims the qualified name of a library function listed at one '
               'place only',
         breaks='a function is described by the stub of another one that is found at its place',
         demo=HEAD + '''
import colorsys
import inspect


def rgb_to_hls(*, replaced):
    pass


rgb_to_hls.__module__ = 'colorsys'
rgb_to_hls.__qualname__ = 'rgb_to_hls'
signature = signature_from_callable(rgb_to_hls)
assert [p.name for p in signature.parameters] == ['replaced'], signature
'''),
    dict(id='aliases-by-name', property='C30',
         edits=[(E_, '''    targets_paths = [
        scoping.resolve_object_path(module_path, parent_path, (name,),
                                    stubs.definitions, stubs.references,
                                    stubs.submodules, stubs.superclasses)
        for name in conversion.to_names(ast_node)
    ]
''', '''    targets_paths = [
        (module_path[:1],
         scoping.resolve_object_path(module_path, parent_path, (name,),
                                     stubs.definitions, stubs.references,
                                     stubs.submodules, stubs.superclasses)[1])
        for name in conversion.to_names(ast_node)
    ]
''')],
         needs='modules of the same package whose stubs define different aliases of the same name, '
               'both asked about',
         breaks='an alias evaluated once is used for the same-named one of another module of the '
                'package',
         demo=HEAD + '''
from paradigm._core.arboreal import evaluation

first = evaluation.evaluate_qualified_path(('lib2to3', 'pgen2', 'parse'), ('_Context',), {})
second = evaluation.evaluate_qualified_path(('lib2to3', 'pytree'), ('_Context',), {})
assert first != second, second
'''),
    dict(id='callable-without-arguments', property='C31',
         edits=[(S, '''            if isinstance(arguments_annotations, _ast.List)
''', '''            if getattr(arguments_annotations, 'elts', None)
''')],
         needs='a variable annotated with a callable type of no arguments',
         breaks='Callable[[], R] is described as taking any arguments',
         demo=WORLD + '''
def check(tables, stubs):
    from paradigm._core import signatures

    def f(*args, **kwargs):
        pass

    f.__module__, f.__qualname__ = 'm', 'f'
    assert not list(signatures.from_callable(f).parameters)


in_world({'m': 'from typing import Callable' + chr(10) + 'f: Callable[[], int]' + chr(10)}, check)
'''),
    dict(id='type-variable-of-any-module', property='C31',
         edits=[(S, '''    if (callable_module_path == typing_module_path
            and callable_object_path == type_var_object_path):
        maybe''', '''    if callable_object_path == type_var_object_path:
        maybe''')],
         needs='a function called TypeVar of a module other than typing',
         breaks='calls of other things named TypeVar are taken for type variables',
         demo=WORLD + '''
TEXT = """
from typing import Callable
from n import TypeVar
T = TypeVar('T', bound=Callable[[int], int])
f: T
"""


def check(tables, stubs):
    from paradigm._core import signatures

    def f(inspected):
        pass

    f.__module__, f.__qualname__ = 'm', 'f'
    assert [p.name for p in signatures.from_callable(f).parameters] == ['inspected']


in_world({'m': TEXT, 'n': 'def TypeVar(name: str, *, bound: object) -> int: ...' + chr(10)}, check)
'''),
    dict(id='bases-of-typing-dropped', property='C21',
         edits=[(STUBS, """                    elif (base_module_path == typing_module_path
                          and base_object_path == protocol_object_path):
""", """                    elif (base_module_path == typing_module_path
                          and base_object_path[0] not in self.scope_definitions
                          and not isinstance(base, _ast.Attribute)):
""")],
         needs='a class deriving from a class of typing that is no Protocol, imported by its name',
         breaks='superclasses from typing are forgotten as if they were Protocol',
         demo=WORLD + '''
TEXT = """
from typing import Some
class C(Some): ...
"""


def check(tables, stubs):
    assert tables['superclasses'].get(('m',), {}).get(('C',)) == [(('typing',), ('Some',))]


in_world({'m': TEXT, 'typing': TYPING + 'class Some: ...' + chr(10)}, check)
'''),
]
