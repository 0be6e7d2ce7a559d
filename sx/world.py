"""Synthetic stub files for the real stub parser: what a harness puts in place of typeshed."""
import ast
import collections
import hashlib
import os
import pathlib
import sys
import types
import weakref

from . import engine as en, instrument
from .registry import HarnessError, checked, entry, module

BUILTINS = '''
class object:
    def __init__(self) -> None: ...
    def __new__(cls) -> object: ...
class type: ...
class int: ...
class str: ...
class staticmethod: ...
class classmethod: ...
class property: ...
'''
TYPING = '''
class TypeVar: ...
class NamedTuple: ...
Any = object()
Generic: object
Protocol: object
Callable: object
Union: object
Optional: object
def overload(func: object) -> object: ...
'''


def write(text, stem):
    """A file of that text and stem; equal requests share the file."""
    directory = os.path.join(instrument.root(), 'sxstubs',
                             hashlib.sha256(text.encode()).hexdigest()[:24])
    path = os.path.join(directory, stem + '.pyi')
    if not os.path.exists(path):
        os.makedirs(directory, exist_ok=True)
        partial = path + f'.{os.getpid()}'
        with open(partial, 'w', encoding='utf-8') as file:
            file.write(text)
        os.replace(partial, path)
    return pathlib.Path(path)


def place(modules):
    """{dotted name: text} (a name ending with ".__init__" is a package) -> in place of typeshed."""
    sources = module('paradigm._core.sources')
    files = {}
    for name, text in modules.items():
        parts = tuple(name.split('.'))
        stem = parts[-1]
        if stem == '__init__':
            parts = parts[:-1]
        files[parts] = write(text, stem)
    cache = entry('paradigm._core.sources', '_stubs_cache')
    cache.clear()
    cache.update(files)
    return files


TABLES = ('definitions', 'nodes_kinds', 'raw_ast_nodes', 'references', 'submodules',
          'superclasses')


def parse(E, modules, order=None):
    """What the stub parser makes of the modules (builtins and typing are added)."""
    forget()
    modules = {'builtins': BUILTINS, 'typing': TYPING, **modules}
    files = place(modules)
    function = entry('paradigm._core.stubs', '_parse_stubs_state')
    paths = list(files) if order is None else order
    checked(function, paths)
    outcome, result = E.call(lambda: function(paths))
    if outcome == 'exc':
        import traceback
        E.show('error', ''.join(traceback.format_exception(result))[-1500:])
        E.fail(f'parsing stubs raised {type(result).__name__}')
    if len(result) != len(TABLES):
        raise HarnessError('the stub parser returns something else than before')
    return dict(zip(TABLES, result))


def load(tables, located=None):
    """Puts the tables in place of those of the package."""
    for name in TABLES:
        table = entry('paradigm._core.stubs', name)
        table.clear()
        table.update(tables[name] if tables else {})
    located_table = entry('paradigm._core.modules', 'supported_stdlib_qualified_paths')
    located_table.clear()
    located_table.update(located or {})
    forget()


_initial = {}  # id of a container -> (the container, what it contained when first seen)


def forget():
    """Empties the caches of the package: no path sees what another one computed."""
    for name in ('signatures', 'models', 'arboreal.evaluation'):
        module('paradigm._core.' + name)
    skipped = {id(entry('paradigm._core.stubs', name)) for name in TABLES}
    skipped.add(id(entry('paradigm._core.modules', 'supported_stdlib_qualified_paths')))
    skipped.add(id(entry('paradigm._core.sources', '_stubs_cache')))
    for name, module_ in list(sys.modules.items()):
        if module_ is None or name.partition('.')[0] != 'paradigm':
            continue
        for value in list(vars(module_).values()):
            functions = [value]
            if isinstance(value, type) and value.__module__ == name:
                functions += vars(value).values()
            if not isinstance(value, type):
                functions += getattr(value, 'registry', {}).values()
            holders = [value]
            for function in functions:
                clear = getattr(function, 'cache_clear', None)
                if callable(clear) and not isinstance(function, type):
                    clear()
                function = getattr(function, '__wrapped__', function)
                holders += (getattr(function, '__kwdefaults__', None) or {}).values()
                holders += getattr(function, '__defaults__', None) or ()
                if isinstance(function, types.FunctionType):
                    holders += vars(function).values()
            for holder in holders:
                if type(holder) in CONTAINERS and id(holder) not in skipped:
                    _, known = _initial.setdefault(id(holder), (holder, holder.copy()))
                    if len(holder) != len(known) or type(holder) in WEAK:
                        holder.clear()
                        (holder.extend if type(holder) is list else holder.update)(known)


WEAK = (weakref.WeakValueDictionary, weakref.WeakKeyDictionary)
CONTAINERS = (dict, list, set, collections.OrderedDict, collections.defaultdict) + WEAK


def world(E, modules, located=None, order=None):
    tables = parse(E, modules, order)
    load(tables, located)
    return tables
