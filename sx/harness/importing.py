"""C20: the module a relative import names."""
import ast
import pathlib

import z3

from .. import world
from ..lib import *
from ..registry import harness

TEXTS = [None, 'one', 'dotted']
# modules without a stub: what they are is asked from the import system
UNSTUBBED = [(('json',), True), (('json', 'decoder'), False), (('xml', 'dom', 'pulldom'), False),
             (('xml', 'dom'), True), (('textwrap',), False), (('sys',), False)]


def node(level, module_name, names=(('thing', None),)):
    return ast.ImportFrom(module=module_name,
                          names=[ast.alias(name=name, asname=alias) for name, alias in names],
                          level=level, lineno=1, col_offset=0)


def expected_path(path, package, level, module_parts):
    """What the import system computes; None when the import leaves the top-level package."""
    owner = path if package else path[:-1]
    kept = len(owner) - (level - 1)
    return None if kept < 1 else owner[:kept] + module_parts


def module_text(E, shape):
    if shape is None:
        return None, ()
    if shape == 'one':
        name = E.name('mod', True)
        return name, (name,)
    return 'alpha.beta', ('alpha', 'beta')


def check_path(E, function, path, package, shape, levels):
    level = E.int('level', 0, levels)
    text, parts = module_text(E, shape)
    if E.decide(E.ix(level) == 0):
        E.assume(z3.BoolVal(text is not None))
        expected = parts
    else:
        # which level it is matters only for how many parts are kept
        owner = len(path) - (not package)
        E.assume(E.ix(level) <= owner)
        for count in range(owner, 0, -1):
            if E.decide(E.ix(level) == owner - count + 1):
                kept = count
                break
        expected = (path if package else path[:-1])[:kept] + parts
    ast_node = node(level, text)
    checked(function, ast_node, parent_module_path=path)
    E.show('path', path)
    E.show('package', package)
    E.show('expected', expected)
    outcome, actual = E.call(lambda: function(ast_node, parent_module_path=path))
    E.show('actual', actual)
    if outcome == 'exc':
        E.fail(f'resolving an import raised {type(actual).__name__}')
    E.check(z3.BoolVal(isinstance(actual, tuple) and len(actual) == len(expected)),
            'an import names a module of another depth')
    E.check(conj(*[E.nx(a) == E.nx(b) for a, b in zip(actual, expected)]),
            'an import names another module')


def direct_cases(tier):
    depths = 5 if tier == 'quick' else 9
    return [(depth, package, shape) for depth in range(1, depths) for package in (False, True)
            for shape in TEXTS]


@harness('C20', cases=direct_cases,
         bounds='importing modules (packages or not) of up to 4 (thorough 8) parts with symbolic '
                'names, every level that stays inside the top-level package, absent, one-part '
                '(symbolic) and two-part module names')
def direct(E, case):
    depth, package, shape = case
    path = tuple(E.name(f'part{i}', True) for i in range(depth))
    cache = entry('paradigm._core.sources', '_stubs_cache')
    cache.clear()
    name = '__init__' if package else 'part'
    cache[path] = pathlib.PurePosixPath('/sxstubs', f'{name}.pyi')
    check_path(E, entry('paradigm._core.arboreal.utils', 'to_parent_module_path'), path, package,
               shape, depth + 1)


@harness('C20', cases=lambda tier: [(i, shape) for i in range(len(UNSTUBBED))
                                    for shape in TEXTS],
         bounds='the same for modules of the standard library known to have no stub here')
def unstubbed(E, case):
    index, shape = case
    path, package = UNSTUBBED[index]
    entry('paradigm._core.sources', '_stubs_cache').clear()
    check_path(E, entry('paradigm._core.arboreal.utils', 'to_parent_module_path'), path, package,
               shape, len(path) + 1)


def parsed_cases(tier):
    return [(depth, package, level, shape) for depth in range(1, 4) for package in (False, True)
            for level in range(0, depth + package) for shape in TEXTS
            if level or shape is not None]


@harness('C20', cases=parsed_cases,
         bounds='the tables made from stubs with such imports of a name, with and without "as", '
                'and of "*" (importing modules of up to 3 parts)')
def parsed(E, case):
    depth, package, level, shape = case
    parts = ('sxone', 'sxtwo', 'sxthree')[:depth]
    text, module_parts = module_text(E, shape)
    expected = module_parts if level == 0 else expected_path(parts, package, level, module_parts)
    what, alias = E.name('what', True), E.name('alias', True)
    written = E.select('form', ['name', 'as', '*'])
    source = 'from ' + '.' * level + ('' if text is None else str(text)) + ' import ' + (
        {'name': str(what), 'as': f'{what} as {alias}', '*': '*'}[written]) + '\n'
    name = '.'.join(parts + (('__init__',) if package else ()))
    tables = world.parse(E, {name: source})
    E.show('source', source)
    if written == '*':
        stars = tables['submodules'].get(parts, [])
        E.check(z3.BoolVal(len(stars) == 1), 'a star import is not recorded')
        found = stars[0]
    else:
        references = tables['references'].get(parts, {})
        E.check(z3.BoolVal(len(references) == 1), 'an import is not recorded')
        (key, (found, thing)), = references.items()
        E.check(z3.BoolVal(len(key) == 1 and len(thing) == 1), 'an import is recorded wrongly')
        E.check(E.nx(key[0]) == E.nx(alias if written == 'as' else what),
                'an import binds another name')
        E.check(E.nx(thing[0]) == E.nx(what), 'an import names another object')
    E.show('found', found)
    E.check(z3.BoolVal(len(found) == len(expected)), 'an import names a module of another depth')
    E.check(conj(*[E.nx(a) == E.nx(b) for a, b in zip(found, expected)]),
            'an import names another module')
