"""C27: where objects can be found."""
import functools
import importlib.abc
import importlib.machinery
import itertools
import sys
import types
import warnings

import z3

from ..lib import *
from ..registry import HarnessError, harness

A, X = ('sxa',), ('sxb', 'sxc')


def function_of(module_name, qualname):
    def made():
        pass
    made.__module__, made.__qualname__ = module_name, qualname
    return made


def class_of(module_name, qualname):
    return type(qualname.rsplit('.', 1)[-1], (), {'__module__': module_name,
                                                  '__qualname__': qualname})


class Wrapper:
    """Something callable that is neither a class nor a function."""

    def __call__(self):
        pass


def objects():
    """{name: (object, its qualified path)}; a path of None means the object is not listed."""
    class_a, class_b = class_of('sxa', 'A'), class_of('sxb.sxc', 'B')
    return {'class': (class_a, (A, ('A',))), 'class two': (class_b, (X, ('B',))),
            'function': (function_of('sxa', 'f'), (A, ('f',))),
            'method': (function_of('sxa', 'A.m'), (A, ('A', 'm'))),
            'builtin': (len, (('builtins',), ('len',))),
            'class method': (dict.fromkeys, (('builtins',), ('dict', 'fromkeys'))),
            'descriptor': (str.join, (('builtins',), ('str', 'join'))),
            'slot': (int.__add__, (('builtins',), ('int', '__add__'))),
            'instance method': ([].append, None),
            'value': (5, None), 'text': ('text', None), 'module': (sys, None),
            'wrapper': (Wrapper(), None), 'partial': (functools.partial(len), None),
            'static': (staticmethod(function_of('sxa', 'g')), None),
            'property': (property(len), None)}


FEW = ('class', 'class two', 'function', 'builtin', 'value')


def locations(entries, module_path, known):
    """[(name of object, location)]: the ways to objects that enter no class twice."""
    def walk(names, path, entered):
        for name, key in names:
            if key in ('class', 'class two'):
                if key not in entered:
                    yield key, path + (name,)
                    yield from walk(entries[key], path + (name,), entered | {key})
            elif known[key][1] is not None:
                yield key, path + (name,)
    return walk(entries[module_path], (), frozenset())


def index_cases(tier):
    pairs = [(k, l) for k in FEW for l in objects()]
    result = [((1, 1), (1, 0, 0), 'all')]
    result += [((1, 0), (n, 0, 0), 'all') for n in (1, 2)]
    result += [((1, 1), sizes, 'few') for sizes in ((1, 1, 0), (1, 1, 1), (2, 1, 0), (1, 2, 0),
                                                    (1, 1, 2), (2, 0, 1))]
    if tier != 'quick':
        result += [((1, 1), sizes, 'few') for sizes in ((2, 1, 1), (2, 2, 1), (3, 1, 1))]
        result += [((2, 1), (1, 1, 1), 'few')]
    return result


@harness('C27', cases=index_cases, weight=lambda c: sum(c[1]) + sum(c[0]),
         bounds='2 modules (one of two parts) and 2 classes with up to 2 attributes each '
                '(thorough: 3), every binding of names to classes (cyclically too), functions, '
                'built-ins, descriptors and other objects; indexing both modules in either order')
def index(E, case):
    (modules_count, more), sizes, which = case
    known = objects()
    keys = list(known) if which == 'all' else list(FEW)
    slots = {A: sizes[0], 'class': sizes[1], 'class two': sizes[2], X: more}
    entries, count = {}, 0
    for scope, size in slots.items():
        entries[scope] = []
        for number in range(size):
            name = E.name(f'n{count}', True)
            for other, _ in entries[scope]:
                E.assume(E.nx(name) != E.nx(other))
            key = E.select(f'o{count}', keys)
            entries[scope].append((name, key))
            count += 1
    modules_ = {A: types.ModuleType('sxa'), X: types.ModuleType('sxb.sxc')}
    for scope, names in entries.items():
        for name, key in names:
            if scope in modules_:
                vars(modules_[scope])[name] = known[key][0]
            else:
                type.__setattr__(known[scope][0], str.__str__(name), known[key][0])
    E.show('entries', entries)
    order = [A, X] if E.flag('order') else [X, A]
    function = entry('paradigm._core.index', 'from_modules')
    checked(function, order)
    package = types.ModuleType('sxb')
    package.__path__ = []
    sys.modules.update({'sxa': modules_[A], 'sxb': package, 'sxb.sxc': modules_[X]})
    try:
        outcome, result = E.call(lambda: function(order))
    finally:
        for name in ('sxa', 'sxb', 'sxb.sxc'):
            del sys.modules[name]
    if outcome == 'exc':
        E.fail(f'indexing raised {type(result).__name__}')
    E.show('index', result)
    expected = {}
    for module_path in order:
        for key, path in locations(entries, module_path, known):
            expected.setdefault(known[key][1], []).append((module_path, path))
    listed = {(m, o): places for m, inner in result.items() for o, places in inner.items()}
    E.check(z3.BoolVal(set(listed) == set(expected)),
            'objects are listed that cannot be found, or the other way around')
    for path, places in expected.items():
        actual = listed[path]
        E.check(z3.BoolVal(len(actual) == len(places)), 'an object is listed at other places')
        E.check(conj(*[disj(same_place(E, a, b) for b in actual) for a in places]),
                'a place of an object is not listed')
        for place in actual:
            value = reach(E, modules_, place)
            E.check(z3.BoolVal(value is next(v for v, p in known.values() if p == path)),
                    'a place leads to another object')


def symbol(E, text):
    """The symbolic name a text stands for."""
    return text if E.concrete else E.tokens.get(text, text)


def same_place(E, a, b):
    if type(b) is not tuple or len(b) != 2 or a[0] != b[0] or len(a[1]) != len(b[1]):
        return z3.BoolVal(False)
    return conj(*[E.nx(symbol(E, x)) == E.nx(symbol(E, y)) for x, y in zip(a[1], b[1])])


def reach(E, modules_, place):
    module_path, path = place
    value = modules_[module_path]
    for name in path:
        value = vars(value)[name]
    return value


class Failing(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, error):
        self.error = error

    def find_spec(self, name, path=None, target=None):
        return (importlib.machinery.ModuleSpec(name, self) if name == 'sxfailing' else None)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        raise self.error


@harness('C27', cases=lambda tier: [(position,) for position in range(3)],
         bounds='one of three modules fails to import in one of 6 ways; warnings are shown, '
                'ignored or recorded')
def failing(E, case):
    position, = case
    error = E.select('error', [ImportError('no'), RuntimeError(1), AttributeError('x'),
                               OSError('y'), SyntaxError('z'), AssertionError()])
    known = objects()
    function = entry('paradigm._core.index', 'from_modules')
    names = [E.name(f'n{i}', True) for i in range(2)]
    modules_ = {A: types.ModuleType('sxa'), X: types.ModuleType('sxb.sxc')}
    keys = [E.select(f'o{i}', ['class', 'function', 'builtin']) for i in range(2)]
    for module_, name, key in zip(modules_.values(), names, keys):
        vars(module_)[name] = known[key][0]
    order = [A, X]
    order.insert(position, ('sxfailing',))
    package = types.ModuleType('sxb')
    package.__path__ = []
    sys.modules.update({'sxa': modules_[A], 'sxb': package, 'sxb.sxc': modules_[X]})
    finder = Failing(error)
    sys.meta_path.insert(0, finder)
    try:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter(E.select('filter', ['always', 'ignore', 'default']))
            outcome, result = E.call(lambda: function(order))
    finally:
        sys.meta_path.remove(finder)
        for name in ('sxa', 'sxb', 'sxb.sxc'):
            del sys.modules[name]
        sys.modules.pop('sxfailing', None)
    if outcome == 'exc':
        E.fail('a module that fails to import makes indexing fail')
    expected = {}
    for module_path, name, key in zip((A, X), names, keys):
        expected.setdefault(known[key][1], []).append((module_path, (name,)))
    listed = {(m, o): places for m, inner in result.items() for o, places in inner.items()}
    E.show('index', result)
    E.check(z3.BoolVal(set(listed) == set(expected)), 'a module that fails to import hides others')
    for path, places in expected.items():
        E.check(z3.BoolVal(len(listed[path]) == len(places)), 'an object is listed at other places')
        E.check(conj(*[disj(same_place(E, a, b) for b in listed[path]) for a in places]),
                'a place of an object is not listed')


def path_cases(tier):
    return [(sort, parts) for sort in ('function', 'class', 'nameless', 'text')
            for parts in range(1, 4 if tier == 'quick' else 6)]


@harness('C27', cases=path_cases,
         bounds='functions (with or without a module) and classes of qualified names with up to 3 '
                'parts (thorough: 5) of symbolic names; names of modules likewise')
def paths(E, case):
    sort, parts = case
    qualified = entry('paradigm._core.catalog', 'qualified_path_from')
    from_string = entry('paradigm._core.catalog', 'path_from_string')
    to_string = entry('paradigm._core.catalog', 'path_to_string')
    names = [E.name(f'n{i}', True) for i in range(parts)]
    module_names = [E.name(f'm{i}', True) for i in range(2)]
    spelled = names[0] if parts == 1 else '.'.join(names)
    module_name = '.'.join(module_names)
    if sort == 'text':
        outcome, actual = E.call(lambda: from_string(spelled))
        compare(E, outcome, actual, tuple(names))
        outcome, text = E.call(lambda: to_string(tuple(names)))
        E.check(z3.BoolVal(outcome == 'ret' and str(text) == str(spelled)),
                'a path has another text')
        outcome, actual = E.call(lambda: from_string(to_string(tuple(names))))
        compare(E, outcome, actual, tuple(names))
        return
    if sort == 'class':
        value = class_of(module_name, 'C')
        value.__qualname__ = str.__str__(spelled)
    else:
        value = function_of(None if sort == 'nameless' else module_name, spelled)
    outcome, actual = E.call(lambda: qualified(value))
    E.show('path', actual)
    if outcome == 'exc' or type(actual) is not tuple or len(actual) != 2:
        E.fail('an object has no qualified path')
    compare(E, 'ret', actual[0], () if sort == 'nameless' else tuple(module_names))
    compare(E, 'ret', actual[1], tuple(names))


def compare(E, outcome, actual, expected):
    if outcome == 'exc':
        E.fail(f'making a path raised {type(actual).__name__}')
    E.check(z3.BoolVal(type(actual) is tuple and len(actual) == len(expected)),
            'a path has another number of parts')
    E.check(conj(*[E.nx(symbol(E, a)) == E.nx(b) for a, b in zip(actual, expected)]),
            'a path has other parts')
