"""C25: what the package trusts of its caches when it is imported."""
import builtins
import importlib
import io
import itertools
import os
import pathlib
import shutil
import sys
import types
import warnings

import z3

from .. import instrument, world
from ..lib import *
from ..registry import HarnessError, harness
from .cached import same

CORE = 'paradigm._core.'


class Crash(BaseException):
    """The process is gone."""


_places = {}


class Place:
    """A directory of its own for the package's caches, and faults of the files there."""

    def __init__(self):
        self.finder = instrument._finder
        key = os.getpid(), self.finder.root
        if key not in _places:
            root = os.path.join(self.finder.root, f'sxplace{os.getpid()}')
            shutil.copytree(os.path.join(self.finder.root, 'paradigm'),
                            os.path.join(root, 'paradigm'))
            _places[key] = root
        self.root = _places[key]
        self.core = os.path.join(self.root, 'paradigm', '_core')
        self.budget = self.reaction = None
        self.triggered = False

    def caches(self):
        return [os.path.join(self.core, name) for name in os.listdir(self.core)
                if name.startswith('_mypy_')]

    def contents(self):
        result = {}
        for path in sorted(self.caches()):
            with self.open_(path, encoding='utf-8') as file:
                result[path] = file.read()
        return result

    def __enter__(self):
        self.kept = {name: module(name) for name in (CORE + 'stubs', CORE + 'modules')}
        self.clean()
        self.old_root, self.finder.root = self.finder.root, self.root
        self.finder.caches = True
        self.open_ = io.open
        io.open = builtins.open = self.open
        if self.finder.builtins is not None:
            self.finder.builtins['open'] = self.open
        return self

    def __exit__(self, *_):
        io.open = builtins.open = self.open_
        if self.finder.builtins is not None:
            self.finder.builtins['open'] = self.open_
        self.finder.root = self.old_root
        self.finder.caches = False
        self.forget()
        for name, value in self.kept.items():
            self.put(name, value)
        self.clean()

    def put(self, name, value):
        parent, _, last = name.rpartition('.')
        if value is None:
            sys.modules.pop(name, None)
            vars(sys.modules[parent]).pop(last, None)
        else:
            sys.modules[name] = value
            setattr(sys.modules[parent], last, value)

    def forget(self):
        """As if the process ends."""
        for name in list(sys.modules):
            if name.startswith(CORE + '_mypy_') or name in (CORE + 'stubs', CORE + 'modules'):
                self.put(name, None)

    def clean(self):
        """No caches."""
        for name in os.listdir(self.core):
            path = os.path.join(self.core, name)
            if name == '__pycache__':
                for inner in os.listdir(path):
                    if '_mypy_' in inner:
                        os.unlink(os.path.join(path, inner))
            elif '_mypy_' in name or name.endswith('.tmp'):
                os.unlink(path)

    def open(self, file, mode='r', *args, **kwargs):
        writes = any(c in mode for c in 'wax+')
        inside = isinstance(file, (str, os.PathLike)) and os.path.abspath(
                os.fspath(file)).startswith(self.core)
        if not writes or not inside or self.reaction is None:
            return self.open_(file, mode, *args, **kwargs)
        if self.budget is None:
            self.triggered = True
            raise self.reaction
        return File(self.open_(file, mode, *args, **kwargs), self)


class File:
    def __init__(self, file, place):
        self.file, self.place = file, place

    def write(self, text):
        place = self.place
        if place.reaction is not None:
            if len(text) > place.budget:
                self.file.write(text[:place.budget])
                self.file.flush()
                place.triggered = True
                raise place.reaction
            place.budget -= len(text)
        return self.file.write(text)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def __enter__(self):
        self.file.__enter__()
        return self

    def __exit__(self, *args):
        return self.file.__exit__(*args)

    def __getattr__(self, name):
        return getattr(self.file, name)


TABLES = world.TABLES
FAULTS = ('none', 'open', 'write', 'crash')
CUTS = (0, 1, 20, 60, 111, 180, 250, 300)


class Process:
    """The steps common to importing either module of tables."""

    def __init__(self, E, place, name, number, role):
        self.E, self.place, self.number, self.role = E, place, number, role
        self.name = name
        self.calls = 0

    def call_in_process(self, function, *args, **kwargs):
        self.calls += 1
        return self.computed

    def run(self):
        place, E = self.place, self.E
        paradigm = sys.modules['paradigm']
        execution = module(CORE + 'execution')
        before = (paradigm.__version__, execution.call_in_process, execution.is_main_process)
        for attribute in ('call_in_process', 'is_main_process'):
            entry(CORE + 'execution', attribute)
        place.forget()
        self.prepare()
        paradigm.__version__ = self.version
        execution.call_in_process = self.call_in_process
        execution.is_main_process = lambda: self.role == 'main'
        crashed = False
        try:
            with warnings.catch_warnings(record=True):
                warnings.simplefilter('always')
                try:
                    outcome, result = E.call(lambda: importlib.import_module(CORE + self.name))
                except Crash:
                    crashed, outcome, result = True, None, None
        finally:
            (paradigm.__version__, execution.call_in_process,
             execution.is_main_process) = before
        return outcome, result, crashed

    def prepare(self):
        pass


class Stubs(Process):
    def __init__(self, E, place, number, role):
        super().__init__(E, place, 'stubs', number, role)
        kind = entry('paradigm._core.arboreal.kind', 'NodeKind')
        name = E.name(f't{number}', True)
        const = E.const(f'c{number}')
        path = ('m',)
        self.version = E.name(f'v{number}', True)
        self.computed = ({path: {name: {}}},
                         {path: {(name,): (list(kind)[number % len(list(kind))])}},
                         {path: {(name,): [f"Name('x{number}', Load())"]}},
                         {path: {(name, 'y'): (('n',), ())}}, {path: [('n', name)]},
                         {path: {(name,): [(('o',), (name,))]}})
        self.kinds = kind
        self.mark = const

    def tables(self, result):
        try:
            return tuple(getattr(result, table) for table in TABLES)
        except AttributeError as error:
            raise HarnessError(f'stubs module has no tables: {error}')

    def holds(self, tables, expected):
        E = self.E
        parts = []
        for table, name, wanted in zip(tables, TABLES, expected):
            if name != 'nodes_kinds':
                parts.append(same(E, table, wanted))
                continue
            # kinds are members of the enumeration, loaded or computed
            found = [(key, value) for inner in table.values() for key, value in inner.items()]
            if any(not isinstance(value, self.kinds) for _, value in found):
                parts.append(z3.BoolVal(False))
            plain = lambda d: {k: {p: int(v) for p, v in inner.items()} for k, inner in d.items()}
            parts.append(same(E, plain(table), plain(wanted)))
        return conj(*parts)

    empty = ({},) * 6


class Modules(Process):
    M = ('sxm',)

    def __init__(self, E, place, number, role):
        super().__init__(E, place, 'modules', number, role)
        self.version = E.name(f'v{number}', True)
        self.names = [E.name(f't{number}{i}', True) for i in range(2)]
        E.assume(E.nx(self.names[0]) != E.nx(self.names[1]))
        self.defined = E.name(f'd{number}', True)
        a, b = self.names
        self.index = {self.M: {(a,): [(self.M, (a,)), (self.M, (b,))]},
                      ('sxn',): {(a,): [(('sxn',), (a,))]}}

    def prepare(self):
        # the index is confined to what stubs know
        for name, value in self.place.kept.items():
            self.place.put(name, value)
        paths = [('builtins',), self.M]
        world.load({'definitions': {paths[0]: {}, self.M: {self.defined: {}}},
                    'nodes_kinds': {}, 'raw_ast_nodes': {}, 'references': {p: {} for p in paths},
                    'submodules': {p: [] for p in paths},
                    'superclasses': {p: {} for p in paths}})
        self.place.put(CORE + 'modules', None)

    def call_in_process(self, function, *args, **kwargs):
        self.calls += 1
        return self.index

    @property
    def computed(self):
        if not hasattr(self, '_computed'):
            E, known = self.E, {}
            is_known = lambda name: E.decide(E.nx(name) == E.nx(self.defined))
            result = {}
            for path, locations in self.index[self.M].items():
                kept = [(m, p) for m, p in locations if is_known(p[0])]
                if kept:
                    result[path] = kept
            self._computed = ({self.M: result} if result else {},)
        return self._computed

    def tables(self, result):
        try:
            return (result.supported_stdlib_qualified_paths,)
        except AttributeError as error:
            raise HarnessError(f'modules module has no table: {error}')

    def holds(self, tables, expected):
        return same(self.E, tables[0], expected[0])

    empty = ({},)


SORTS = {'stubs': Stubs, 'modules': Modules}


def history(E, sort, start, steps, cut):
    with Place() as place:
        # what the next process may find: complete tables with their version, or nothing of use
        candidates = [None]
        for number, (role, fault) in enumerate(steps):
            process = SORTS[sort](E, place, number, role)
            if not number and start != 'missing':
                begin(E, place, process, start)
            place.triggered = False
            place.reaction, place.budget = {
                'none': (None, None), 'open': (PermissionError('no'), None),
                'write': (OSError('no space'), cut), 'crash': (Crash(), cut)}[fault]
            before = place.contents()
            outcome, result, crashed = process.run()
            place.reaction = None
            E.show(f'contents {number}', list(place.contents().values()))
            usable = [candidate is not None
                      and E.decide(E.nx(candidate[1]) == E.nx(process.version))
                      for candidate in candidates]
            if crashed:
                if role != 'main' or all(usable):
                    E.fail('a cache is written although it can be used')
                # all but the end of the last line may be there
                candidates += [None, (process.computed, process.version)]
                continue
            if outcome == 'exc':
                E.show('error', repr(result))
                E.fail(f'importing the package raised {type(result).__name__}')
            tables = process.tables(result)
            E.show(f'tables {number}', tables)
            if role != 'main':
                held = [process.holds(tables, candidate[0]) for candidate, used
                        in zip(candidates, usable) if used]
                if not all(usable):
                    held.append(process.holds(tables, process.empty))
                E.check(z3.BoolVal(not process.calls), 'a helper process computes tables')
                E.check(disj(held), 'a helper process has other tables than those of a cache it '
                                    'may use, or none')
                E.check(z3.BoolVal(place.contents() == before), 'a helper process writes a cache')
                continue
            if not process.calls and any(usable):
                E.check(disj(process.holds(tables, candidate[0]) for candidate, used
                             in zip(candidates, usable) if used),
                        'tables are others than those that were cached')
                E.check(z3.BoolVal(place.contents() == before),
                        'a cache that is used is written')
                candidates = [candidate for candidate, used in zip(candidates, usable) if used]
                continue
            E.check(z3.BoolVal(not all(usable)), 'a cache that can be used is not')
            E.check(z3.BoolVal(process.calls == 1),
                    'tables are not computed although there is no cache to use')
            E.check(process.holds(tables, process.computed),
                    'tables are others than those computed')
            fresh = process.computed, process.version
            if place.triggered:
                candidates += [None, fresh]
            else:
                candidates = [fresh]


def begin(E, place, process, start):
    """A cache damaged in some other way than by stopping halfway."""
    old = SORTS[process.name](E, place, 9, 'main')
    E.assume(E.nx(old.version) == E.nx(process.version))
    _, _, crashed = old.run()
    place.forget()
    path, = place.caches()
    with place.open_(path, encoding='utf-8') as file:
        text = file.read()
    lines = text.splitlines(True)
    if start == 'empty':
        text = ''
    elif start == 'syntax':
        text = text.replace('}', '', 1)
    elif start == 'raises':
        text = text + 'undefined_name\n'
    elif start == 'kinds':
        # numbers of kinds that are not known
        count = len(list(old.kinds))
        text = text.replace(f': {int(list(old.kinds)[9 % count])}\n', ': 97\n')
    elif start == 'fields':
        first = next(i for i, line in enumerate(lines) if i and line[0].isalpha())
        text = ''.join(lines[first:])
    else:
        raise HarnessError(start)
    os.unlink(path)
    with place.open_(path, 'w', encoding='utf-8') as file:
        file.write(text)


def history_cases(tier):
    roles = ('main', 'helper')
    result = []
    for sort in SORTS:
        result += [(sort, ((role, 'none'),) * 1) for role in roles]
        for a, b in itertools.product(roles, repeat=2):
            result.append((sort, ((a, 'none'), (b, 'none'))))
        for fault in FAULTS[1:]:
            for role in roles:
                result.append((sort, (('main', fault), (role, 'none'))))
                result.append((sort, (('main', 'none'), ('main', fault), (role, 'none'))))
                result.append((sort, (('main', fault), ('main', 'none'), (role, 'none'))))
            result.append((sort, (('helper', fault), ('main', 'none'))))
        result.append((sort, (('main', 'none'),) * 3))
        if tier != 'quick':
            result += [(sort, (('main', a), ('main', b), ('main', c), ('main', 'none')))
                       for a in FAULTS for b in FAULTS for c in FAULTS]
            result += [(sort, ((a, 'none'), (b, 'none'), (c, 'none'), ('main', 'none')))
                       for a in roles for b in roles for c in roles]
    return list(dict.fromkeys(result))


@harness('C25', cases=history_cases, weight=lambda c: len(c[1]),
         bounds='histories of up to 3 imports (thorough: 4) by main and helper processes of '
                'symbolic versions; saving stops at one of 8 places (or at opening) with an error '
                'or the end of the process; either module of tables')
def histories(E, case):
    sort, steps = case
    cut = E.select('cut', list(CUTS)) if any(f in ('write', 'crash') for _, f in steps) else None
    history(E, sort, 'missing', steps, cut)


def point_cases(tier):
    width = 40
    return [(sort, fault, low, low + width) for sort, total in (('stubs', 520), ('modules', 280))
            for fault in ('write', 'crash') for low in range(0, total, width)]


@harness('C25', cases=point_cases,
         bounds='saving stops, with an error or the end of the process, after every number of '
                'characters; then an import by a process of symbolic version')
def points(E, case):
    sort, fault, low, high = case
    cut = E.select('cut', list(range(low, high)))
    history(E, sort, 'missing', (('main', fault), ('main', 'none')), cut)


@harness('C25', cases=lambda tier: [(sort, start, role) for sort in SORTS for role in
                                    ('main', 'helper')
                                    for start in ('empty', 'syntax', 'raises', 'fields')
                                    + (('kinds',) if sort == 'stubs' else ())
                                    ],
         bounds='caches of the right version that are empty, are not Python, raise, lack a field '
                'or hold unknown kinds of nodes')
def damaged(E, case):
    sort, start, role = case
    history(E, sort, start, ((role, 'none'), ('main', 'none')), None)
