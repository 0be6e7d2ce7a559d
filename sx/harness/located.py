"""C29: which stub definition describes a callable that lives in several places."""
import inspect
import sys
import types

import z3

from .. import engine as en, world
from ..lib import *
from ..registry import HarnessError, harness
from . import imported
from .described import (PK, SELF, STUB, Function, annotation_is, python_class, python_function,
                        signature_of)

HOME = 'sxhome'
# what is found at a place now
HERE, OTHER, ABSENT, UNLOADED = 'here', 'other', 'absent', 'unloaded'
STATES = (HERE, OTHER, ABSENT, UNLOADED)
# what the stub of a place has
FUNCTION, COROUTINE, OVERLOADED = 'function', 'coroutine', 'overloaded'
CALLABLE, OPAQUE = 'callable', 'opaque'  # variables: of a told signature, of an untold one
INITIALIZED, CONSTRUCTED, PLAIN_CLASS, DERIVED = ('initialized', 'constructed', 'plain class',
                                                  'derived')
IMPORTED, NOTHING = 'imported', 'nothing'
CLASSES = (INITIALIZED, CONSTRUCTED, PLAIN_CLASS, DERIVED)
FUNCTIONS = (FUNCTION, COROUTINE, OVERLOADED)


class Spot:
    """A module of the standard library where the callable is listed."""

    def __init__(self, E, index, kind, depth, peers):
        self.module, self.index, self.kind = f'sxplace{index}', index, kind
        self.path = ('K', 'm')[-depth:] if depth > 1 else ('f',)
        self.depth = depth
        self.state = E.select(f'state{index}', STATES)
        self.target = peers[0] if kind in (IMPORTED, DERIVED) else None
        self.function = self.second = None
        receiver = 'self' if kind in (INITIALIZED, CONSTRUCTED) or (
            depth > 1 and kind in FUNCTIONS) else None
        if kind in (FUNCTION, COROUTINE, OVERLOADED, INITIALIZED, CONSTRUCTED):
            self.function = Function(E, f'q{index}', (0, 1, 0, 0, 0), receiver=receiver,
                                     annotated=False, returns=False, defaults=0)
        if kind == OVERLOADED:
            self.second = Function(E, f'q{index}b', (0, 2, 0, 0, 0), receiver=receiver,
                                   annotated=False, returns=False, defaults=0)
        if kind == CALLABLE:
            self.argument, self.result = E.const(f'a{index}'), E.const(f'r{index}')

    @property
    def names(self):
        return [p.x for f in (self.function, self.second) if f is not None for p in f.params]

    def stub(self):
        name, indent = self.path[-1], '    ' * (self.depth - 1)
        head = 'import typing\nfrom typing import overload, Any, Callable\n'
        if self.kind in (IMPORTED, DERIVED):
            head += f'import {self.target.module}\n'
        if self.depth > 1:
            head += 'class K:\n    x: int\n'
        base = ''
        if self.kind in (FUNCTION, COROUTINE):
            body = self.function.text(name, indent,
                                      keyword='def' if self.kind == FUNCTION else 'async def')
        elif self.kind == OVERLOADED:
            body = (self.function.text(name, indent, ('overload',))
                    + self.second.text(name, indent, ('overload',)))
        elif self.kind == CALLABLE:
            body = f'{indent}{name}: Callable[[{self.argument!r}], {self.result!r}]\n'
        elif self.kind == OPAQUE:
            body = f'{indent}{name}: Any\n'
        elif self.kind in CLASSES:
            if self.kind == DERIVED:
                base = f'({self.target.module}.{".".join(self.target.path)})'
            body = f'{indent}class {name}{base}:\n{indent}    y: int\n'
            if self.function is not None:
                body += self.function.text(
                        '__init__' if self.kind == INITIALIZED else '__new__', indent + '    ')
        elif self.kind == IMPORTED:
            if self.depth == 1 and self.target.depth == 1:
                body = f'from {self.target.module} import {self.target.path[0]} as {name}\n'
            else:
                body = f'{indent}{name} = {self.target.module}.{".".join(self.target.path)}\n'
        else:
            body = ''
        return head + body

    def runtime(self, value, other):
        """The loaded module (or None)."""
        if self.state == UNLOADED:
            return None
        result = types.ModuleType(self.module)
        found = {HERE: value, OTHER: other}.get(self.state)
        *owners, name = self.path
        holder = result
        for owner in owners:
            setattr(holder, owner, types.SimpleNamespace())
            holder = getattr(holder, owner)
        if found is not None:
            setattr(holder, name, found)
        return result

    @property
    def live(self):
        return self.state in (HERE, UNLOADED)

    def final(self):
        """The spot that defines what this one's stub says (None: nothing does)."""
        if self.kind == IMPORTED:
            return self.target.final()
        return None if self.kind == NOTHING else self

    def builder(self):
        """The spot whose stub says how to build the class; None for object."""
        if self.kind == DERIVED:
            target = self.target.final()
            return target.builder() if target is not None and target.kind in CLASSES else None
        return self if self.kind in (INITIALIZED, CONSTRUCTED) else None


class Loaded:
    def __init__(self, E, spots, value, other):
        self.spots, self.value, self.other = spots, value, other
        self.E = E

    def __enter__(self):
        for spot in self.spots:
            sys.modules.pop(spot.module, None)
            runtime = spot.runtime(self.value, self.other)
            if runtime is not None:
                sys.modules[spot.module] = runtime
        return self

    def __exit__(self, *_):
        for spot in self.spots:
            sys.modules.pop(spot.module, None)


def is_function(E, signature, function, *, receiver, built):
    """Formula: the plain signature is what the stub function declares."""
    b = base()
    if not isinstance(signature, b.PlainSignature):
        return z3.BoolVal(False)
    params = function.declared[1:] if built and function.receiver is not None else function.declared
    actual = list(signature.parameters)
    if len(actual) != len(params):
        return z3.BoolVal(False)
    result = [annotation_is(E, signature.returns, SELF) if built == '__init__'
              else annotation_is(E, signature.returns, 'Any')]
    for i, (p, q) in enumerate(zip(params, actual)):
        result.append(E.nx(q.name) == p.x)
        if i == 0 and receiver:
            result.append(annotation_is(E, q.annotation, SELF))
        else:
            result.append(E.cx(q.kind, kinds()) == PK)
            result.append(annotation_is(E, q.annotation, 'Any'))
        result.append(z3.BoolVal(isinstance(q, b.RequiredParameter)))
    return z3.And(result)


def is_stub_of(E, signature, spot):
    """Formula: the signature is what the stub at the spot says of calling the thing there."""
    b = base()
    if spot.kind in (FUNCTION, COROUTINE, INITIALIZED, CONSTRUCTED):
        built = {INITIALIZED: '__init__', CONSTRUCTED: '__new__'}.get(spot.kind, '')
        return is_function(E, signature, spot.function, built=built,
                           receiver=not built and spot.depth > 1)
    if spot.kind == OVERLOADED:
        if not isinstance(signature, b.OverloadedSignature):
            return z3.BoolVal(False)
        signatures = list(signature.signatures)
        if len(signatures) != 2:
            return z3.BoolVal(False)
        return z3.And([is_function(E, s, f, built='', receiver=spot.depth > 1)
                       for s, f in zip(signatures, (spot.function, spot.second))])
    if spot.kind == CALLABLE:
        if not isinstance(signature, b.PlainSignature):
            return z3.BoolVal(False)
        params = list(signature.parameters)
        if len(params) != 1:
            return z3.BoolVal(False)
        return z3.And(E.cx(params[0].kind, kinds()) == PO,
                      z3.BoolVal(isinstance(params[0], b.RequiredParameter)),
                      annotation_is(E, params[0].annotation, spot.argument),
                      annotation_is(E, signature.returns, spot.result))
    raise HarnessError(spot.kind)


def is_object(E, signature):
    """Formula: built as object is."""
    b = base()
    return z3.BoolVal(isinstance(signature, b.PlainSignature)
                      and not list(signature.parameters))


def is_inspected(E, signature, names, returns):
    b = base()
    if not isinstance(signature, b.PlainSignature):
        return z3.BoolVal(False)
    params = list(signature.parameters)
    if [str(p.name) for p in params] != list(names):
        return z3.BoolVal(False)
    return annotation_is(E, signature.returns, returns)


KINDS = {
    'function': (FUNCTION, CALLABLE, OPAQUE, INITIALIZED, PLAIN_CLASS, NOTHING, IMPORTED,
                 OVERLOADED, COROUTINE, CONSTRUCTED, DERIVED),
    'class': (INITIALIZED, CONSTRUCTED, PLAIN_CLASS, OPAQUE, CALLABLE, FUNCTION, NOTHING,
              IMPORTED, DERIVED),
}


def valid(kinds):
    """Imports and bases need another place to point at."""
    targets = [kind for kind in kinds if kind not in (IMPORTED, DERIVED)]
    if len(targets) == len(kinds):
        return True
    return bool(targets) and (DERIVED not in kinds or targets[0] != NOTHING)


def combinations(sort, tier):
    result = []
    members = KINDS[sort]
    for a in members:
        for depth in (1, 2):
            if valid((a,)):
                result.append((sort, (a,), (depth,)))
    for a in members:
        for b in members:
            if not valid((a, b)):
                continue
            for depths in (((1, 1), (2, 1)) if tier == 'quick'
                           else ((1, 1), (1, 2), (2, 1), (2, 2))):
                result.append((sort, (a, b), depths))
    core = members[:5] if tier == 'quick' else members[:7]
    for a in core:
        for b in core:
            for c in core + ((IMPORTED, DERIVED) if tier != 'quick' else ()):
                if tier == 'quick' and len({a, b, c}) < 2:
                    continue
                if valid((a, b, c)):
                    result.append((sort, (a, b, c), (1, 1, 1)))
    return result


def spots_of(E, case):
    sort, kinds_, depths = case
    spots = [Spot.__new__(Spot) for _ in kinds_]
    for i, spot in enumerate(spots):
        peers = [other for j, other in enumerate(spots)
                 if j != i and kinds_[j] not in (IMPORTED, DERIVED)]
        spot.__init__(E, i, kinds_[i], depths[i], peers)
    xs = [x for spot in spots for x in spot.names]
    for i, x in enumerate(xs):
        for y in xs[:i]:
            E.assume(x != y)
        for prefix in ('__',):
            E.assume(z3.Not(E.affix('starts', prefix, x)))
    consts = [c for spot in spots if spot.kind == CALLABLE for c in (spot.argument, spot.result)]
    for i, x in enumerate(consts):
        for y in consts[:i]:
            E.assume(E.ox(x) != E.ox(y))
    return spots


def home(value):
    return getattr(value, '__module__', None) or value.__objclass__.__module__


# built-in things of the same names are other things
NAMESAKES = {False: '''
def f(builtinone, builtintwo, builtinthree) -> int: ...
class K:
    def m(self, builtinone, builtintwo, builtinthree) -> int: ...
''', True: '''
class f:
    def __init__(self, builtinone, builtintwo, builtinthree) -> None: ...
class K:
    class m:
        def __init__(self, builtinone, builtintwo, builtinthree) -> None: ...
'''}


def run(E, case, value, other, check):
    spots = spots_of(E, case)
    world.world(E, {'builtins': world.BUILTINS + NAMESAKES[case[0] == 'class'],
                    **{spot.module: spot.stub() for spot in spots}},
                located={(home(value),): {tuple(value.__qualname__.split('.')):
                                   [((spot.module,), spot.path) for spot in spots]}})
    with Loaded(E, spots, value, other):
        signature = signature_of(E, value)
    lives = []
    for spot in spots:
        final = spot.final() if spot.live else None
        if final is not None and final not in lives:
            lives.append(final)
    check(E, signature, spots, lives)


BUILT_IN = {'len': len, 'list.append': list.append, 'int.__add__': int.__add__}
INSPECTED = {name: tuple(inspect.signature(value).parameters) for name, value in BUILT_IN.items()}


def check_callable(E, signature, lives, names):
    functions_ = [spot for spot in lives if spot.kind in FUNCTIONS]
    variables = [spot for spot in lives if spot.kind == CALLABLE]
    if functions_:
        E.check(disj(is_stub_of(E, signature, spot) for spot in functions_),
                'a function is not described by the stub of a function at a place where it is')
    elif variables:
        E.check(disj(is_stub_of(E, signature, spot) for spot in variables),
                'a function is not described by the stub of a variable where it is')
    else:
        check_built(E, signature, [spot for spot in lives if spot.kind in CLASSES],
                    inspected=names, returns='Any')


@harness('C29', cases=lambda tier: combinations('function', tier),
         weight=lambda c: 4 ** len(c[1]),
         bounds='a function listed at up to 3 places (of modules or of classes there); at every '
                'place any of: the function itself, another object, nothing, the module is not '
                'loaded; in its stub: a function, a coroutine function, overloads, a variable '
                'annotated with Callable or Any, a class (with an initializer, a constructor, '
                'none, a base at another place), an import of another place, nothing; names '
                'and annotations arbitrary')
def functions(E, case):
    value = python_function(HOME, 'f')
    other = python_function(HOME, 'f')

    def check(E, signature, spots, lives):
        check_callable(E, signature, lives, ('args', 'kwargs'))
    run(E, case, value, other, check)


def check_built(E, signature, classes, *, inspected, returns):
    builders = {spot.builder() for spot in classes}
    if len(builders) > 1:
        builders.discard(None)
    if len(builders) != 1:
        E.check(is_inspected(E, signature, inspected, returns),
                'what no stub of a place where it is describes (or several in different ways) '
                'is not inspected')
        return
    builder, = builders
    E.check(is_object(E, signature) if builder is None else is_stub_of(E, signature, builder),
            'a callable is not described by the class the stubs declare where it is')


@harness('C29', cases=lambda tier: [(sort, kinds_, depths) for _, kinds_, depths
                                    in combinations('function', 'quick') for sort in BUILT_IN
                                    if len(kinds_) == 1 or len(kinds_) == 2 and tier != 'quick'],
         bounds='as for functions, of built-in functions and descriptors ('
                'len, list.append, int.__add__), at 1 place (thorough 2)')
def built_in(E, case):
    value = BUILT_IN[case[0]]

    def check(E, signature, spots, lives):
        check_callable(E, signature, lives, INSPECTED[case[0]])
    run(E, case, value, max, check)


@harness('C29', cases=lambda tier: combinations('class', tier),
         weight=lambda c: 4 ** len(c[1]),
         bounds='as for functions, of a class listed at up to 3 places')
def classes(E, case):
    value = python_class(HOME, 'f', __init__=build_initializer())
    other = python_class(HOME, 'f')

    def check(E, signature, spots, lives):
        check_built(E, signature, [spot for spot in lives if spot.kind in CLASSES],
                    inspected=('ownone', 'owntwo'), returns=SELF)
    run(E, case, value, other, check)


def build_initializer():
    def __init__(self, ownone, owntwo):
        raise NotImplementedError
    return __init__


# ------------------------------------------------------------------- places the stubs know about
KNOWN = {
    'sxa': '''
import sxb
import sxb as sxc
from sxb import g as h, B as C
def f() -> None: ...
v: int
class K:
    x: int
    def m(self) -> None: ...
    class L:
        y: int
    z = f
class D(sxb.B):
    w: int
class E(C): ...
''',
    'sxb': '''
def g() -> None: ...
class B:
    u: int
    class M:
        t: int
''',
}
PATHS = {
    'sxa': ['f', 'v', 'K', 'K.x', 'K.m', 'K.L', 'K.L.y', 'K.z', 'D', 'D.w', 'D.u', 'D.M', 'D.M.t',
            'E', 'E.u', 'E.M', 'E.M.t', 'h', 'C', 'C.u', 'C.M', 'C.M.t'],
    'sxb': ['g', 'B', 'B.u', 'B.M', 'B.M.t'],
}
# whether these are places does not matter: no callable of the module is described there
EITHER = {'sxb', 'sxc', *(part + '.' + path for part in ('sxb', 'sxc') for path in PATHS['sxb'])}
WORLD = {line.split()[1].split('(')[0].rstrip(':') for line in world.BUILTINS.splitlines()
         if line.startswith('class ')}
MEMBERS = ('__init__', '__new__')  # of object


class Literal(str):
    """A name that symbolic names are compared with when they are looked up in a table."""
    __slots__ = ()

    def __eq__(self, other):
        return other.__eq__(self) if isinstance(other, en.SymName) else str.__eq__(self, other)

    def __ne__(self, other):
        return other.__ne__(self) if isinstance(other, en.SymName) else str.__ne__(self, other)

    def __hash__(self):
        return hash_of_symbols


hash_of_symbols = en.SymName.__hash__(None)


def comparable(value):
    """The table, of such names (and of those the code looks up itself)."""
    if isinstance(value, str):
        return Literal(value)
    if isinstance(value, (tuple, list)):
        return type(value)(map(comparable, value))
    if isinstance(value, dict):
        result = {comparable(key): comparable(item) for key, item in value.items()}
        if set(value) & {'object', ('builtins',)}:
            for key in ('object', ('builtins',)):
                if key in value:
                    result[key] = comparable(value[key])
        return result
    return value


class Listing(imported.Modules):
    """An index of symbolic places."""

    def __init__(self, E, place, layout, tables):
        imported.Process.__init__(self, E, place, 'modules', 0, 'main')
        self.version = E.name('v', True)
        self.symbolic_tables = tables
        self.index, self.places = {}, []
        for i, (home_module, home_path, module_name, size) in enumerate(layout):
            names = tuple(E.name(f'p{i}{j}') for j in range(size))
            location = ((module_name,), names)
            if any(isinstance(name, en.SymName) for name in names):
                location = (Literal(module_name),), names
                self.symbolic_tables = {key: comparable(table)
                                        for key, table in tables.items()}
            self.places.append((home_module, home_path, location))
            (self.index.setdefault((home_module,), {}).setdefault((home_path,), [])
             .append(location))

    def prepare(self):
        for name, value in self.place.kept.items():
            self.place.put(name, value)
        world.load(self.symbolic_tables)
        self.place.put(imported.CORE + 'modules', None)


def is_path(E, names, texts):
    """Formula: the names are one of the dotted texts."""
    return disj(z3.And([E.nx(name) == E.nx(part) for name, part in zip(names, parts)])
                for parts in (text.split('.') for text in texts) if len(parts) == len(names))


def is_either(E, names):
    first = E.nx(names[0])
    builtin = disj(first == E.nx(name) for name in sorted(WORLD))
    return disj([builtin, is_path(E, names, sorted(EITHER))]
                + [E.nx(name) == E.nx(member) for name in names[1:]
                   for member in MEMBERS])


def listings(tier):
    """Homes, modules and lengths of the listed places."""
    result = []
    for size in (1, 2, 3):
        for name in KNOWN:
            result.append((('h', 'o', name, size),))
    pairs = [(1, 1), (2, 1), (1, 2)] + ([(2, 2)] if tier != 'quick' else [])
    for a, b in pairs:
        for homes in ((('h', 'o'), ('h', 'o')), (('h', 'o'), ('h', 'p')), (('h', 'o'), ('i', 'o'))):
            for names in (('sxa', 'sxa'), ('sxa', 'sxb')):
                if tier == 'quick' and a + b > 2 and (homes[0] != homes[1]
                                                      or names[0] == names[1]):
                    continue
                result.append(tuple((*home_, name, size) for home_, name, size
                                    in zip(homes, names, (a, b))))
    if tier != 'quick':
        result += [tuple(('h', home_, name, 1) for home_, name in zip(homes, ('sxa', 'sxb', 'sxa')))
                   for homes in (('o', 'o', 'o'), ('o', 'p', 'o'), ('o', 'p', 'p'))]
    return result


@harness('C29', cases=listings, weight=lambda c: 3 ** sum(size for *_, size in c),
         bounds='an index of up to 2 places (thorough 3) of up to 3 (2 together with another) '
                'symbolic names in two modules of functions, variables, classes, nested and '
                'derived classes, aliases and imports')
def supported(E, layout):
    tables = world.parse(E, KNOWN)
    with imported.Place() as place:
        process = Listing(E, place, layout, tables)
        outcome, result, _ = process.run()
        if outcome == 'exc':
            import traceback
            E.show('error', ''.join(traceback.format_exception(result))[-1500:])
            E.fail(f'importing the package raised {type(result).__name__}')
        table = process.tables(result)[0]
    E.show('index', process.index)
    E.show('kept', table)
    kept = [list(map(list, inner.values())) for inner in table.values()]
    left = {(m, p): list(locations) for m, inner in table.items()
            for p, locations in inner.items()}
    for home_module, home_path, (module_path, names) in process.places:
        known = is_path(E, names, next(paths for name, paths in PATHS.items()
                                         if name == module_path[0]))
        locations = left.get(((home_module,), (home_path,)), [])
        # the same object: places are taken over as they are
        found = [location for location in locations if location[0] == module_path
                 and len(location[1]) == len(names)
                 and all(a is b for a, b in zip(location[1], names))]
        either = is_either(E, names)
        E.check(disj([either, known == z3.BoolVal(bool(found))]),
                'a place is listed although the stubs define nothing there, or the reverse')
        for location in found[:1]:
            locations.remove(location)
    E.check(z3.BoolVal(not any(left.values())), 'places nobody found are listed')
    E.check(z3.BoolVal(all(kept) and all(all(inner) for inner in kept)), 'objects are listed at '
                                                                         'no place')
