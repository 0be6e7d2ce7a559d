"""C31: what the stub of a variable says of calling it."""
import itertools

import z3

from .. import engine as en, world
from ..lib import *
from ..registry import HarnessError, harness
from .described import ANY, STUB, annotation_is, python_function, signature_of

OTHER, DECOY = 'sxother', 'sxdecoy'
# places of definitions: the module, its class, another module
MODULE, CLASS, ELSEWHERE = 'module', 'class', 'elsewhere'
HEAD = ('import typing\nimport sxdecoy\nfrom typing import Any, Callable, TypeVar, overload\n'
        'from typing import Callable as Called\n'
        'def function(hidden: object) -> object: ...\n')
DECOYS = ('import typing\nclass TypeVar:\n    def __call__(self, hidden: object) -> object: ...\n'
          'Callable: object\n')
OPAQUE = ('{c} | None', '"{c}"', 'None', 'typing.Optional[{c}]', '[{c}]', 'function({c})',
          'function({c})[object]', 'function({c})({c})', 'function({c}).attribute', '({c}, {c})',
          'lambda: {c}', 'sxdecoy.TypeVar("T", bound={c})', 'sxdecoy.TypeVar("T", {c}, {c})',
          'typing.NamedTuple("T", bound={c})', 'typing.NamedTuple("T", {c}, {c})',
          'sxdecoy.Callable[[object], object]', 'typing.Union[[object], object]',
          'Any', 'object', 'Callable', 'function', 'typing.Any')
OPAQUE_VALUES = range(17)  # names would be other things themselves
OPAQUE_TYPES = tuple(i for i, text in enumerate(OPAQUE) if text != 'function')


class Told:
    """A signature: what a callable takes and returns."""

    def __init__(self, params, returns):
        self.params, self.returns = params, returns  # [(kind, name, optional, annotation)]

    def check(self, E, signature):
        b = base()
        actual = list(signature.parameters)
        E.check(z3.BoolVal(len(actual) == len(self.params)),
                'the signature takes another number of parameters than its variable tells')
        for q, (kind, name, optional, annotation) in zip(actual, self.params):
            E.check(E.cx(q.kind, kinds()) == kind, 'a parameter has another kind')
            E.check(z3.BoolVal(str(q.name).isidentifier()) if name is None
                    else E.nx(q.name) == E.nx(name), 'a parameter has another name')
            E.check(z3.BoolVal(isinstance(q, b.OptionalParameter) is optional),
                    'a parameter is optional although it is required, or the reverse')
            if optional:
                E.check(z3.Not(E.bx(q.has_default)), 'a parameter has a default')
            E.check(annotation_is(E, q.annotation, annotation),
                    'a parameter has another annotation than the variable tells')
        E.check(annotation_is(E, signature.returns, self.returns),
                'the signature returns something else than the variable tells')


class World:
    """Stubs in the making."""

    def __init__(self, E, home):
        self.E, self.home, self.count = E, home, itertools.count()
        self.lines = {MODULE: [], CLASS: [], ELSEWHERE: []}
        self.names = {place: [] for place in self.lines}

    def name(self, place=None):
        """A name for something, no other of its place."""
        E = self.E
        result = E.name(f'x{next(self.count)}', True)
        E.assume(z3.Not(E.affix('starts', '__', E.nx(result))))
        if place is not None:
            self.names[place].append(result)
        return result

    def const(self):
        return self.E.const(f'c{next(self.count)}')

    def define(self, place, text):
        self.lines[place] += text.splitlines()

    def modules(self):
        E = self.E
        for place in self.lines:
            # names may mean other things where these are not visible
            name = self.name(place)
            self.define(place, f'{name} = Callable[[{self.const()!r}], {self.const()!r}]')
            mine = list(self.names[place])
            if place == CLASS and self.home == CLASS:
                mine += self.names[MODULE]
            for one, two in itertools.combinations(mine, 2):
                E.assume(E.nx(one) != E.nx(two))
        lines = {place: ''.join(line + '\n' for line in lines)
                 for place, lines in self.lines.items()}
        body = ''.join(f'    {line}\n' for line in self.lines[CLASS])
        return {STUB: HEAD + f'import {OTHER}\n' + lines[MODULE] + 'class K:\n    x: int\n' + body,
                OTHER: HEAD + lines[ELSEWHERE], DECOY: DECOYS}

    def build(self, term, place):
        """(text to use at the place, what it tells)"""
        kind, *rest = term
        return getattr(self, 'build_' + kind)(place, *rest)

    def callable_name(self):
        return self.E.select(f's{next(self.count)}', ['Callable', 'typing.Callable', 'Called'])

    def build_callable(self, place, arity):
        consts = [self.const() for _ in range(arity)]
        returns = self.const()
        return (f'{self.callable_name()}[[{", ".join(map(repr, consts))}], {returns!r}]',
                [Told([(PO, None, False, c) for c in consts], returns)])

    def build_any(self, place):
        returns = self.const()
        return (f'{self.callable_name()}[..., {returns!r}]',
                [Told([(VP, None, True, ANY), (VK, None, True, ANY)], returns)])

    def build_opaque(self, place, index):
        return OPAQUE[index].format(c='Callable[[object], object]'), None

    def build_instance(self, place, overloads):
        owner = self.name(place)
        self.define(place, f'class {owner}:\n    attribute: int')
        told = []
        for index in range(overloads):
            one, two, result = self.const(), self.const(), self.const()
            first, second = self.name(), self.name()
            self.E.assume(self.E.nx(first) != self.E.nx(second))
            if overloads > 1:
                self.define(place, '    @overload')
            if index == 0:
                self.define(place, f'    def __call__(self, {first}: {one!r}, *, '
                                   f'{second}: {two!r} = ...) -> {result!r}: ...')
                told.append(Told([(PK, first, False, one), (KO, second, True, two)], result))
            else:
                self.define(place, f'    def __call__(self, *{first}: {one!r}) -> {result!r}: ...')
                told.append(Told([(VP, first, True, one)], result))
        return f'{owner}', told or None

    def build_scoped(self, place):
        owner, name, parameter, value = self.name(place), self.name(), self.name(), self.const()
        self.define(place, f'class {owner}:\n    {name} = {value!r}\n'
                           f'    def __call__(self, {parameter}: {name}) -> {name}: ...')
        return f'{owner}', [Told([(PK, parameter, False, value)], value)]

    def variable(self, place, argument):
        name = self.name(place)
        self.define(place, f'{name} = TypeVar("T"{argument})')
        return f'{name}'

    def build_variable(self, place):
        return self.variable(place, ''), None

    def build_covariant(self, place):
        return self.variable(place, ', covariant=True'), None

    def build_bound(self, place, term):
        text, told = self.build(term, place)
        return self.variable(place, f', covariant=True, bound={text}'), told

    def build_constraints(self, place, *terms):
        built = [self.build(term, place) for term in terms]
        return (self.variable(place, ''.join(f', {text}' for text, _ in built)),
                None if any(told is None for _, told in built)
                else [signature for _, told in built for signature in told])

    def build_alias(self, place, term):
        text, told = self.build(term, place)
        name = self.name(place)
        self.define(place, f'{name} = {text}')
        return f'{name}', told

    def build_declared(self, place, term):
        text, told = self.build(term, place)
        name = self.name(place)
        self.define(place, f'{name}: Any = {text}')
        return f'{name}', told

    def build_twice(self, place, term):
        text, told = self.build(term, place)
        name = self.name(place)
        self.define(place, f'{name} = {text}\n{name} = {text}')
        return f'{name}', None

    def elsewhere(self, term):
        text, told = self.build(term, ELSEWHERE)
        name = self.name(ELSEWHERE)
        self.define(ELSEWHERE, f'{name} = {text}')
        return name, told

    def build_imported(self, place, term):
        name, told = self.elsewhere(term)
        alias = self.name(MODULE)
        self.define(MODULE, f'from {OTHER} import {name} as {alias}')
        return f'{alias}', told

    def build_same(self, place, term):
        name, told = self.elsewhere(term)
        self.names[MODULE].append(name)
        self.define(MODULE, f'from {OTHER} import {name}')
        return f'{name}', told

    def build_attribute(self, place, term):
        name, told = self.elsewhere(term)
        return f'{OTHER}.{name}', told

    def build_member(self, place, term):
        text, told = self.build(term, CLASS)
        name = self.name(CLASS)
        self.define(CLASS, f'{name} = {text}')
        return f'K.{name}', told


SIMPLE = [('callable', 0), ('callable', 1), ('callable', 2), ('any',), ('instance', 1),
          ('instance', 2), ('instance', 0), ('scoped',), ('variable',), ('covariant',)]
INNER = [('callable', 1), ('any',), ('instance', 2), ('scoped',), ('instance', 0), ('opaque', 0)]
WRAPPERS = ('bound', 'alias', 'declared', 'twice', 'imported', 'same', 'attribute')
REMOTE = ('imported', 'same', 'attribute', 'member')


def is_remote(term):
    return term[0] in REMOTE or any(isinstance(part, tuple) and is_remote(part)
                                    for part in term[1:])


def is_nameless(term):
    """The term's text is not a path."""
    return term[0] in ('callable', 'any') or term[0] == 'opaque' and term[1] in OPAQUE_VALUES


def wrapped(terms, inner=WRAPPERS):
    return [(wrapper, term) for wrapper in inner for term in terms
            if not (wrapper in REMOTE and is_remote(term))
            # a name bound to a name is what the other name is
            and not (wrapper == 'twice' and not is_nameless(term))]


def terms(tier):
    opaque = [('opaque', i) for i in OPAQUE_TYPES]
    one = wrapped(INNER) + [('member', term) for term in INNER]
    one += [('constraints', x, y) for x, y in itertools.product(INNER[:4] + INNER[5:], repeat=2)]
    one += [('constraints', x) for x in INNER]
    result = SIMPLE + opaque + one
    core = wrapped(INNER[:3] if tier == 'quick' else INNER, ('bound', 'alias', 'attribute'))
    result += wrapped(core)
    if tier != 'quick':
        result += [('constraints', x, y) for x, y in itertools.product(core, repeat=2)
                   if not (is_remote(x) and is_remote(y))]
        result += wrapped(wrapped(core))
        result += wrapped([('constraints', x, y) for x, y in itertools.product(INNER, repeat=2)])
    return list(dict.fromkeys(result))


def is_member(term):
    return term[0] == 'member' or any(isinstance(part, tuple) and is_member(part)
                                      for part in term[1:])


def variable_cases(tier):
    result = [('annotated', home, (term,)) for term in terms(tier) for home in (MODULE, CLASS)
              if not (home == CLASS and is_member(term))]
    values = ([('callable', 1), ('any',)] + [('opaque', i) for i in OPAQUE_VALUES])
    result += [(form, home, (term,)) for term in values for home in (MODULE, CLASS)
               for form in ('assigned', 'both')]
    result += [('annotated', MODULE, pair) for pair in itertools.product(INNER, repeat=2)]
    return result


@harness('C31', cases=variable_cases, weight=lambda c: len(str(c)),
         bounds='a variable of a module or class annotated with (or assigned) callable types of '
                'up to 2 arguments or any, classes with up to 2 overloads of __call__ or none, '
                'type variables, aliases, imports and members of those, nested twice (thorough: '
                'three times), or 22 other expressions; or annotated twice; names and '
                'annotations arbitrary, also where the same names mean something else in another '
                'scope')
def variables(E, case):
    form, home, terms_ = case
    world_ = World(E, home)
    built = [world_.build(term, home) for term in terms_]
    for text, _ in built:
        world_.define(home, {'annotated': f'f: {text}', 'assigned': f'f = {text}',
                             'both': f'f: object = {text}'}[form])
    modules = world_.modules()
    E.show('stub', modules[STUB])
    E.show('other', modules[OTHER])
    world.world(E, modules)
    signature = signature_of(E, python_function(STUB, 'f' if home == MODULE else 'K.f'))
    told = (None if any(told is None for _, told in built)
            else [one for _, told in built for one in told])
    b = base()
    if told is None:
        params = [str(p.name) for p in signature.parameters] if isinstance(
                signature, b.PlainSignature) else None
        E.check(z3.BoolVal(params == ['args', 'kwargs'] and signature.returns is not None),
                'a callable whose variable tells nothing is not inspected')
        E.check(annotation_is(E, signature.returns, ANY),
                'a callable whose variable tells nothing is not inspected')
        return
    signatures = ([signature] if isinstance(signature, b.PlainSignature)
                  else list(signature.signatures))
    E.check(z3.BoolVal(len(signatures) == len(told)),
            'the signature has another number of alternatives than its variable tells')
    for actual, wanted in zip(signatures, told):
        wanted.check(E, actual)
