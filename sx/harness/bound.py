"""C17: bound callables, partials and overloads."""
import functools
import types

import z3

from .. import world
from ..lib import *
from ..registry import harness
from . import described as d
from .described import (ANY, SELF, STUB, Function, check_function, layouts, member, method_cases,
                        method_text, no_dunder, python_class, python_function, signature_of)

BOUNDS = d.BOUNDS


def with_variants(*variants):
    return lambda tier: [case + (variant,) for case in method_cases(tier) for variant in variants]


def bound_method(variant, other=None):
    """A method K.m bound to an instance; other: a function overriding it in a subclass."""
    m = python_function(STUB, 'K.m')
    if variant == 'renamed':
        return python_class(STUB, 'K', n=m)().n
    if variant == 'mangled':
        m = python_function(STUB, 'K.__m')
        return getattr(python_class(STUB, 'K', _K__m=m)(), '_K__m')
    K = python_class(STUB, 'K', m=m)
    if variant == 'own':
        return K().m
    namespace = {'m': python_function(STUB, 'B.m')} if variant == 'super' else {}
    B = python_class(STUB, 'B', (K,), **namespace)
    return super(B, B()).m if variant == 'super' else B().m


@harness('C17', cases=with_variants('own', 'inherited', 'super', 'renamed', 'mangled'),
         bounds='methods bound to instances of their class or of a subclass, to super() under an '
                'override, under another attribute or a mangled name: ' + BOUNDS)
def instances(E, case):
    function = member(E, case[:-1])
    name = '__m' if case[-1] == 'mangled' else 'm'
    text = method_text(function, name)
    if case[-1] in ('super', 'inherited'):
        text += 'class B(K):\n    x: int\n'
    if case[-1] == 'super':
        text += '    def m(self, only: str, two: str, /, *, here: int) -> int: ...\n'
    world.world(E, {STUB: text})
    check_function(E, signature_of(E, bound_method(case[-1])), function, drop=1)


@harness('C17', cases=with_variants('class', 'instance', 'subclass', 'metaclass'),
         bounds='class methods obtained from a class, an instance or a subclass, methods of a '
                'metaclass: ' + BOUNDS)
def classes(E, case):
    function = member(E, case[:-1])
    if case[-1] == 'metaclass':
        world.world(E, {STUB: 'class M(type):\n' + function.text('m', '    ')})
        M = python_class(STUB, 'M', (type,), m=python_function(STUB, 'M.m'))
        callable_ = M('K', (), {}).m
    else:
        world.world(E, {STUB: method_text(function, 'm', ('classmethod',)) + 'class B(K): ...\n'})
        K = python_class(STUB, 'K', m=classmethod(python_function(STUB, 'K.m')))
        B = python_class(STUB, 'B', (K,))
        callable_ = {'class': K, 'instance': K(), 'subclass': B}[case[-1]].m
    check_function(E, signature_of(E, callable_), function, drop=1)


class Appended(list):
    """Overrides a built-in method."""

    def append(self, one, two, three):
        raise NotImplementedError


class Longer(Appended):
    """Inherits an override."""


class Plain(dict):
    """Inherits everything."""


class Collected(Plain):
    """Overrides a built-in class method."""

    @classmethod
    def fromkeys(cls, one, two, three):
        raise NotImplementedError

    @classmethod
    def above(cls):
        return super().fromkeys


class Meta(type):
    """Overrides a method of classes."""

    def mro(self):
        return super().mro()


class Aliased(type):
    """Overrides a method of classes by another one."""

    __subclasses__ = type.__dict__['__instancecheck__']


class Switched(dict):
    """Overrides a built-in class method by another one."""

    fromkeys = object.__dict__['__subclasshook__']


for cls in (Collected, Switched):
    cls.__module__ = 'builtins'
OVERRIDES = '''
class Collected(dict):
    @classmethod
    def fromkeys(cls, one: int, /, two: str) -> bytes: ...
class Switched(dict):
    @classmethod
    def fromkeys(cls, *one: int) -> bytes: ...
'''


# the method of the stub and how to get hold of it
INSTANCE_BOUND = {
    'list.append': ('list.append', lambda: [].append),
    'list.append of a subclass': ('list.append', lambda: type('S', (list,), {})().append),
    'list.append by super': ('list.append', lambda: super(Appended, Longer()).append),
    'dict.get': ('dict.get', lambda: {}.get),
    'dict.get of a subclass': ('dict.get', lambda: Plain().get),
    'int.__add__': ('int.__add__', lambda: (1).__add__),
    'int.__add__ of a subclass': ('int.__add__', lambda: type('S', (int,), {})(1).__add__),
    'str.join': ('str.join', lambda: ''.join),
    'type.__call__': ('type.__call__', lambda: int.__call__),
    'int.__and__': ('int.__and__', lambda: super(bool, True).__and__),
    'type.mro of a class': ('type.mro', lambda: int.mro),
    'type.mro of a user class': ('type.mro', lambda: Plain.mro),
    'type.mro by super': ('type.mro', lambda: super(Meta, Meta('K', (), {})).mro),
    'type.__subclasses__ of a class of a metaclass':
        ('type.__subclasses__', lambda: Meta('K', (), {}).__subclasses__),
    'type.__subclasses__ by super':
        ('type.__subclasses__', lambda: super(Aliased, Aliased('K', (), {})).__subclasses__),
}


def rest_of_builtins(owner):
    return ''.join('class ' + part for part in world.BUILTINS.split('class ')[1:]
                   if part.split(':')[0] != owner)


@harness('C17', cases=with_variants(*INSTANCE_BOUND),
         bounds='built-in methods and slot wrappers bound to instances and classes ('
                + ', '.join(INSTANCE_BOUND) + '): ' + BOUNDS)
def built_in_instances(E, case):
    path, get = INSTANCE_BOUND[case[-1]]
    owner, name = path.split('.')
    function = member(E, case[:-1])
    text = rest_of_builtins(owner) + method_text(function, name, owner=owner)
    if path == 'int.__and__':
        text += 'class bool(int):\n    def __and__(self, one: int, two: int) -> str: ...\n'
    world.world(E, {'builtins': text})
    check_function(E, signature_of(E, get()), function, drop=1)


CLASS_BOUND = {
    'dict.fromkeys': ('dict.fromkeys', lambda: dict.fromkeys),
    'dict.fromkeys of an instance': ('dict.fromkeys', lambda: {}.fromkeys),
    'dict.fromkeys of a subclass': ('dict.fromkeys', lambda: Plain.fromkeys),
    'dict.fromkeys by super': ('dict.fromkeys', Collected.above),
    'dict.fromkeys by super of an alias':
        ('dict.fromkeys', lambda: super(Switched, Switched).fromkeys),
    'int.from_bytes': ('int.from_bytes', lambda: int.from_bytes),
    'int.from_bytes of bool': ('int.from_bytes', lambda: bool.from_bytes),
    'list.__class_getitem__': ('list.__class_getitem__', lambda: list.__class_getitem__),
    'list.__class_getitem__ of a subclass':
        ('list.__class_getitem__', lambda: Longer.__class_getitem__),
    'object.__subclasshook__': ('object.__subclasshook__', lambda: object.__subclasshook__),
    'object.__init_subclass__ of a subclass':
        ('object.__init_subclass__', lambda: Plain.__init_subclass__),
}
# class methods without decorator
IMPLICIT = ('__class_getitem__', '__init_subclass__', '__subclasshook__')


@harness('C17', cases=with_variants(*CLASS_BOUND),
         bounds='built-in class methods bound to their class or a subclass ('
                + ', '.join(CLASS_BOUND) + '), declared as class methods (those that need no '
                'declaration also without): ' + BOUNDS)
def built_in_classes(E, case):
    path, get = CLASS_BOUND[case[-1]]
    owner, name = path.split('.')
    function = member(E, case[:-1])
    declared = name not in IMPLICIT or E.flag('declared')
    world.world(E, {'builtins': rest_of_builtins(owner)
                    + method_text(function, name, ('classmethod',) if declared else (),
                                  owner=owner)
                    + (OVERRIDES if 'super' in case[-1] else '')})
    check_function(E, signature_of(E, get()), function, drop=1)


CONSTRUCTORS = {'int.__new__': lambda: int.__new__, 'dict.__new__': lambda: dict.__new__}


@harness('C17', cases=with_variants(*CONSTRUCTORS),
         bounds='built-in constructors (static: they keep the class), '
                + ', '.join(CONSTRUCTORS) + ': ' + BOUNDS)
def built_in_constructors(E, case):
    owner, name = case[-1].split('.')
    function = member(E, case[:-1])
    world.world(E, {'builtins': rest_of_builtins(owner) + method_text(function, name, owner=owner)})
    signature = signature_of(E, CONSTRUCTORS[case[-1]]())
    E.check(z3.BoolVal(len(signature.parameters) == len(function.declared)),
            'a constructor lost a parameter')
    check_function(E, signature, function, drop=1, skip=1)


# ------------------------------------------------------------------------------------ partials
def partial_cases(tier):
    return [(layout, m, k, variant)
            for layout in layouts(2 if tier == 'quick' else 3)
            for m in range(3) for k in range(3) if m + k and m + k <= (2 if tier == 'quick' else 3)
            for variant in (('function', 'method', 'class', 'nested', 'inspected')
                            if m + k < 2 or sum(layout) < 2 or tier != 'quick'
                            else ('function', 'inspected'))]


@harness('C17', cases=partial_cases, weight=lambda c: sum(c[0]) + c[2] * 3,
         bounds='functools.partial of described functions, bound methods, classes, of partials '
                'and of functions no stub describes: up to 2 (thorough 3) parameters in any '
                'sections, up to 2 (thorough 3) arguments')
def partials(E, case):
    layout, m, k, variant = case
    receiver = variant in ('method', 'class')
    function = Function(E, '', layout, annotated=True, returns=True, fresh=True,
                        defaults=sum(layout[:2]) if variant == 'inspected' else None,
                        receiver='self' if receiver else None)
    no_dunder(E, function)
    args, names, values = arguments(E, m, k, fresh=True)
    if variant == 'inspected':
        world.load(None)
        callable_ = raw_function(E, function)
    elif variant == 'method':
        world.world(E, {STUB: method_text(function, 'm')})
        callable_ = python_class(STUB, 'K', m=python_function(STUB, 'K.m'))().m
    elif variant == 'class':
        world.world(E, {STUB: method_text(function, '__init__')})
        callable_ = python_class(STUB, 'K')
    else:
        world.world(E, {STUB: function.text('f')})
        callable_ = python_function(STUB, 'f')
    whole = signature_of(E, callable_)
    kwargs = dict(zip(names, values))
    expected_outcome, expected = E.call(lambda: whole.bind(*args, **kwargs))
    if variant == 'nested':
        partial = functools.partial(functools.partial(callable_, *args[:1]), *args[1:], **kwargs)
    else:
        partial = functools.partial(callable_, *args, **kwargs)
    outcome, result = E.call(lambda: base().signature_from_callable(partial))
    E.check(z3.BoolVal(outcome == expected_outcome),
            'the signature of a partial exists although its arguments cannot be bound, or the '
            'reverse')
    if outcome == 'exc':
        E.check(z3.BoolVal(isinstance(result, TypeError)),
                f'the signature of a partial raised {type(result).__name__}')
    else:
        E.check(same_plain(E, result, expected),
                'the signature of a partial is not that of its callable with the arguments bound')


def raw_function(E, function):
    import inspect
    names = {PO: inspect._ParameterKind.POSITIONAL_ONLY,
             PK: inspect._ParameterKind.POSITIONAL_OR_KEYWORD,
             VP: inspect._ParameterKind.VAR_POSITIONAL, KO: inspect._ParameterKind.KEYWORD_ONLY,
             VK: inspect._ParameterKind.VAR_KEYWORD}
    parameters = [raw_parameter(p.name, names[p.section],
                                p.annotation if p.annotated else inspect._empty,
                                p.default if p.default_sort == d.GIVEN_DEFAULT
                                else None if p.default_sort == d.UNKNOWN else inspect._empty)
                  for p in function.declared]
    result = python_function('sxnowhere', 'f')
    result.__signature__ = raw_signature(parameters, function.returns if function.returned
                                         else inspect._empty)
    return result


def raw_parameter(name, kind, annotation, default):
    import inspect
    result = object.__new__(inspect.Parameter)
    result._name, result._kind = name, kind
    result._annotation, result._default = annotation, default
    return result


def raw_signature(parameters, returns):
    import inspect
    return inspect.Signature(parameters, return_annotation=returns, __validate_parameters__=False)


# ----------------------------------------------------------------------------------- overloads
def overload_cases(tier):
    small = layouts(1)
    firsts = layouts(2) if tier != 'quick' else small
    result = [((first, second), variant) for first in firsts for second in small
              for variant in ('function', 'method', 'class', 'bound', 'partial', 'class method',
                              'static method')]
    result += [((first, second, third), 'function') for first in small for second in small
               for third in ([(0, 1, 0, 0, 0)] if tier == 'quick' else small)]
    return result


@harness('C17', cases=overload_cases,
         bounds='2 or 3 overloads of up to 1 (thorough 2) parameters each in any sections: '
                'functions, methods, bound methods, class and static methods, initializers')
def overloads(E, case):
    shapes, variant = case
    receiver = variant not in ('function', 'static method', 'partial')
    functions = [Function(E, f'v{i}', layout, annotated=True, returns=True, fresh=True,
                          receiver='self' if receiver else None)
                 for i, layout in enumerate(shapes)]
    for function in functions:
        no_dunder(E, function)
    header = 'import typing\nfrom typing import overload\n'
    name = {'function': 'f', 'partial': 'f', 'class': '__init__'}.get(variant, 'm')
    extra = {'class method': ('classmethod',), 'static method': ('staticmethod',)}.get(variant, ())
    plain = variant in ('function', 'partial')
    indent = '' if plain else '    '
    text = header + ('' if plain else 'class K:\n') + ''.join(
            function.text(name, indent,
                          (('overload', 'typing.overload')[i % 2],) + extra)
            for i, function in enumerate(functions))
    world.world(E, {STUB: text})
    if variant == 'class':
        callable_, options = python_class(STUB, 'K'), {'drop': 1, 'returns': SELF}
    elif variant == 'method':
        callable_, options = python_function(STUB, 'K.m'), {'receiver': SELF}
    elif variant == 'bound':
        callable_ = python_class(STUB, 'K', m=python_function(STUB, 'K.m'))().m
        options = {'drop': 1}
    elif variant == 'class method':
        callable_ = python_class(STUB, 'K', m=classmethod(python_function(STUB, 'K.m'))).m
        options = {'drop': 1}
    elif variant == 'static method':
        callable_, options = python_function(STUB, 'K.m'), {}
    elif variant == 'partial':
        callable_, options = functools.partial(python_function(STUB, 'f')), {}
    else:
        callable_, options = python_function(STUB, 'f'), {}
    signature = signature_of(E, callable_)
    actual = alternatives(signature)
    E.check(z3.BoolVal(isinstance(signature, base().OverloadedSignature)
                       and len(actual) == len(functions)),
            'not all the overloads declared in a stub appear')
    for signature, function in zip(actual, functions):
        check_function(E, signature, function, **options)
