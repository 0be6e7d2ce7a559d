"""C10 (and C09, C11 for structured annotations): what typing objects mean inside signatures."""
import collections.abc
import itertools
import types
import typing as t

import typing_extensions as te
import z3

from .. import engine as en
from ..lib import *
from ..registry import harness
from .values import evaluate


T_ = t.TypeVar('T_')
U_ = t.TypeVar('U_')


class Box(t.Generic[T_]):
    pass


class Pair(t.Generic[T_, U_]):
    pass


Meters = t.NewType('Meters', int)


# typing objects are assembled without typing's caches and deduplication (which would compare
# opaque arguments); what results is what subscription builds
def alias(name, origin, *args):
    return t._GenericAlias(origin, args, name=name, inst=False)


def user(cls, *args):
    return t._GenericAlias(cls, args)


def union(*args):
    return t._UnionGenericAlias(t.Union, args)


def literal(*args):
    return t._LiteralGenericAlias(t.Literal, args)


def call(args, result):
    return t._CallableGenericAlias(collections.abc.Callable, (*args, result), name='Callable',
                                   inst=False)


def generic(origin, *args):
    return types.GenericAlias(origin, args)


def variable(E, tag, *constraints, bound=None, fixed=False):
    name = E.name('v' + tag)
    variance = 0 if fixed else E.select('var' + tag, [0, 1, 2])
    return t.TypeVar(name, *constraints, bound=bound, covariant=variance == 1,
                     contravariant=variance == 2)


def opaque(E, tag):
    # typing turns None into its class, so no alias holds None itself
    return E.obj(tag, ())


SHAPES = {
    'leaf': lambda E, s: E.obj(s + 'a', (None, Ellipsis)),
    'class': lambda E, s: E.select(s + 'c', [int, list, dict, type(None), Box]),
    'bare': lambda E, s: E.select(s + 'c', [t.List, t.Dict, t.Tuple, t.Callable, t.Any]),
    'text': lambda E, s: E.select(s + 'c', ['T', 'int', b'T', ('T',)]),
    'List': lambda E, s: alias('List', list, opaque(E, s + 'a')),
    'list': lambda E, s: generic(list, opaque(E, s + 'a')),
    'Set': lambda E, s: alias('Set', set, opaque(E, s + 'a')),
    'Dict': lambda E, s: alias('Dict', dict, opaque(E, s + 'a'), opaque(E, s + 'b')),
    'dict': lambda E, s: generic(dict, opaque(E, s + 'a'), opaque(E, s + 'b')),
    'Tuple': lambda E, s: alias('Tuple', tuple, *[opaque(E, s + x) for x in
                                                 'abc'[:E.select(s + 'n', [0, 1, 2, 3])]]),
    'tuple': lambda E, s: generic(tuple, *[opaque(E, s + x) for x in
                                          'ab'[:E.select(s + 'n', [0, 1, 2])]]),
    'Box': lambda E, s: user(Box, opaque(E, s + 'a')),
    'Pair': lambda E, s: user(Pair, opaque(E, s + 'a'), opaque(E, s + 'b')),
    'Callable': lambda E, s: call([opaque(E, s + x) for x in 'abc'[:E.select(s + 'n', [0, 1, 2])]],
                                  opaque(E, s + 'r')),
    'Callable...': lambda E, s: call([...], opaque(E, s + 'r')),
    'callable': lambda E, s: collections.abc.Callable[[opaque(E, s + 'a')], opaque(E, s + 'r')],
    'Union2': lambda E, s: union(*distinct(E, s, 'ab')),
    'Union3': lambda E, s: union(*distinct(E, s, 'abc')),
    'Optional': lambda E, s: union(E.obj(s + 'a', ()), type(None)),
    'OptionalR': lambda E, s: union(type(None), E.obj(s + 'a', ())),
    'UnionNone': lambda E, s: union(*placed(type(None), distinct(E, s, 'ab'),
                                            E.select(s + 'i', [0, 1, 2]))),
    'Optional[List]': lambda E, s: union(*placed(type(None), [alias('List', list,
                                                                    opaque(E, s + 'a'))],
                                                 E.select(s + 'i', [0, 1]))),
    'List[Optional]': lambda E, s: alias('List', list, union(*placed(
            type(None), [E.obj(s + 'a', ())], E.select(s + 'i', [0, 1])))),
    'UnionType': lambda E, s: (generic(list, opaque(E, s + 'a'))
                               | E.select(s + 'c', [int, generic(set, opaque(E, s + 'b'))])),
    'UnionTypeR': lambda E, s: (E.select(s + 'c', [int, generic(set, opaque(E, s + 'b'))])
                                | generic(list, opaque(E, s + 'a'))),
    'UnionType3': lambda E, s: generic(list, opaque(E, s + 'a')) | int | None,
    'UnionTypeNone': lambda E, s: (None | generic(list, opaque(E, s + 'a'))
                                   if E.select(s + 'i', [0, 1])
                                   else generic(list, opaque(E, s + 'a')) | None),
    'LiteralText': lambda E, s: literal(E.select(s + 'c', ['T', "it's", b'T', 1, -1, None]),
                                        E.select(s + 'd', ['U', 2])),
    'LiteralInt': lambda E, s: literal(*E.select(s + 'c', [(0,), (1,), (False,), (True,), (0, 1),
                                                           (1, True), (True, 0), (1, False)])),
    'ClassVar': lambda E, s: t._GenericAlias(t.ClassVar, (opaque(E, s + 'a'),)),
    'Concatenate': lambda E, s: call([t._ConcatenateGenericAlias(
            t.Concatenate, (opaque(E, s + 'a'), t.ParamSpec('P')))], opaque(E, s + 'r')),
    'Callable[P]': lambda E, s: call([t.ParamSpec(E.name('v' + s))], opaque(E, s + 'r')),
    'Tuple...': lambda E, s: alias('Tuple', tuple, opaque(E, s + 'a'), ...),
    'tuple...': lambda E, s: generic(tuple, opaque(E, s + 'a'), ...),
    'Tuple[Tuple]': lambda E, s: alias('Tuple', tuple, alias('Tuple', tuple),
                                       alias('Tuple', tuple, opaque(E, s + 'a'))),
    'Literal1': lambda E, s: literal(E.obj(s + 'a', (None, Ellipsis))),
    'Literal2': lambda E, s: literal(*distinct(E, s, 'ab', (None,))),
    'Annotated': lambda E, s: t._AnnotatedAlias(E.obj(s + 'a', ()), (opaque(E, s + 'm'),)),
    'Type': lambda E, s: alias('Type', type, opaque(E, s + 'a')),
    'TypeVar': lambda E, s: variable(E, s),
    'TypeVarBound': lambda E, s: variable(E, s, bound=E.obj(s + 'a', ())),
    'TypeVarOf': lambda E, s: variable(E, s, *distinct(E, s, 'ab', ())),
    'TypeVarOfR': lambda E, s: variable(E, s, int, list, str),
    'ParamSpec': lambda E, s: t.ParamSpec(E.name('v' + s)),
    'Args': lambda E, s: getattr(t.ParamSpec(E.name('v' + s)), E.select(s + 'c', ['args',
                                                                                  'kwargs'])),
    'NewType': lambda E, s: t.NewType(E.select(s + 'q', ['A', 'B']), opaque(E, s + 'a')),
    # nested
    'List[Union]': lambda E, s: alias('List', list, union(*distinct(E, s, 'ab'))),
    'Union[List]': lambda E, s: union(alias('List', list, opaque(E, s + 'a')),
                                      E.obj(s + 'b', ())),
    'Union[Set]': lambda E, s: union(E.obj(s + 'b', ()),
                                     generic(list, opaque(E, s + 'a'))),
    'Dict[Tuple]': lambda E, s: alias('Dict', dict, opaque(E, s + 'a'),
                                      alias('Tuple', tuple, opaque(E, s + 'b'), ...)),
    'Callable[List]': lambda E, s: call([alias('List', list, opaque(E, s + 'a')),
                                         union(*distinct(E, s, 'bc'))], variable(E, s, fixed=True)),
    'list[TypeVar]': lambda E, s: generic(list, variable(E, s, fixed=True)),
    'List[TypeVar]': lambda E, s: alias('List', list, variable(E, s, fixed=True)),
    'UnionType[TypeVar]': lambda E, s: generic(list, variable(E, s, fixed=True)) | int,
    'Union[TypeVars]': lambda E, s: union(variable(E, s, fixed=True),
                                          t.TypeVar('T', bound=opaque(E, s + 'a'))),
    # different type variables may have the same name
    'Union[T,T]': lambda E, s: union(variable(E, s, fixed=True), variable(E, s + 'o', fixed=True)),
    'Box[Box]': lambda E, s: user(Box, user(Box, opaque(E, s + 'a'))),
}
RELATED = [('List', 'list'), ('Dict', 'dict'), ('Tuple', 'tuple'), ('UnionType', 'UnionTypeR'),
           ('List[TypeVar]', 'list[TypeVar]'), ('Union[List]', 'Union[Set]'), ('class', 'bare'),
           ('UnionType', 'UnionType3'), ('Union2', 'Union3'), ('Callable', 'callable'),
           ('Callable', 'Callable...'), ('TypeVar', 'TypeVarBound'), ('TypeVarOf', 'TypeVarOfR'),
           ('Union2', 'Literal2'), ('Union2', 'Optional'), ('Optional', 'OptionalR'), ('UnionNone', 'Union3'),
           ('UnionType3', 'UnionTypeNone'), ('Tuple...', 'tuple...'), ('Optional', 'UnionNone'),
           ('Callable...', 'Callable[P]'), ('Literal2', 'LiteralText'),
           ('LiteralText', 'LiteralInt'), ('Union[T,T]', 'Union[TypeVars]'), ('Tuple', 'class'), ('Tuple', 'bare')]


def placed(value, others, index):
    return [*others[:index], value, *others[index:]]


def distinct(E, s, letters, specials=()):
    values = [E.obj(s + x, specials) for x in letters]
    for a, b in itertools.combinations(values, 2):
        E.assume(E.eqc(a) != E.eqc(b))
    return values


# ---------------------------------------------------------------------------------- the oracle
def is_opaque(value):
    return type(value) in (en.SymObj, en.Val) or value is None or value is Ellipsis


def same(E, a, b):
    """Formula: both have the same structure."""
    if is_opaque(a) or is_opaque(b):
        return E.eqc(a) == E.eqc(b) if is_opaque(a) and is_opaque(b) else z3.BoolVal(False)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return same_row(E, a, b) if type(a) is type(b) else z3.BoolVal(False)
    if isinstance(a, (str, bytes, int)):
        return z3.BoolVal(type(a) is type(b) and a == b)
    kind = type(a)
    if kind in (t.TypeVar, t.ParamSpec, t.NewType, te.ParamSpecArgs, te.ParamSpecKwargs):
        if type(b) is not kind:
            return z3.BoolVal(False)
        if kind is t.NewType:
            return conj(z3.BoolVal(a.__name__ == b.__name__),
                        same(E, a.__supertype__, b.__supertype__))
        if kind in (te.ParamSpecArgs, te.ParamSpecKwargs):
            return same(E, a.__origin__, b.__origin__)
        return conj(E.nx(a.__name__) == E.nx(b.__name__), same(E, a.__bound__, b.__bound__),
                    z3.BoolVal(a.__covariant__ is b.__covariant__),
                    z3.BoolVal(a.__contravariant__ is b.__contravariant__),
                    same_row(E, getattr(a, '__constraints__', ()),
                             getattr(b, '__constraints__', ())))
    left, right = t.get_origin(a) or a, t.get_origin(b) or b
    if left is not right:
        return z3.BoolVal(False)
    left_args, right_args = t.get_args(a), t.get_args(b)
    if left in (t.Union, types.UnionType, t.Literal):
        return same_set(E, left_args, right_args)
    return same_row(E, left_args, right_args)


def same_row(E, left, right):
    return (conj(*[same(E, x, y) for x, y in zip(left, right)]) if len(left) == len(right)
            else z3.BoolVal(False))


def same_set(E, left, right):
    if len(left) != len(right):
        for members in (left, right):
            for x, y in itertools.combinations(members, 2):
                E.assume(z3.Not(same(E, x, y)))
    return conj(*[disj(same(E, x, y) for y in right) for x in left],
                *[disj(same(E, x, y) for x in left) for y in right])


PLACES = ['annotation', 'default', 'returns', 'argument']


def place(E, where, annotation, side):
    b = base()
    if where == 'annotation':
        return b.RequiredParameter(annotation=annotation, kind=kinds()[PK], name='x')
    if where == 'default':
        return b.OptionalParameter(annotation=t.Any, default=annotation, kind=kinds()[KO],
                                   name='x')
    if where == 'returns':
        return b.PlainSignature(returns=annotation)
    return b.PlainSignature(b.OptionalParameter(annotation=alias('List', list, annotation),
                                                kind=kinds()[PO], name='x'), returns=t.Any)


def pair_cases(tier):
    names = list(SHAPES)
    result = [(a, b, place) for a, b in [(x, x) for x in names] + RELATED for place in
              range(4)]
    seen = {frozenset((a, b)) for a, b, _ in result}
    for a, b in itertools.combinations(names, 2):
        if frozenset((a, b)) not in seen:
            result.extend((a, b, x) for x in range(4))
    return result


def heavy(case):
    return sum('Union3' in x or 'Callable' in x or 'Tuple' in x for x in case if isinstance(x, str))


@harness('C10', cases=pair_cases, weight=heavy,
         bounds='two annotations of any two of 56 shapes (classes, bare and parameterised typing '
                'and built-in aliases, user generics, callables, tuples, unions and literals of up '
                'to 3 members, X | Y, Annotated, NewType, type variables with bounds, constraints '
                'and variance, parameter specifications, nested to depth 2) around opaque leaves, '
                'as annotation, default, returns or type argument')
def annotations_equality(E, case):
    a, b, where = case
    left, right = SHAPES[a](E, 'p'), SHAPES[b](E, 'q')
    formula = same(E, left, right)
    x, y = place(E, PLACES[where], left, 'p'), place(E, PLACES[where], right, 'q')
    for one, other, side in [(x, y, ''), (y, x, ', compared the other way round')]:
        outcome, result = E.call(lambda: bool(one == other))
        if outcome == 'exc':
            E.fail(f'comparing annotations raised {type(result).__name__}')
        E.check(z3.BoolVal(result) == formula,
                f'annotations are {"" if result else "not "}equal although their structure says '
                f'otherwise{side}')
    E.check(z3.BoolVal(bool(x == x)), 'something is not equal to itself')


# --------------------------------------------------------------------------------------- hashes
@harness('C09', cases=lambda tier: [(a, b, where) for a, b in [(x, x) for x in SHAPES] + RELATED
                                    for where in range(3)], weight=heavy,
         bounds='parameters and signatures with equal annotations, defaults or returns of one of '
                '56 shapes')
def annotations_hashes(E, case):
    a, b, where = case
    left, right = SHAPES[a](E, 'p'), SHAPES[b](E, 'q')
    E.assume(same(E, left, right))
    x, y = place(E, PLACES[where], left, 'p'), place(E, PLACES[where], right, 'q')
    if not bool(x == y):
        return
    hashes = []
    for value in (x, y):
        outcome, result = E.call(lambda: E.hash_of(value))
        if outcome == 'exc':
            E.fail(f'hashing raised {type(result).__name__}')
        hashes.append(result)
    E.check(hashes[0] == hashes[1], 'equal objects have different hashes')


UNHASHABLE = [lambda a: [a], lambda a: {'x': a}, lambda a: ([a],), lambda a: [[a], 1],
              lambda a: bytearray(b'x')]


@harness('C09', cases=lambda tier: [(i, where) for i in range(len(UNHASHABLE))
                                    for where in range(2)],
         bounds='parameters with equal defaults (alone and in a signature) of 5 unhashable shapes')
def unhashable_hashes(E, case):
    i, where = case
    built = []
    for side in 'pq':
        parameter = base().OptionalParameter(annotation=t.Any, default=UNHASHABLE[i](
                E.obj(side + 'a', (None,))), kind=kinds()[KO], name='x')
        built.append(base().PlainSignature(parameter, returns=t.Any) if where else parameter)
    if not bool(built[0] == built[1]):
        E.check(E.eqc(UNHASHABLE_LEAF(built[0])) != E.eqc(UNHASHABLE_LEAF(built[1])),
                'equal defaults compare unequal')
        return
    hashes = []
    for value in built:
        outcome, result = E.call(lambda: E.hash_of(value))
        if outcome == 'exc':
            E.fail(f'hashing raised {type(result).__name__}')
        hashes.append(result)
    E.check(hashes[0] == hashes[1], 'equal objects have different hashes')


def UNHASHABLE_LEAF(value):
    value = getattr(value, 'parameters', [value])[0].default
    while True:
        if isinstance(value, dict):
            value = value['x']
        elif isinstance(value, (list, tuple)):
            value = value[0]
        else:
            return value


# ------------------------------------------------------------------------------------------ repr
NO_REPR = ('leaf', 'text', 'NewType', 'Args')


@harness('C11', cases=lambda tier: [(a, where) for a in SHAPES if a not in NO_REPR
                                    for where in range(3 if a == 'ClassVar' else 4)],
         weight=heavy,
         bounds='annotations, defaults, returns and type arguments of 52 shapes (as for C10, less '
                'NewType and P.args, whose text names no importable object)')
def annotations_repr(E, case):
    a, where = case
    annotation = SHAPES[a](E, 'p')
    value = place(E, PLACES[where], annotation, 'p')
    text = repr(value)
    E.show('repr', text)
    outcome, result = E.call(lambda: evaluate(E, text))
    if outcome == 'exc':
        E.fail(f'repr does not evaluate: {type(result).__name__}')
    E.check(z3.BoolVal(type(result) is type(value)), 'repr evaluates to another class')
    E.check(same(E, leaf_of(result), leaf_of(value)),
            'repr evaluates to something of another structure')
    E.check(z3.BoolVal(bool(result == value)), 'repr evaluates to something unequal')


def leaf_of(value):
    if isinstance(value, base().PlainSignature):
        return ([value.returns] + [leaf_of(p) for p in value.parameters])
    return [value.annotation, getattr(value, 'default', None)]
