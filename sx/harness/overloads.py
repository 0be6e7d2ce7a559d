"""C05-C07: overloaded signatures, construction of signatures and parameters."""
import enum

import z3

from ..lib import *
from ..registry import harness


def overload_cases(tier):
    if tier == 'quick':
        sizes = [(0, 1), (1, 1), (2, 1), (1, 0, 1)]
        calls = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)]
    else:
        sizes = [(0, 1), (1, 1), (2, 1), (1, 2), (2, 2), (1, 0, 1), (1, 1, 1), (2, 1, 1),
                 (1, 1, 1, 1)]
        calls = [(m, k) for m in range(3) for k in range(3)]
    return [(s, m, k) for s in sizes for m, k in calls]


@harness('C05', cases=overload_cases, weight=lambda c: sum(c[0]) * 2 + c[1] + c[2] * 2,
         bounds='2-3 alternatives (thorough 4) of up to 2 parameters (quick: 3 in all), up to 2 positional and '
                '1 (thorough 2) keyword arguments; names of parameters and keywords arbitrary')
def overloaded(E, case):
    sizes, m, k = case
    plains = [build(symbolic_params(E, n, prefix='abcd'[i]), E.obj(f'returns{i}', ()))
              for i, n in enumerate(sizes)]
    signature = base().OverloadedSignature(*plains)
    reported = list(signature.signatures)
    E.check(z3.BoolVal(len(reported) == len(plains)
                       and all(map(lambda a, b: a is b, reported, plains))),
            'an overloaded signature does not report its alternatives in order')
    args, names, values = arguments(E, m, k)
    kwargs = lambda: dict(zip(names, values))
    expecting = [bool(plain.expects(*args, **kwargs())) for plain in plains]
    complete = [bool(plain.all_set(*args, **kwargs())) for plain in plains]
    E.check(z3.BoolVal(bool(signature.expects(*args, **kwargs())) is any(expecting)),
            'expects() of an overloaded signature is not that of its alternatives together')
    E.check(z3.BoolVal(bool(signature.all_set(*args, **kwargs())) is any(complete)),
            'all_set() of an overloaded signature is not that of its alternatives together')
    outcome, result = E.call(lambda: signature.bind(*args, **kwargs()))
    if outcome == 'exc':
        E.check(z3.BoolVal(isinstance(result, TypeError)),
                f'bind() of an overloaded signature raised {type(result).__name__}')
        E.check(z3.BoolVal(not any(expecting)),
                'bind() of an overloaded signature rejected arguments an alternative expects')
        return
    expected = [plain.bind(*args, **kwargs()) for plain, x in zip(plains, expecting) if x]
    E.check(z3.BoolVal(bool(expected)), 'bind() of an overloaded signature accepted arguments no '
                                        'alternative expects')
    E.check(z3.BoolVal((len(expected) == 1) == isinstance(result, base().PlainSignature)),
            'a single alternative left by bind() is not a plain signature, or several are')
    actual = alternatives(result)
    E.check(z3.BoolVal(len(actual) == len(expected)),
            'bind() of an overloaded signature left other alternatives than those expecting')
    for left, right in zip(actual, expected):
        E.check(same_plain(E, left, right),
                'bind() of an overloaded signature left something else than the bound alternatives')


@harness('C05', cases=lambda tier: [(n,) for n in range(5 if tier == 'thorough' else 4)],
         bounds='0-3 (thorough 4) candidates, each a plain or overloaded signature, a parameter or '
                'an arbitrary other value')
def construction(E, case):
    b = base()
    plains = [build([], E.obj(f'r{i}', ())) for i in range(case[0] + 2)]
    over = b.OverloadedSignature(plains[-1], plains[-2])
    parameter = Param(E, 'p', kind=kinds()[PK], optional=False).build()
    sorts = [E.select(f's{i}', range(4)) for i in range(case[0])]
    values = [[plains[i], over, parameter, E.obj(f'x{i}')][sort] for i, sort in enumerate(sorts)]
    outcome, result = E.call(lambda: b.OverloadedSignature(*values))
    valid = all(sort == 0 for sort in sorts) and len(values) >= 2
    E.check(z3.BoolVal((outcome == 'ret') is valid),
            'an overloaded signature was built from something else than two or more plain '
            'signatures, or not built from them')
    if outcome == 'ret':
        E.check(z3.BoolVal(all(map(lambda a, b: a is b, result.signatures, values))
                           and len(result.signatures) == len(values)),
                'an overloaded signature does not report its alternatives in order')
    else:
        E.check(z3.BoolVal(isinstance(result, (TypeError, ValueError))),
                f'building an overloaded signature raised {type(result).__name__}')


@harness('C06', cases=lambda tier: [(n, s) for n in range(4 if tier == 'quick' else 5)
                                    for s in range(25 if n > 2 else 1)],
         weight=lambda c: c[0],
         bounds='up to 3 (thorough 4) parameters, any kinds in any order, any optionality, any '
                'names; annotations, defaults and returns arbitrary')
def constructor(E, case):
    n, split = case
    chosen = {}
    if n > 2:
        chosen = {0: split % 5, 1: split // 5}
    params = []
    for i in range(n):
        p = Param(E, f'p{i}', kind=kinds()[chosen[i]] if i in chosen else None)
        assume_parameter(E, p)
        params.append(p)
    built = [p.build() for p in params]
    returns = E.obj('returns')
    outcome, result = E.call(lambda: base().PlainSignature(*built, returns=returns))
    valid = order_valid(params)
    if E.concrete:
        try:
            real_signature(params)
            real = True
        except (ValueError, SyntaxError):
            real = False
        assert E.decide(valid) is real, 'oracle of parameter lists is wrong'
    if outcome == 'exc':
        E.check(z3.BoolVal(isinstance(result, ValueError)),
                f'building a plain signature raised {type(result).__name__}')
        E.check(z3.Not(valid), 'a parameter list Python allows was rejected')
        return
    E.check(valid, 'a parameter list Python does not allow was accepted')
    reported = list(result.parameters)
    E.check(z3.BoolVal(len(reported) == n and all(map(lambda a, b: a is b, reported, built))),
            'a plain signature does not report its parameters in order')
    for parameter, p in zip(reported, params):
        E.check(same_param(E, parameter, p), 'a parameter changed when a signature was built')
    E.check(E.ox(result.returns) == E.ox(returns), 'a plain signature reports other returns')


def real_signature(params):
    import inspect
    reported = inspect.signature(real_function(params)).parameters.values()
    if ([(p.name, int(p.kind)) for p in reported]
            != [(p.name, kinds().index(p.kind_value)) for p in params]):
        raise ValueError('another parameter list')


class OtherKind(enum.IntEnum):
    POSITIONAL_ONLY = 0
    KEYWORD_ONLY = 3


def kind_candidates():
    return kinds() + [0, 3, True, None, 'KEYWORD_ONLY', 1.0, OtherKind.POSITIONAL_ONLY,
                      OtherKind.KEYWORD_ONLY, type(kinds()[0]), (), object()]


ALL_SPECIALS = (None, Ellipsis, False, 0, '')


@harness('C07', cases=lambda tier: [(sort,) for sort in ('required', 'optional', 'default')],
         bounds='any kind out of the five and eleven values that are no kinds; annotation, default '
                'and name arbitrary, including None, Ellipsis, False, 0 and the empty string')
def parameter(E, case):
    sort, = case
    b = base()
    candidates = kind_candidates()
    kind = E.choice('kind', candidates)
    index = E.cx(kind, candidates)
    name, annotation = E.name('name'), E.obj('annotation')
    default = E.obj('default', ALL_SPECIALS)
    is_kind = index < 5
    variadic = z3.Or(index == VP, index == VK)
    if sort == 'required':
        make = lambda: b.RequiredParameter(annotation=annotation, kind=kind, name=name)
        allowed = z3.And(is_kind, z3.Not(variadic))
    elif sort == 'optional':
        make = lambda: b.OptionalParameter(annotation=annotation, kind=kind, name=name)
        allowed = is_kind
    else:
        make = lambda: b.OptionalParameter(annotation=annotation, default=default, kind=kind,
                                           name=name)
        allowed = z3.And(is_kind, z3.Not(variadic))
    outcome, result = E.call(make)
    if outcome == 'exc':
        E.check(z3.Not(allowed), f'a legal {sort} parameter was rejected')
        E.check(z3.BoolVal(isinstance(result, (TypeError, ValueError))),
                f'building a parameter raised {type(result).__name__}')
        E.check(z3.BoolVal(isinstance(result, TypeError)) == z3.Not(is_kind),
                'TypeError and ValueError of a parameter are mixed up')
        return
    E.check(allowed, f'an illegal {sort} parameter was built')
    E.check(z3.BoolVal(type(result) is (b.RequiredParameter if sort == 'required'
                                        else b.OptionalParameter)), 'wrong class of a parameter')
    E.check(E.nx(result.name) == E.nx(name), 'a parameter reports another name')
    E.check(E.ox(result.annotation) == E.ox(annotation), 'a parameter reports another annotation')
    E.check(E.cx(result.kind, candidates) == index, 'a parameter reports another kind')
    if sort != 'required':
        has_default = result.has_default
        E.check(E.bx(has_default) == (sort == 'default'),
                'a parameter mistakes an absent default for a given one, or the other way round')
        if sort == 'default':
            E.check(E.ox(result.default) == E.ox(default), 'a parameter reports another default')
