"""C01-C05: expects, all_set and bind against Python's call rules."""
import functools
import inspect

import z3

from ..lib import *
from ..registry import harness


def shapes(tier, quick=(3, 3, 2), thorough=(4, 4, 3), heavy=None):
    n, m, k = quick if tier == 'quick' else thorough
    return [(i, j, l) for i in range(n + 1) for j in range(min(m, i + 1) + 1) for l in range(k + 1)]


WEIGHT = lambda params: params[0] * 10 + params[2] * 5 + params[1]
BOUNDS = ('parameters <= {n}, positional arguments <= {n}, keyword arguments <= {k}; any kinds, '
          'optionality, names (equal or not, or equal to a name the code uses), any values')


def setup(E, params_count, m, k):
    params = symbolic_params(E, params_count)
    args, names, values = arguments(E, m, k)
    b = base()
    signature = b.PlainSignature(*[p.build() for p in params], returns=E.obj('returns', ()))
    oracle = CallOracle(E, params, m, [E.nx(x) for x in names])
    return params, args, names, values, signature, oracle


def cross_check(E, params, args, names, values, oracle):
    """Concrete runs only: the oracle agrees with Python itself."""
    if not E.concrete:
        return
    f = real_function(params)
    kwargs = dict(zip(names, values))
    try:
        f(*args, **kwargs)
        complete = True
    except TypeError:
        complete = False
    assert E.decide(oracle.all_set) is complete, 'oracle of complete calls is wrong'
    try:
        inspect.signature(f).bind_partial(*args, **kwargs)
        partial = True
    except TypeError:
        partial = False
    assert E.decide(oracle.expects) is partial, 'oracle of partial calls is wrong'


@harness('C01', cases=shapes, weight=WEIGHT, bounds=BOUNDS.format(n='3 (thorough 4)', k='2 (3)'))
def expects(E, case):
    params, args, names, values, signature, oracle = setup(E, *case)
    cross_check(E, params, args, names, values, oracle)
    outcome, result = E.call(lambda: bool(signature.expects(*args, **dict(zip(names, values)))))
    if outcome == 'exc':
        E.fail(f'expects() raised {type(result).__name__}')
    E.check(z3.BoolVal(result) == oracle.expects,
            f'expects() is {result} although the call rules say otherwise')


@harness('C02', cases=shapes, weight=WEIGHT, bounds=BOUNDS.format(n='3 (thorough 4)', k='2 (3)'))
def all_set(E, case):
    params, args, names, values, signature, oracle = setup(E, *case)
    cross_check(E, params, args, names, values, oracle)
    outcome, result = E.call(lambda: bool(signature.all_set(*args, **dict(zip(names, values)))))
    if outcome == 'exc':
        E.fail(f'all_set() raised {type(result).__name__}')
    E.check(z3.BoolVal(result) == oracle.all_set,
            f'all_set() is {result} although the call rules say otherwise')


@harness('C03', cases=shapes, weight=WEIGHT, bounds=BOUNDS.format(n='3 (thorough 4)', k='2 (3)'))
def bind_outcome(E, case):
    params, args, names, values, signature, oracle = setup(E, *case)
    cross_check(E, params, args, names, values, oracle)
    kwargs = dict(zip(names, values))
    before, kept_args = list(signature.parameters), list(args)
    outcome, result = E.call(lambda: signature.bind(*args, **kwargs))
    if outcome == 'ret':
        E.check(oracle.expects, 'bind() succeeded on arguments that cannot be passed')
        E.check(z3.BoolVal(isinstance(result, base().PlainSignature)),
                'bind() of a plain signature is not a plain signature')
    else:
        E.check(z3.BoolVal(isinstance(result, TypeError)),
                f'bind() raised {type(result).__name__} rather than TypeError')
        E.check(z3.Not(oracle.expects), 'bind() rejected arguments that can be passed')
    after = list(signature.parameters)
    E.check(z3.BoolVal(len(before) == len(after) and all(map(lambda a, b: a is b, before, after))),
            'bind() changed the parameters of the signature it was called on')
    for p, parameter in zip(params, after):
        E.check(same_param(E, parameter, p), 'bind() changed a parameter of the original')
    E.check(z3.BoolVal(list(map(id, kwargs.values())) == list(map(id, values))
                       and list(map(id, args)) == list(map(id, kept_args))),
            'bind() changed the arguments it was given')


@harness('C04', cases=shapes, weight=WEIGHT, bounds=BOUNDS.format(n='3 (thorough 4)', k='2 (3)'))
def bind_result(E, case):
    params, args, names, values, signature, oracle = setup(E, *case)
    E.assume(oracle.expects)
    outcome, result = E.call(lambda: signature.bind(*args, **dict(zip(names, values))))
    if outcome == 'exc':
        E.fail(f'bind() raised {type(result).__name__} on acceptable arguments')
    check_bound(E, result, params, oracle, values)
    if E.concrete:
        compare_with_partial(E, params, args, dict(zip(names, values)), result)


def check_bound(E, result, params, oracle, values):
    actual = list(result.parameters)
    E.check(E.ox(result.returns) == z3.Int('o_returns') if not E.concrete
            else z3.BoolVal(result.returns is E.objs_by_tag['returns']),
            'bind() changed the return annotation')
    bound = [disj(matches) for matches in oracle.matches]
    after = []  # a keyword was bound to this parameter or to one before it
    for i in range(len(params)):
        after.append(disj(z3.And(bound[j], z3.Not(oracle.consumed[j])) for j in range(i + 1)))
    kept = [z3.And(z3.Not(oracle.consumed[i]), z3.Not(z3.And(p.kind == VP, after[i])))
            for i, p in enumerate(params)]
    E.check(z3.Sum([z3.IntVal(0)] + [z3.If(x, 1, 0) for x in kept]) == len(actual),
            'bind() left another number of parameters')
    for i, p in enumerate(params):
        position = z3.Sum([z3.IntVal(0)] + [z3.If(x, 1, 0) for x in kept[:i]])
        default = E.ox(p.default) if p.has_default else z3.IntVal(0)
        for j, value in enumerate(values):
            default = z3.If(oracle.matches[i][j], E.ox(value), default)
        for r, parameter in enumerate(actual):
            E.check(z3.Implies(
                    z3.And(kept[i], position == r),
                    same_param(E, parameter, p,
                               kind=z3.If(z3.And(after[i], p.named), KO, p.kind),
                               optional=z3.Or(p.optional, bound[i]),
                               has_default=z3.Or(p.has_default, bound[i]),
                               default_x=default)),
                    f'bind() left parameter {r} different from what a partial application leaves')


def compare_with_partial(E, params, args, kwargs, result):
    """Concrete runs only: names and kinds are those inspect reports for functools.partial."""
    f = real_function(params)
    try:
        expected = inspect.signature(functools.partial(f, *args, **kwargs))
    except (TypeError, ValueError):
        return
    assert ([(p.name, int(p.kind)) for p in expected.parameters.values()]
            == [(p.name, int(p.kind)) for p in result.parameters]), (expected, result)
