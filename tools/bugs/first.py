M = 'paradigm/_core/models.py'
A = 'paradigm/_core/annotated.py'
S = 'paradigm/_core/signatures.py'
HEAD = '''
import typing as t
from paradigm.base import (OptionalParameter as O, OverloadedSignature, ParameterKind as K,
                           PlainSignature, RequiredParameter as R, signature_from_callable)
'''
SPECS = [
    dict(id='bind-surplus-positionals', property='C04',
         edits=[(M, 'return positionals[len(args):] + parameters[len(positionals):]',
                 'return parameters[len(args):]')],
         needs='more positional arguments than named positional parameters, with *args and '
               'parameters after it',
         breaks='surplus positional arguments, which go to *args, also remove *args and the '
                'keyword-only parameters behind it from the bound signature',
         demo=HEAD + '''
s = PlainSignature(R(annotation=int, kind=K.POSITIONAL_OR_KEYWORD, name='a'),
                   O(annotation=int, kind=K.VARIADIC_POSITIONAL, name='args'),
                   R(annotation=int, kind=K.KEYWORD_ONLY, name='k'), returns=None)
bound = s.bind(1, 2, 3)
assert [p.name for p in bound.parameters] == ['args', 'k'], bound
assert not bound.all_set() and bound.expects(4, k=5)
'''),
    dict(id='all-set-variadic', property='C02',
         edits=[(M, '''        return (all_parameters_are_optional(rest_positionals_only)
                and''', '''        return ((bool(parameters_by_kind[ParameterKind.VARIADIC_POSITIONAL])
                 or all_parameters_are_optional(rest_positionals_only))
                and''')],
         needs='a signature with a required positional-only parameter and *args',
         breaks='all_set() ignores missing positional-only arguments when there is *args',
         demo=HEAD + '''
s = PlainSignature(R(annotation=int, kind=K.POSITIONAL_ONLY, name='a'),
                   O(annotation=int, kind=K.VARIADIC_POSITIONAL, name='args'), returns=None)
assert not s.all_set() and s.all_set(1)
'''),
    dict(id='order-across-kinds', property='C06',
         edits=[(M, '''                    if (isinstance(parameter, RequiredParameter)
                            and isinstance(prior, OptionalParameter)):''',
                 '''                    if (kind is prior.kind
                            and isinstance(parameter, RequiredParameter)
                            and isinstance(prior, OptionalParameter)):''')],
         needs='an optional positional-only parameter right before a required positional-or-keyword one',
         breaks='a required positional parameter may follow an optional one of another kind',
         demo=HEAD + '''
try:
    PlainSignature(O(annotation=int, kind=K.POSITIONAL_ONLY, name='a'),
                   R(annotation=int, kind=K.POSITIONAL_OR_KEYWORD, name='b'), returns=None)
except ValueError:
    pass
else:
    raise AssertionError
'''),
    dict(id='constraints-prefix', property='C10',
         edits=[(A, '''            and len(left_constraints) == len(right_constraints)
            and all(map(are_equal, left_constraints,
                        right_constraints)))''',
                 '''            and all(map(are_equal, left_constraints,
                        right_constraints)))''')],
         needs='two type variables of one name, the constraints of one being a prefix of those of the other',
         breaks='type variables with different numbers of constraints are equal',
         demo=HEAD + '''
def p(a):
    return R(annotation=a, kind=K.POSITIONAL_ONLY, name='a')
assert p(t.TypeVar('T', int, str)) != p(t.TypeVar('T', int, str, bytes))
assert p(t.TypeVar('T', int, str)) == p(t.TypeVar('T', int, str))
'''),
    dict(id='str-separator', property='C12',
         edits=[(M, '''        if positionals_only:
            parts.append(self.POSITIONAL_ONLY_SEPARATOR)''',
                 '''        if len(positionals_only) < len(self._parameters) and positionals_only:
            parts.append(self.POSITIONAL_ONLY_SEPARATOR)''')],
         needs='a signature whose parameters are all positional-only',
         breaks='str() leaves out "/" when nothing follows',
         demo=HEAD + '''
s = PlainSignature(R(annotation=int, kind=K.POSITIONAL_ONLY, name='a'), returns=int)
assert str(s) == '(a: builtins.int, /) -> builtins.int', str(s)
'''),
    dict(id='stub-defaults-shifted', property='C15',
         edits=[(S, '''    ] = list(_zip_longest(reversed(parameters_asts),
                          signature_ast.defaults[::-1]))[::-1]''',
                 '''    ] = list(_zip_longest(reversed(parameters_asts),
                          signature_ast.defaults))[::-1]''')],
         needs='a stub with two different positional defaults',
         breaks='the defaults of positional parameters of stubs are swapped',
         demo=HEAD + '''
import bisect
s = signature_from_callable(bisect.insort_left)
import difflib
s = signature_from_callable(difflib.unified_diff)
d = {p.name: getattr(p, 'default', '-') for p in s.parameters}
assert d['fromfile'] == '' and d['n'] == 3 and d['lineterm'] == chr(10), d
'''),
]
