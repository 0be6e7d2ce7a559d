M = 'paradigm/_core/models.py'
A = 'paradigm/_core/annotated.py'
S = 'paradigm/_core/signatures.py'
HEAD = '''
import typing as t
from paradigm.base import (OptionalParameter as O, OverloadedSignature, ParameterKind as K,
                           PlainSignature, RequiredParameter as R, signature_from_callable)
'''
SPECS = [
    dict(id='expects-mixed-positionals', property='C01',
         edits=[(M, '''        rest_positionals = positionals[len(args):]
        rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
        rest_keywords = (
                rest_positionals_by_kind[ParameterKind.POSITIONAL_OR_KEYWORD]
                + parameters_by_kind''', '''        rest_keywords = (
                parameters_by_kind[
                    ParameterKind.POSITIONAL_OR_KEYWORD
                ][len(args):]
                + parameters_by_kind''')],
         needs='positional-only parameters filled by position and a later positional-or-keyword '
               'one passed by keyword, without **kwargs',
         breaks='expects() counts positional arguments of positional-only parameters against the '
                'positional-or-keyword ones',
         demo=HEAD + '''
s = PlainSignature(R(annotation=int, kind=K.POSITIONAL_ONLY, name='a'),
                   R(annotation=int, kind=K.POSITIONAL_OR_KEYWORD, name='b'), returns=None)
assert s.expects(1, b=2)
'''),
    dict(id='repr-of-default', property='C11',
         edits=[(M, '''                + (f'default={annotated.to_repr(self.default)}, \'''',
                 '''                + (f'default={self.default!r}, \'''')],
         needs='a default that is a class or a typing object',
         breaks='the repr of a parameter whose default is a class does not evaluate',
         demo=HEAD + '''
import paradigm.base, builtins, typing
p = O(annotation=int, default=int, kind=K.POSITIONAL_ONLY, name='a')
ns = dict(vars(paradigm.base), typing=typing, builtins=builtins)
assert eval(repr(p), ns) == p, repr(p)
'''),
    dict(id='absent-default-equal', property='C08',
         edits=[(M, '''                 and self.has_default is other.has_default
                 and (not self.has_default
                      or''', '''                 and (not (self.has_default and other.has_default)
                      or''')],
         needs='two optional parameters alike but for the presence of a default',
         breaks='an optional parameter without a default equals one with any default',
         demo=HEAD + '''
p = O(annotation=int, default=1, kind=K.POSITIONAL_ONLY, name='a')
q = O(annotation=int, kind=K.POSITIONAL_ONLY, name='a')
assert p != q and q != p and p == p and q == q
'''),
    dict(id='partial-keywords-only', property='C17',
         edits=[(S, '''    return from_callable(_callable.func).bind(*_callable.args,
                                              **_callable.keywords)''',
                 '''    signature = from_callable(_callable.func)
    return (signature.bind(*_callable.args, **_callable.keywords)
            if _callable.args
            else signature)''')],
         needs='a partial with keyword arguments only',
         breaks='keywords of a partial without positional arguments are not bound',
         demo=HEAD + '''
from functools import partial
def f(a, b): pass
s = signature_from_callable(partial(f, b=1))
assert s.all_set(2) and s.parameters[1].kind is K.KEYWORD_ONLY
assert signature_from_callable(partial(f, 1)).all_set(2)
'''),
    dict(id='none-annotation-any', property='C14',
         edits=[(S, '''        _t.Any if raw.annotation is _inspect._empty else raw.annotation,''',
                 '''        (_t.Any
         if raw.annotation in (_inspect._empty, None)
         else raw.annotation),''')],
         needs='a user-defined function with a parameter annotated None',
         breaks='parameters annotated None are reported as Any',
         demo=HEAD + '''
def f(a: None, b: int, c): pass
assert [p.annotation for p in signature_from_callable(f).parameters] == [None, int, t.Any]
'''),
    dict(id='all-set-keyword-only-optional', property='C02',
         edits=[(M, '''        rest_keywords = rest_keywords_by_name.values()
        return''', '''        rest_keywords = ([] if kwargs and not args
                         else rest_keywords_by_name.values())
        return''')],
         needs='keyword arguments only, leaving another keyword parameter without an argument',
         breaks='all_set() is true with missing keyword arguments when none is given by position',
         demo=HEAD + '''
s = PlainSignature(R(annotation=int, kind=K.KEYWORD_ONLY, name='a'),
                   R(annotation=int, kind=K.KEYWORD_ONLY, name='b'), returns=None)
assert not s.all_set(a=1) and s.all_set(a=1, b=2)
'''),
    dict(id='variadic-annotation-default', property='C07',
         edits=[(M, '''        if ((kind is ParameterKind.VARIADIC_POSITIONAL
             or kind is ParameterKind.VARIADIC_KEYWORD)
                and has_default):''', '''        if ((kind is ParameterKind.VARIADIC_POSITIONAL
             or kind is ParameterKind.VARIADIC_KEYWORD)
                and has_default and default is not None):''')],
         needs='a variadic parameter with the default None',
         breaks='variadic parameters accept a default of None',
         demo=HEAD + '''
try:
    O(annotation=int, default=None, kind=K.VARIADIC_KEYWORD, name='a')
except ValueError:
    pass
else:
    raise AssertionError
'''),
]
