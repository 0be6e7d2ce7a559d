"""C15, C16: signatures of callables described by stubs."""
import types
import typing as t

import typing_extensions as te
import z3

from .. import engine as en, world
from ..lib import *
from ..registry import harness

ABSENT, GIVEN_DEFAULT, UNKNOWN = 'absent', 'given', 'unknown'


class Declared:
    """One parameter of a stub function: what the stub says of it."""

    def __init__(self, E, tag, section, default, annotated=None, fresh=False, name=None):
        self.name = E.name('n' + tag, fresh) if name is None else name
        self.x = E.nx(self.name)
        self.section = section  # one of PO, PK, VP, KO, VK
        self.annotated = E.flag('A' + tag) if annotated is None else annotated
        self.annotation = E.const('a' + tag) if self.annotated else None
        self.default_sort = default
        self.default = E.const('d' + tag) if default == GIVEN_DEFAULT else None

    def text(self):
        result = {VP: '*', VK: '**'}.get(self.section, '') + self.name
        if self.annotated:
            result += f': {self.annotation!r}'
        if self.default_sort == GIVEN_DEFAULT:
            result += f' = {self.default!r}'
        elif self.default_sort == UNKNOWN:
            result += ' = ...'
        return result


class Function:
    """A stub function with the given numbers of parameters in every section."""

    def __init__(self, E, tag, layout, *, name=None, receiver=None, annotated=None, returns=None,
                 defaults=None, fresh=False):
        posonly, normal, var, kwonly, kw = layout
        self.layout, self.tag = layout, tag
        positionals = posonly + normal
        with_default = (E.select('D' + tag, range(positionals + 1)) if defaults is None
                        else min(defaults, positionals))
        sorts = [UNKNOWN, GIVEN_DEFAULT]
        self.params = []
        self.receiver = receiver
        make = lambda i, section, default: self.params.append(
                Declared(E, f'{tag}p{i}', section, default, annotated, fresh))
        for i in range(positionals):
            make(i, PO if i < posonly else PK,
                 E.select(f's{tag}p{i}', sorts) if i >= positionals - with_default else ABSENT)
        i = positionals
        if var:
            make(i, VP, ABSENT)
            i += 1
        for _ in range(kwonly):
            make(i, KO, E.select(f's{tag}p{i}', [ABSENT] + sorts))
            i += 1
        if kw:
            make(i, VK, ABSENT)
        self.returned = E.flag('R' + tag) if returns is None else returns
        self.returns = E.const('r' + tag) if self.returned else None
        names = [p.x for p in self.params]
        if receiver is not None:
            self.receiver_param = Declared(E, f'{tag}self', PO if posonly else PK, ABSENT, False,
                                           fresh)
            names.append(self.receiver_param.x)
        for i, x in enumerate(names):
            for y in names[:i]:
                E.assume(x != y)

    @property
    def declared(self):
        """All the parameters, the receiver first."""
        return ([self.receiver_param] if self.receiver is not None else []) + self.params

    def text(self, name, indent='', decorators=(), keyword='def', body='...'):
        parts, params = [], self.declared
        sections = [p.section for p in params]
        for i, p in enumerate(params):
            if p.section == KO and VP not in sections and (i == 0 or sections[i - 1] != KO):
                parts.append('*')
            parts.append(p.text())
            if p.section == PO and (i + 1 == len(params) or sections[i + 1] != PO):
                parts.append('/')
        returns = f' -> {self.returns!r}' if self.returned else ''
        lines = ['@' + decorator for decorator in decorators]
        lines.append(f'{keyword} {name}({", ".join(parts)}){returns}: {body}')
        return ''.join(indent + line + '\n' for line in lines)

    def positional_only(self, E, index):
        """Formula: the index-th declared parameter is positional-only."""
        params = self.declared
        if params[index].section == PO:
            return z3.BoolVal(True)
        if params[index].section != PK:
            return z3.BoolVal(False)
        return disj(dunder(E, q.x) for q in params[index:] if q.section in (PO, PK))


def dunder(E, x):
    return z3.And(E.affix('starts', '__', x), z3.Not(E.affix('ends', '__', x)))


def names_facts(E, params):
    """Concrete texts are chosen by what was asked of a name; ask it of all."""
    for p in params:
        dunder(E, p.x)


ANY, SELF, TYPE_SELF = 'Any', 'Self', 'Type[Self]'


def is_any(value):
    return value is t.Any


def annotation_is(E, actual, expected):
    if expected is ANY:
        return z3.BoolVal(actual is t.Any)
    if expected is SELF:
        return z3.BoolVal(actual is te.Self)
    if expected is TYPE_SELF:
        return z3.BoolVal(t.get_origin(actual) is type and t.get_args(actual) == (te.Self,))
    return E.ox(actual) == E.ox(expected)


def check_function(E, signature, function, *, drop=0, receiver=None, returns=None, skip=0):
    """The signature is what the stub function declares."""
    b = base()
    E.check(z3.BoolVal(isinstance(signature, b.PlainSignature)),
            'a single stub definition is not a plain signature')
    params, actual = function.declared, list(signature.parameters)[skip:]
    E.check(z3.BoolVal(len(actual) == len(params) - drop),
            'the signature has another number of parameters than the stub declares')
    for i in range(drop, len(params)):
        p, q = params[i], actual[i - drop]
        is_receiver = receiver is not None and i == 0
        kind = E.cx(q.kind, kinds())
        if is_receiver:
            expected_kind, optional, annotation = z3.IntVal(PO), False, receiver
        else:
            expected_kind = (z3.IntVal(p.section) if p.section not in (PO, PK)
                             else z3.If(function.positional_only(E, i), z3.IntVal(PO),
                                        z3.IntVal(PK)))
            optional = p.default_sort != ABSENT or p.section in (VP, VK)
            annotation = p.annotation if p.annotated else ANY
        E.check(E.nx(q.name) == p.x, 'a parameter has another name than in the stub')
        E.check(kind == expected_kind, 'a parameter has another kind than the stub says')
        E.check(z3.BoolVal(isinstance(q, b.OptionalParameter) is optional),
                'a parameter is optional although the stub requires it, or the reverse')
        E.check(annotation_is(E, q.annotation, annotation),
                'a parameter has another annotation than in the stub')
        if optional:
            has_default = p.default_sort == GIVEN_DEFAULT
            E.check(E.bx(q.has_default) == has_default,
                    'a parameter has a default the stub does not give, or lacks one')
            if has_default:
                E.check(E.ox(q.default) == E.ox(p.default),
                        'a parameter has another default than in the stub')
    if returns is None:
        returns = function.returns if function.returned else ANY
    E.check(annotation_is(E, signature.returns, returns),
            'the signature returns something else than the stub declares')


def signature_of(E, callable_):
    outcome, result = E.call(lambda: base().signature_from_callable(callable_))
    if outcome == 'exc':
        import traceback
        E.show('error', ''.join(traceback.format_exception(result))[-1500:])
        E.fail(f'signature_from_callable() raised {type(result).__name__}')
    return result


def python_function(module_name, qualified_name):
    def function(*args, **kwargs):
        raise NotImplementedError
    function.__module__, function.__qualname__ = module_name, qualified_name
    function.__name__ = qualified_name.rsplit('.', 1)[-1]
    return function


def python_class(module_name, qualified_name, bases=(), **namespace):
    return type(qualified_name.rsplit('.', 1)[-1], bases,
                {'__module__': module_name, '__qualname__': qualified_name, **namespace})


STUB = 'sxstub'


# ------------------------------------------------------------------------------------ layouts
def layouts(total, receiver=False):
    result = []
    for posonly in range(total + 1):
        for normal in range(total + 1 - posonly):
            for var in (0, 1):
                for kwonly in range(total + 1):
                    for kw in (0, 1):
                        size = posonly + normal + var + kwonly + kw
                        if size <= total:
                            result.append((posonly, normal, var, kwonly, kw))
    return result


def function_cases(tier):
    return ([(layout, None, tier != 'quick') for layout in layouts(2)]
            + [(layout, annotated, False) for layout in layouts(3 if tier == 'quick' else 4)
               for annotated in (False, True) if sum(layout) > 2])


def no_dunder(E, function):
    """Names with leading double underscores are the matter of C16."""
    for p in function.declared:
        E.assume(z3.Not(E.affix('starts', '__', p.x)))


@harness('C15', cases=function_cases, weight=lambda c: sum(c[0]) + (c[1] is None),
         bounds='a stub function of up to 3 (thorough 4) parameters in any sections; names, '
                'annotations, defaults and returns arbitrary, defaults "..." or given; any of '
                'the annotations missing for up to 2 parameters, all or none for more')
def functions(E, case):
    layout, annotated, underscored = case
    function = Function(E, '', layout, annotated=annotated, returns=annotated)
    if not underscored:
        no_dunder(E, function)
    world.world(E, {STUB: function.text('f')})
    check_function(E, signature_of(E, python_function(STUB, 'f')), function)


SMALL = {'quick': 2, 'thorough': 3}


def method_cases(tier):
    return [(layout, annotated) for layout in layouts(SMALL[tier])
            for annotated in ((None,) if sum(layout) < 2 else (False, True))]


def method_text(function, name, decorators=(), keyword='def', owner='K'):
    return f'class {owner}:\n' + function.text(name, '    ', decorators, keyword)


def member(E, case, receiver=True, tag=''):
    layout, annotated = case
    function = Function(E, tag, layout, annotated=annotated, returns=annotated,
                        receiver='self' if receiver else None)
    no_dunder(E, function)
    return function


BOUNDS = ('up to 2 (thorough 3) further parameters in any sections; names, annotations, defaults '
          'and returns arbitrary; any of the annotations missing for up to 1 parameter, all or '
          'none for more')


@harness('C15', cases=method_cases, bounds='an asynchronous stub function: ' + BOUNDS)
def coroutines(E, case):
    function = member(E, case, False)
    world.world(E, {STUB: function.text('f', keyword='async def')})
    check_function(E, signature_of(E, python_function(STUB, 'f')), function)


@harness('C15', cases=method_cases, bounds='a class with an initializer: ' + BOUNDS)
def initializers(E, case):
    function = member(E, case)
    world.world(E, {STUB: method_text(function, '__init__')})
    check_function(E, signature_of(E, python_class(STUB, 'K')), function, drop=1, returns=SELF)


@harness('C15', cases=method_cases, bounds='a class with a constructor: ' + BOUNDS)
def constructors(E, case):
    function = member(E, case)
    world.world(E, {STUB: method_text(function, '__new__')})
    check_function(E, signature_of(E, python_class(STUB, 'K')), function, drop=1)


@harness('C15', cases=method_cases, bounds='a method of a class: ' + BOUNDS)
def methods(E, case):
    function = member(E, case)
    world.world(E, {STUB: method_text(function, 'm')})
    check_function(E, signature_of(E, python_function(STUB, 'K.m')), function, receiver=SELF)


@harness('C15', cases=method_cases, bounds='a method of a nested class: ' + BOUNDS)
def nested_methods(E, case):
    function = member(E, case)
    world.world(E, {STUB: 'class K:\n    class L:\n' + function.text('m', ' ' * 8)})
    check_function(E, signature_of(E, python_function(STUB, 'K.L.m')), function, receiver=SELF)


@harness('C15', cases=lambda tier: [case + (spelled,) for case in method_cases(tier)
                                    for spelled in ('classmethod', 'builtins.classmethod')],
         bounds='the function of a class method: ' + BOUNDS)
def class_methods(E, case):
    function = member(E, case[:-1])
    world.world(E, {STUB: 'import builtins\n' + method_text(function, 'm', (case[-1],))})
    check_function(E, signature_of(E, python_function(STUB, 'K.m')), function,
                   receiver=TYPE_SELF)


@harness('C15', cases=lambda tier: [case + (spelled,) for case in method_cases(tier)
                                    for spelled in ('staticmethod', 'builtins.staticmethod')],
         bounds='a static method: ' + BOUNDS)
def static_methods(E, case):
    function = member(E, case[:-1], False)
    world.world(E, {STUB: 'import builtins\n' + method_text(function, 'm', (case[-1],))})
    check_function(E, signature_of(E, python_function(STUB, 'K.m')), function)


BUILT_IN = {'len': ('len', len), 'pow': ('pow', pow), 'list.append': ('list.append', list.append),
            'str.join': ('str.join', str.join), 'int.__add__': ('int.__add__', int.__add__),
            'list.__init__': ('list.__init__', list.__init__)}


@harness('C15', cases=lambda tier: [case + (name,) for case in method_cases(tier)
                                    for name in BUILT_IN],
         bounds='built-in functions, method descriptors and slot wrappers ('
                + ', '.join(BUILT_IN) + '): ' + BOUNDS)
def built_in(E, case):
    path, callable_ = BUILT_IN[case[-1]]
    owner, _, name = path.rpartition('.')
    function = member(E, case[:-1], bool(owner))
    text = method_text(function, name, owner=owner) if owner else function.text(name)
    rest = ''.join('class ' + part for part in world.BUILTINS.split('class ')[1:]
                   if part.split(':')[0] != owner)
    world.world(E, {'builtins': rest + text})
    check_function(E, signature_of(E, callable_), function, receiver=SELF if owner else None)


def check_plain(E, signature, expected, returns):
    """expected: [(name or None for anything, kind, annotation)], all required."""
    E.check(z3.BoolVal(isinstance(signature, base().PlainSignature)), 'not a plain signature')
    actual = list(signature.parameters)
    E.check(z3.BoolVal(len(actual) == len(expected)), 'another number of parameters')
    for q, (kind, optional, annotation) in zip(actual, expected):
        E.check(E.cx(q.kind, kinds()) == kind, 'a parameter of another kind')
        E.check(z3.BoolVal(isinstance(q, base().OptionalParameter) is optional),
                'a parameter is optional although required, or the reverse')
        if optional:
            E.check(z3.Not(E.bx(q.has_default)), 'a default nobody declared')
        E.check(annotation_is(E, q.annotation, annotation), 'another annotation')
    E.check(annotation_is(E, signature.returns, returns), 'other returns')


@harness('C15', cases=lambda tier: [(n, prefix, source) for n in [None, 0, 1, 2, 3]
                                    for prefix in ('', 'typing.')
                                    for source in ('annotated', 'nested')],
         bounds='names annotated as Callable[[A, ...], R] with up to 3 arguments, or '
                'Callable[..., R], in modules and classes')
def annotated_callables(E, case):
    n, prefix, source = case
    arguments = [E.const(f'a{i}') for i in range(n or 0)]
    returns = E.const('r')
    text = ('...' if n is None else '[' + ', '.join(map(repr, arguments)) + ']')
    line = f'f: {prefix}Callable[{text}, {returns!r}]\n'
    if source == 'nested':
        line = 'class K:\n    ' + line
    world.world(E, {STUB: 'import typing\nfrom typing import Callable\n' + line})
    signature = signature_of(E, python_function(STUB, 'f' if source != 'nested' else 'K.f'))
    check_plain(E, signature, ([(VP, True, ANY), (VK, True, ANY)] if n is None
                               else [(PO, False, a) for a in arguments]), returns)
    names = [str(p.name) for p in signature.parameters]
    E.check(z3.BoolVal(len(set(names)) == len(names)), 'repeated names')


@harness('C15', cases=method_cases, bounds='names annotated with a class whose instances are '
                                           'callable: ' + BOUNDS)
def annotated_instances(E, case):
    function = member(E, case)
    world.world(E, {STUB: method_text(function, '__call__') + 'f: K\n'})
    check_function(E, signature_of(E, python_function(STUB, 'f')), function, drop=1)


@harness('C16', cases=lambda tier: [(p, n, receiver) for p in range(3 if tier == 'quick' else 4)
                                    for n in range(5 - p if tier == 'quick' else 6 - p)
                                    for receiver in (False, True) if p + n],
         weight=lambda c: c[1] * 2 + c[0],
         bounds='stub functions and methods of up to 4 (thorough 5) positional parameters, any '
                'number of them before "/", names arbitrary (with any underscores around)')
def positional_kinds(E, case):
    posonly, normal, receiver = case
    function = Function(E, '', (posonly, normal, 0, 0, 0), annotated=False, returns=False,
                        defaults=0, receiver='self' if receiver else None)
    for p in function.declared:
        dunder(E, p.x)
    if receiver:
        world.world(E, {STUB: 'class K:\n' + function.text('m', '    ')})
        signature = signature_of(E, python_function(STUB, 'K.m'))
    else:
        world.world(E, {STUB: function.text('f')})
        signature = signature_of(E, python_function(STUB, 'f'))
    params, actual = function.declared, list(signature.parameters)
    E.check(z3.BoolVal(len(params) == len(actual)), 'a declared positional parameter is lost')
    for i, (p, q) in enumerate(zip(params, actual)):
        E.check(E.nx(q.name) == p.x, 'positional parameters are not in declared order')
        expected = (z3.BoolVal(True) if receiver and i == 0 else function.positional_only(E, i))
        E.check((E.cx(q.kind, kinds()) == PO) == expected,
                'a parameter is positional-only although the stub lets it be passed by keyword, '
                'or the reverse')
        E.check(disj([E.cx(q.kind, kinds()) == PO, E.cx(q.kind, kinds()) == PK]),
                'a positional parameter is not positional')
