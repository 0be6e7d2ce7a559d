"""C30: answers depend on nothing asked before."""
import functools
import itertools
import sys
import types

import z3

from .. import engine as en, world
from ..lib import *
from ..registry import HarnessError, harness
from .described import (PK, PO, SELF, Declared, annotation_is, python_class, python_function,
                        signature_of)

FUNCTION, METHOD, BOUND, CLASS, INSPECTED, PARTIAL, OVERLOADED = (
    'function', 'method', 'bound', 'class', 'inspected', 'partial', 'overloaded')
SORTS = (FUNCTION, METHOD, BOUND, CLASS, INSPECTED, PARTIAL, OVERLOADED)
MEMBERS = (METHOD, BOUND)
STUB_ONLY, LOADED = 'stub only', 'loaded'
HEAD = 'from typing import overload\n'


class Module:
    """A module that has a value and a class, and what describes it."""

    def __init__(self, E, number, state, path):
        self.E, self.path, self.state = E, path, state
        self.value = E.name(f'v{number}', True)
        self.cls = E.select(f'k{number}', ['K', 'L'][:number + 1])
        self.const, self.mark = E.const(f'c{number}'), E.const(f'm{number}')
        self.lines, self.members = [], []
        self.evaluated = None

    def text(self):
        return (HEAD + f'{self.value} = {self.const!r}\n'
                + f'class {self.cls}:\n    x = {self.mark!r}\n'
                + ''.join(f'    {line}\n' for line in self.members)
                + ''.join(line + '\n' for line in self.lines))

    def real(self):
        result = types.ModuleType(self.path)
        if self.state == LOADED:
            vars(result)[str.__str__(self.value)] = self.const
            self.evaluated = type(self.cls, (), {'x': self.mark})
            vars(result)[self.cls] = self.evaluated
        return result

    def annotation_is(self, actual, name):
        """Formula: the annotation is what the name means in the module."""
        E = self.E
        if name is self.value:
            return E.ox(actual) == E.ox(self.const)
        if not isinstance(actual, type):
            return z3.BoolVal(False)
        if self.evaluated is None:
            self.evaluated = actual
        if actual is not self.evaluated:
            # another class each time would make equal annotations unequal
            return z3.BoolVal(False)
        mark = getattr(actual, 'x', None)
        return z3.BoolVal(False) if mark is None else E.ox(mark) == E.ox(self.mark)


class Subject:
    """Something to ask the signature of."""

    def __init__(self, E, number, sort, module):
        self.E, self.number, self.sort, self.module = E, number, sort, module
        self.name = E.select(f'f{number}', ['f', 'g', 'h'][:number + 1])
        self.param = E.name(f'p{number}', True)
        self.second, self.optional = 'second', number == 1
        # names starting so are of positional-only parameters
        E.assume(z3.Not(E.affix('starts', '__', E.nx(self.param))))
        names = [module.value, module.cls]
        self.annotation, self.returns = names if E.flag(f'a{number}') else names[::-1]
        parameter = f'{self.param}: {self.annotation}' + (' = ...' if self.optional else '')
        tail = f'-> {self.returns}: ...'
        if sort in (FUNCTION, PARTIAL):
            module.lines.append(f'def {self.name}({parameter}, *, {self.second}: {self.returns}) '
                                + tail)
        elif sort == OVERLOADED:
            module.lines += ['@overload', f'def {self.name}({parameter}) {tail}', '@overload',
                             f'def {self.name}(*, {self.second}: {self.returns}) {tail}']
        elif sort in (METHOD, BOUND):
            module.members.append(f'def {self.name}(self, {parameter}) {tail}')
        elif sort == CLASS:
            module.members.append(f'def __init__(self, {parameter}) -> None: ...')

    def make(self):
        E, path, name = self.E, self.module.path, self.name
        qualname = f'{self.module.cls}.{name}'
        if self.sort in (FUNCTION, OVERLOADED):
            self.callable = python_function(path, name)
        elif self.sort == PARTIAL:
            self.passed = E.const(f'passed{self.number}')
            self.callable = functools.partial(python_function(path, name),
                                              **{self.second: self.passed})
        elif self.sort == METHOD:
            self.callable = python_function(path, qualname)
        elif self.sort == BOUND:
            self.callable = types.MethodType(python_function(path, qualname), object())
        elif self.sort == CLASS:
            self.callable = (self.module.evaluated if self.module.evaluated is not None
                             else python_class(path, self.module.cls))
            self.callable.__module__, self.callable.__qualname__ = path, self.module.cls
        else:
            def inspected(first, second=self.module.const):
                pass
            inspected.__module__, inspected.__qualname__ = 'sxnowhere', 'inspected'
            inspected.__annotations__['first'] = self.module.mark
            self.callable = inspected

    def check(self, signature, b):
        E, m = self.E, self.module
        alternatives = ([signature] if isinstance(signature, b.PlainSignature)
                        else list(signature.signatures))
        E.check(z3.BoolVal(len(alternatives) == (2 if self.sort == OVERLOADED else 1)),
                'another number of alternatives than the callable has')
        own = (self.param, self.annotation, self.optional, PK)
        named = (self.second, self.returns, False, KO)
        wanted = {FUNCTION: [[own, named]], PARTIAL: [[own, named]], OVERLOADED: [[own], [named]],
                  METHOD: [[None, own]], BOUND: [[own]], CLASS: [[own]],
                  INSPECTED: [['first', 'second']]}[self.sort]
        for alternative, params in zip(alternatives, wanted):
            actual = list(alternative.parameters)
            E.check(z3.BoolVal(len(actual) == len(params)),
                    'another number of parameters than the callable has')
            for q, p in zip(actual, params):
                if p is None:
                    E.check(annotation_is(E, q.annotation, SELF), 'another receiver')
                elif p == 'first':
                    E.check(z3.BoolVal(q.name == 'first'), 'another parameter')
                    E.check(E.ox(q.annotation) == E.ox(m.mark), 'another annotation')
                elif p == 'second':
                    E.check(z3.BoolVal(q.name == 'second'), 'another parameter')
                    E.check(E.ox(q.default) == E.ox(m.const), 'another default')
                else:
                    name, annotation, optional, kind = p
                    bound = self.sort == PARTIAL and kind == KO
                    E.check(E.nx(q.name) == E.nx(name), 'a parameter has another name')
                    E.check(z3.BoolVal(q.kind is kinds()[kind]), 'a parameter has another kind')
                    E.check(z3.BoolVal(isinstance(q, b.OptionalParameter)
                                       is (optional or bound)),
                            'a parameter is optional although it is required, or the reverse')
                    if isinstance(q, b.OptionalParameter):
                        E.check(z3.BoolVal(q.has_default is bound), 'a default is another')
                        if bound:
                            E.check(E.ox(q.default) == E.ox(self.passed), 'a default is another')
                    E.check(m.annotation_is(q.annotation, annotation),
                            'an annotation is not what its name means in the module')
            if self.sort == CLASS:
                E.check(annotation_is(E, alternative.returns, SELF), 'another return annotation')
            elif self.sort != INSPECTED:
                E.check(m.annotation_is(alternative.returns, self.returns),
                        'a return annotation is not what its name means in the module')


def frozen(value):
    """The structure of a table, leaves by identity."""
    if isinstance(value, dict):
        return [(frozen(k), frozen(v)) for k, v in value.items()]
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [frozen(v) for v in value]
    return str.__str__(value) if isinstance(value, str) else id(value)


def history_cases(tier):
    result = []
    for sort, other in itertools.product(SORTS, repeat=2):
        for place in (0, 1):
            if place == 0 and (sort, other) == (CLASS, CLASS):
                continue
            result.append(((sort, other), (0, place), (STUB_ONLY, STUB_ONLY)))
    result += [((sort, other), (0, 1), states) for sort, other in
               itertools.product((FUNCTION, METHOD, CLASS), repeat=2)
               for states in ((LOADED, STUB_ONLY), (LOADED, LOADED))]
    if tier != 'quick':
        result += [((sort, other, third), (0, 1, place), (STUB_ONLY, STUB_ONLY))
                   for sort, other, third in itertools.product(SORTS[:4], repeat=3)
                   for place in (0, 1) if (other if place else sort, third) != (CLASS, CLASS)]
    return result


@harness('C30', cases=history_cases, weight=lambda c: len(c[0]) ** 2,
         bounds='histories of 3 queries (thorough: 4) of 2 callables (thorough: 3) of 7 sorts in the '
                'same or two modules (of a package, or of the same name in two), loaded or known '
                'by stubs only; names of the modules may coincide with each other')
def queries(E, case):
    sorts, places, states = case
    # modules of one package, or of the same name in packages
    paths = ['sxh.a', E.select('path', ['sxh.b', 'sxg.a']) if 1 in places else 'sxh.b']
    modules_ = [Module(E, i, state, path) for i, (state, path) in enumerate(zip(states, paths))]
    subjects = [Subject(E, i, sort, modules_[place])
                for i, (sort, place) in enumerate(zip(sorts, places))]
    for one, two in itertools.combinations(subjects, 2):
        if (one.module is two.module and one.name == two.name
                and (one.sort in MEMBERS) == (two.sort in MEMBERS)
                and INSPECTED not in (one.sort, two.sort) and CLASS not in (one.sort, two.sort)):
            E.assume(z3.BoolVal(False))
    texts = {module.path: module.text() for module in modules_}
    texts.update({module.path.split('.')[0] + '.__init__': '' for module in modules_})
    E.show('stubs', texts)
    tables = world.world(E, texts)
    b = base()
    try:
        for module in modules_:
            if module.state == LOADED:
                sys.modules[module.path] = module.real()
        for subject in subjects:
            subject.make()
        before = frozen(tables)
        count = len(subjects)
        order = E.select('order', [order for order in itertools.product(
            range(count), repeat=count + 1) if set(order) == set(range(count))])
        E.show('order', order)
        answers = {}
        for index in order:
            signature = signature_of(E, subjects[index].callable)
            subjects[index].check(signature, b)
            if index in answers:
                outcome, same = E.call(lambda: signature == answers[index])
                E.check(z3.BoolVal(outcome == 'ret') if outcome != 'ret' else E.bx(same),
                        'asking again gives an unequal signature')
            answers[index] = signature
        E.check(z3.BoolVal(before == frozen(tables)), 'asking for signatures changes the tables')
        # older answers stay what they were
        for index, signature in answers.items():
            subjects[index].check(signature, b)
    finally:
        for module in modules_:
            sys.modules.pop(module.path, None)
