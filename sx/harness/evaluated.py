"""C23: values of expressions of stubs."""
import inspect
import itertools
import sys
import types
import typing as t

import z3

from .. import engine as en, world
from ..lib import *
from ..registry import HarnessError, harness
from .resolution import M, R, Tables


class Unsupported(Exception):
    pass


class Value:
    """A value that may or may not support an operation; results are remembered."""

    def __init__(self, setting, tag):
        self.setting, self.tag = setting, tag

    def __repr__(self):
        return self.tag

    def _do(self, operation, *operands):
        return self.setting.apply(self, operation, operands)

    def __or__(self, other):
        return self._do('or', other)

    def __and__(self, other):
        return self._do('and', other)

    def __xor__(self, other):
        return self._do('xor', other)

    def __ror__(self, other):
        return self._do('ror', other)

    def __rand__(self, other):
        return self._do('rand', other)

    def __neg__(self):
        return self._do('neg')

    def __pos__(self):
        return self._do('pos')

    def __getitem__(self, item):
        return self._do('item', item)

    def __call__(self, *args, **kwargs):
        return self._do('call', args, tuple(sorted(kwargs.items())))

    def __getattr__(self, name):
        if name.startswith('_') or name not in ('g', 'h'):
            raise AttributeError(name)
        return self._do('attribute', name)


BINARY = ('or', 'and', 'xor', 'ror', 'rand')


class Setting:
    """The values of names and what they support."""

    def __init__(self, E):
        self.E = E
        self.results, self.flags = {}, {}
        self.values = [Value(self, f'v{i}') for i in range(3)]

    def key(self, operand):
        if isinstance(operand, (list, tuple)):
            return (type(operand).__name__,) + tuple(map(self.key, operand))
        if isinstance(operand, dict):
            return ('dict',) + tuple((self.key(k), self.key(v)) for k, v in operand.items())
        if isinstance(operand, en.SymObj):
            return operand.token
        if isinstance(operand, en.SymInt):
            return str(z3.simplify(operand.x))
        if isinstance(operand, Value):
            return operand.tag
        return type(operand).__name__, repr(operand)

    def supports(self, value, operation):
        if value not in self.values and operation != 'call':
            return operation not in ('ror', 'rand')
        name = operation.replace(' ', '')
        tag = f's{value.tag}{name}'
        if not tag.isalnum():
            return True
        if tag not in self.flags:
            self.flags[tag] = self.E.flag(tag)
        return self.flags[tag]

    def apply(self, value, operation, operands):
        if not self.supports(value, operation):
            if operation in BINARY:
                return NotImplemented
            if operation == 'attribute':
                raise AttributeError(operands[0])
            raise TypeError(f'{value} does not support {operation}')
        key = (value.tag, operation, self.key(operands))
        if key not in self.results:
            self.results[key] = Value(self, f'{operation}({value.tag},{self.key(operands)})')
        return self.results[key]


# expressions: (kind, *children)
LEAVES = (('name', 0), ('name', 1), ('module', 2), ('class', 0), ('const', 0), ('text', 'x'),
          ('text', None), ('text', ...), ('text', True), ('text', b'y'), ('text', 1.5))
COMPLEX = ('neg', 'pos', 'or', 'and', 'xor', 'tuple', 'list', 'dict', 'item', 'call', 'attribute')


def render(expression, world_):
    kind, *rest = expression
    one = lambda e: render(e, world_)
    if kind == 'name':
        return f'{world_.names[rest[0]]}'
    if kind == 'module':
        return f'sxv.v{rest[0]}'
    if kind == 'class':
        return f'sxv.K.k{rest[0]}'
    if kind == 'const':
        return f'{world_.consts[rest[0]]!r}'
    if kind == 'text':
        return '...' if rest[0] is ... else repr(rest[0])
    if kind == 'neg':
        return f'(-({one(rest[0])}))'
    if kind == 'pos':
        return f'(+({one(rest[0])}))'
    if kind in ('or', 'and', 'xor'):
        return f'({one(rest[0])} {dict(zip(("or", "and", "xor"), "|&^"))[kind]} {one(rest[1])})'
    if kind == 'tuple':
        return '(' + ''.join(one(e) + ', ' for e in rest) + ')'
    if kind == 'list':
        return '[' + ', '.join(map(one, rest)) + ']'
    if kind == 'dict':
        return '{' + ', '.join(f'{one(k)}: {one(v)}' for k, v in zip(rest[::2], rest[1::2])) + '}'
    if kind == 'item':
        return f'{one(rest[0])}[{one(rest[1])}]'
    if kind == 'call':
        args = [one(e) for e in rest[1] if type(e[0]) is not tuple]
        named = [f'{name}={one(e)}' for (name,), e in
                 [pair for pair in rest[1] if type(pair[0]) is tuple]]
        return f'{one(rest[0])}({", ".join(args + named)})'
    if kind == 'attribute':
        return f'{one(rest[0])}.{rest[1]}'
    raise HarnessError(kind)


def compute(expression, world_):
    """The value Python gives to the expression."""
    kind, *rest = expression
    one = lambda e: compute(e, world_)
    if kind == 'name':
        return world_.value_of(rest[0])
    if kind in ('module', 'class'):
        return world_.setting.values[rest[0]]
    if kind == 'const':
        return world_.consts[rest[0]]
    if kind == 'text':
        return rest[0]
    if kind == 'neg':
        return -one(rest[0])
    if kind == 'pos':
        return +one(rest[0])
    if kind in ('or', 'and', 'xor'):
        left, right = one(rest[0]), one(rest[1])
        if kind == 'and':
            return left & right
        if kind == 'xor':
            return left ^ right
        try:
            return left | right
        except TypeError:
            return t.Union[left, right]
    if kind == 'tuple':
        return tuple(map(one, rest))
    if kind == 'list':
        return list(map(one, rest))
    if kind == 'dict':
        return {one(k): one(v) for k, v in zip(rest[::2], rest[1::2])}
    if kind == 'item':
        value, item = one(rest[0]), one(rest[1])
        try:
            return value[item]
        except TypeError:
            return value
    if kind == 'call':
        args = [one(e) for e in rest[1] if type(e[0]) is not tuple]
        named = {pair[0][0]: one(pair[1]) for pair in rest[1] if type(pair[0]) is tuple}
        return one(rest[0])(*args, **named)
    if kind == 'attribute':
        return getattr(one(rest[0]), rest[1])
    raise HarnessError(kind)


class Expressions:
    """A stub-only module importing values of a module that exists."""

    def __init__(self, E, holder=()):
        self.E, self.setting = E, Setting(E)
        self.names = [E.name(f'n{i}', True) for i in range(2)]
        self.bound = [E.name(f'b{i}', True) for i in range(2)]
        E.assume(E.nx(self.bound[0]) != E.nx(self.bound[1]))
        self.consts = [E.const(f'c{i}') for i in range(2)]
        E.assume(E.bx(self.consts[0] != self.consts[1]))
        self.oracle = Tables(E)
        real = types.ModuleType('sxv')
        for i, value in enumerate(self.setting.values):
            setattr(real, f'v{i}', value)
        real.K = type('K', (), {f'k{i}': v for i, v in enumerate(self.setting.values)})
        self.real = real

    def value_of(self, number):
        """A name is one of those imported."""
        for i, bound in enumerate(self.bound):
            if self.oracle.same(bound, self.names[number]):
                return self.setting.values[i]
        self.E.assume(z3.BoolVal(False))

    def head(self):
        return ('import sxv\n' + ''.join(f'from sxv import v{i} as {bound}\n'
                                          for i, bound in enumerate(self.bound)))

    VALUES = ('v0: int\nv1: int\nv2: int\nclass K:\n    k0: int\n    k1: int\n    k2: int\n')


def equal(E, actual, expected):
    """Is it the same value (types included)?"""
    if isinstance(expected, (tuple, list)):
        if type(actual) is not type(expected) or len(actual) != len(expected):
            return z3.BoolVal(False)
        return conj(*[equal(E, a, b) for a, b in zip(actual, expected)])
    if isinstance(expected, dict):
        if type(actual) is not dict or len(actual) != len(expected):
            return z3.BoolVal(False)
        return conj(*[conj(equal(E, a, b), equal(E, actual[a], expected[b]))
                      for a, b in zip(actual, expected)])
    if isinstance(expected, (en.SymObj, en.SymInt)) or type(expected) is int:
        if isinstance(actual, Value):
            return z3.BoolVal(False)
        return E.bx(actual == expected)
    if isinstance(expected, Value):
        return z3.BoolVal(actual is expected)
    return z3.BoolVal(type(actual) is type(expected) and actual == expected)


def run_expression(E, expression, where):
    world_ = Expressions(E)
    text = render(expression, world_)
    holder = E.name('h', True)
    for bound in world_.bound:
        E.assume(E.nx(bound) != E.nx(holder))
    member = f'{holder}: 0 = [{text}]\n'
    lines = [world_.head()]
    if where == 'module':
        lines.append(member)
        parent = ()
    else:
        cls = E.name('k', True)
        for bound in world_.bound:
            E.assume(E.nx(bound) != E.nx(cls))
        lines += [f'class {cls}:\n    {member}']
        parent = (cls,)
    source = ''.join(lines)
    E.show('source', source)
    tables = world.world(E, {'sxm': source, 'sxv': world_.VALUES})
    sys.modules['sxv'] = world_.real
    try:
        nodes = next(value for key, value in tables['raw_ast_nodes'][M].items()
                     if len(key) == len(parent) + 1 and world_.oracle.same(key[-1], holder))
        raw = entry('paradigm._core.arboreal.construction', 'from_raw')
        function = entry('paradigm._core.arboreal.evaluation', 'evaluate_expression_node')
        node = raw(nodes[0]).value.elts[0]
        checked(function, node, M, parent, {})
        try:
            expected = 'ret', compute(expression, world_)
        except (TypeError, AttributeError) as error:
            expected = 'exc', error
        E.show('expected', expected)
        actual = E.call(lambda: function(node, M, parent, {}))
        E.show('actual', actual)
        E.check(z3.BoolVal(actual[0] == expected[0]),
                'evaluating an expression fails, or does although Python does not compute it')
        if actual[0] == 'ret':
            E.check(equal(E, actual[1], expected[1]),
                    'an expression is evaluated to another value than in Python')
    finally:
        del sys.modules['sxv']


def expressions(tier):
    simple = [('name', 0), ('module', 1), ('const', 0), ('text', None)]
    operands = [('name', 0), ('name', 1), ('module', 2), ('const', 0), ('text', None),
                ('text', 'x')]
    result = list(LEAVES)

    def unary(children):
        for child in children:
            yield ('neg', child)
            yield ('pos', child)
            yield ('tuple', child)
            yield ('list', child)
            yield ('attribute', child, 'g')
            yield ('call', child, ())

    def binary(left, right):
        for a, b in itertools.product(left, right):
            yield from (('or', a, b), ('and', a, b), ('xor', a, b), ('tuple', a, b),
                        ('list', a, b), ('dict', a, b), ('item', a, b), ('call', a, (b,)),
                        ('call', a, ((('w',), b),)))

    def valid(expression):
        """Calls and lookups of literals are warned of by the compiler; keys are hashable."""
        kind = expression[0]
        if kind in ('neg', 'pos') and expression[1][0] == 'text':
            return type(expression[1][1]) in (bool, float)
        if kind in ('call', 'attribute') and expression[1][0] in ('text', 'const'):
            return False
        if kind in ('or', 'and', 'xor') and all(e[0] in ('text', 'const')
                                                for e in expression[1:]):
            return False
        if kind in ('neg', 'pos', 'or', 'and', 'xor') and any(
                e[0] in ('tuple', 'list', 'dict') for e in expression[1:]):
            return False
        if kind == 'item' and expression[1][0] in ('const', 'text', 'tuple', 'list', 'dict'):
            return False
        if kind == 'dict' and any(e[0] in ('list', 'dict', 'neg', 'pos') for e in expression[1::2]):
            return False
        if kind in ('call', 'attribute') and expression[1][0] in ('tuple', 'list', 'dict',
                                                                  'or'):
            return False
        if kind == 'item' and expression[1][0] == 'or':
            return False
        if kind in ('and', 'xor') and any(e[0] == 'const' or e[0] == 'neg' and
                                          e[1][0] == 'const' for e in expression[1:]):
            return False
        if kind == 'or' and any(e[0] in ('const',) or e[0] in ('neg', 'pos') and
                                e[1][0] == 'const' for e in expression[1:]):
            return False
        return not (kind in ('neg', 'pos', 'or', 'and', 'xor', 'item', 'call', 'attribute')
                    and any(type(e) is tuple and e and e[0] == 'text' and e[1] is ...
                            for e in expression[1:]))

    one = [e for e in itertools.chain(unary(operands + list(LEAVES[5:])),
                                      binary(operands, operands)) if valid(e)]
    one += [('tuple',), ('list',), ('dict',), ('dict', ('text', 'x'), ('name', 0), ('text', 'z'),
                                               ('name', 1)),
            ('tuple', ('name', 0), ('const', 0), ('const', 1)),
            ('call', ('name', 0), (('name', 1), ('const', 1), (('u',), ('const', 0)),
                                   (('w',), ('module', 2)))),
            ('item', ('name', 0), ('tuple', ('name', 1), ('const', 0))),
            ('item', ('name', 0), ('list', ('name', 1), ('const', 0))),
            ('item', ('name', 0), ('tuple',))]
    result += one
    base = one if tier != 'quick' else one[::3]
    two = [e for e in itertools.chain(unary(base), binary(base, simple[:2]),
                                      binary(simple[:2], base)) if valid(e)]
    result += two if tier != 'quick' else two[::4]
    return list(dict.fromkeys(result))


def expression_cases(tier):
    found = expressions(tier)
    return ([('module', e) for e in found]
            + [('class', e) for e in (found if tier != 'quick' else found[::6])])


def tuples(part):
    return tuple(map(tuples, part)) if type(part) in (list, tuple) else part


@harness('C23', cases=lambda tier: [(where, repr(e)) for where, e in expression_cases(tier)],
         bounds='expressions of depth 2 (quick: depth 1 and a twelfth of depth 2) over names, '
                'attributes of modules and classes and constants with all the operators, '
                'containers, subscripts and calls; values of names are opaque and support any '
                'set of operations')
def expression(E, case):
    where, text = case
    run_expression(E, eval(text, {'Ellipsis': ...}), where)


DEFINITIONS = ('const', 'annotated', 'list', 'both', 'import', 'item')


def definition_cases(tier):
    size = 2 if tier == 'quick' else 3
    result = [(where, (kind,)) for where in ('module', 'class') for kind in DEFINITIONS]
    result += [(where, pair) for where in ('module', 'class')
               for pair in itertools.product(DEFINITIONS, repeat=2)]
    few = [kind for kind in DEFINITIONS if kind not in ('annotated',)]
    three = list(itertools.product(few if tier != 'quick' else ('list', 'both', 'import'),
                                   repeat=3))
    return result + [('module', three_) for three_ in three]


class Definitions(Expressions):
    def __init__(self, E, kinds_, where):
        super().__init__(E)
        self.kinds = kinds_
        self.targets = [E.name(f'a{i}', True) for i in range(len(kinds_))]
        self.second = [E.name(f'd{i}', True) for i in range(len(kinds_))]
        self.used = [E.name(f'u{i}', True) for i in range(len(kinds_))]
        self.consts = [E.const(f'g{i}') for i in range(len(kinds_))]
        self.others = [E.name(f'r{i}', True) for i in range(len(kinds_))]
        for a, b in itertools.combinations(self.consts, 2):
            E.assume(E.bx(a != b))
        for a, b in itertools.combinations(self.others, 2):
            E.assume(E.nx(a) != E.nx(b))
        # name -> what defines it
        self.table = []
        for i, kind in enumerate(kinds_):
            self.table.append((self.targets[i], i))
            if kind == 'both':
                self.table.append((self.second[i], i))
        names = [name for name, _ in self.table] + self.bound
        for a, b in itertools.combinations(names, 2):
            E.assume(E.nx(a) != E.nx(b))
        self.where = where
        if where == 'class':
            self.cls = E.name('k', True)
            for name in names:
                E.assume(E.nx(name) != E.nx(self.cls))

    def texts(self):
        lines, others = [], []
        for i, kind in enumerate(self.kinds):
            a, c, u = self.targets[i], repr(self.consts[i]), self.used[i]
            lines.append({'const': f'{a} = {c}', 'annotated': f'{a}: int = {c}',
                          'list': f'{a} = [{u}, {c}]', 'both': f'{a} = {self.second[i]} = [{c}]',
                          'import': f'from sxr import {self.others[i]} as {a}',
                          'item': f'{a} = {self.bound[0]}[{u}]'}[kind])
            if kind == 'import':
                others.append(f'{self.others[i]} = ({c},)')
        head = self.head()
        if self.where == 'class':
            lines = [f'class {self.cls}:'] + ['    ' + line for line in lines]
        return {'sxm': head + '\n'.join(lines) + '\n', 'sxr': '\n'.join(others) + '\n',
                'sxv': self.VALUES}

    def definition(self, name):
        for other, i in self.table:
            if self.oracle.same(other, name):
                return i
        return None

    def uses(self, i):
        return [self.used[i]] if self.kinds[i] in ('list', 'item') else []

    def reaches(self, i, goal, seen=()):
        for name in self.uses(i):
            j = self.definition(name)
            if j is None:
                continue
            if j == goal or (j not in seen and self.reaches(j, goal, (*seen, j))):
                return True
        return False

    def matches(self, actual, name):
        """Is that the value of a name (a name may stand for itself where it is cyclic)?"""
        E, i = self.E, self.definition(name)
        if i is None:
            return equal(E, actual, next(value for value, bound in zip(self.setting.values,
                                                                       self.bound)
                                         if self.oracle.same(bound, name)))
        kind, c = self.kinds[i], self.consts[i]
        if type(actual) is t.ForwardRef and self.reaches(i, i):
            return z3.BoolVal(True)
        if kind in ('const', 'annotated'):
            return equal(E, actual, c)
        if kind == 'both':
            return equal(E, actual, [c])
        if kind == 'import':
            return equal(E, actual, (c,))
        if kind == 'item':
            if not self.setting.supports(self.setting.values[0], 'item'):
                return equal(E, actual, self.setting.values[0])
            if self.reaches(i, i):
                return z3.BoolVal(isinstance(actual, Value))
            return equal(E, actual, self.setting.values[0][self.value(self.used[i])])
        if type(actual) is not list or len(actual) != 2:
            return z3.BoolVal(False)
        return conj(self.matches(actual[0], self.used[i]), equal(E, actual[1], c))

    def value(self, name):
        """The value of a name that does not depend on itself."""
        i = self.definition(name)
        if i is None:
            return next(value for value, bound in zip(self.setting.values, self.bound)
                        if self.oracle.same(bound, name))
        kind, c = self.kinds[i], self.consts[i]
        if kind in ('const', 'annotated'):
            return c
        if kind == 'both':
            return [c]
        if kind == 'import':
            return (c,)
        if kind == 'item':
            base = self.setting.values[0]
            return (base[self.value(self.used[i])] if self.setting.supports(base, 'item')
                    else base)
        return [self.value(self.used[i]), c]


@harness('C23', cases=definition_cases, weight=lambda c: len(c[1]) ** 2,
         bounds='up to 2 definitions (thorough: 3) of 6 sorts in a module or class that only '
                'stubs know, naming each other (cyclically as well), evaluated by two symbolic '
                'names in a row')
def definitions(E, case):
    import ast
    where, kinds_ = case
    world_ = Definitions(E, kinds_, where)
    texts = world_.texts()
    E.show('source', texts['sxm'])
    E.show('other', texts['sxr'])
    names = [name for name, _ in world_.table] + world_.bound
    for used in world_.used:
        E.assume(z3.Or([E.nx(used) == E.nx(name) for name in names]))
    cyclic = [i for i in range(len(kinds_)) if world_.reaches(i, i)]
    if cyclic and any(world_.kinds[i] == 'item' for i in range(len(kinds_))):
        # subscripts of names standing for themselves are left aside
        E.assume(z3.BoolVal(False))
    world.world(E, texts)
    sys.modules['sxv'] = world_.real
    parent = (world_.cls,) if where == 'class' else ()
    function = entry('paradigm._core.arboreal.evaluation', 'evaluate_expression_node')
    try:
        for step in range(2):
            asked = E.name(f'q{step}', True)
            E.assume(z3.Or([E.nx(asked) == E.nx(name) for name in names]))
            node = ast.Name(asked, ast.Load())
            checked(function, node, M, parent, {})
            outcome, actual = E.call(lambda: function(node, M, parent, {}))
            E.show('asked', asked)
            E.show('actual', actual)
            if outcome == 'exc':
                E.fail(f'evaluating a definition raises {type(actual).__name__}')
            E.check(world_.matches(actual, asked),
                    'a definition is evaluated to another value than in its stub')
    finally:
        del sys.modules['sxv']


MEMBERS = ('field', 'const', 'method', 'none', 'coroutine')


def stub_class_cases(tier):
    size = 2 if tier == 'quick' else 3
    return [(bases, members) for bases in ((), ('real',), ('stub',), ('real', 'stub'),
                                           ('stub', 'real'), ('imported',))
            for members in itertools.product(MEMBERS, repeat=size)]


def normal(text):
    """What an annotation given as text stands for."""
    import ast
    try:
        return ast.dump(ast.parse(str.__str__(text), mode='eval')).replace(
                "Name(id='Ellipsis', ctx=Load())", 'Constant(value=Ellipsis)')
    except (SyntaxError, TypeError):
        return text


@harness('C23', cases=stub_class_cases,
         bounds='classes that only stubs know, of up to 2 bases (real, of the same and of another '
                'stub) and 2 members (thorough: 3), evaluated twice')
def stub_classes(E, case):
    import ast
    bases_, members = case
    world_ = Expressions(E)
    asked = E.name('q', True)
    base, other = 'SxBase', 'SxOther'
    lines, others = [], [f'class {other}:', f'    z = {world_.consts[1]!r}']
    head = world_.head() + ('from sxr import SxOther\n' if 'imported' in bases_ else '')
    spelled = {'real': 'sxv.K', 'stub': base, 'imported': other}
    name = str.__str__(world_.bound[1])
    annotation = E.select('annotation', [
        name, 'sxv.K', f'sxv.K[{name}]', f'{name} | None', f'sxv.K[[{name}], sxv.K]',
        f'sxv.K[(sxv.K,)]', '-1', f'sxv.K[{name}, ...]', f'sxv.K & {name}', "sxv.K['a b']",
        f"sxv.K['it', {name}, (b'x', 'y')]", "sxv.K[()]"
    ]) if 'method' in members or 'coroutine' in members else name
    lines += [f'class {base}:', f'    y = {world_.consts[1]!r}',
              f'class SxClass({", ".join(spelled[b] for b in bases_)}):'
              if bases_ else 'class SxClass:']
    for i, member in enumerate(members):
        lines.append('    ' + {'field': f'f{i}: {world_.bound[0]}', 'const':
                               f'f{i} = {world_.consts[0]!r}', 'method':
                               f'def f{i}(self, x: {annotation}, y=...): ...',
                               'coroutine':
                               f'async def f{i}(self, x, y: {name} = ...) -> {annotation}: ...',
                               'none': 'pass'}[member])
    source = head + '\n'.join(lines) + '\n'
    E.show('source', source)
    world.world(E, {'sxm': source, 'sxr': '\n'.join(others) + '\n', 'sxv': world_.VALUES})
    sys.modules['sxv'] = world_.real
    function = entry('paradigm._core.arboreal.evaluation', 'evaluate_expression_node')
    get = lambda name: E.call(lambda: function(ast.Name(name, ast.Load()), M, (), {}))
    try:
        first = E.select('first', [base, 'SxClass'])
        get(first)
        results = {name: get(name) for name in
                   ['SxClass', base] + ([other] if 'imported' in bases_ else [])}
        for outcome, result in results.values():
            E.show('actual', result)
            E.check(z3.BoolVal(outcome == 'ret' and isinstance(result, type)),
                    'a class of a stub is not evaluated to a class')
        results = {name: result for name, (_, result) in results.items()}
        cls = results['SxClass']
        E.check(z3.BoolVal(get('SxClass')[1] is cls), 'a class of a stub is not the same again')
        wanted = tuple({'real': world_.real.K, 'stub': results[base],
                        'imported': results.get(other)}[b] for b in bases_) or (object,)
        E.check(z3.BoolVal(cls.__bases__ == wanted), 'a class has other bases than in its stub')
        E.check(z3.BoolVal(cls.__name__ == 'SxClass'), 'a class has another name')
        E.check(equal(E, results[base].y, world_.consts[1]), 'a class attribute has other value')
        annotations = dict(cls.__dict__.get('__annotations__', {}))
        fields = [f'f{i}' for i, member in enumerate(members) if member == 'field']
        E.check(z3.BoolVal(list(annotations) == fields
                           and all(annotations[f] is world_.setting.values[0] for f in fields)),
                'annotations of a class are not those of its stub')
        for i, member in enumerate(members):
            if member == 'const':
                E.check(equal(E, cls.__dict__[f'f{i}'], world_.consts[0]),
                        'a class attribute has other value')
            elif member in ('method', 'coroutine'):
                method = cls.__dict__.get(f'f{i}')
                texts = {'method': {'x': annotation},
                         'coroutine': {'y': name, 'return': annotation}}[member]
                E.check(z3.BoolVal(isinstance(method, types.FunctionType)
                                   and {key: normal(text) for key, text
                                        in method.__annotations__.items()}
                                   == {key: normal(text) for key, text in texts.items()}
                                   and bool(method.__code__.co_flags & inspect.CO_COROUTINE)
                                   is (member == 'coroutine')),
                        'a method of a class has other annotations than in its stub')
                E.check(z3.BoolVal(isinstance(method, types.FunctionType)
                                   and method.__code__.co_varnames[:3] == ('self', 'x', 'y')
                                   and method.__defaults__ == (...,)
                                   and method.__name__ == f'f{i}'),
                        'a method of a class is not that of its stub')
            elif member == 'field':
                E.check(z3.BoolVal(f'f{i}' not in cls.__dict__), 'an annotation has a value')
    finally:
        del sys.modules['sxv']
