"""C22: what members inherited from specialised generic classes are annotated with."""
import ast
import itertools

import z3

from .. import world
from ..lib import *
from ..registry import harness
from .resolution import B, M, P, R, Tables, same_path
from .tables import indent, same_names

TEXT = {M: 'sxm', R: 'sxr', P: 'sxp'}
T, X, A, INT, NONE = 'type var', 'external', 'class', ('int',), ('none',)
N = 'plain variable'
# how type variables are made
MADE = {'TypeVar': '{name} = TypeVar("{name}")',
        'ParamSpec': '{name} = ParamSpec("{name}")',
        'annotated': '{name}: TypeVar = TypeVar("{name}")',
        'through typing': '{name} = typing.TypeVar("{name}", bound=int)',
        'renamed': '{name} = TV("{name}")',
        'extension': '{name} = typing_extensions.TypeVar("{name}", default=int)',
        'extension parameters': '{name} = PS("{name}", default=...)',
        'imported': 'from sxp import {other} as {name}'}
# what looks like a type variable, but is not one
PLAIN = {'new type': '{name} = NewType("{name}", int)',
         'annotated new type': '{name}: object = NewType("{name}", int)',
         'named like': '{name} = sxp.TypeVar("{name}")',
         'nested like': '{name} = Some.TypeVar("{name}")',
         'called': '{name} = sxp.make()("{name}")',
         'union': '{name} = int | None', 'annotated union': '{name}: object = int | None',
         'annotated': '{name}: object', 'constant': '{name} = "TypeVar"',
         'function': 'def {name}(): ...', 'class': 'class {name}: ...',
         'conditional': '{name} = TypeVar("{name}") if int else int',
         'instance': '{name} = variable.TypeVar("{name}")'}
# expressions: (T, i): i-th type variable of the module, (X, i): a class imported from sxp,
# ('mx', i): the same through the module, (A, i): the i-th class,
# (N, i): i-th variable that is not a type variable, ('own', j): j-th extra of the class itself,
# ('sub', expression, *arguments), ('or', a, b), ('list', *expressions), ('str', text)


class Spec:
    """A class: module, bases (index, arguments), declared type variables or None."""

    def __init__(self, module, bases=(), declared=None, outer=None, uses=(), extras=(),
                 protocol=False, free=False):
        self.module, self.bases, self.declared, self.outer = module, bases, declared, outer
        self.uses, self.extras, self.protocol = uses, extras, protocol
        # whether members may be named as what the class does not mention
        self.free = free


class Generics:
    def __init__(self, E, specs, kinds=()):
        self.E, self.specs = E, specs
        self.kinds = dict(kinds)
        self.oracle = Tables(E)
        self.counts = {module: 0 for module in TEXT}
        self.names = {}
        self.classes = [E.name(f'c{i}', True) for i in range(len(specs))]
        self.members = [E.name(f'm{i}', True) for i in range(len(specs))]
        self.external = [E.name('x0', True), E.name('x1', True)]
        self.outer = {}
        E.assume(E.nx(self.external[0]) != E.nx(self.external[1]))
        self.variables, self.imported, self.extra = {}, {}, {}
        self.foreign = {}
        for module in (M, R):
            bound = []
            used = {v for spec in specs if spec.module == module
                    for v in variables([spec.bases, spec.uses,
                                        [(T, one) for one in spec.declared or ()]])}
            for i in sorted(used):
                bound.append(self.bind(self.variables, module, i, 'tv'))
                if self.kinds.get((module, i)) == 'imported':
                    self.foreign[module, i] = E.name(f'f{len(self.foreign)}', True)
                    for one in self.external + [other for key, other in self.foreign.items()
                                                if key != (module, i)]:
                        E.assume(E.nx(one) != E.nx(self.foreign[module, i]))
            for i in sorted({x for spec in specs if spec.module == module
                             for x in externals([spec.bases, spec.uses])}):
                bound.append(self.bind(self.imported, module, i, 'im'))
            for i in sorted({x for spec in specs if spec.module == module
                             for x in variables([spec.bases, spec.uses], N)}):
                bound.append(self.bind(self.imported, module, (N, i), 'pv'))
            for i, spec in enumerate(specs):
                if spec.module == module:
                    if spec.outer is not None:
                        self.outer[i] = E.name(f'o{i}', True)
                        bound += [self.outer[i], self.classes[i]]
                    else:
                        bound.append(self.classes[i])
                elif any(self.mentions(other, i) for other in specs if other.module == module):
                    bound.append(self.bind(self.imported, module, (A, i), 'ic'))
            for a, b in itertools.combinations(bound, 2):
                E.assume(E.nx(a) != E.nx(b))
        for i, spec in enumerate(specs):
            own = [self.members[i]]
            for j, extra in enumerate(spec.extras):
                self.extra[i, j] = E.name(f'e{i}{j}', True)
                own.append(self.extra[i, j])
            for a, b in itertools.combinations(own, 2):
                E.assume(E.nx(a) != E.nx(b))
            # names of members hide nothing that their annotations mention
            mentioned = {(T, v) for v in self.parameters(i)} | set(flat(tuple(spec.uses),
                                                                           (T, X, N, A)))
            for name in own:
                for table, sort in ((self.variables, T), (self.imported, X)):
                    for (module, key), other in table.items():
                        if module == spec.module and not (
                                spec.free and (key if type(key) is tuple
                                               else (sort, key)) not in mentioned):
                            E.assume(E.nx(other) != E.nx(name))
                for k, other in enumerate(specs):
                    if other.module == spec.module:
                        E.assume(E.nx(self.outer.get(k, self.classes[k])) != E.nx(name))

    def bind(self, table, module, key, tag):
        name = self.E.name(f'{tag}{TEXT[module][-1]}{len(table)}', True)
        table[module, key] = name
        return name

    def mentions(self, spec, i):
        return any(index == i for index, _ in spec.bases)

    def text(self, module, expression):
        kind = expression[0]
        render = lambda one: self.text(module, one)
        if kind == T:
            return f'{self.variables[module, expression[1]]}'
        if kind == X:
            return f'{self.imported[module, expression[1]]}'
        if kind == N:
            return f'{self.imported[module, expression]}'
        if kind == 'own':
            return f'{self.extra[expression[1:]]}'
        if kind == 'mx':
            return f'sxp.{self.external[expression[1]]}'
        if kind == A:
            i = expression[1]
            if self.specs[i].module == module:
                return (f'{self.classes[i]}' if self.specs[i].outer is None
                        else f'{self.outer[i]}.{self.classes[i]}')
            local = self.imported[module, (A, i)]
            return (f'{local}' if self.specs[i].outer is None
                    else f'{local}.{self.classes[i]}')
        if kind == 'sub':
            return f'{render(expression[1])}[{", ".join(map(render, expression[2:]))}]'
        if kind == 'or':
            return f'{render(expression[1])} | {render(expression[2])}'
        if kind == 'list':
            return f'[{", ".join(map(render, expression[1:]))}]'
        return {'int': 'int', 'none': 'None', 'dots': '...'}.get(kind) or repr(expression[1])

    def texts(self):
        result = {'sxp': ''.join(f'class {name}:\n    ...\n' for name in self.external)
                  + 'class TypeVar: ...\ndef make(): ...\n' + 'import typing\n' * bool(self.foreign)
                  + ''.join(f'{name} = typing.TypeVar("{name}")\n'
                            for name in self.foreign.values()),
                  'typing_extensions': 'class TypeVar: ...\nclass ParamSpec: ...\n'}
        kinds = set(self.kinds.values())
        for module in (M, R):
            lines = ['from typing import Generic, NewType, ParamSpec, Protocol, TypeVar',
                     'import sxp']
            if kinds & {'through typing', 'extension', 'extension parameters', 'renamed'}:
                lines += ['import typing, typing_extensions', 'from typing import TypeVar as TV',
                          'from typing_extensions import ParamSpec as PS']
            if kinds & {'nested like', 'instance'}:
                lines += ['class Some:', '    class TypeVar: ...', 'variable: Some']
            for (other, i), name in self.imported.items():
                if other != module:
                    continue
                if type(i) is tuple and i[0] == N:
                    lines.append(PLAIN[self.kinds[module, i]].format(name=name))
                elif type(i) is tuple:
                    i = i[1]
                    what = self.outer.get(i, self.classes[i])
                    lines.append(f'from {TEXT[self.specs[i].module]} import {what} as {name}')
                else:
                    lines.append(f'from sxp import {self.external[i]} as {name}')
            for (other, i), name in self.variables.items():
                if other == module:
                    made = MADE[self.kinds.get((module, i), 'TypeVar')]
                    lines.append(made.format(name=name, other=self.foreign.get((module, i))))
            for i, spec in enumerate(self.specs):
                if spec.module == module:
                    lines += self.lines(i, spec)
            result[TEXT[module]] = '\n'.join(lines) + '\n'
        return result

    def lines(self, i, spec):
        module = spec.module
        bases = [self.text(module, ('sub', (A, j), *args) if args else (A, j))
                 for j, args in spec.bases]
        if spec.declared is not None:
            joined = ', '.join(self.text(module, (T, v)) for v in spec.declared)
            bases.append(f'{"Protocol" if spec.protocol else "Generic"}[{joined}]')
        arguments = ''.join(f', p{k}: {self.text(module, use)}'
                            for k, use in enumerate(self.annotations(i)))
        lines = [f'class {self.classes[i]}({", ".join(bases)}):']
        for j, extra in enumerate(spec.extras):
            name = self.extra[i, j]
            lines += {'class': [f'    class {name}:', f'        def inner(self): ...'],
                      'alias': [],
                      'type': [f'    {name} = sxp.{self.external[0]}'],
                      'value': [f'    {name}: {self.text(module, spec.uses[0])}']}[extra]
        lines.append(f'    def {self.members[i]}(self{arguments}) -> None: ...')
        # names of a class are used after they are bound
        lines += [f'    {self.extra[i, j]} = {self.members[i]}'
                  for j, extra in enumerate(spec.extras) if extra == 'alias']
        if spec.outer is not None:
            lines = [f'class {self.outer[i]}:'] + indent(lines)
        return lines

    def annotations(self, i):
        spec = self.specs[i]
        return tuple((T, v) for v in self.parameters(i)) + tuple(spec.uses)

    def parameters(self, i):
        spec = self.specs[i]
        if spec.declared is not None:
            return tuple(spec.declared)
        return tuple(dict.fromkeys(variables(spec.bases)))

    # what it should mean
    def meaning(self, module, expression, table=None):
        """The expression with full paths of its names, type variables being substituted."""
        kind = expression[0]
        if kind == T:
            substitute = (table or {}).get(expression[1])
            if (module, expression[1]) in self.foreign:
                return substitute or ('path', P, (self.foreign[module, expression[1]],))
            return substitute or ('path', module, (self.variables[module, expression[1]],))
        if kind == N:
            return ('path', module, (self.imported[module, expression],))
        if kind == 'own':
            i, j = expression[1:]
            if self.specs[i].extras[j] == 'type':
                return ('path', P, (self.external[0],))
            _, module, path = self.meaning(module, (A, i))
            return ('path', module, path + (self.extra[i, j],))
        if kind in (X, 'mx'):
            return ('path', P, (self.external[expression[1]],))
        if kind == A:
            i = expression[1]
            path = (self.classes[i],)
            return ('path', self.specs[i].module,
                    ((self.outer[i],) if i in self.outer else ()) + path)
        if kind in ('sub', 'or', 'list'):
            return (kind,) + tuple(self.meaning(module, one, table) for one in expression[1:])
        return ('path', B, ('int',)) if kind == 'int' else expression

    def ancestors(self, i):
        """Classes in the order of resolution with what their type variables stand for."""
        made, numbers = {}, {}

        def make(j):
            if j not in made:
                bases = tuple(make(k) for k, _ in self.specs[j].bases)
                made[j] = type('K', bases, {'number': j})
            return made[j]

        order = [cls.number for cls in make(i).__mro__[:-1]]
        tables = {i: {}}
        for j in order:
            for k, args in self.specs[j].bases:
                values = [self.meaning(self.specs[j].module, arg, tables[j]) for arg in args]
                tables.setdefault(k, dict(zip(self.parameters(k), values)))
        return [(j, tables[j]) for j in order]

    def check(self, i):
        E = self.E
        texts = self.texts()
        for name, text in texts.items():
            E.show(name, text)
        order = E.select('order', [None, [M, R, B, ('typing',), P]])
        tables = world.parse(E, texts, order)
        arguments_ = tuple(tables[name] for name in ('definitions', 'references', 'submodules',
                                                     'superclasses'))
        asked = E.name('q', True)
        cls = ((self.outer[i],) if i in self.outer else ()) + (self.classes[i],)
        module = self.specs[i].module
        owner = None
        for j, table in self.ancestors(i):
            if self.oracle.same(asked, self.members[j]):
                owner = j, table, self.members[j]
                break
            found = [k for k in range(len(self.specs[j].extras))
                     if self.oracle.same(asked, self.extra[j, k])]
            if found:
                extra = self.specs[j].extras[found[0]]
                owner = j, table, (self.members[j] if extra == 'alias' else extra)
                break
        outcome, result = self.resolve(arguments_, module, (), cls + (asked,))
        E.show('asked', cls + (asked,))
        E.show('resolved', result)
        not_found = entry('paradigm._core.scoping', 'ObjectNotFound')
        if outcome == 'exc':
            E.check(z3.BoolVal(isinstance(result, not_found)),
                    f'resolving a member raises {type(result).__name__}')
            E.check(z3.BoolVal(owner is None), 'a member of a generic base is not found')
            return
        E.check(z3.BoolVal(owner is not None), 'a member nothing defines is found')
        j, table, member = owner
        kind = entry('paradigm._core.arboreal.kind', 'NodeKind')
        home, path = result
        if member == 'type':
            E.check(conj(same_path(E, home, P), same_path(E, path, (self.external[0],))),
                    'an alias in a generic class is something else')
            return
        actual_kind = tables['nodes_kinds'][home].get(path)
        if member == 'class':
            E.check(z3.BoolVal(actual_kind is kind.CLASS), 'a nested class is something else')
            outcome, result = self.resolve(arguments_, module, (), cls + (asked, 'inner'))
            E.check(z3.BoolVal(outcome == 'ret'), 'a member of a nested class is not found')
            return
        nodes = tables['raw_ast_nodes'][home].get(path) or []
        E.check(z3.BoolVal(len(nodes) == 1), 'a member has not one definition')
        function = entry('paradigm._core.arboreal.construction', 'from_raw')
        checked(function, nodes[0])
        outcome, node = E.call(lambda: function(nodes[0]))
        E.check(z3.BoolVal(outcome == 'ret'), 'a definition can not be read back')
        spec = self.specs[j]
        if member == 'value':
            E.check(z3.BoolVal(actual_kind is kind.ANNOTATED_ASSIGNMENT
                               and type(node) is ast.AnnAssign), 'a member has another sort')
            pairs = [(node.annotation, spec.uses[0])]
        else:
            E.check(z3.BoolVal(actual_kind is kind.FUNCTION and type(node) is ast.FunctionDef),
                    'a member has another sort')
            E.check(E.nx(node.name) == E.nx(member), 'a member has the definition of another')
            pairs = list(zip([arg.annotation for arg in node.args.args[1:]],
                             self.annotations(j)))
        E.show('definition', nodes[0])
        for actual, expression in pairs:
            expected = self.meaning(spec.module, expression, table)
            self.compare(arguments_, home, path[:-1], actual, expected)

    def resolve(self, arguments_, module, parent, path):
        function = entry('paradigm._core.scoping', 'resolve_object_path')
        checked(function, module, parent, path, *arguments_)
        return self.E.call(lambda: function(module, parent, path, *arguments_))

    def compare(self, arguments_, module, parent, node, expected):
        E, kind = self.E, expected[0]
        wrong = 'an annotation of an inherited member is not the substituted one'
        if kind == 'path':
            parts, left = [], node
            while type(left) is ast.Attribute:
                parts.append(left.attr)
                left = left.value
            E.check(z3.BoolVal(type(left) is ast.Name), wrong)
            path = (left.id, *parts[::-1])
            outcome, result = self.resolve(arguments_, module, parent, path)
            E.show('mentioned', (path, result))
            E.show('expected', expected)
            E.check(z3.BoolVal(outcome == 'ret'),
                    'a name in an annotation of an inherited member is not found')
            E.check(conj(same_path(E, result[0], expected[1]),
                         same_path(E, result[1], expected[2])), wrong)
            return
        if kind == 'sub':
            E.check(z3.BoolVal(type(node) is ast.Subscript), wrong)
            items = (node.slice.elts if type(node.slice) is ast.Tuple else [node.slice])
            children = [node.value] + list(items)
        elif kind == 'or':
            E.check(z3.BoolVal(type(node) is ast.BinOp and type(node.op) is ast.BitOr), wrong)
            children = [node.left, node.right]
        elif kind == 'list':
            E.check(z3.BoolVal(type(node) is ast.List), wrong)
            children = list(node.elts)
        else:
            value = {'none': None, 'dots': ..., 'str': expected[-1]}[kind]
            E.check(z3.BoolVal(type(node) is ast.Constant and node.value == value), wrong)
            return
        E.check(z3.BoolVal(len(children) == len(expected) - 1), wrong)
        for child, one in zip(children, expected[1:]):
            self.compare(arguments_, module, parent, child, one)


def variables(tree, sort=T):
    """Type variables mentioned, in order."""
    if type(tree) is tuple and tree and tree[0] == sort:
        return [tree[1]]
    if type(tree) in (tuple, list):
        return [v for one in tree for v in variables(one, sort)]
    return []


def externals(tree):
    if type(tree) is tuple and tree and tree[0] == X:
        return [tree[1]]
    if type(tree) in (tuple, list):
        return [v for one in tree for v in externals(one)]
    return []


def spec(module, bases=(), declared=None, **options):
    return Spec(module, tuple(bases), declared, **options)


T0, T1, X0, X1 = (T, 0), (T, 1), (X, 0), (X, 1)
LEAVES = [X0, X1, ('mx', 0), INT, NONE, T1]
ARGUMENTS = LEAVES + [('sub', X1, X0), ('sub', X1, X0, INT), ('or', X0, NONE), ('or', X0, T1),
                      ('sub', X1, ('sub', X0, X1), INT), ('sub', X1, ('sub', X0, X1, INT)),
                      ('sub', X0, ('list', X1, T1), NONE), ('str', 'x')]
USES = [T0, X0, INT, ('sub', X0, T0), ('sub', X0, T0, T1), ('or', T0, NONE),
        ('sub', X0, ('list', T0, X1), T1), ('sub', ('sub', X0, T0), T0), ('mx', 1)]


def single_cases(tier):
    homes = (M, R)
    result = [(home, (argument,), (use,), nested, extras)
              for home in homes for argument in ARGUMENTS for use in USES
              for nested in (False,) for extras in ((),)
              if T1 not in flat(use)]
    result += [(home, pair, (use,), False, ()) for home in homes
               for pair in itertools.product(LEAVES if tier == 'quick' else ARGUMENTS, repeat=2)
               for use in (('sub', X0, T0, T1), ('sub', X0, ('list', T0, X1), T1))]
    result += [(home, (argument,), (use,), nested, extras) for home in homes
               for argument in (X0, T1) for use in (T0, ('sub', X0, T0))
               for nested in (False, True)
               for extras in (('class',), ('alias',), ('value',), ('class', 'alias'))]
    result += [(home, (argument,), (T0,), True, ()) for home in homes for argument in ARGUMENTS]
    return result


def flat(tree, sorts=(T, X)):
    if type(tree) is tuple and tree and type(tree[0]) is str and tree[0] in sorts:
        return [tree]
    if type(tree) is tuple:
        return [one for part in tree for one in flat(part, sorts)]
    return []


def generic(module, count, uses=(), **options):
    return spec(module, (), tuple(range(count)), uses=tuple(uses), **options)


def tuples(case):
    return tuple(tuples(part) if type(part) in (list, tuple) else part for part in case)


@harness('C22', cases=single_cases,
         bounds='a generic class of one or two type variables with 9 sorts of annotations, '
                'specialised with 14 sorts of arguments in its module or another; nested '
                'classes, aliases and attributes in its body; all the names symbolic')
def single(E, case):
    home, arguments_, uses, nested, extras = tuples(case)
    specs = [generic(home, len(arguments_), uses, outer=0 if nested else None, extras=extras),
             spec(M, [(0, arguments_)])]
    Generics(E, specs).check(1)


S0, S01 = ('sub', X0, T0), ('sub', X0, T0, T1)


def programs(tier):
    """Named programs: (specs, index of the class asked)."""
    few = [X0, T1, ('sub', X1, X0), ('or', X0, NONE)]
    first = [T0, ('sub', X1, T0), ('or', T0, X1), INT] + ([] if tier == 'quick' else [
        ('sub', X1, T0, T0), ('sub', X1, ('list', T0), X0), ('sub', ('sub', X1, T0), INT)])
    result = []

    def add(name, *specs, kinds=(), asked=None):
        result.append((name, specs, kinds, len(specs) - 1 if asked is None else asked))

    for homes in itertools.product((M, R), repeat=2):
        for args in few:
            for inner in first:
                # the middle class passes its variable on
                add('chain', generic(homes[0], 1, [S0]),
                    spec(homes[1], [(0, (inner,))], (0,), uses=[S0]),
                    spec(M, [(1, (args,))]))
        for inner in ((T1, T0), (T0, T0), (('sub', X0, T1), T0)):
            for args in ((X0, X1), (X1, T0)):
                # swapped variables, declared or not
                add('swap', generic(homes[0], 2, [S01]), spec(homes[1], [(0, inner)], (0, 1),
                                                              uses=[S01]),
                    spec(M, [(1, args)]))
                add('implied', generic(homes[0], 2, [S01]), spec(homes[1], [(0, inner)], None,
                                                                 uses=[S01]),
                    spec(M, [(1, args if inner != (T0, T0) else args[:1])]))
        # classes of two generics, with the order of variables declared otherwise
        for declared in (None, (0, 1), (1, 0)):
            for protocol in (False, True):
                if protocol and declared is None:
                    continue
                add('two', generic(homes[0], 1, [S0]), generic(homes[1], 1, [S0]),
                    spec(homes[0], [(0, (T1,)), (1, (T0,))], declared, uses=[S01],
                         protocol=protocol),
                    spec(M, [(2, (X0, X1))]))
        # variables inside of unions and lists
        for args in ((('or', T1, T0),), (('sub', X0, ('list', T1), T0),),
                     (('sub', X0, T1, ('or', T0, NONE)),)):
            add('inside', generic(homes[0], 1, [S0]),
                spec(homes[1], [(0, args)], None, uses=[S01]), spec(M, [(1, (X0, X1))]))
        # two classes with specialisations of the same generic
        for a, b in itertools.product([X0, X1, ('sub', X0, X1), T1], repeat=2):
            for asked in (1, 2):
                add('twice', generic(homes[0], 1, [S0]), spec(M, [(0, (a,))]),
                    spec(homes[1], [(0, (b,))]), asked=asked)
        # generics with perhaps the same name, in different modules
        for a, b in ((X0, X0), (X0, X1)):
            for asked in (2, 3):
                add('homonyms', generic(M, 1, [T0]), generic(R, 1, [S0]),
                    spec(homes[0], [(0, (a,))]), spec(homes[1], [(1, (b,))]), asked=asked)
        # ambiguous spellings
        for a, b in (((('sub', X0, X1), X0), (('sub', X0, X1, X0),)),
                     ((X0, X1), (('sub', X0, X1),))):
            add('spelling', generic(homes[0], len(a), [T0]), generic(homes[1], len(b), [S0]),
                spec(M, [(0, a)]), spec(M, [(1, b)]), asked=2)
            add('spelling', generic(homes[0], len(a), [T0]), generic(homes[1], len(b), [S0]),
                spec(M, [(0, a)]), spec(M, [(1, b)]), asked=3)
        # diamond
        for args in few:
            add('diamond', generic(homes[0], 1, [S0]),
                spec(homes[0], [(0, (T0,))], (0,), uses=[T0]),
                spec(homes[1], [(0, (T0,))], (0,), uses=[S0]),
                spec(M, [(1, (args,)), (2, (args,))]))
            add('specialised diamond', generic(homes[0], 1, [S0]),
                spec(homes[1], [(0, (T0,))], (0,), uses=[T0]),
                spec(M, [(1, (args,)), (0, (args,))]))
        # a generic of plain bases, also nested ones
        for outer in (None, 0):
            add('plain', spec(homes[0], uses=[X0], outer=outer),
                spec(homes[0], [(0, ())], (0,), uses=[S0], outer=outer),
                spec(homes[1], [(1, (X1,))]))
            add('plain child', generic(homes[0], 1, [S0], outer=outer),
                spec(homes[1], [(0, (X0,))], uses=[X1]), spec(M, [(1, ())]))
        # a generic applied to itself
        add('itself', generic(homes[0], 1, [S0]),
            spec(homes[1], [(0, (('sub', (A, 0), X0),))]))
        add('itself', generic(homes[0], 1, [('sub', (A, 0), T0)]), spec(homes[1], [(0, (X0,))]))
        # a class given to its own base
        add('recursive', generic(homes[0], 1, [S0]), spec(homes[1], [(0, ((A, 1),))]))
        add('used twice', generic(homes[0], 1, [S0]),
            spec(homes[1], [(0, (('sub', X0, X1),))], uses=[('sub', (A, 0), X0)]))
        # without arguments
        add('bare', generic(homes[0], 1, [S0]), spec(homes[1], [(0, ())]))
        # parameter specifications
        for a, b in (((('list', X0, X1), X1), ()), ((('dots',), X0), ())):
            add('parameters', generic(homes[0], 2, [('sub', X0, T0, T1)]),
                spec(homes[1], [(0, a)]), kinds=(((homes[0], 0), 'ParamSpec'),))
        add('parameters', generic(homes[0], 2, [('sub', X0, T0, T1)]),
            spec(homes[1], [(0, (T0, T1))], None, uses=[S01]),
            spec(M, [(1, (T1, X1))]),
            kinds=tuple(((home, 0), 'ParamSpec') for home in homes) + (((M, 1), 'ParamSpec'),)
            if homes[1] == R else tuple(((home, 0), 'ParamSpec') for home in homes))
        # names that are not type variables do not count
        N0, N1 = (N, 0), (N, 1)
        for plain in PLAIN:
            kinds = {(home, (N, i)): plain for home in (M, R) for i in range(2)}.items()
            add('not a variable', generic(homes[0], 1, [S0]),
                spec(homes[1], [(0, (N0,))], uses=[X1]), spec(M, [(1, ())]), kinds=kinds)
            add('not a variable', generic(homes[0], 2, [S01]),
                spec(homes[1], [(0, (N0, T0))], uses=[S0]), spec(M, [(1, (X1,))]), kinds=kinds)
            add('not a variable', generic(homes[0], 2, [S01]),
                spec(M, [(0, (('sub', X1, N0, N1), ('or', N0, NONE)))]), kinds=kinds)
        # type variables made in different manners
        for made in MADE:
            kinds = {(home, 0): made for home in (M, R)}.items()
            add('made', generic(homes[0], 1, [S0]), spec(homes[1], [(0, (T0,))], uses=[S0]),
                spec(M, [(1, (X1,))]), kinds=kinds)
            add('made', generic(homes[0], 2, [S01]), spec(homes[1], [(0, (T1, T0))], (0, 1)),
                spec(M, [(1, (X1, T0))]), kinds=kinds)
        # members that mention others of the same class
        for extra in ('class', 'type'):
            for free in (False, True):
                add('own', generic(homes[0], 1, [('own', 0, 0), ('sub', ('own', 0, 0), T0), X0],
                                   extras=(extra,), free=free),
                    spec(homes[0], uses=[X1]), spec(homes[1], [(0, (X1,))]))
            add('own value', generic(homes[0], 1, [('sub', ('own', 0, 0), T0)],
                                     extras=(extra, 'value')), spec(homes[1], [(0, (X0,))]))
            add('own of base', generic(homes[0], 1, [('own', 0, 0)], extras=(extra,), free=True),
                generic(homes[1], 1, [S0], free=True),
                spec(M, [(0, (X0,)), (1, (X1,))], uses=[X1], free=True))
    if tier != 'quick':
        for homes in itertools.product((M, R), repeat=3):
            for args in few:
                for inner in first:
                    for middle in first:
                        add('long chain', generic(homes[0], 1, [S0]),
                            spec(homes[1], [(0, (inner,))], (0,), uses=[S0]),
                            spec(homes[2], [(1, (middle,))], (0,), uses=[T0]),
                            spec(M, [(2, (args,))]))
    return result


def program_cases(tier):
    return [(tier, i, program[0]) for i, program in enumerate(programs(tier))]


_PROGRAMS = {}


@harness('C22', cases=program_cases, weight=lambda c: 3,
         bounds='hierarchies of up to 4 classes in two modules: chains, diamonds, several '
                'specialisations of a generic, homonymous generics, declared and implied order '
                'of variables, nested generics, parameter specifications, generics applied to '
                'themselves; all the names symbolic and possibly equal in different modules')
def hierarchies(E, case):
    tier, number, _ = case
    if tier not in _PROGRAMS:
        _PROGRAMS[tier] = programs(tier)
    _, specs, kinds, asked = _PROGRAMS[tier][number]
    Generics(E, list(specs), kinds).check(asked)
