"""C21: what the stub parser records of the statements of a module."""
import itertools
import re

import z3

from .. import world
from ..lib import *
from ..registry import harness
from .resolution import B, P, Q, R, S1, Tables, same_path

M = ('sxm',)
DEFINED = ('def', 'async', 'class', 'annotated', 'annotated value', 'assigned', 'assigned twice')
REFERRED = ('alias', 'annotated alias', 'attribute alias', 'builtin alias', 'from', 'from as',
            'import as', 'import', 'import dotted', 'alias twice', 'from two', 'import two')
OTHER = ('star', 'expression', 'augmented')
KINDS = DEFINED + REFERRED + OTHER
IN_CLASS = tuple(kind for kind in KINDS if kind not in ('star', 'import', 'import dotted',
                                                        'import two'))
SORTS = {'def': 'FUNCTION', 'async': 'ASYNC_FUNCTION', 'class': 'CLASS',
         'annotated': 'ANNOTATED_ASSIGNMENT', 'annotated value': 'ANNOTATED_ASSIGNMENT',
         'assigned': 'ASSIGNMENT', 'assigned twice': 'ASSIGNMENT'}
WRAPPERS = {'': None,
            'then': ('if sys.version_info >= (3,):', '{}', None),
            'not then': ('if sys.version_info < (3,):', '{}', None),
            'else': ('if sys.version_info < (3,):', 'x_: 1', '{}'),
            'not else': ('if sys.version_info >= (3,):', None, '{}'),
            'platform': ('if sys.platform != "sx" and not (sys.version_info < (3, 5, 2)):', '{}',
                         None)}
ACTIVE = ('', 'then', 'else', 'platform')


class Statement:
    def __init__(self, E, tag, kind, marker, body=(), wrapper=''):
        self.E, self.kind, self.marker, self.body, self.wrapper = E, kind, marker, body, wrapper
        self.active = wrapper in ACTIVE
        self.name = E.name('a' + tag, True)
        self.second = (E.name('b' + tag, True)
                       if kind in ('assigned twice', 'alias', 'annotated alias',
                                   'attribute alias', 'from', 'from as', 'alias twice', 'from two')
                       else None)
        self.third = (E.name('c' + tag, True)
                      if kind in ('attribute alias', 'alias twice', 'from two') else None)

    def lines(self):
        n, s, m = self.name, self.second, self.marker
        lines = {
            'def': lambda: [f'def {n}() -> {m}: ...'],
            'async': lambda: [f'async def {n}() -> {m}: ...'],
            'class': lambda: [f'class {n}:'] + indent(
                    [line for child in self.body for line in child.lines()] or ['...']),
            'annotated': lambda: [f'{n}: {m}'],
            'annotated value': lambda: [f'{n}: {m} = 0'],
            'assigned': lambda: [f'{n} = {m}'],
            'assigned twice': lambda: [f'{n} = {s} = {m}'],
            'alias': lambda: [f'{n} = {s}'],
            'annotated alias': lambda: [f'{n}: int = {s}'],
            'attribute alias': lambda: [f'{n} = {s}.{self.third}'],
            'builtin alias': lambda: [f'{n} = int'],
            'from': lambda: [f'from sxr import {s}'],
            'from as': lambda: [f'from sxr import {s} as {n}'],
            'import as': lambda: [f'import sxp.sxq as {n}'],
            'import': lambda: ['import sxr'],
            'import dotted': lambda: ['import sxp.sxq'],
            'alias twice': lambda: [f'{n} = {self.third} = {s}'],
            'from two': lambda: [f'from sxr import {s}, {self.third} as {n}'],
            'import two': lambda: [f'import sxr, sxp.sxq as {n}'],
            'star': lambda: ['from sxs import *'],
            'expression': lambda: [f'"{n}"'],
            'augmented': lambda: ['__all__ += []'],
        }[self.kind]()
        if not self.wrapper:
            return lines
        test, then, other = WRAPPERS[self.wrapper]
        result = [test] + indent(lines if then == '{}' else [then or '...'])
        return result + (['else:'] + indent(lines) if other else [])

    def bound(self):
        """Names the statement binds."""
        if self.kind in ('import', 'import dotted') or self.kind in OTHER:
            return []
        if self.kind == 'from':
            return [self.second]
        return [self.name] + ([self.second] if self.kind in ('assigned twice', 'from two') else
                              [self.third] if self.kind == 'alias twice' else [])


def indent(lines):
    return ['    ' + line for line in lines]


TESTS = {True: 'sys.version_info >= (3,)', False: 'sys.version_info < (3,)'}


class Branches:
    """An if statement with any statements in its branches."""

    def __init__(self, truth, then, other):
        self.truth, self.then, self.other = truth, then, other

    def lines(self, keyword='if'):
        result = [f'{keyword} {TESTS[self.truth]}:'] + indent(
                [line for child in self.then for line in child.lines()] or ['...'])
        if len(self.other) == 1 and isinstance(self.other[0], Branches):
            return result + self.other[0].lines('elif')
        return result + (['else:'] + indent([line for child in self.other
                                             for line in child.lines()]) if self.other else [])


def flat(statements):
    """The statements that are active."""
    result = []
    for statement in statements:
        if isinstance(statement, Branches):
            result += flat(statement.then if statement.truth else statement.other)
        elif statement.active:
            result.append(statement)
    return result


class Program:
    def __init__(self, E, statements):
        self.E, self.statements = E, statements
        self.oracle = Tables(E)
        self.oracle.scopes[B][0] = ('object', [('__init__', []), ('__new__', [])])
        self.oracle.scopes[B] += [(name, []) for name in ('type', 'int', 'str', 'staticmethod',
                                                          'classmethod', 'property')]
        self.oracle.add(M, S1, R, P, Q)
        self.external = {}
        for path in (S1, R, P, Q):
            name = E.name('ext' + path[-1], True)
            self.oracle.define(path, name)
            self.external[path] = name
        self.sorts, self.nodes, self.stars = [], [], []
        self.run(statements, ())

    def texts(self):
        lines = ['import sys'] + [line for statement in self.statements
                                  for line in statement.lines()]
        return {'sxm': '\n'.join(lines) + '\n',
                'sys': 'version_info: object\nplatform: str\n',
                'sxs': f'def {self.external[S1]}(): ...\n',
                'sxr': f'def {self.external[R]}(): ...\n',
                'sxp.__init__': f'def {self.external[P]}(): ...\n',
                'sxp.sxq': f'def {self.external[Q]}(): ...\n'}

    def declare(self, parent, name):
        scope = self.oracle.scope(M, parent)
        found = self.oracle.lookup(scope, name)
        if found is None:
            scope.append((name, []))
            return name
        return found[0]

    def run(self, statements, parent):
        E, oracle = self.E, self.oracle
        active = flat(statements)
        for statement in active:
            if statement.kind in ('alias twice', 'from two', 'assigned twice'):
                a, b = statement.bound()
                E.assume(z3.Or(E.nx(a) != E.nx(b), z3.BoolVal(statement.kind == 'assigned twice')))
        for i, one in enumerate(active):
            for other in active[:i]:
                if (one.kind in REFERRED or other.kind in REFERRED or 'class' in (one.kind,
                                                                                  other.kind)):
                    # a name is bound by imports and aliases once, and to one class
                    for a, b in itertools.product(one.bound(), other.bound()):
                        E.assume(E.nx(a) != E.nx(b))
        if not parent:
            for statement in active:
                if any(other.kind == 'star' for other in active):
                    for name in statement.bound():
                        E.assume(E.nx(name) != E.nx(self.external[S1]))
        for i, statement in enumerate(active):
            kind = statement.kind
            if kind in DEFINED:
                names = [self.declare(parent, name) for name in statement.bound()]
                for name in names:
                    self.sorts.append((parent + (name,), SORTS[kind]))
                    if kind != 'class':
                        self.nodes.append((parent + (name,), statement.marker))
                if kind == 'class':
                    self.run(statement.body, parent + tuple(names))
            elif kind == 'star':
                self.stars.append(S1)
                oracle.stars[M].append(S1)
            elif kind == 'import':
                oracle.references[M].append((('sxr',), (R, ())))
            elif kind == 'import dotted':
                oracle.references[M] += [(P, (P, ())), (Q, (Q, ()))]
            elif kind == 'import two':
                oracle.references[M] += [(('sxr',), (R, ())), ((statement.name,), (Q, ()))]
            elif kind == 'from two':
                oracle.references[M] += [
                    (parent + (statement.second,), (R, (statement.second,))),
                    (parent + (statement.name,), (R, (statement.third,)))]
            elif kind in REFERRED:
                key = parent + (statement.second if kind == 'from' else statement.name,)
                if kind in ('from', 'from as'):
                    target = R, (statement.second,)
                elif kind == 'import as':
                    target = Q, ()
                elif kind == 'builtin alias':
                    target = B, ('int',)
                else:
                    named = (statement.second,) + ((statement.third,) if kind == 'attribute alias'
                                                   else ())
                    target = self.named(active, i, parent, named)
                if kind == 'alias twice':
                    oracle.references[M].append((parent + (statement.third,), target))
                oracle.references[M].append((key, target))

    def named(self, active, i, parent, named):
        """What a name in the value of an alias stands for."""
        E = self.E
        if not parent:
            return M, named
        for later in active[i:]:
            # names of a class are used after they are bound
            for name in later.bound():
                E.assume(E.nx(name) != E.nx(named[0]))
        for statement in active[:i]:
            if any(self.oracle.same(name, named[0]) for name in statement.bound()):
                return M, parent + named
        return M, named


def same_names(oracle, actual, expected):
    return len(actual) == len(expected) and all(map(oracle.same, actual, expected))


def find_path(oracle, table, path):
    return next((value for key, value in table.items() if same_names(oracle, key, path)), None)


def check_scope(E, oracle, actual, expected, path=()):
    E.check(z3.BoolVal(len(actual) == len(expected)),
            'a scope holds names no active statement defines, or lacks some')
    for name, inner in expected:
        found = [key for key in actual if oracle.same(key, name)]
        E.check(z3.BoolVal(len(found) == 1), 'a defined name is not in its scope')
        check_scope(E, oracle, actual[found[0]], inner, path + (name,))


MARKER = re.compile(r'\b77\d\d\d\b')


def check_program(E, program, queries):
    texts = program.texts()
    E.show('source', texts['sxm'])
    order = E.select('order', [None, [M, B, ('typing',), S1, R, P, Q, ('sys',)]])
    tables = world.parse(E, texts, order)
    oracle = program.oracle
    definitions = tables['definitions'].get(M, {})
    E.show('definitions', definitions)
    E.show('references', tables['references'].get(M))
    check_scope(E, oracle, definitions, oracle.scopes[M])
    sorts = tables['nodes_kinds'].get(M, {})
    kind = entry('paradigm._core.arboreal.kind', 'NodeKind')
    expected = {}
    for path, sort in program.sorts:
        expected.setdefault(tuple(map(str, path)), (path, []))[1].append(sort)
    E.check(z3.BoolVal(len(sorts) == len(expected)), 'a name has no sort, or one too many')
    for path, names in expected.values():
        sort = find_path(oracle, sorts, path)
        E.check(z3.BoolVal(sort is getattr(kind, names[-1])), 'a name has the wrong sort')
    nodes = {path: value for path, value in tables['raw_ast_nodes'].get(M, {}).items() if value}
    expected = {}
    for path, marker in program.nodes:
        expected.setdefault(tuple(map(str, path)), (path, []))[1].append(marker)
    E.check(z3.BoolVal(len(nodes) == len(expected)),
            'definitions of a name are missing or made up')
    for path, markers in expected.values():
        found = find_path(oracle, nodes, path)
        E.check(z3.BoolVal(found is not None), 'definitions of a name are missing')
        E.check(z3.BoolVal([int(MARKER.search(str(node))[0]) for node in found
                            if MARKER.search(str(node))] == markers),
                'the definitions of a name are not those of the stub in order')
    stars = tables['submodules'].get(M, [])
    E.check(z3.BoolVal(list(stars) == program.stars), 'star imports are not those of the stub')
    function = entry('paradigm._core.scoping', 'resolve_object_path')
    not_found = entry('paradigm._core.scoping', 'ObjectNotFound')
    for parent, names in queries:
        arguments_ = (M, parent, names, tables['definitions'], tables['references'],
                      tables['submodules'], tables['superclasses'])
        checked(function, *arguments_)
        answer = oracle.resolve(M, parent, names)
        E.show('query', (parent, names))
        E.show('expected', answer)
        outcome, result = E.call(lambda: function(*arguments_))
        E.show('actual', result)
        if outcome == 'exc':
            E.check(z3.BoolVal(isinstance(result, not_found)),
                    f'resolving a name raises {type(result).__name__}')
            E.check(z3.BoolVal(answer is None), 'a name bound in a stub is not found')
        else:
            E.check(z3.BoolVal(answer is not None), 'a name nothing binds is found')
            E.check(conj(same_path(E, result[0], answer[0]), same_path(E, result[1], answer[1])),
                    'a name of a stub means something else than it should')


def statements(E, tag, kinds, offset=0):
    result = []
    for i, kind in enumerate(kinds):
        kind, wrapper = kind if isinstance(kind, tuple) else (kind, '')
        result.append(Statement(E, f'{tag}{i}', kind, 77000 + offset + i, (), wrapper))
    return result


def module_queries(E, kinds, limit):
    """Each name bound is asked for by a symbolic name."""
    queries = [((), (E.name('q', True),))]
    if 'import' in kinds or 'import two' in kinds:
        queries.append(((), ('sxr', E.name('qr', True))))
    if 'import dotted' in kinds:
        queries.append(((), ('sxp', 'sxq', E.name('qp', True))))
        queries.append(((), ('sxp', E.name('qo', True))))
    return queries[:limit]


def module_cases(tier):
    result = [(kind,) for kind in KINDS] + list(itertools.product(KINDS, repeat=2))
    short = [k for k in KINDS if k not in ('annotated alias', 'import as', 'augmented',
                                           'expression', 'annotated value')]
    if tier == 'quick':
        few = ['def', 'assigned', 'alias', 'from as', 'star', 'class']
        result += list(itertools.product(few, repeat=3))
    else:
        result += list(itertools.product(short, repeat=3))
    return result


@harness('C21', cases=module_cases, weight=len,
         bounds='modules of up to 2 statements of 22 sorts (thorough: 3 of 17 sorts; quick: 3 of '
                '6) with symbolic names, in either order of parsing')
def modules(E, case):
    program = Program(E, statements(E, 's', case))
    check_program(E, program, module_queries(E, case, 3))


def class_cases(tier):
    size = 2 if tier == 'quick' else 3
    few = ['def', 'annotated', 'alias', 'from as', 'attribute alias', 'class']
    fewer = ['def', 'alias', 'from as', 'class']
    result = []
    for outer in (None, 'def', 'class', 'from', 'star', 'alias'):
        for late in ((False, True) if outer else (False,)):
            result += [(outer, late, 1, (kind,)) for kind in IN_CLASS]
            result += [(outer, late, 1, inner) for inner in itertools.product(
                    few if tier != 'quick' or not outer else fewer, repeat=2)
                       if tier != 'quick' or not late or 'alias' in inner]
            if tier != 'quick':
                result += [(outer, late, 1, inner)
                           for inner in itertools.product(IN_CLASS, repeat=2)]
            result += [(outer, late, 2, (kind,)) for kind in few]
    return list(dict.fromkeys(result))


@harness('C21', cases=class_cases, weight=lambda c: len(c[3]) * c[2],
         bounds='a class with up to two members (also inside another class), before or after '
                'another statement of the module, symbolic names')
def classes(E, case):
    outer, late, depth, inner = case
    body = statements(E, 'i', inner, 50)
    parent = ()
    for level in range(depth):
        statement = Statement(E, f'k{level}', 'class', 77090 + level, body)
        body = [statement]
    name, node = [], statement
    for level in range(depth):
        name.append(node.name)
        node = node.body[0] if level + 1 < depth else None
    name = tuple(name)
    around = statements(E, 'o', [outer] if outer else [])
    everything = body + around if late else around + body
    program = Program(E, everything)
    last = E.name('q', True)
    queries = [((), name + (last,)), (name, (last,)), ((), (last,))]
    query = queries[E.select('asked', [0, 1, 2])]
    check_program(E, program, [query])


def conditional_cases(tier):
    wrappers = [w for w in WRAPPERS if w]
    result = [('module', ((kind, wrapper),)) for kind in KINDS for wrapper in wrappers]
    result += [('class', ((kind, wrapper),)) for kind in IN_CLASS for wrapper in wrappers]
    few = ['def', 'annotated', 'alias', 'from as', 'star']
    pairs = [(a, b) for a in wrappers for b in wrappers]
    if tier == 'quick':
        pairs = [('then', 'not then'), ('not then', 'then'), ('else', 'not else'),
                 ('not else', 'else')]
    result += [('module', ((a, v), (b, w))) for a in few for b in few for v, w in pairs]
    return result


@harness('C21', cases=conditional_cases,
         bounds='statements in taken and not taken branches of if statements on version and '
                'platform, in modules and classes')
def conditionals(E, case):
    where, kinds_ = case
    inner = statements(E, 's', kinds_)
    asked = E.name('q', True)
    if where == 'module':
        check_program(E, Program(E, inner), [((), (asked,))])
    else:
        holder = Statement(E, 'k', 'class', 77090, inner)
        check_program(E, Program(E, [holder]), [((), (holder.name, asked))])


SHAPES = {
    'then two': (lambda a, b: [Branches(True, [a, b], [])]),
    'not then two': (lambda a, b: [Branches(False, [a, b], [])]),
    'else two': (lambda a, b: [Branches(False, [], [a, b])]),
    'not else two': (lambda a, b: [Branches(True, [], [a, b])]),
    'either': (lambda a, b: [Branches(True, [a], [b])]),
    'or': (lambda a, b: [Branches(False, [a], [b])]),
    'elif': (lambda a, b: [Branches(False, [a], [Branches(True, [b], [])])]),
    'not elif': (lambda a, b: [Branches(True, [a], [Branches(True, [b], [])])]),
    'elif else': (lambda a, b: [Branches(False, [], [Branches(False, [a], [b])])]),
    'nested': (lambda a, b: [Branches(True, [a, Branches(True, [b], [])], [])]),
    'nested not': (lambda a, b: [Branches(True, [a, Branches(False, [b], [])], [])]),
    'not nested': (lambda a, b: [Branches(False, [a, Branches(True, [b], [])], [])]),
    'nested else': (lambda a, b: [Branches(False, [a], [Branches(False, [], [b]), ])]),
    'beside': (lambda a, b: [Branches(True, [a], []), b]),
}


def branch_cases(tier):
    few = ['def', 'annotated', 'alias', 'from as', 'class']
    kinds_ = few if tier == 'quick' else list(IN_CLASS)
    result = [(where, shape, (a, b)) for shape in SHAPES for a in kinds_ for b in kinds_
              for where in ('module', 'class') if tier != 'quick' or where == 'module' or a == b]
    result += [('module', shape, (a, b)) for shape in SHAPES
               for a, b in (('star', 'def'), ('def', 'star'))]
    return result


@harness('C21', cases=branch_cases,
         bounds='several statements in branches, elif, nested and subsequent if statements')
def branches(E, case):
    where, shape, kinds_ = case
    inner = SHAPES[shape](*statements(E, 's', kinds_))
    asked = E.name('q', True)
    if where == 'module':
        check_program(E, Program(E, inner), [((), (asked,))])
    else:
        holder = Statement(E, 'k', 'class', 77090, inner)
        check_program(E, Program(E, [holder]), [((), (holder.name, asked))])


BASES = ('name', 'other', 'nested', 'from', 'module', 'dotted', 'alias', 'star', 'builtin',
         'Generic', 'Protocol', 'Protocol[]', 'typing.Generic', 'typing class', 'like Protocol',
         'like Generic', 'like NamedTuple', 'bare typing')


def base_cases(tier):
    few = ['name', 'other', 'from', 'star', 'Generic', 'Protocol', 'Protocol[]']
    result = [(depth, late, (a,)) for depth in (0, 1) for late in (False, True) for a in BASES]
    result += [(0, False, pair) for pair in itertools.product(BASES, repeat=2)]
    result += [(1, late, pair) for late in (False, True)
               for pair in itertools.product(few, repeat=2)]
    result += [(0, True, pair) for pair in itertools.product(few, repeat=2)]
    if tier != 'quick':
        result += [(1, late, pair) for late in (False, True)
                   for pair in itertools.product(BASES, repeat=2)]
        result += [(0, late, three) for late in (False, True)
                   for three in itertools.product(few, repeat=3)]
    return list(dict.fromkeys(result))


@harness('C21', cases=base_cases, weight=lambda c: len(c[2]),
         bounds='classes of up to 2 bases (thorough: 3) of 18 sorts (in the module, nested, '
                'imported, through modules, aliases, stars, builtins, Generic and Protocol), '
                'defined before or after, all the names symbolic')
def bases(E, case):
    depth, late, kinds_ = case
    oracle = Tables(E)
    oracle.scopes[B] += [(name, []) for name in ('type', 'int', 'str')]
    oracle.add(M, S1, R, P, Q)
    names = {tag: E.name(tag, True) for tag in ('k', 'j', 'kn', 'f', 'r', 'l', 's', 'q')}
    for a, b in itertools.combinations(('k', 'j', 'l', 'f', 's'), 2):
        E.assume(E.nx(names[a]) != E.nx(names[b]))
    n = names
    child = E.name('d', True)
    # name
    expected, texts = [], []
    for i, kind in enumerate(kinds_):
        texts.append({'name': f'{n["k"]}', 'other': f'{n["j"]}', 'nested': f'{n["k"]}.{n["kn"]}',
                      'from': f'{n["f"]}', 'module': f'sxr.{n["r"]}',
                      'dotted': f'sxp.sxq.{n["q"]}', 'alias': f'{n["l"]}', 'star': f'{n["s"]}',
                      'builtin': 'int', 'Generic': 'Generic[T]', 'Protocol': 'Protocol',
                      'Protocol[]': 'Protocol[T]', 'typing.Generic': 'typing.Generic[T]',
                      'typing class': 'typing.TypeVar', 'like Protocol': 'sxr.Protocol',
                      'like Generic': 'sxr.Generic', 'like NamedTuple': 'sxr.NamedTuple',
                      'bare typing': 'TypeVar'}[kind])
        target = {'name': (M, (n['k'],)), 'other': (M, (n['j'],)),
                  'nested': (M, (n['k'], n['kn'])), 'from': (R, (n['f'],)),
                  'module': (R, (n['r'],)), 'dotted': (Q, (n['q'],)), 'alias': (M, (n['k'],)),
                  'star': (S1, (n['s'],)), 'builtin': (B, ('int',)),
                  'typing class': (('typing',), ('TypeVar',)),
                  'bare typing': (('typing',), ('TypeVar',)),
                  'like Protocol': (R, ('Protocol',)), 'like Generic': (R, ('Generic',)),
                  'like NamedTuple': (R, ('NamedTuple',))}.get(kind)
        if target is not None:
            expected.append(target)
    if depth == 0:
        for tag in ('k', 'j', 'l', 'f', 's'):
            E.assume(E.nx(child) != E.nx(names[tag]))
    # the same names are bound in the body of the outer class as well, perhaps
    lines = [f'class {child}({", ".join(texts)}):', f'    def {E.name("m", True)}(self): ...']
    shadow = None
    if depth:
        inner = E.name('in', True)
        E.assume(E.nx(inner) != E.nx(child))
        outer = E.name('o', True)
        for tag in ('k', 'j', 'l', 'f', 's'):
            E.assume(E.nx(outer) != E.nx(names[tag]))
            E.assume(E.nx(child) != E.nx(names[tag]))
        lines = [f'class {outer}:', f'    class {inner}:', '        ...'] + indent(lines)
        shadow = inner
        path = outer, child
        for i, (where, parts) in enumerate(expected):
            local = {'name': 'k', 'other': 'j', 'nested': 'k', 'from': 'f', 'alias': 'l',
                     'star': 's'}.get([kind for kind in kinds_ if kind not in
                                       ('Generic', 'Protocol', 'Protocol[]',
                                        'typing.Generic')][i])
            if local and oracle.same(inner, names[local]):
                # the class nearby, which has no attributes
                E.assume(z3.BoolVal(not (where == M and len(parts) == 2)))
                expected[i] = M, (outer, inner)
    else:
        path = child,
    defined = [f'class {n["k"]}:', f'    class {n["kn"]}:', '        ...',
               f'class {n["j"]}:', '    ...', f'{n["l"]} = {n["k"]}']
    head = ['import typing', 'from typing import Generic, Protocol, TypeVar',
            'T = TypeVar("T")', 'import sxr', 'import sxp.sxq', f'from sxr import {n["f"]}',
            'from sxs import *']
    text = '\n'.join(head + (lines + defined if late else defined + lines)) + '\n'
    for i, one in enumerate(expected):
        for other in expected[:i]:
            # a base is given once
            E.assume(z3.BoolVal(not (one[0] == other[0] and same_names(oracle, one[1],
                                                                       other[1]))))
    E.show('source', text)
    r = names['r']
    texts = {'sxm': text, 'sxs': f'class {n["s"]}:\n    ...\n',
             'sxr': 'class Protocol: ...\nclass Generic: ...\nclass NamedTuple: ...\n'
             f'class {n["f"]}:\n    ...\n' + ('' if oracle.same(n['f'], r) else
                                                     f'class {r}:\n    ...\n'),
             'sxp.__init__': '', 'sxp.sxq': f'class {n["q"]}:\n    ...\n'}
    order = E.select('order', [None, [M, B, ('typing',), S1, R, P, Q]])
    tables = world.parse(E, texts, order)
    found = find_path(oracle, tables['superclasses'].get(M, {}), path) or []
    E.show('expected', expected)
    E.show('actual', found)
    E.check(z3.BoolVal(len(found) == len(expected)), 'a class has not the bases of its stub')
    for one, other in zip(found, expected):
        E.check(conj(same_path(E, one[0], other[0]), same_path(E, one[1], other[1])),
                'a base of a class is another one than in its stub')


FIELDS = ('field', 'default', 'method', 'class', 'alias')


def tuple_cases(tier):
    size = 3 if tier == 'quick' else 4
    return [(spelling, nested, fields) for spelling in ('name', 'module', 'alias')
            for nested in (False, True)
            for k in range(size + 1) for fields in itertools.product(FIELDS, repeat=k)
            if 'default' not in fields
            or 'field' not in fields[fields.index('default'):]]


@harness('C21', cases=tuple_cases,
         bounds='named tuples of up to 3 statements (thorough: 4) of 5 sorts with symbolic names')
def named_tuples(E, case):
    spelling, nested, kinds_ = case
    oracle = Tables(E)
    name = E.name('n', True)
    body, fields = [], []
    names = []
    for i, kind in enumerate(kinds_):
        one = E.name(f'f{i}', True)
        for other in names:
            E.assume(E.nx(one) != E.nx(other))
        names.append(one)
        if kind in ('field', 'default'):
            fields.append((one, 77100 + i, 78100 + i if kind == 'default' else None))
        body += {'field': [f'{one}: {77100 + i}'], 'default': [f'{one}: {77100 + i} = {78100 + i}'],
                 'method': [f'def {one}(self, x: {77100 + i}): ...'],
                 'class': [f'class {one}:', f'    {E.name(f"g{i}", True)}: {77100 + i}'],
                 'alias': [f'{one} = {77100 + i}']}[kind]
    head, base = {'name': ('from typing import NamedTuple', 'NamedTuple'),
                  'module': ('import typing', 'typing.NamedTuple'),
                  'alias': ('from typing import NamedTuple as Sxt', 'Sxt')}[spelling]
    lines = [f'class {name}({base}):'] + indent(body or ['...'])
    path = (name,)
    if nested:
        outer = E.name('o', True)
        lines = [f'class {outer}:'] + indent(lines)
        path = outer, name
    text = '\n'.join([head] + lines) + '\n'
    E.show('source', text)
    tables = world.parse(E, {'sxm': text}, E.select('order', [None, [M, B, ('typing',)]]))
    found = find_path(oracle, tables['superclasses'].get(M, {}), path)
    E.check(z3.BoolVal(found == [(('typing',), ('NamedTuple',))]),
            'a named tuple has not the base of its stub')
    nodes = find_path(oracle, tables['raw_ast_nodes'].get(M, {}), path + ('__new__',))
    kind = entry('paradigm._core.arboreal.kind', 'NodeKind')
    E.check(z3.BoolVal(nodes is not None and len(nodes) == 1
                       and find_path(oracle, tables['nodes_kinds'][M], path + ('__new__',))
                       is kind.FUNCTION), 'a named tuple has no constructor')
    E.show('constructor', nodes[0])
    function = entry('paradigm._core.arboreal.construction', 'from_raw')
    checked(function, nodes[0])
    outcome, node = E.call(lambda: function(nodes[0]))
    if outcome == 'exc':
        E.fail(f'reading a constructor raises {type(node).__name__}')
    args = node.args
    E.check(z3.BoolVal(not (args.posonlyargs or args.kwonlyargs or args.vararg or args.kwarg)
                       and len(args.args) == len(fields) + 1),
            'the constructor of a named tuple has other parameters than its fields')
    for arg, (field, annotation, _) in zip(args.args[1:], fields):
        E.check(E.nx(arg.arg) == E.nx(field), 'a field of a named tuple has another name')
        E.check(z3.BoolVal(arg.annotation.value == annotation),
                'a field of a named tuple has another annotation')
    E.check(z3.BoolVal([default.value for default in args.defaults]
                       == [default for _, _, default in fields if default is not None]),
            'defaults of a named tuple are not those of its fields')
