"""C19: which definition a dotted name means (on symbol tables with symbolic names)."""
import itertools

import z3

from .. import world
from ..lib import *
from ..registry import harness
from .ancestry import graphs, real_classes

M, S1, S2, R, P, Q = ('sxm',), ('sxs',), ('sxt',), ('sxr',), ('sxp',), ('sxp', 'sxq')
B = ('builtins',)


class Tables:
    """Modules with what they bind; scopes are lists of (name, scope)."""

    def __init__(self, E):
        self.E = E
        self.scopes, self.stars, self.references, self.classes = {}, {}, {}, {}
        self.add(B)
        self.scopes[B].append(('object', [(self.fresh('oo'), [])]))
        self.count = 0

    def fresh(self, tag):
        return self.E.name(tag, True)

    def add(self, *paths):
        for path in paths:
            self.scopes[path], self.stars[path], self.references[path] = [], [], []
            self.classes[path] = []

    def same(self, a, b):
        if type(a) is str and type(b) is str:
            return a == b
        return self.E.decide(self.E.nx(a) == self.E.nx(b))

    def define(self, path, name, members=(), parent=()):
        """Binds a name in a scope where it is not bound yet."""
        scope = self.scope(path, parent)
        for other, _ in scope:
            self.E.assume(self.E.nx(name) != self.E.nx(other))
        scope.append((name, []))
        for member in members:
            self.define(path, member, (), parent + (name,))
        return path, parent + (name,)

    def refer(self, path, key, target):
        for other, _ in self.references[path]:
            if len(other) == len(key):
                self.E.assume(z3.Or([self.E.nx(a) != self.E.nx(b) for a, b in zip(key, other)]))
        self.references[path].append((key, target))

    def inherit(self, child, bases):
        self.classes[child[0]].append((child[1], list(bases)))

    def scope(self, path, parent):
        scope = self.scopes[path]
        for part in parent:
            scope = next(inner for name, inner in scope if name is part)
        return scope

    # what the code under test is given
    def arguments(self):
        def plain(scope):
            return {name: plain(inner) for name, inner in scope}

        return ({path: plain(scope) for path, scope in self.scopes.items()},
                {path: dict(references) for path, references in self.references.items()},
                {path: list(stars) for path, stars in self.stars.items() if stars},
                {path: {child: list(bases) for child, bases in classes}
                 for path, classes in self.classes.items() if classes})

    # what Python would say
    def lookup(self, scope, name):
        return next((pair for pair in scope if self.same(pair[0], name)), None)

    def bases(self, thing):
        for child, bases in self.classes[thing[0]]:
            if len(child) == len(thing[1]) and all(map(self.same, child, thing[1])):
                return bases
        return []

    def key(self, thing):
        """A stable identity of a definition: the position of its names."""
        positions, scope = [], self.scopes[thing[0]]
        for part in thing[1]:
            position = next(i for i, (name, _) in enumerate(scope) if self.same(name, part))
            positions.append(position)
            scope = scope[position][1]
        return thing[0], tuple(positions)

    def order(self, thing):
        """Method resolution order, without object."""
        made, things = {}, {}

        def make(thing):
            key = self.key(thing)
            if key not in made:
                things[key] = thing
                made[key] = type('K', tuple(map(make, self.bases(thing))), {'key': key})
            return made[key]

        return [things[cls.key] for cls in make(thing).__mro__[:-1]]

    def attribute(self, thing, names, seen=()):
        """The object at a path of attributes of a definition."""
        for i, name in enumerate(names):
            for owner in self.order(thing) + [(B, ('object',))]:
                found = self.lookup(self.scope_of(owner), name)
                alias = None if found is not None else self.alias(owner, name)
                if alias is not None:
                    target, target_names = alias
                    if any(path is None and key[0] is alias and key[1] <= len(names) - i
                           for path, key in seen):
                        # an alias of itself
                        return None
                    return self.find(target, target_names + names[i + 1:],
                                     (*seen, (None, (alias, len(names) - i))), False)
                if found is not None:
                    if owner[0] == B and i + 1 < len(names):
                        # attributes of members of "object" are left aside
                        self.E.assume(z3.BoolVal(False))
                    thing = owner[0], owner[1] + (found[0],)
                    break
            else:
                return None
        return thing

    def alias(self, owner, name):
        """What a name imported or assigned in the body of a class stands for."""
        key = (*owner[1], name)
        return next((target for other, target in self.references[owner[0]]
                     if len(other) == len(key) > 1 and all(map(self.same, other, key))), None)

    def scope_of(self, thing):
        scope = self.scopes[thing[0]]
        for part in thing[1]:
            scope = self.lookup(scope, part)[1]
        return scope

    def find(self, path, names, seen=(), builtins=True):
        """What a dotted name means at the top of a module."""
        if path not in self.scopes:
            return None
        if not names:
            return path, ()
        for other_path, other in seen:
            if other_path is not None and other_path == path and len(other) == len(names) and all(map(self.same, other,
                                                                           names)):
                return None
        seen = (*seen, (path, names))
        found = self.lookup(self.scopes[path], names[0])
        if found is not None:
            return self.attribute((path, (found[0],)), names[1:], seen)
        for star in self.stars[path]:
            result = self.find(star, names, seen, False)
            if result is not None:
                return result
            if len(names) > 1 and self.find(star, names[:1], seen, False) is not None:
                # the first name is bound there: others binding it too are left aside
                self.alone = False
        for size in range(len(names), 0, -1):
            for key, (target, target_names) in self.references[path]:
                if len(key) == size and all(map(self.same, key, names)):
                    result = self.find(target, target_names, seen, False)
                    if result is None:
                        if not target_names:
                            return None
                        result = self.submodule(target + target_names)
                    if result is None:
                        return None
                    return (self.attribute(result, names[size:], seen) if result[1]
                            else self.find(result[0], names[size:], seen, False))
        if builtins:
            found = self.lookup(self.scopes[B], names[0])
            if found is not None:
                return self.attribute((B, (found[0],)), names[1:])
            for key, (target, target_names) in self.references[B]:
                if target == B and self.same(key[0], names[0]):
                    return self.attribute((target, target_names), names[1:])
        return None

    def submodule(self, path):
        for other in self.scopes:
            if len(other) == len(path) and all(map(self.same, other, path)):
                return other, ()
        return None

    def resolve(self, path, parent, names):
        self.alone = True
        if parent:
            found = self.lookup(self.scope(path, parent), names[0])
            if found is not None or self.alias((path, parent), names[0]) is not None:
                return self.attribute((path, parent), names)
        return self.find(path, names)


def check_query(E, tables, path, parent, names):
    function = entry('paradigm._core.scoping', 'resolve_object_path')
    contains = entry('paradigm._core.scoping', 'contains_object_path')
    not_found = entry('paradigm._core.scoping', 'ObjectNotFound')
    arguments_ = tables.arguments()
    checked(function, path, parent, names, *arguments_)
    checked(contains, path, parent, names, *arguments_)
    for label, value in zip(('definitions', 'references', 'stars', 'superclasses'), arguments_):
        E.show(label, value)
    E.show('query', (path, parent, names))
    expected = tables.resolve(path, parent, names)
    if not tables.alone:
        # a name bound by several star imports or by one and an explicit import
        binders = sum(tables.find(star, names[:1], (), False) is not None
                      for star in tables.stars[path])
        E.assume(z3.BoolVal(binders <= 1 and not any(
                tables.same(key[0], names[0]) for module in tables.scopes
                for key, _ in tables.references[module])))
    E.show('expected', expected)
    outcome, result = E.call(lambda: function(path, parent, names, *arguments_))
    E.show('actual', result)
    if outcome == 'exc':
        E.check(z3.BoolVal(isinstance(result, not_found)),
                f'resolving a name raises {type(result).__name__}')
        E.check(z3.BoolVal(expected is None), 'a name that is defined is not found')
    else:
        E.check(z3.BoolVal(expected is not None), 'a name that is not defined resolves')
        E.check(same_path(E, result[0], expected[0]), 'a name resolves to another module')
        E.check(same_path(E, result[1], expected[1]), 'a name resolves to another definition')
    outcome, answer = E.call(lambda: contains(path, parent, names, *arguments_))
    if outcome == 'exc':
        E.fail(f'testing for a name raises {type(answer).__name__}')
    E.check(z3.BoolVal(E.decide(E.bx(answer)) is (expected is not None)),
            'testing for a name disagrees with resolving it')


def same_path(E, actual, expected):
    if len(actual) != len(expected):
        return z3.BoolVal(False)
    return conj(*[E.nx(a) == E.nx(b) for a, b in zip(actual, expected)])


def alias_cases(tier):
    return [(graph, target, inside, size) for n in (1, 2, 3) for graph in graphs(n)
            for target in ('own', 'inherited', 'module', 'object', 'class', 'chain')
            for inside in (False, True) for size in (1, 2)
            if n < 3 or tier != 'quick' or size == 1]


@harness('C19', cases=alias_cases, weight=lambda c: len(c[0]) ** 2,
         bounds='aliases and imports in the bodies of classes in graphs of up to 3 classes, '
                'looked up from the body and as attributes of the last class')
def aliases(E, case):
    graph, target, inside, size = case
    tables = Tables(E)
    tables.add(M, R)
    things = []
    holder = E.select('holder', list(range(len(graph))))
    for i, bases in enumerate(graph):
        thing = tables.define(M, tables.fresh(f'k{i}'), [tables.fresh(f'm{i}')])
        if bases:
            tables.inherit(thing, [things[j] for j in bases])
        things.append(thing)
    other = tables.fresh('t')
    tables.define(R, other, [tables.fresh('tm')])
    _, owner = things[holder]
    alias = tables.fresh('al')
    for name, _ in tables.scope(M, owner):
        E.assume(E.nx(name) != E.nx(alias))
    member = tables.scope(M, owner)[0][0]
    if target == 'inherited':
        # spelled with the path of the class
        tables.refer(M, owner + (alias,), (M, owner + (tables.fresh('u'),)))
        E.assume(E.nx(tables.references[M][-1][1][1][-1]) != E.nx(alias))
    elif target == 'chain':
        second = tables.fresh('sa')
        for name, _ in tables.scope(M, owner):
            E.assume(E.nx(name) != E.nx(second))
        tables.refer(M, owner + (second,), (M, owner + (member,)))
        tables.refer(M, owner + (alias,), (M, owner + (second,)))
    else:
        tables.refer(M, owner + (alias,), {'own': (M, owner + (member,)), 'module': (R, ()),
                                           'object': (R, (other,)),
                                           'class': (M, things[0][1])}[target])
    tables.define(B, tables.fresh('b'))
    if inside:
        check_query(E, tables, M, things[-1][1], query(tables, size))
    else:
        check_query(E, tables, M, (), things[-1][1] + query(tables, size))


def query(tables, size):
    return tuple(tables.fresh(f'q{i}') for i in range(size))


def star_graphs(tier):
    """Star imports between M, S1 and S2 (lists in order)."""
    options = {M: [(), (S1,), (S1, S2), (S2, S1)],
               S1: [(), (S2,), (M,)] + ([(S2, M), (M, S2), (S1,)] if tier != 'quick' else []),
               S2: [(), (M,)] + ([(S1,), (S1, M)] if tier != 'quick' else [])}
    return [graph for graph in itertools.product(*options.values())
            if graph[0] or not (graph[1] or graph[2])]


REFERENCES = ['none', 'object', 'other name', 'module', 'submodule', 'submodule or object',
              'from the importer', 'through another', 'missing']


def scoping_cases(tier):
    result = []
    for graph in star_graphs(tier):
        for reference in REFERENCES:
            for nested in (0, 1, 2):
                if nested and tier == 'quick' and (graph[1] or graph[2]):
                    continue
                result.append((graph, reference, nested, 1))
            if tier != 'quick' or not (graph[1] and graph[2]):
                result.append((graph, reference, 0, 2))
    return result


def add_reference(tables, kind, home=M):
    """An explicit import in a module; returns nothing when there is none."""
    if kind == 'none':
        return
    key = (tables.fresh('rk'),)
    tables.add(R)
    target = tables.fresh('t')
    if kind == 'object':
        tables.define(R, target, [tables.fresh('tm')])
        tables.refer(home, key, (R, (target,)))
    elif kind == 'other name':
        # the name imported is symbolic: possibly not the one that is defined
        tables.define(R, target)
        tables.refer(home, key, (R, (tables.fresh('u'),)))
    elif kind == 'module':
        tables.define(R, target)
        tables.refer(home, key, (R, ()))
    elif kind == 'submodule':
        tables.add(P, Q)
        tables.define(Q, target)
        tables.refer(home, key, (P, (Q[-1],)))
    elif kind == 'submodule or object':
        last = tables.fresh('sub')
        tables.add(P, (*P, last))
        tables.define((*P, last), target)
        tables.define(P, tables.fresh('pn'))
        tables.refer(home, key, (P, (tables.fresh('u'),)))
    elif kind == 'from the importer':
        # another module that imports everything back from the importing one
        tables.stars[R].append(M)
        tables.define(R, target)
        tables.refer(home, key, (R, (tables.fresh('u'),)))
    elif kind == 'through another':
        tables.add(P)
        tables.define(P, target)
        middle = tables.fresh('v')
        tables.refer(R, (middle,), (P, (target,)))
        tables.refer(home, key, (R, (middle,)))
    elif kind == 'missing':
        tables.refer(home, key, (('sxnowhere',), (target,)))


@harness('C19', cases=scoping_cases, weight=lambda c: c[3] * (1 + len(c[0][0])),
         bounds='a module with a class, nested classes, up to two (cyclic) star imports and one '
                'explicit import (of an object, a module, a submodule, through another module, '
                'from a module importing back, or of nothing that exists), all the names '
                'symbolic; names of one or two parts')
def scoping(E, case):
    graph, reference, nested, size = case
    graph = dict(zip((M, S1, S2), graph))
    tables = Tables(E)
    tables.add(M, S1, S2)
    parent = ()
    if nested:
        class_name = tables.fresh('c')
        tables.define(M, class_name, [tables.fresh('cm')])
        parent = (class_name,)
        if nested == 2:
            inner = tables.fresh('d')
            tables.define(M, inner, [tables.fresh('dm')], parent)
            parent = (class_name, inner)
    else:
        tables.define(M, tables.fresh('x'), [tables.fresh('xm')])
    for star, tag in ((S1, 's'), (S2, 'r')):
        if any(star in stars for stars in graph.values()):
            tables.define(star, tables.fresh(tag + 'x'),
                          [tables.fresh(tag + 'm')] if size > 1 else [])
    for path, stars in graph.items():
        tables.stars[path].extend(stars)
    home = S1 if graph[M] and E.flag('far') else M
    add_reference(tables, reference, home)
    tables.define(B, tables.fresh('b'), [tables.fresh('bm')] if size > 1 else [])
    if E.flag('alias'):
        if E.flag('aliased'):
            tables.refer(B, (tables.fresh('ba'),), (B, (tables.scopes[B][1][0],)))
        else:
            tables.define(S2, tables.fresh('bo'))
            tables.refer(B, (tables.fresh('ba'),), (S2, (tables.scopes[S2][-1][0],)))
    check_query(E, tables, M, parent, query(tables, size))


def import_cases(tier):
    return [(keys, present, size)
            for keys in (('p',), ('p', 'p.q'), ('p.q as',), ('p', 'p.q', 'other'))
            for present in itertools.product((False, True), repeat=2)
            for size in (1, 2, 3)]


@harness('C19', cases=import_cases,
         bounds='import p, import p.q and import p.q as n, next to an own definition and a star '
                'import; names of up to three parts')
def imports(E, case):
    keys, (own, star), size = case
    tables = Tables(E)
    p, q = tables.fresh('p'), tables.fresh('q')
    outer, inner = (p,), (p, q)
    tables.add(M, outer, inner)
    tables.define(outer, tables.fresh('px'), [tables.fresh('pm')])
    tables.define(inner, tables.fresh('qx'), [tables.fresh('qm')])
    for key in keys:
        if key == 'p':
            tables.refer(M, (p,), (outer, ()))
        elif key == 'p.q':
            tables.refer(M, (p, q), (inner, ()))
        elif key == 'p.q as':
            tables.refer(M, (tables.fresh('n'),), (inner, ()))
        else:
            tables.refer(M, (tables.fresh('n'),), (outer, (tables.scopes[outer][0][0],)))
    if own:
        own_name = tables.fresh('x')
        tables.define(M, own_name, [tables.fresh('xm')])
        # one name is not both defined and bound by "import p.q"
        E.assume(E.nx(own_name) != E.nx(p))
    if star:
        tables.add(S1)
        tables.define(S1, tables.fresh('sx'), [tables.fresh('sm')])
        tables.stars[M].append(S1)
    tables.define(B, tables.fresh('b'), [tables.fresh('bm')])
    check_query(E, tables, M, (), query(tables, size).__class__(
            tables.fresh(f'z{i}') for i in range(size)))


def member_cases(tier):
    result = []
    for n in (1, 2, 3, 4):
        for graph in graphs(n):
            for spread in (False, True) if n > 1 else (False,):
                if n == 4 and tier == 'quick' and spread:
                    continue
                result.append((graph, spread, 2))
            if n < 4 and (tier != 'quick' or n < 3):
                result.append((graph, False, 3))
    return result


@harness('C19', cases=member_cases, weight=lambda c: len(c[0]) ** 2,
         bounds='attributes (thorough: of attributes) of classes in graphs of up to 4 classes '
                'over one or two modules, each with one member of a symbolic name')
def members(E, case):
    graph, spread, size = case
    tables = Tables(E)
    tables.add(M, R)
    things = []
    for i, bases in enumerate(graph):
        home = R if spread and (len(graph) - 1 - i) % 2 else M
        name = tables.fresh(f'k{i}')
        member = tables.fresh(f'm{i}')
        thing = tables.define(home, name, [member])
        if size == 3:
            tables.define(home, tables.fresh(f'i{i}'), (), (name, member))
        if bases:
            tables.inherit(thing, [things[j] for j in bases])
        things.append(thing)
    path, names = things[-1]
    if E.flag('imported'):
        alias = tables.fresh('al')
        tables.add(S1)
        tables.refer(S1, (alias,), (path, names))
        path, names = S1, (alias,)
    check_query(E, tables, path, (), names + query(tables, size - 1))

