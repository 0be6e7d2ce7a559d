"""C18: which initializer or constructor describes a class."""
import itertools

import z3

from .. import world
from ..lib import *
from ..registry import harness
from .described import ANY, SELF, STUB, annotation_is, python_class, signature_of

OTHER = 'sxother'


def graphs(n):
    """All the graphs of n classes in which every class is an ancestor of the last one and which
    Python accepts: (bases of the first, ..., bases of the last), bases being earlier classes."""
    result = []
    options = [[order for size in range(i + 1) for order in itertools.permutations(range(i), size)]
               for i in range(n)]
    for graph in itertools.product(*options):
        reached, todo = set(), [n - 1]
        while todo:
            i = todo.pop()
            reached.add(i)
            todo.extend(graph[i])
        if len(reached) == n and real_classes(graph) is not None:
            result.append(graph)
    return result


def real_classes(graph):
    result = []
    try:
        for i, bases in enumerate(graph):
            result.append(type(f'K{i}', tuple(result[j] for j in bases),
                               {'__module__': STUB, '__qualname__': f'K{i}'}))
    except TypeError:
        return None
    return result


class Definition:
    def __init__(self, E, tag, name):
        self.name = name
        self.annotation, self.returns = E.const(f'a{tag}'), E.const(f'r{tag}')

    def lines(self, decorator=None):
        return (([f'    @{decorator}'] if decorator else [])
                + [f'    def {self.name}(self, x: {self.annotation!r}) -> {self.returns!r}: ...'])


def definitions(E, i, declared):
    """What class number i declares: (initializers, constructors)."""
    counts = {'': (0, 0), 'init': (1, 0), 'new': (0, 1), 'both': (1, 1), 'inits': (2, 0),
              'news': (0, 2), 'all': (2, 2)}[declared]
    return tuple([Definition(E, f'{i}{name.strip("_")}{j}', name) for j in range(count)]
                 for count, name in zip(counts, ('__init__', '__new__')))


def class_text(i, bases, groups, prefix=lambda j: '', late=False):
    lines = [f'class K{i}' + (f'({", ".join(prefix(j) + f"K{j}" for j in bases)})'
                              if bases else '') + ':', '    y: int']
    groups = [group for group in groups if group]
    for group in (groups[::-1] if late else groups):
        for definition in group:
            lines.extend(definition.lines('overload' if len(group) > 1 else None))
    return '\n'.join(lines) + '\n'


def cases(tier):
    result = [(graph, spread, overloads)
              for n in (1, 2, 3) for graph in graphs(n)
              for spread in (('one module', 'imported', 'qualified') if n > 1
                             else ('one module',))
              for overloads in ((False, True) if n < 3 else (False,))]
    result += [(graph, 'one module', None) for graph in graphs(4)]
    if tier != 'quick':
        result += [(graph, spread, False) for graph in graphs(4)
                   for spread in ('one module', 'imported', 'qualified')]
        result += [(graph, 'one module', True) for graph in graphs(3)]
    return result


OPTIONS = {None: ['', 'init', 'new'], False: ['', 'init', 'new', 'both'],
           True: ['', 'init', 'new', 'both', 'inits', 'news', 'all']}


def check_builder(E, callable_, definitions_):
    b = base()
    signature = signature_of(E, callable_)
    actual = alternatives(signature)
    if not definitions_:
        E.check(z3.BoolVal(len(actual) == 1 and not list(actual[0].parameters)),
                'a class without any initializer and constructor takes arguments')
        return
    E.check(z3.BoolVal(len(actual) == len(definitions_)),
            'not all the overloads of the initializer or constructor appear')
    for one, definition in zip(actual, definitions_):
        parameters = list(one.parameters)
        E.check(z3.BoolVal(len(parameters) == 1),
                'the signature of a class is not that of its nearest initializer or constructor')
        E.check(annotation_is(E, parameters[0].annotation, definition.annotation),
                'the signature of a class is not that of its nearest initializer or constructor')
        E.check(annotation_is(E, one.returns, SELF if definition.name == '__init__'
                              else definition.returns),
                'the signature of a class returns something else than it should')


def pick_builder(order, declared):
    for i in order:
        initializers, constructors = declared[i]
        if initializers or constructors:
            return initializers or constructors
    return []


@harness('C18', cases=cases, weight=lambda c: len(c[0]),
         bounds='graphs of up to 4 classes (all those Python can linearise), each with or '
                'without __init__ and __new__ (both at once for up to 3 classes; thorough 4), each with one or '
                '(up to 2 classes; thorough 3) two overloads; bases named in the same module or '
                '(up to 3 classes; thorough 4) imported')
def nearest(E, case):
    graph, spread, overloads = case
    classes = real_classes(graph)
    declared = [definitions(E, i, E.select(f'D{i}', OPTIONS[overloads]))
                for i in range(len(graph))]
    late = E.flag('late') if overloads is not None else False
    header = 'from typing import overload\n'
    texts = {STUB: header, OTHER: header}
    last = len(graph) - 1
    for i, bases in enumerate(graph):
        if spread == 'one module':
            texts[STUB] += class_text(i, bases, declared[i], late=late)
        else:
            home = STUB if i % 2 == last % 2 else OTHER
            place = lambda j: STUB if j % 2 == last % 2 else OTHER
            if spread == 'qualified':
                prefix = lambda j: '' if place(j) == home else place(j) + '.'
            else:
                prefix = lambda j: ''
                texts[home] += ''.join(f'from {place(j)} import K{j}\n' for j in bases
                                       if place(j) != home)
            texts[home] += class_text(i, bases, declared[i], prefix, late)
    if spread == 'qualified':
        texts[STUB] = f'import {OTHER}\n' + texts[STUB]
        texts[OTHER] = f'import {STUB}\n' + texts[OTHER]
    world.world(E, texts)
    order = [classes.index(cls) for cls in classes[-1].__mro__[:-1]]
    check_builder(E, classes[-1], pick_builder(order, declared))
