"""C24: what the caches on the disk give back."""
import ast
import importlib.util
import itertools
import os
import pathlib
import sys

import z3

from .. import engine as en, instrument
from ..lib import *
from ..registry import HarnessError, harness

# leaves of the data: symbolic constants and names, and texts and numbers with awkward spellings
LITERALS = (None, True, 0, -1, 1.5, '', 'it\'s', 'a "b" \\ \n c', b'b\'\x00', 'é\u2028', Ellipsis)


def leaves(E, count):
    """Leaves by number: several symbolic ones, the others literal."""
    def leaf(number):
        if number % 3 == 0:
            return E.const(f'c{number // 3}') if number // 3 < count else LITERALS[number % 11]
        if number % 3 == 1:
            return E.name(f'n{number // 3}') if number // 3 < count else LITERALS[number % 11]
        return LITERALS[number // 3 % len(LITERALS)]
    return leaf


class Leaves:
    def __init__(self, E, first):
        self.E, self.number, self.made = E, first, {}

    def __call__(self):
        number, self.number = self.number, self.number + 1
        sort, index = number % 3, number // 3
        if sort == 2:
            return LITERALS[index % len(LITERALS)]
        key = sort, index % 3
        if key not in self.made:
            self.made[key] = (self.E.const(f'c{index % 3}') if sort == 0
                              else self.E.name(f'n{index % 3}'))
        return self.made[key]


def shapes(depth, size):
    """Sorts of nested values: '.' is a leaf."""
    if not depth:
        return ['.']
    inner = shapes(depth - 1, size)
    result = ['.']
    hashable = [s for s in inner if s == '.' or s[0] == 'tuple' and flat(s)]
    for kind in ('list', 'tuple', 'set', 'dict'):
        for count in range(size + 1):
            if kind == 'dict':
                keys = hashable if count < 2 else hashable[:3]
                pairs = [(k, v) for k in keys for v in inner]
                pool = itertools.product(pairs, repeat=count)
                result += [(kind, *itertools.chain.from_iterable(combo)) for combo in pool]
            else:
                pool = itertools.product(hashable if kind == 'set' else inner, repeat=count)
                result += [(kind, *combo) for combo in pool]
    return result


def flat(shape):
    return shape == '.' or shape[0] == 'tuple' and all(map(flat, shape[1:]))


def build(shape, leaf):
    if shape == '.':
        return leaf()
    kind, *rest = shape
    values = [build(s, leaf) for s in rest]
    if kind == 'dict':
        return {k: v for k, v in zip(values[::2], values[1::2])}
    return {'list': list, 'tuple': tuple, 'set': set}[kind](values)


def same(E, actual, expected):
    """Equal and of the same types throughout (a member of an integer enumeration is a number)."""
    if type(expected) in (list, tuple):
        if type(actual) is not type(expected) or len(actual) != len(expected):
            return z3.BoolVal(False)
        return conj(*[same(E, a, e) for a, e in zip(actual, expected)])
    if type(expected) is set:
        if type(actual) is not set or len(actual) != len(expected):
            return z3.BoolVal(False)
        return conj(*[disj(same(E, a, e) for a in actual) for e in expected],
                    *[disj(same(E, a, e) for e in expected) for a in actual])
    if type(expected) is dict:
        if type(actual) is not dict or len(actual) != len(expected):
            return z3.BoolVal(False)
        return conj(*[disj(conj(same(E, k, key), same(E, v, value))
                           for k, v in actual.items()) for key, value in expected.items()])
    if isinstance(expected, en.SymObj):
        return E.bx(actual == expected) if isinstance(actual, en.SymObj) else z3.BoolVal(False)
    if isinstance(expected, str):
        return E.bx(expected == actual) if isinstance(actual, str) else z3.BoolVal(False)
    if type(actual) is not type(expected):
        return z3.BoolVal(False)
    return z3.BoolVal(actual == expected)


def read(text):
    return instrument.sx_eval(text, {})


def shape_cases(tier):
    few, size = (shapes(2, 2), 2)
    step = 5 if tier == 'quick' else 1
    cases = [(repr(s), 0) for s in shapes(1, 3)] + [(repr(s), 1) for s in shapes(1, 3)]
    cases += [(repr(s), i % 7) for i, s in enumerate(few)][::step]
    third = shapes(2, 1)
    deep = [(kind, s) for kind in ('list', 'tuple') for s in third]
    deep += [('dict', '.', s) for s in third] + [(k, '.', s) for k in ('list', 'tuple')
                                                 for s in third]
    cases += [(repr(s), i % 5) for i, s in enumerate(deep)][::1]
    return list(dict.fromkeys(cases))


@harness('C24', cases=shape_cases,
         bounds='nested dictionaries, lists, tuples and sets of depth 2 with up to 2 items (quick: '
                'a fifth of them; depth 1: 3 items, depth 3: 1 item a level), leaves are symbolic '
                'constants and names and 11 literals')
def texts(E, case):
    text, first = case
    value = build(eval(text), Leaves(E, first))
    function = entry('paradigm._core.pretty', 'repr_from')
    checked(function, value, 4, 0)
    E.show('value', value)
    outcome, actual = E.call(lambda: function(value, 4, 0))
    if outcome == 'exc':
        E.fail(f'writing a value raised {type(actual).__name__}')
    E.show('text', actual)
    try:
        result = read(f'({actual})')
    except Exception as error:
        E.fail(f'the text of a value does not evaluate: {type(error).__name__}')
    E.check(same(E, result, value), 'the text of a value evaluates to another value')
    try:
        result = {}
        exec(f'x = {actual}\n', {name: symbol for name, symbol in tokens(E).items()}, result)
    except Exception as error:
        E.fail(f'the text of a value cannot be assigned: {type(error).__name__}')
    E.check(same(E, result['x'], value), 'the text of a value evaluates to another value')


def tokens(E):
    return {} if E.concrete else dict(E.tokens)


class CacheFile:
    """A scratch file next to the caches of the (copied) package."""
    count = itertools.count()

    def __init__(self, E):
        caching = module('paradigm._core.caching')
        self.stem = f'sxcache{os.getpid()}x{next(self.count)}'
        self.path = pathlib.Path(caching.__file__).with_name(self.stem + '.py')
        self.name = 'paradigm._core.' + self.stem
        self.fresh()

    def fresh(self):
        """As if another process is started."""
        sys.modules.pop(self.name, None)
        vars(sys.modules['paradigm._core']).pop(self.stem, None)

    def close(self):
        self.fresh()
        compiled = pathlib.Path(importlib.util.cache_from_source(str(self.path)))
        for path in (self.path, compiled):
            if path.is_dir():
                path.rmdir()
            elif path.exists():
                path.unlink()


SAVED = ('.', ('dict',), ('dict', ('tuple', '.'), ('list', '.')), ('tuple', '.', ('set', '.')),
         ('list', ('dict', '.', ('tuple',))), ('set',))


def saved_cases(tier):
    cases = [(1, repr([s, other]), 'x') for s in SAVED for other in SAVED[:3]]
    cases += [(1, repr([s, '.', '.']), 'same') for s in SAVED]
    cases += [(2, repr([s, '.']), kind) for s in SAVED for kind in ('same', 'longer', 'shorter')]
    if tier != 'quick':
        cases += [(1, repr(list(triple)), 'x') for triple in itertools.product(SAVED, repeat=3)]
        cases += [(3, repr([s, '.']), kind) for s in SAVED
                  for kind in ('same', 'longer', 'shorter')]
    return cases


@harness('C24', cases=saved_cases,
         bounds='up to 3 named values saved and loaded, up to 2 saves of the same file in a row '
                '(thorough: 3), within the same second or not, loaded after each or only the last')
def files(E, case):
    rounds, text, kind = case
    shapes_ = eval(text)
    save = entry('paradigm._core.caching', 'save')
    load = entry('paradigm._core.caching', 'load')
    file = CacheFile(E)
    leaf = Leaves(E, 0)
    try:
        for number in range(rounds):
            values = {f'field_{i}': build(shape, leaf) for i, shape in enumerate(shapes_)}
            if rounds > 1:
                values['more'] = {'same': number, 'longer': 10 ** number,
                                  'shorter': 10 ** (rounds - number)}[kind]
            checked(save, path=file.path, **values)
            before = file.path.stat().st_mtime if file.path.exists() else None
            outcome, result = E.call(lambda: save(path=file.path, **values))
            if outcome == 'exc':
                E.fail(f'saving a cache raised {type(result).__name__}')
            if not file.path.exists():
                E.fail('nothing is saved')
            if before is not None and kind == 'same':
                # the clock of the file system may be coarse
                os.utime(file.path, (before, before))
            if number + 1 < rounds and not E.flag(f'l{number}'):
                continue
            file.fresh()
            names = list(values)
            if E.flag(f'r{number}'):
                names.reverse()
            checked(load, *names, path=file.path)
            outcome, result = E.call(lambda: load(*names, path=file.path))
            E.show('saved', values)
            E.show('loaded', result)
            if outcome == 'exc':
                E.fail(f'loading a cache raised {type(result).__name__}')
            if type(result) is not tuple or len(result) != len(names):
                E.fail('a cache has other fields than were saved')
            for name, actual in zip(names, result):
                E.check(same(E, actual, values[name]), 'a cache is loaded with another value')
    finally:
        file.close()


# ---------------------------------------------------------------- syntax trees
STATEMENTS = {
    'annotated': '{a}: {x}', 'annotated value': '{a}: {x} = {y}', 'assigned': '{a} = {x}',
    'assigned twice': '{a} = {b} = {x}', 'attribute': '{a}.{b} = {x}', 'pass': 'pass',
    'expression': '{x}', 'import': 'import {a}', 'import as': 'import {a} as {b}',
    'import dotted': 'import {a}.{b}', 'from': 'from {a} import {b} as {c}',
    'relative': 'from . import {a}', 'relative two': 'from ..{a} import *',
    'function': 'def {a}(): ...', 'function none': 'def {a}(self) -> None: ...',
    'function all': 'def {a}({b}, {c}: {x}, /, {d}: {y} = ..., *{e}: {x}, {f}, {g}={c0}, **{h}: {y}) '
                    '-> {x}: ...',
    'function keywords': 'def {a}(*, {b}={x}, {c}, {d}: {y} = {x}): ...',
    'function positionals': 'def {a}({b}={x}, /, {c}={y}) -> {a}: ...',
    'async': 'async def {a}({b}: {x}) -> {y}:\n    pass',
    'decorated': '@{a}\n@{b}.{c}({x}, {d}={y})\ndef {e}({f}): ...',
    'class': 'class {a}: ...', 'class bases': 'class {a}({b}, {c}[{x}], {d}={y}):\n    {e}: {x}\n',
    'class methods': '@{a}\nclass {b}:\n    {c} = {x}\n    def {d}(self) -> {y}: ...\n',
    'if': 'if {x} >= ({c0}, {c1}):\n    {a}: {y}\nelse:\n    {b}: {y}\n',
    'if chain': 'if {a} == {x} and not {b}:\n    pass\nelif {c} or {y}:\n    {a} = {x}\n',
    'docstring': '"""it\'s \\\\ "quoted" \\n é"""', 'delete': 'del {a}',
    'typed alias': 'type {a} = {x}', 'generic': 'class {a}[{b}]: ...',
}
EXPRESSIONS = {
    'name': '{p}', 'const': '{c0}', 'none': 'None', 'ellipsis': '...', 'true': 'True',
    'text': '"it\'s"', 'bytes': "b'x\\x00'", 'float': '1.5', 'complex': '2j', 'negative': '-{c1}',
    'huge': '1e308', 'attribute': '{p}.{q}', 'subscript': '{p}[{i}]',
    'subscript two': '{p}[{i}, {j}]', 'subscript empty': '{p}[()]', 'slice': '{p}[{i}:]',
    'union': '{i} | {j}', 'binary': '({i} & {j}) ^ {p}', 'inverted': '~{i}', 'tuple': '({i},)',
    'list': '[{i}, {j}]', 'list empty': '[]', 'dict': '{{{i}: {j}}}', 'dict unpacked': '{{**{i}}}',
    'set': '{{{i}, {j}}}', 'call': '{p}({i}, {q}={j})', 'call unpacked': '{p}(*{i}, **{j})',
    'starred': '({p}, *{q})', 'compare': '{i} <= {j} < {p}', 'lambda': 'lambda {q}: {i}',
    'string': 'f"{{p}}"',
}
LEAF = ('name', 'const', 'none', 'ellipsis', 'text', 'negative', 'attribute')


def tree_cases(tier):
    cases = []
    for i, statement in enumerate(STATEMENTS):
        uses_x = '{x}' in STATEMENTS[statement] or '{y}' in STATEMENTS[statement]
        names = list(EXPRESSIONS) if uses_x else ['name']
        for j, expression in enumerate(names):
            if tier == 'quick' and uses_x and (i + j) % 3 and expression not in ('name', 'const'):
                continue
            cases.append((statement, expression, names[(j + i) % len(names)], 'name', 'const'))
    for expression, text in EXPRESSIONS.items():
        if '{i}' not in text and '{j}' not in text:
            continue
        for inner in EXPRESSIONS:
            other = LEAF[len(cases) % len(LEAF)]
            cases.append(('expression', expression, 'name', inner, other))
            if tier != 'quick':
                cases += [('annotated value', expression, inner, other_, inner)
                          for other_ in EXPRESSIONS]
    return list(dict.fromkeys(cases))


def expression_text(kind, names, inner):
    return '(' + EXPRESSIONS[kind].format(**names, **inner) + ')'


def tree_text(E, case):
    statement, x, y, i, j = case
    names = {tag: E.name(tag, True) for tag in 'abcdefghpq'}
    names.update({f'c{n}': repr(E.const(f'c{n}')) for n in range(2)})
    for kind in (i, j):
        if '{i}' in EXPRESSIONS[kind] or '{j}' in EXPRESSIONS[kind]:
            pass
    leaf = {'i': names['p'], 'j': names['q']}
    inner = {'i': expression_text(i, names, leaf), 'j': expression_text(j, names, leaf)}
    outer = {'x': expression_text(x, names, inner), 'y': expression_text(y, names, inner)}
    return STATEMENTS[statement].format(**names, **outer)


def same_tree(E, actual, expected):
    if isinstance(expected, ast.AST):
        if type(actual) is not type(expected):
            return z3.BoolVal(False)
        return conj(*[same_tree(E, getattr(actual, field, None), getattr(expected, field, None))
                      for field in expected._fields])
    if type(expected) is list:
        if type(actual) is not list or len(actual) != len(expected):
            return z3.BoolVal(False)
        return conj(*[same_tree(E, a, e) for a, e in zip(actual, expected)])
    return same(E, actual, expected)


@harness('C24', cases=tree_cases,
         bounds='29 sorts of statements with expressions of 31 sorts nested two deep (quick: every '
                'pair of expressions, a third of the statements\' expressions); all identifiers '
                'and two constants symbolic')
def trees(E, case):
    text = tree_text(E, case)
    E.show('source', text)
    try:
        tree = instrument._parse(text) if not E.concrete else ast.parse(text)
    except SyntaxError:
        raise HarnessError(f'not Python: {text}')
    to_raw = entry('paradigm._core.arboreal.conversion', 'to_raw')
    from_raw = entry('paradigm._core.arboreal.construction', 'from_raw')
    write = entry('paradigm._core.pretty', 'repr_from')
    for node in [tree.body[0], tree]:
        checked(to_raw, node)
        outcome, raw = E.call(lambda: to_raw(node))
        if outcome == 'exc':
            E.fail(f'writing a syntax tree raised {type(raw).__name__}')
        if type(raw) is not str:
            E.fail('a written syntax tree is not text')
        E.show('raw', raw)
        checked(from_raw, raw)
        for number in range(2):
            outcome, result = E.call(lambda: from_raw(raw))
            if outcome == 'exc':
                E.fail(f'reading a syntax tree raised {type(result).__name__}')
            E.check(same_tree(E, result, node), 'a syntax tree is read as another one')
            if not number:
                outcome, again = E.call(lambda: write([raw], 4, 0))
                if outcome == 'exc':
                    E.fail(f'writing a text raised {type(again).__name__}')
                again = eval(again)
                E.check(z3.BoolVal(again == [raw]), 'text of a syntax tree is changed by the cache')
                # what is read does not depend on what is done with what was read before
                for part in ast.walk(result):
                    for field in part._fields:
                        if isinstance(getattr(part, field, None), list):
                            getattr(part, field).clear()
