"""C08, C09, C11-C13: equality, hashes, texts and copies of parameters and signatures."""
import ast
import copy
import io
import pickle
import re
import typing

import z3

from .. import engine as en
from ..lib import *
from ..registry import harness


# ------------------------------------------------------------------------------------- equality
def same_fields(E, p, q):
    """Formula of the property: the parameters described by p and q are equal."""
    if p.optional is not q.optional or p.has_default is not q.has_default:
        return z3.BoolVal(False)
    parts = [p.x == q.x, p.kind == q.kind, E.eqc(p.annotation) == E.eqc(q.annotation)]
    if p.has_default:
        parts.append(E.eqc(p.default) == E.eqc(q.default))
    return conj(*parts)


def same_lists(E, params, others, returns, other_returns):
    if len(params) != len(others):
        return z3.BoolVal(False)
    return conj(E.eqc(returns) == E.eqc(other_returns),
                *[same_fields(E, p, q) for p, q in zip(params, others)])


def check_equality(E, left, right, formula, what):
    """== and != in both directions are as the formula says."""
    for a, b, side in [(left, right, ''), (right, left, ', compared the other way round')]:
        outcome, result = E.call(lambda: bool(a == b))
        if outcome == 'exc':
            E.fail(f'comparing {what} raised {type(result).__name__}')
        E.check(z3.BoolVal(result) == formula,
                f'{what} are {"" if result else "not "}equal although their fields say '
                f'otherwise{side}')
        E.check(z3.BoolVal(bool(a != b) is not result), f'{what} are both equal and unequal')


@harness('C08', cases=lambda tier: [()],
         bounds='two parameters of any kind, name, annotation, default (absent, None, False or any '
                'other)')
def parameters_equality(E, case):
    p, q = Param(E, 'p'), Param(E, 'q')
    for x in (p, q):
        assume_parameter(E, x)
    left, right = p.build(), q.build()
    check_equality(E, left, right, same_fields(E, p, q), 'parameters')
    check_equality(E, left, left, z3.BoolVal(True), 'a parameter and itself')
    check_equality(E, left, p.build(), z3.BoolVal(True), 'a parameter and its double')


def equality_cases(tier):
    top = 2 if tier == 'quick' else 3
    return [(n, m) for n in range(top + 1) for m in range(n, top + 1)]


@harness('C08', cases=equality_cases, weight=sum,
         bounds='two plain signatures of up to 2 (thorough 3) parameters each, all fields arbitrary')
def signatures_equality(E, case):
    n, m = case
    ps, qs = symbolic_params(E, n, 'p'), symbolic_params(E, m, 'q')
    rp, rq = E.obj('rp', (None,)), E.obj('rq', (None,))
    check_equality(E, build(ps, rp), build(qs, rq), same_lists(E, ps, qs, rp, rq), 'signatures')


@harness('C08', cases=lambda tier: [((0, 0), (0, 0)), ((0, 1), (0, 1)), ((0, 1), (1, 0)),
                                    ((0, 0), (0, 0, 0)), ((1, 0), (1, 0, 0))]
         + ([((1, 1), (1, 1)), ((2, 0), (2, 0)), ((0, 0, 1), (0, 0, 1))]
            if tier == 'thorough' else []),
         weight=lambda case: sum(map(sum, case)),
         bounds='two overloaded signatures of 2-3 alternatives of up to 1 (thorough 2) parameters')
def overloaded_equality(E, case):
    built, described = [], []
    for side, sizes in zip('pq', case):
        described.append([(symbolic_params(E, n, f'{side}{i}x'), E.obj(f'r{side}{i}', ()))
                          for i, n in enumerate(sizes)])
        built.append(base().OverloadedSignature(*[build(*d) for d in described[-1]]))
    left, right = described
    formula = (conj(*[same_lists(E, a[0], b[0], a[1], b[1]) for a, b in zip(left, right)])
               if len(left) == len(right) else z3.BoolVal(False))
    check_equality(E, *built, formula, 'overloaded signatures')
    for signature in built:
        check_equality(E, signature, build(*left[0]), z3.BoolVal(False),
                       'an overloaded and a plain signature')


@harness('C08', cases=lambda tier: [()],
         bounds='a parameter, a plain and an overloaded signature and an arbitrary other value, '
                'pairwise')
def sorts_equality(E, case):
    p = Param(E, 'p')
    assume_parameter(E, p)
    plain = build([p], E.obj('r', ()))
    objects = [('a parameter', p.build()), ('a plain signature', plain),
               ('an overloaded signature', base().OverloadedSignature(plain, plain)),
               ('another value', E.obj('x', (None, False, ''))), ('a tuple', (p.build(),)),
               ('a string', 'x')]
    for i, (what, left) in enumerate(objects[:3]):
        for other, right in objects[i + 1:]:
            check_equality(E, left, right, z3.BoolVal(False), f'{what} and {other}')


# --------------------------------------------------------------------------------------- hashes
def check_hashes(E, left, right, what):
    if not bool(left == right):
        return
    hashes = []
    for value in (left, right, left):
        outcome, result = E.call(lambda: E.hash_of(value))
        if outcome == 'exc':
            E.fail(f'hashing {what} raised {type(result).__name__}')
        hashes.append(result)
    E.check(hashes[0] == hashes[1], f'{what} are equal, their hashes are not')
    E.check(hashes[0] == hashes[2], f'hashing {what} twice gives different hashes')


@harness('C09', cases=lambda tier: [(n,) for n in range(4 if tier == 'quick' else 5)], weight=sum,
         bounds='two equal plain signatures of up to 3 (thorough 4) parameters, all fields '
                'arbitrary')
def plain_hashes(E, case):
    n, = case
    ps, qs = symbolic_params(E, n, 'p'), symbolic_params(E, n, 'q')
    returns = E.obj('rp', (None,)), E.obj('rq', (None,))
    E.assume(same_lists(E, ps, qs, *returns))
    check_hashes(E, build(ps, returns[0]), build(qs, returns[1]), 'signatures')
    for p, q in zip(ps, qs):
        check_hashes(E, p.build(), q.build(), 'parameters')


@harness('C09', cases=lambda tier: [((0, 0), (0, 0)), ((0, 1), (0, 1)), ((0, 0, 0), (0, 0, 0))]
         + ([((1, 1), (1, 1))] if tier == 'thorough' else []),
         bounds='two overloaded signatures of 2-3 alternatives of up to 1 parameter')
def overloaded_hashes(E, case):
    built, described = [], []
    for side, sizes in zip('pq', case):
        described.append([(symbolic_params(E, n, f'{side}{i}x'), E.obj(f'r{side}{i}', ()))
                          for i, n in enumerate(sizes)])
        built.append(base().OverloadedSignature(*[build(*d) for d in described[-1]]))
    left, right = described
    E.assume(conj(*[same_lists(E, a[0], b[0], a[1], b[1]) for a, b in zip(left, right)]))
    check_hashes(E, *built, 'overloaded signatures')


# ------------------------------------------------------------------------------------------ repr
class _Tokens(ast.NodeTransformer):
    def __init__(self, tokens):
        self.tokens = tokens

    def visit_Constant(self, node):
        if isinstance(node.value, str) and node.value in self.tokens:
            return ast.copy_location(ast.Name(node.value, ast.Load()), node)
        return node


def namespace_of(E):
    import builtins
    import collections
    import collections.abc
    import types
    import typing_extensions
    import sx.harness.annotations
    result = dict(vars(builtins))
    result.update({name: getattr(base(), name)
                   for name in ('OptionalParameter', 'RequiredParameter', 'ParameterKind',
                                'PlainSignature', 'OverloadedSignature')})
    result.update(builtins=builtins, typing=typing, types=types, collections=collections,
                  typing_extensions=typing_extensions, sx=sx)
    return result


def evaluate(E, text):
    """Value of an expression in which tokens stand for symbolic values."""
    for cleanup in getattr(typing, '_cleanups', ()):
        cleanup()
    tokens = ({f'sxo_val_{number}_': value for number, value in E.objs.items()}
              if E.concrete else E.tokens)
    tree = ast.parse(text.strip(), mode='eval')
    tree = ast.fix_missing_locations(_Tokens(() if E.concrete else tokens).visit(tree))
    return eval(compile(tree, '<repr>', 'eval'), {**namespace_of(E), **tokens})


def evaluated(E, value, what):
    text = repr(value)
    outcome, result = E.call(lambda: evaluate(E, text))
    if outcome == 'exc':
        E.show('repr', text)
        E.fail(f'repr of {what} does not evaluate: {type(result).__name__}')
    return result


@harness('C11', cases=lambda tier: [(n,) for n in range(3 if tier == 'quick' else 4)],
         weight=sum, bounds='plain signatures of up to 2 (thorough 3) parameters, all fields '
                            'arbitrary, defaults opaque values')
def plain_repr(E, case):
    params = symbolic_params(E, case[0])
    returns = E.obj('returns', (None, Ellipsis))
    for p in params[-1:]:
        result = evaluated(E, p.build(), 'a parameter')
        E.check(same_param(E, result, p), 'repr of a parameter evaluates to a different one')
    result = evaluated(E, build(params, returns), 'a signature')
    E.check(z3.BoolVal(isinstance(result, base().PlainSignature)),
            'repr of a plain signature evaluates to something else')
    E.check(z3.BoolVal(len(result.parameters) == len(params)),
            'repr of a signature evaluates to one with another number of parameters')
    for p, parameter in zip(params, result.parameters):
        E.check(same_param(E, parameter, p),
                'repr of a signature evaluates to one with another parameter')
    E.check(E.ox(result.returns) == E.ox(returns),
            'repr of a signature evaluates to one with another return annotation')


@harness('C11', cases=lambda tier: [(0, 0), (0, 1), (1, 0), (0, 0, 0)]
         + ([(1, 1), (2, 0)] if tier == 'thorough' else []), weight=sum,
         bounds='overloaded signatures of 2-3 alternatives of up to 1 (thorough 2) parameters')
def overloaded_repr(E, case):
    plains = [build(symbolic_params(E, n, 'abc'[i]), E.obj(f'r{i}', ()))
              for i, n in enumerate(case)]
    result = evaluated(E, base().OverloadedSignature(*plains), 'an overloaded signature')
    E.check(z3.BoolVal(isinstance(result, base().OverloadedSignature)
                       and len(result.signatures) == len(plains)),
            'repr of an overloaded signature evaluates to something else')
    for a, b in zip(result.signatures, plains):
        E.check(same_plain(E, a, b), 'repr of an overloaded signature has another alternative')


DEFAULTS = [
    lambda a, b: [a], lambda a, b: [a, b], lambda a, b: (a,), lambda a, b: (a, b), lambda a, b: (),
    lambda a, b: [], lambda a, b: [(a,), [b]], lambda a, b: ((), (a, [b])),
    lambda a, b: None, lambda a, b: ..., lambda a, b: False, lambda a, b: 0, lambda a, b: '',
    lambda a, b: "it's", lambda a, b: b'\x00', lambda a, b: 'sx', lambda a, b: int,
    lambda a, b: (int, str), lambda a, b: type(None), lambda a, b: 1.5, lambda a, b: -1,
    lambda a, b: NotImplemented, lambda a, b: [type(None), type(Ellipsis)],
    lambda a, b: {'k': a}, lambda a, b: [int, [a]],
]


def same_value(E, left, right):
    if type(left) is en.SymObj or type(left) is en.Val or type(right) is en.SymObj:
        return E.ox(left) == E.ox(right)
    if type(left) is not type(right):
        return z3.BoolVal(False)
    if isinstance(left, (list, tuple)):
        return (conj(*[same_value(E, a, b) for a, b in zip(left, right)])
                if len(left) == len(right) else z3.BoolVal(False))
    if isinstance(left, dict):
        return same_value(E, list(left.items()), list(right.items()))
    return z3.BoolVal(left is right or left == right)


@harness('C11', cases=lambda tier: [(i,) for i in range(len(DEFAULTS))],
         bounds='optional parameters whose default is one of 25 containers, constants or classes, '
                'around opaque values')
def default_repr(E, case):
    default = DEFAULTS[case[0]](E.obj('a', (None,)), E.obj('b', ()))
    p = Param(E, 'p', optional=True, has_default=True, default=default)
    assume_parameter(E, p)
    result = evaluated(E, p.build(), 'a parameter')
    E.check(z3.BoolVal(isinstance(result, base().OptionalParameter)),
            'repr of an optional parameter evaluates to something else')
    E.check(E.nx(result.name) == p.x, 'repr of a parameter evaluates to one with another name')
    E.check(E.cx(result.kind, kinds()) == p.kind,
            'repr of a parameter evaluates to one with another kind')
    E.check(z3.BoolVal(bool(result.has_default)), 'repr of a parameter loses its default')
    E.check(same_value(E, result.default, default),
            'repr of a parameter evaluates to one with another default')


# ------------------------------------------------------------------------------------------- str
def split_top(text):
    """Parts of a parameter list: split at commas outside brackets."""
    parts, depth, start = [], 0, 0
    for index, char in enumerate(text):
        if char in '([{':
            depth += 1
        elif char in ')]}':
            depth -= 1
        elif char == ',' and not depth:
            parts.append(text[start:index])
            start = index + 1
    parts.append(text[start:])
    return [part.strip() for part in parts] if text.strip() else []


_PIECE = re.compile(r'(\*{0,2})\s*([^\W\d]\w*)\s*:\s*(.*?)(?:\s*=\s*(.*))?')


def read_signature(text):
    """Text of a plain signature -> ([separator | (stars, name, annotation, default)], returns)."""
    match = re.fullmatch(r'\((.*)\)\s*->\s*([^()]*(?:\(.*\))?.*)', text)
    if match is None:
        return None
    # the parameter list ends at the bracket that closes the first one
    depth = 0
    for index, char in enumerate(text):
        depth += {'(': 1, '[': 1, '{': 1, ')': -1, ']': -1, '}': -1}.get(char, 0)
        if depth == 0:
            break
    inner, rest = text[1:index], text[index + 1:]
    if not rest.strip().startswith('->'):
        return None
    pieces = []
    for part in split_top(inner):
        if part in ('/', '*'):
            pieces.append(part)
            continue
        match = _PIECE.fullmatch(part)
        if match is None:
            return None
        pieces.append(match.groups())
    return pieces, rest.strip()[2:].strip()


def check_text(E, signature, params, returns):
    outcome, text = E.call(lambda: str(signature))
    if outcome == 'exc':
        E.fail(f'str of a signature raised {type(text).__name__}')
    E.show('text', text)
    read = read_signature(text)
    if read is None:
        E.fail('str of a signature is no parameter list')
    pieces, returned = read
    ks = [kinds().index(p.kind_value) for p in params]
    expected = []
    for i, k in enumerate(ks):
        if k == KO and VP not in ks and (i == 0 or ks[i - 1] != KO):
            expected.append('*')
        expected.append(params[i])
        if k == PO and (i + 1 == len(ks) or ks[i + 1] != PO):
            expected.append('/')
    E.check(z3.BoolVal([x if isinstance(x, str) else None for x in expected]
                       == [x if isinstance(x, str) else None for x in pieces]),
            'str of a signature has parameters or separators missing, added or misplaced')
    for p, piece in zip(expected, pieces):
        if isinstance(p, str):
            continue
        stars, name, annotation, default = piece
        k = kinds().index(p.kind_value)
        E.check(z3.BoolVal(stars == {VP: '*', VK: '**'}.get(k, '')),
                'str of a signature has a parameter with the wrong prefix')
        E.check(E.nx(name if E.concrete else E.tokens.get(name, name)) == p.x,
                'str of a signature has another name of a parameter')
        E.check(same_text(E, annotation, p.annotation),
                'str of a signature has another annotation of a parameter')
        E.check(z3.BoolVal((default is not None) is p.has_default),
                'str of a signature has a default too many or too few')
        if p.has_default:
            E.check(same_text(E, default, p.default),
                    'str of a signature has another default of a parameter')
    E.check(same_text(E, returned, returns), 'str of a signature has another return annotation')


def same_text(E, text, value):
    outcome, result = E.call(lambda: evaluate(E, text))
    return z3.BoolVal(False) if outcome == 'exc' else same_value(E, result, value)


def concrete_kinds(n):
    """Orders of kinds Python allows for n parameters."""
    if n == 0:
        return [()]
    return [ks + (k,) for ks in concrete_kinds(n - 1) for k in range(5)
            if not ks or ks[-1] < k or (ks[-1] == k and k not in (VP, VK))]


def str_cases(tier):
    top = 3 if tier == 'quick' else 4
    return [ks for n in range(top + 1) for ks in concrete_kinds(n)]


@harness('C12', cases=str_cases, weight=len,
         bounds='plain signatures of up to 3 (thorough 4) parameters of every sequence of kinds, '
                'optionality, names, annotations and defaults arbitrary')
def plain_str(E, case):
    params = symbolic_params_of(E, case)
    returns = E.obj('returns', (None, Ellipsis))
    check_text(E, build(params, returns), params, returns)


def symbolic_params_of(E, ks, prefix='p'):
    params = [Param(E, f'{prefix}{i}', kind=kinds()[k], **({'optional': True, 'has_default': False}
                                                      if k in (VP, VK) else {}))
              for i, k in enumerate(ks)]
    assume_valid(E, params)
    return params


@harness('C12', cases=lambda tier: [(i,) for i in range(len(DEFAULTS))],
         bounds='a parameter with one of 25 defaults (containers, constants, classes) followed by '
                'a *args and a keyword-only parameter')
def default_str(E, case):
    default = DEFAULTS[case[0]](E.obj('a', (None,)), E.obj('b', ()))
    first = Param(E, 'p', kind=kinds()[E.select('k', [PO, PK])], optional=True, has_default=True,
                  default=default)
    params = [first, Param(E, 'q', kind=kinds()[VP], optional=True, has_default=False),
              Param(E, 's', kind=kinds()[KO])]
    assume_valid(E, params)
    returns = E.obj('returns', ())
    check_text(E, build(params, returns), params, returns)


@harness('C12', cases=lambda tier: [((), (PO,)), ((PK,), ()), ((KO,), (VK,)), ((), (), ()),
                                    ((PO, PK), (VP, KO))],
         bounds='overloaded signatures of 2-3 alternatives of up to 2 parameters')
def overloaded_str(E, case):
    described = [(symbolic_params_of(E, ks, 'abc'[i]), E.obj(f'r{i}', ()))
                 for i, ks in enumerate(case)]
    plains = [build(*d) for d in described]
    text = str(base().OverloadedSignature(*plains))
    E.show('text', text)
    parts = text.split(' | ')
    E.check(z3.BoolVal(len(parts) == len(plains)),
            'str of an overloaded signature is not its alternatives joined by " | "')
    for part, plain, d in zip(parts, plains, described):
        E.check(z3.BoolVal(part == str(plain)),
                'str of an overloaded signature is not its alternatives joined by " | "')
        check_text(E, plain, *d)


# ------------------------------------------------------------------------------------ copies
class _Pickler(pickle.Pickler):
    def __init__(self, file, protocol, kept):
        super().__init__(file, protocol)
        self.kept = kept

    def persistent_id(self, value):
        if en.is_symbolic(value) or type(value) is en.Val:
            self.kept.append(value)
            return len(self.kept) - 1


class _Unpickler(pickle.Unpickler):
    def __init__(self, file, kept):
        super().__init__(file)
        self.kept = kept

    def persistent_load(self, key):
        return self.kept[int(key)]


def pickled(value, protocol):
    file, kept = io.BytesIO(), []
    _Pickler(file, protocol, kept).dump(value)
    return _Unpickler(io.BytesIO(file.getvalue()), kept).load()


WAYS = [('pickling by protocol 2', lambda v: pickled(v, 2)),
        ('pickling by protocol 3', lambda v: pickled(v, 3)),
        ('pickling by protocol 4', lambda v: pickled(v, 4)),
        ('pickling by protocol 5', lambda v: pickled(v, 5)),
        ('copy.copy', copy.copy), ('copy.deepcopy', copy.deepcopy)]


def copied(E, value, way):
    name, function = WAYS[way]
    outcome, result = E.call(lambda: function(value))
    if outcome == 'exc':
        E.fail(f'{name} raised {type(result).__name__}')
    E.check(z3.BoolVal(type(result) is type(value)), f'{name} gives an object of another class')
    return name, result


@harness('C13', cases=lambda tier: [(n, way) for n in range(3 if tier == 'quick' else 4)
                                    for way in range(len(WAYS))], weight=lambda c: c[0],
         bounds='plain signatures of up to 2 (thorough 3) parameters with all fields arbitrary; '
                'pickle protocols 2-5, copy.copy, copy.deepcopy')
def plain_copies(E, case):
    n, way = case
    params = symbolic_params(E, n)
    returns = E.obj('returns', (None, False))
    signature = build(params, returns)
    name, result = copied(E, signature, way)
    E.check(z3.BoolVal(len(result.parameters) == n), f'{name} changes the number of parameters')
    for p, parameter in zip(params, result.parameters):
        E.check(same_param(E, parameter, p), f'{name} changes a parameter of the signature')
    E.check(E.ox(result.returns) == E.ox(returns), f'{name} changes the return annotation')
    E.check(z3.BoolVal(bool(result == signature) and bool(signature == result)),
            f'{name} gives an unequal signature')
    for p, parameter in zip(params, signature.parameters):
        E.check(same_param(E, parameter, p), f'{name} changes the original')


@harness('C13', cases=lambda tier: [(way,) for way in range(len(WAYS))],
         bounds='any parameter; pickle protocols 2-5, copy.copy, copy.deepcopy')
def parameter_copies(E, case):
    p = Param(E, 'p', specials=(None, Ellipsis, False, 0, ''))
    assume_parameter(E, p)
    parameter = p.build()
    name, result = copied(E, parameter, case[0])
    E.check(same_param(E, result, p), f'{name} changes a parameter')
    E.check(z3.BoolVal(bool(result == parameter) and bool(parameter == result)),
            f'{name} gives an unequal parameter')


@harness('C13', cases=lambda tier: [(sizes, way) for sizes in [(0, 0), (0, 1), (1, 0, 0)]
                                    for way in range(len(WAYS))],
         bounds='overloaded signatures of 2-3 alternatives of up to 1 parameter; pickle protocols '
                '2-5, copy.copy, copy.deepcopy')
def overloaded_copies(E, case):
    sizes, way = case
    plains = [build(symbolic_params(E, n, 'abc'[i]), E.obj(f'r{i}', (None,)))
              for i, n in enumerate(sizes)]
    signature = base().OverloadedSignature(*plains)
    name, result = copied(E, signature, way)
    E.check(z3.BoolVal(len(result.signatures) == len(plains)),
            f'{name} changes the number of alternatives')
    for a, b in zip(result.signatures, plains):
        E.check(same_plain(E, a, b), f'{name} changes an alternative')
    E.check(z3.BoolVal(bool(result == signature)), f'{name} gives an unequal signature')
