"""C14: callables no stub describes."""
import inspect

import z3

from .. import world
from ..lib import *
from ..registry import harness
from .bound import raw_parameter, raw_signature
from .described import (ANY, SELF, STUB, annotation_is, layouts, python_class, python_function,
                        signature_of)

RAW_KINDS = [inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD,
             inspect.Parameter.VAR_POSITIONAL, inspect.Parameter.KEYWORD_ONLY,
             inspect.Parameter.VAR_KEYWORD]
EMPTY = inspect.Parameter.empty
OTHER = 'def g(x: int) -> str: ...\nclass L:\n    def m(self, x: int) -> str: ...\n'


class Raw:
    """A parameter as inspection reports it."""

    def __init__(self, E, tag, section, *, annotated=None, has_default=None, fresh=False,
                 text=None, specials=(None, False, Ellipsis, 0, '')):
        self.section = section
        self.text = text
        self.name = E.name('n' + tag, fresh) if text is None else text
        self.x = E.nx(self.name)
        self.annotated = E.flag('A' + tag) if annotated is None else annotated
        self.annotation = E.obj('a' + tag, (None, )) if self.annotated else EMPTY
        if section in (VP, VK):
            has_default = False
        self.has_default = E.flag('h' + tag) if has_default is None else has_default
        self.default = E.obj('d' + tag, specials) if self.has_default else EMPTY

    def build(self):
        return raw_parameter(self.name, RAW_KINDS[self.section], self.annotation, self.default)


def raw_list(E, layout, **options):
    posonly, normal, var, kwonly, kw = layout
    texts = options.pop('texts', None)
    result = []
    sections = [PO] * posonly + [PK] * normal + [VP] * var + [KO] * kwonly + [VK] * kw
    started = False  # Python lets no required positional parameter follow an optional one
    for i, section in enumerate(sections):
        forced = dict(options)
        if section in (PO, PK) and started:
            forced['has_default'] = True
        p = Raw(E, f'p{i}', section, text=texts[i] if texts else None, **forced)
        started = started or section in (PO, PK) and p.has_default
        result.append(p)
    for i, p in enumerate(result):
        for q in result[:i]:
            E.assume(p.x != q.x)
    return result


def check_mirrors(E, signature, params, returns):
    b = base()
    E.check(z3.BoolVal(isinstance(signature, b.PlainSignature)), 'not a plain signature')
    actual = list(signature.parameters)
    E.check(z3.BoolVal(len(actual) == len(params)),
            'another number of parameters than inspection reports')
    for p, q in zip(params, actual):
        E.check(E.nx(q.name) == p.x, 'a parameter has another name than inspection reports')
        E.check(E.cx(q.kind, kinds()) == p.section,
                'a parameter has another kind than inspection reports')
        optional = p.has_default or p.section in (VP, VK)
        E.check(z3.BoolVal(isinstance(q, b.OptionalParameter) is optional),
                'a parameter is optional although inspection reports it as required, or the '
                'reverse')
        E.check(annotation_is(E, q.annotation, p.annotation if p.annotated else ANY),
                'a parameter has another annotation than inspection reports')
        if optional:
            E.check(E.bx(q.has_default) == p.has_default,
                    'a parameter has a default inspection does not report, or lacks one')
            if p.has_default:
                E.check(E.ox(q.default) == E.ox(p.default),
                        'a parameter has another default than inspection reports')
    E.check(annotation_is(E, signature.returns, returns), 'other returns than inspection reports')


def cases(tier):
    return [(layout, annotated, variant) for layout in layouts(3 if tier == 'quick' else 4)
            for annotated in ((None,) if sum(layout) < 3 else (False, True))
            for variant in ('undescribed module', 'undescribed function')]


def returns_of(E, annotated):
    given = E.flag('R') if annotated is None else annotated
    return E.obj('r', (None,)) if given else EMPTY


@harness('C14', cases=cases, weight=lambda c: sum(c[0]),
         bounds='functions reporting up to 3 (thorough 4) parameters of any kinds with arbitrary '
                'names, annotations, defaults (None, False, ... included) and returns; in a '
                'module without stub or in one whose stub does not mention them')
def functions(E, case):
    layout, annotated, variant = case
    params = raw_list(E, layout, annotated=annotated)
    returns = returns_of(E, annotated)
    if variant == 'undescribed module':
        world.load(None)
    else:
        world.world(E, {STUB: OTHER})
    callable_ = python_function(STUB, 'f')
    callable_.__signature__ = raw_signature([p.build() for p in params], returns)
    check_mirrors(E, signature_of(E, callable_), params, ANY if returns is EMPTY else returns)


def real(E, params, returns, name, receiver=()):
    """A real function: names are those of the code, the rest is symbolic."""
    parts = list(receiver)
    sections = [p.section for p in params]
    for i, p in enumerate(params):
        if p.section == KO and VP not in sections and (i == 0 or sections[i - 1] != KO):
            parts.append('*')
        parts.append({VP: '*', VK: '**'}.get(p.section, '') + p.text)
        if p.section == PO and (i + 1 == len(params) or sections[i + 1] != PO):
            parts.append('/')
    namespace = {}
    exec(f'def f({", ".join(parts)}): pass', namespace)
    f = namespace['f']
    defaults = tuple(p.default for p in params if p.section in (PO, PK) and p.has_default)
    f.__defaults__ = defaults or None
    f.__kwdefaults__ = {p.text: p.default for p in params
                        if p.section == KO and p.has_default} or None
    f.__annotations__ = {p.text: p.annotation for p in params if p.annotated}
    if returns is not EMPTY:
        f.__annotations__['return'] = returns
    f.__module__, f.__qualname__ = STUB, name
    f.__name__ = name.rpartition('.')[2]
    return f


VARIANTS = ('function', 'lambda', 'local', 'instance', 'class method', 'class method of instance',
            'static method', 'init', 'new', 'inherited init', 'unbound', 'metaclass',
            'undescribed member', 'function of no module', 'init of no module',
            'new of no module')
TEXTS = ['a', 'b', 'self', 'cls']


@harness('C14', cases=lambda tier: [(layout, variant) for layout in layouts(2 if tier == 'quick'
                                                                            else 3)
                                    for variant in VARIANTS],
         weight=lambda c: sum(c[0]),
         bounds='real functions, lambdas, local functions, methods bound to instances and '
                'classes, static methods, classes with __init__ or __new__ (own or inherited), '
                'methods of metaclasses, functions and classes without a module: up to 2 '
                '(thorough 3) parameters of any kinds, arbitrary annotations, defaults and '
                'returns')
def real_callables(E, case):
    layout, variant = case
    params = raw_list(E, layout, texts=TEXTS)
    returns = returns_of(E, None)
    if variant == 'undescribed member':
        world.world(E, {STUB: OTHER + 'class K:\n    x: int\n'})
    else:
        world.load(None)
    posonly = layout[0]
    nowhere = variant.endswith(' of no module')
    variant = variant.removesuffix(' of no module')
    receiver = ['this'] if variant not in ('function', 'lambda', 'local', 'static method') else []
    name = {'function': 'f', 'lambda': '<lambda>', 'local': 'g.<locals>.f', 'init': 'K.__init__',
            'inherited init': 'K.__init__', 'new': 'K.__new__'}.get(variant, 'K.m')
    f = real(E, params, returns, name, receiver)
    result = ANY if returns is EMPTY else returns
    expected = list(params)
    if variant in ('function', 'lambda', 'local'):
        callable_ = f
    elif variant in ('init', 'new', 'inherited init'):
        K = python_class(STUB, 'K', **{name[2:]: f})
        callable_ = python_class(STUB, 'B', (K,)) if variant == 'inherited init' else K
        result = SELF
    if nowhere:
        callable_.__module__ = E.select('module', [None, property(lambda self: STUB), 1, ''])
    if variant in ('function', 'lambda', 'local', 'init', 'new', 'inherited init'):
        pass
    elif variant == 'metaclass':
        callable_ = python_class(STUB, 'M', (type,), m=f)('K', (), {'__module__': STUB}).m
    else:
        wrapped = {'class method': classmethod, 'class method of instance': classmethod,
                   'static method': staticmethod}.get(variant, lambda value: value)(f)
        K = python_class(STUB, 'K', m=wrapped)
        callable_ = (K if variant in ('class method', 'static method', 'unbound') else K()).m
    if variant == 'unbound':
        this = Raw(E, 'this', PO if posonly else PK, annotated=False, has_default=False,
                   text='this')
        expected = [this] + expected
    check_mirrors(E, signature_of(E, callable_), expected, result)


def built_ins():
    return {'len': len, 'str.upper': str.upper, 'list.append': [].append, 'sorted': sorted,
            'int.__add__': int.__add__, 'bound __add__': (1).__add__, 'str.join': 'x'.join,
            'object.__eq__': object.__eq__, 'setattr': setattr, 'bytes.decode': bytes.decode,
            'str.split': str.split, 'bytes.fromhex': bytes.fromhex, 'compile': compile,
            'float': float, 'complex': complex, 'enumerate': enumerate, 'object': object,
            'dict.fromkeys': dict.fromkeys, 'int.mro': int.mro, 'bool.from_bytes': bool.from_bytes,
            'dict.fromkeys of a subclass': type('S', (dict,), {}).fromkeys,
            'mro of a subclass': type('S', (dict,), {}).mro, 'int.__new__': int.__new__}


@harness('C14', cases=lambda tier: [(name,) for name in built_ins()],
         bounds='built-in functions, methods, slot wrappers and classes with text signatures '
                '(concrete: ' + ', '.join(built_ins()) + ')')
def undescribed_built_ins(E, case):
    callable_ = built_ins()[case[0]]
    world.load(None)
    expected = inspect.signature(callable_)
    params = []
    for i, q in enumerate(expected.parameters.values()):
        p = object.__new__(Raw)
        p.section, p.name, p.x = RAW_KINDS.index(q.kind), q.name, E.nx(q.name)
        p.annotated, p.annotation = q.annotation is not EMPTY, q.annotation
        p.has_default, p.default = q.default is not EMPTY, q.default
        params.append(p)
    returns = expected.return_annotation
    check_mirrors(E, signature_of(E, callable_), params,
                  SELF if isinstance(callable_, type) else ANY if returns is EMPTY else returns)
