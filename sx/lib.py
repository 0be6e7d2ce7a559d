"""Shared pieces of the harnesses: symbolic parameters, signatures and arguments."""
import inspect

import z3

from . import engine as en
from .registry import HarnessError, checked, entry, module

PO, PK, VP, KO, VK = range(5)


def models():
    return module('paradigm._core.models')


def base():
    """The public names of the package."""
    return module('paradigm.base')


def kinds():
    kind = entry('paradigm.base', 'ParameterKind')
    try:
        return [kind.POSITIONAL_ONLY, kind.POSITIONAL_OR_KEYWORD, kind.VARIADIC_POSITIONAL,
                kind.KEYWORD_ONLY, kind.VARIADIC_KEYWORD]
    except AttributeError as error:
        raise HarnessError(str(error))


GIVEN = object()


class Param:
    """Symbolic description of one parameter: what the harness knows of it."""

    def __init__(self, E, tag, *, kind=None, optional=None, has_default=None, fresh=False,
                 specials=(None, False), name=None, annotation=GIVEN, default=GIVEN):
        self.tag = tag
        self.name = E.name('n' + tag, fresh) if name is None else name
        self.annotation = E.obj('a' + tag, ()) if annotation is GIVEN else annotation
        self.kind_value = E.choice('k' + tag, kinds()) if kind is None else kind
        self.kind = E.cx(self.kind_value, kinds())
        self.optional = E.flag('o' + tag) if optional is None else optional
        if has_default is None:
            has_default = self.optional and E.flag('h' + tag)
        self.has_default = has_default
        self.default = (E.obj('d' + tag, specials) if default is GIVEN else default) \
            if has_default else None
        self.x = E.nx(self.name)
        self.key = (tag, str(self.x), str(self.kind), self.optional, self.has_default)

    def build(self):
        b = base()
        if not self.optional:
            return b.RequiredParameter(annotation=self.annotation, kind=self.kind_value,
                                       name=self.name)
        extra = {'default': self.default} if self.has_default else {}
        return b.OptionalParameter(annotation=self.annotation, kind=self.kind_value,
                                   name=self.name, **extra)

    # formulas
    @property
    def named(self):
        return z3.Or(self.kind == PK, self.kind == KO)

    @property
    def positional(self):
        return z3.Or(self.kind == PO, self.kind == PK)

    @property
    def variadic(self):
        return z3.Or(self.kind == VP, self.kind == VK)


def parameter_valid(p):
    """Can Python have such a parameter at all?"""
    return z3.And(z3.Implies(p.variadic, z3.And(p.optional, z3.Not(p.has_default))))


def conj(*formulas):
    return z3.And(list(formulas)) if formulas else z3.BoolVal(True)


def disj(formulas):
    formulas = list(formulas)
    return z3.Or(formulas) if formulas else z3.BoolVal(False)


def order_valid(params):
    """Can Python have such a list of parameters?"""
    parts = []
    for j, q in enumerate(params):
        for i in range(j):
            p = params[i]
            parts.append(p.x != q.x)
            parts.append(p.kind <= q.kind)
            parts.append(z3.Not(z3.And(p.kind == q.kind, p.variadic)))
            parts.append(z3.Not(z3.And(p.positional, q.positional, p.optional, not q.optional)))
    return conj(*parts)


def assume_valid(E, params):
    for p in params:
        E.assume(parameter_valid(p))
    E.assume(order_valid(params))


def symbolic_params(E, n, prefix='p', **options):
    result = []
    for i in range(n):
        p = Param(E, f'{prefix}{i}', **options)
        assume_parameter(E, p)
        result.append(p)
    E.assume(E.memo(('order', tuple(p.key for p in result)), lambda: order_valid(result)))
    return result


def assume_parameter(E, p):
    E.assume(E.memo(('valid', p.key), lambda: parameter_valid(p)))


def arguments(E, m, k, prefix='', fresh=False, extra=()):
    """m positional and k keyword arguments, keywords pairwise distinct."""
    args = [E.obj(f'{prefix}arg{j}', (None, False)) for j in range(m)]
    names = [E.name(f'{prefix}kw{j}', fresh) for j in range(k)] + list(extra)
    for j, name in enumerate(names):
        for i in range(j):
            E.assume(E.memo(('distinct', str(E.nx(names[i])), str(E.nx(name))),
                            lambda: E.nx(names[i]) != E.nx(name)))
    values = [E.obj(f'{prefix}val{j}', (None, False)) for j in range(len(names))]
    return args, names, values


class CallOracle:
    """Python's argument binding rules, as formulas."""

    def __init__(self, E, params, m, keyword_xs):
        self.E, self.params, self.m, self.keywords = E, params, m, keyword_xs
        npos = z3.Sum([z3.IntVal(0)] + [z3.If(p.positional, 1, 0) for p in params])
        has_vp = disj(p.kind == VP for p in params)
        has_vk = disj(p.kind == VK for p in params)
        self.consumed = [z3.And(p.positional, z3.BoolVal(i < m)) for i, p in enumerate(params)]
        self.matches = [[z3.And(p.named, p.x == x) for x in keyword_xs] for p in params]
        too_many = z3.And(m > npos, z3.Not(has_vp))
        keyword_ok = []
        for j in range(len(keyword_xs)):
            taken = disj(z3.And(self.consumed[i], self.matches[i][j]) for i in range(len(params)))
            free = disj(z3.And(z3.Not(self.consumed[i]), self.matches[i][j])
                        for i in range(len(params)))
            keyword_ok.append(z3.Or(free, z3.And(has_vk, z3.Not(taken))))
        self.expects = z3.And(z3.Not(too_many), *keyword_ok)
        self.all_set = z3.And(self.expects, *[
            z3.Or(self.consumed[i], p.variadic, z3.BoolVal(p.optional), disj(self.matches[i]))
            for i, p in enumerate(params)])


def real_function(params, returns=None):
    """A Python function with the given (concrete) parameters."""
    names, parts = {}, []
    ks = [kinds().index(p.kind_value) for p in params]
    for i, (p, k) in enumerate(zip(params, ks)):
        text = {VP: '*', VK: '**'}.get(k, '') + p.name
        if p.optional and k not in (VP, VK):
            names[f'_d{i}'] = p.default
            text += f'=_d{i}'
        if k == KO and VP not in ks and (i == 0 or ks[i - 1] != KO):
            parts.append('*')
        parts.append(text)
        if k == PO and (i + 1 == len(ks) or ks[i + 1] != PO):
            parts.append('/')
    namespace = dict(names)
    exec(f'def _f({", ".join(parts)}): pass', namespace)
    return namespace['_f']


def same_param(E, actual, p, *, kind=None, optional=None, has_default=None, default_x=None):
    """The built parameter reports exactly what p says (overridden parts aside)."""
    b = base()
    optional = p.optional if optional is None else optional
    has_default = p.has_default if has_default is None else has_default
    is_optional = isinstance(actual, b.OptionalParameter)
    parts = [E.nx(actual.name) == p.x, E.ox(actual.annotation) == E.ox(p.annotation),
             E.cx(actual.kind, kinds()) == (p.kind if kind is None else kind),
             z3.BoolVal(is_optional) == optional,
             z3.BoolVal(isinstance(actual, (b.RequiredParameter, b.OptionalParameter)))]
    if is_optional:
        actual_has = E.bx(actual.has_default)
        parts.append(actual_has == has_default)
        if z3.is_true(z3.simplify(actual_has)):
            expected = E.ox(p.default) if default_x is None and p.has_default else default_x
            if expected is not None:
                parts.append(z3.Implies(has_default, E.ox(actual.default) == expected))
    return conj(*parts)


def same_parameter(E, a, b):
    """Formula: two built parameters are the same, field by identical field."""
    c = base()
    if type(a) is not type(b):
        return z3.BoolVal(False)
    parts = [E.nx(a.name) == E.nx(b.name), E.ox(a.annotation) == E.ox(b.annotation),
             E.cx(a.kind, kinds()) == E.cx(b.kind, kinds())]
    if isinstance(a, c.OptionalParameter):
        has_a, has_b = E.decide(E.bx(a.has_default)), E.decide(E.bx(b.has_default))
        if has_a is not has_b:
            return z3.BoolVal(False)
        if has_a:
            parts.append(E.ox(a.default) == E.ox(b.default))
    return conj(*parts)


def same_plain(E, a, b):
    c = base()
    if not (isinstance(a, c.PlainSignature) and isinstance(b, c.PlainSignature)
            and len(a.parameters) == len(b.parameters)):
        return z3.BoolVal(False)
    return conj(E.ox(a.returns) == E.ox(b.returns),
                *[same_parameter(E, p, q) for p, q in zip(a.parameters, b.parameters)])


def alternatives(signature):
    c = base()
    return (list(signature.signatures) if isinstance(signature, c.OverloadedSignature)
            else [signature])


def build(params, returns):
    return base().PlainSignature(*[p.build() for p in params], returns=returns)
