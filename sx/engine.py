"""Symbolic execution of real Python code on z3.

The code under test is executed by CPython itself, on proxies standing for symbolic inputs
(sx.instrument rewrites the operators Python does not let a proxy overload).  Whenever a
symbolic truth value steers the code, ``Engine.branch`` asks the solver which sides are
feasible under the path condition and explores all feasible ones, by re-execution.  ``check``
asks the solver whether an assertion can be false anywhere on the current path.

``SymEngine`` explores; ``ConcEngine`` runs the same harness on one concrete assignment
against the unmodified code (replay of counterexamples, validation of explored paths).
"""
import time

import z3


class PathAbort(BaseException):
    """Ends a path; derives from BaseException so that the code under test cannot swallow it."""


class Infeasible(PathAbort):
    pass


class LimitReached(PathAbort):
    pass


class NonDeterminism(BaseException):
    pass


class HarnessError(Exception):
    """The harness cannot drive the code (an entry point is missing, say): no answer."""


_current = None


def current():
    assert _current is not None
    return _current


def set_current(engine):
    global _current
    _current = engine


I = z3.IntSort()
B = z3.BoolSort()
EQC = z3.Function('eqc', I, I)  # equality class of an opaque value
TRUTHY = z3.Function('truthy', I, B)  # truth value of an opaque value
HASH = z3.Function('hash', I, I)  # hash of an equality class / of a name
NHASH = z3.Function('name_hash', I, I)
COMB = z3.Function('comb', I, I, I)  # combination of hashes in a tuple
_TRUE, _FALSE = z3.BoolVal(True), z3.BoolVal(False)
_PREDICATES = {}


def affix_predicate(sort, text):
    key = sort + ':' + text
    try:
        return _PREDICATES[key]
    except KeyError:
        result = _PREDICATES[key] = z3.Function(key, I, B)
        return result


SPECIALS = [None, Ellipsis, False, 0, '', NotImplemented]
# identities of special constants an opaque value may be; False == 0, so they share a class
SPECIAL_IDS = {0: -1, 1: -2, 2: -3, 3: -4, 4: -5, 5: -6}
SPECIAL_EQC = {-1: -1, -2: -2, -3: -3, -4: -3, -5: -5, -6: -6}
SPECIAL_TRUTHY = {-1: False, -2: True, -3: False, -4: False, -5: False, -6: True}
NAME_CONST_BASE = -1000


def special_id(value):
    for index, special in enumerate(SPECIALS):
        if value is special or (type(value) is type(special) and special in (False, 0, '')
                                and value == special and special is not None):
            return SPECIAL_IDS[index]
    return None


MEMO = {}


def memo(key, thunk):
    """Expressions are built once per process: the same object is the same formula."""
    try:
        return MEMO[key]
    except KeyError:
        result = MEMO[key] = thunk()
        return result


class SymBool:
    __slots__ = '_x', '_negated'

    def __init__(self, x, negated=False):
        self._x, self._negated = x, negated

    @property
    def x(self):
        return z3.Not(self._x) if self._negated else self._x

    def __bool__(self):
        return current().branch(self._x) is not self._negated

    def __and__(self, other):
        return SymBool(z3.And(self.x, to_bool_expr(other)))

    __rand__ = __and__

    def __or__(self, other):
        return SymBool(z3.Or(self.x, to_bool_expr(other)))

    __ror__ = __or__

    def __xor__(self, other):
        return SymBool(z3.Xor(self.x, to_bool_expr(other)))

    __rxor__ = __xor__

    def __eq__(self, other):
        if isinstance(other, (bool, SymBool)):
            return SymBool(self.x == to_bool_expr(other))
        return int(bool(self)) == other

    def __ne__(self, other):
        return negation(self == other)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def _as_int(self):
        return SymInt(z3.If(self.x, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, other):
        return self._as_int() + other

    __radd__ = __add__

    def __sub__(self, other):
        return self._as_int() - other

    def __rsub__(self, other):
        return other - self._as_int()

    def __mul__(self, other):
        return other * int(bool(self))

    __rmul__ = __mul__

    def __repr__(self):
        return repr(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def negation(value):
    if type(value) is SymBool:
        return SymBool(value._x, not value._negated)
    return not value


def to_bool_expr(value):
    if isinstance(value, SymBool):
        return value.x
    if isinstance(value, z3.BoolRef):
        return value
    return _TRUE if value else _FALSE


def to_int_expr(value):
    if isinstance(value, SymInt):
        return value.x
    if isinstance(value, SymBool):
        return z3.If(value.x, z3.IntVal(1), z3.IntVal(0))
    if isinstance(value, z3.ArithRef):
        return value
    return z3.IntVal(int(value))


def _int_like(value):
    return isinstance(value, (int, SymInt, SymBool))


class SymInt:
    __slots__ = 'x',

    def __init__(self, x):
        self.x = x

    def _bin(self, other, function):
        if not _int_like(other):
            return NotImplemented
        return SymInt(function(self.x, to_int_expr(other)))

    def _cmp(self, other, function):
        if not _int_like(other):
            return NotImplemented
        return SymBool(function(self.x, to_int_expr(other)))

    def __add__(self, other): return self._bin(other, lambda a, b: a + b)
    def __radd__(self, other): return self._bin(other, lambda a, b: b + a)
    def __sub__(self, other): return self._bin(other, lambda a, b: a - b)
    def __rsub__(self, other): return self._bin(other, lambda a, b: b - a)

    def __mul__(self, other):
        if isinstance(other, (str, list, tuple)):
            return other * self.__index__()
        return self._bin(other, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self): return SymInt(-self.x)
    def __pos__(self): return self

    def __abs__(self):
        return SymInt(z3.If(self.x >= 0, self.x, -self.x))

    def __lt__(self, other): return self._cmp(other, lambda a, b: a < b)
    def __le__(self, other): return self._cmp(other, lambda a, b: a <= b)
    def __gt__(self, other): return self._cmp(other, lambda a, b: a > b)
    def __ge__(self, other): return self._cmp(other, lambda a, b: a >= b)

    def __eq__(self, other):
        if not _int_like(other):
            return False
        return SymBool(self.x == to_int_expr(other))

    def __ne__(self, other):
        if not _int_like(other):
            return True
        return SymBool(self.x != to_int_expr(other))

    def __bool__(self):
        return current().branch(self.x != 0)

    def __index__(self):
        return current().concretize_int(self.x)

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return repr(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __floordiv__(self, other): return self.__index__() // other
    def __mod__(self, other): return self.__index__() % other


class SymObj:
    """An opaque value: only identity, equality, truth value and hash are known of it."""
    __slots__ = 'x', 'token', 'specials'

    def __init__(self, x, token, specials):
        self.x, self.token, self.specials = x, token, specials

    def __bool__(self):
        return current().branch(memo(('truthy', self.token), lambda: TRUTHY(self.x)))

    def __eq__(self, other):
        if isinstance(other, SymObj):
            return SymBool(memo(('oeq', self.token, other.token),
                                lambda: EQC(self.x) == EQC(other.x)))
        if isinstance(other, (SymName, SymChoice, SymBool, SymInt)):
            return False
        key = special_id(other)
        if key is not None:
            return SymBool(memo(('oeqs', self.token, key),
                                lambda: EQC(self.x) == SPECIAL_EQC[key]))
        return False

    def __ne__(self, other):
        return negation(self == other)

    def __hash__(self):
        return 90210

    def __repr__(self):
        return self.token

    def __str__(self):
        return self.token.replace('sxo_', 'sxs_', 1)

    def __format__(self, spec):
        return str(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __call__(self, *args, **kwargs):  # typing accepts only callables as arguments
        raise TypeError('opaque value is not callable')

    def __pos__(self):
        if current().vars[self.token[4:-1]][0] != 'const':
            raise TypeError('opaque value has no sign')
        return SymInt(self.x + CONST_BASE)

    def __neg__(self):
        return -+self


class SymName(str):
    """A symbolic identifier.  The underlying text is a token that stands for it in built strings."""
    __slots__ = ('x', 'fresh')

    def __new__(cls, x, token, fresh):
        self = super().__new__(cls, token)
        self.x, self.fresh = x, fresh
        return self

    @property
    def token(self):
        return str.__str__(self)

    def _eq_expr(self, other):
        if isinstance(other, SymName):
            return memo(('neq', self.token, other.token), lambda: self.x == other.x)
        if isinstance(other, str):
            if type(other) is not str:
                other = str.__str__(other)
            symbol = current().tokens.get(other)
            if symbol is not None:
                return memo(('neq', self.token, symbol.token), lambda: self.x == symbol.x)
            if self.fresh or not other.isidentifier():
                return None
            number = current().name_const_int(other)
            return memo(('neqc', self.token, number), lambda: self.x == number)
        return None

    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, str):
            return NotImplemented
        expr = self._eq_expr(other)
        return False if expr is None else SymBool(expr)

    def __ne__(self, other):
        result = self.__eq__(other)
        if result is NotImplemented:
            return result
        return negation(result)

    def __hash__(self):
        return 424242

    def __bool__(self):
        return True

    def __str__(self):
        return self

    def __repr__(self):
        return repr(str.__add__(self, ''))

    def __format__(self, spec):
        return self if not spec else format(str.__add__(self, ''), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _affix(self, sort, value):
        if isinstance(value, tuple):
            return SymBool(z3.Or([to_bool_expr(self._affix(sort, v)) for v in value]))
        if value == '':
            return True
        return SymBool(current().affix(sort, value, self.x))

    def startswith(self, prefix, *bounds):
        if bounds:
            current().mark_incomplete('str.startswith with bounds')
        return self._affix('starts', prefix)

    def endswith(self, suffix, *bounds):
        if bounds:
            current().mark_incomplete('str.endswith with bounds')
        return self._affix('ends', suffix)

    def isidentifier(self):
        return True

    def split(self, sep=None, maxsplit=-1):
        return [self]

    rsplit = split

    def partition(self, sep):
        return (self, '', '')

    def rpartition(self, sep):
        return ('', '', self)

    def strip(self, *args):
        if args:
            current().mark_incomplete('str.strip')
        return self

    def __contains__(self, item):
        if isinstance(item, str) and not item.replace('.', 'x').isidentifier():
            return False
        if item == '.':
            return False
        current().mark_incomplete('substring test on a symbolic name')
        return str.__contains__(self, item)

    def __getitem__(self, item):
        if isinstance(item, slice) and item.step is None:
            if item.start in (None, 0) and isinstance(item.stop, int) and item.stop > 0:
                return _Affix(self, 'starts', item.stop)
            if item.stop is None and isinstance(item.start, int) and item.start < 0:
                return _Affix(self, 'ends', -item.start)
        elif item == 0:
            return _Affix(self, 'starts', 1)
        elif item == -1:
            return _Affix(self, 'ends', 1)
        current().mark_incomplete('indexing a symbolic name')
        return str.__getitem__(self, item)

    def __add__(self, other):
        return str.__add__(self, other)

    def __lt__(self, other): return self._order(other, lambda a, b: a < b)
    def __le__(self, other): return self._order(other, lambda a, b: a <= b)
    def __gt__(self, other): return self._order(other, lambda a, b: a > b)
    def __ge__(self, other): return self._order(other, lambda a, b: a >= b)

    def _order(self, other, function):
        if not isinstance(other, str):
            return NotImplemented
        # generated names sort as their numbers, see ConcEngine.name_text
        return SymBool(function(self.x, other.x if isinstance(other, SymName)
                                else current().name_const(other)))

    def _unsupported(name):
        def method(self, *args, **kwargs):
            current().mark_incomplete('str.' + name)
            return getattr(str, name)(str.__add__(self, ''), *args, **kwargs)
        return method

    for _name in ('__len__', '__iter__', 'lower', 'upper', 'title', 'replace', 'encode', 'find',
                  'index', 'count', 'isupper', 'islower', 'casefold', 'capitalize', 'lstrip',
                  'rstrip', 'removeprefix', 'removesuffix', 'isalpha', 'isalnum', 'isdigit',
                  '__mod__', '__mul__', 'translate', 'zfill', 'ljust', 'rjust', 'center'):
        locals()[_name] = _unsupported(_name)
    del _name, _unsupported

    def __reduce_ex__(self, protocol):
        raise TypeError('symbolic names are pickled by persistent id')


class _Affix(str):
    def __new__(cls, name, sort, length):
        self = super().__new__(cls, 'sx_affix')
        self.name, self.sort, self.length = name, sort, length
        return self

    def __eq__(self, other):
        if isinstance(other, str) and not isinstance(other, (SymName, _Affix)):
            if len(other) != self.length:
                return False
            return SymBool(current().affix(self.sort, other, self.name.x))
        current().mark_incomplete('comparison of slices of symbolic names')
        return False

    def __ne__(self, other):
        return negation(self == other)

    def __hash__(self):
        current().mark_incomplete('hash of a slice of a symbolic name')
        return 0


class SymChoice:
    """One of finitely many concrete objects."""
    __slots__ = '_x', '_members', '_tag'

    def __init__(self, x, members, tag):
        self._x, self._members, self._tag = x, members, tag

    def _sx_pick(self):
        return current().pick(self._x, self._members, self._tag)

    def _sx_any(self, predicate):
        indices = tuple(i for i, member in enumerate(self._members) if predicate(member))
        if not indices:
            return _FALSE
        if len(indices) == len(self._members):
            return _TRUE
        return memo(('c', self._tag, indices), lambda: z3.Or([self._x == i for i in indices]))

    def _sx_pairs(self, other, predicate):
        pairs = tuple((i, j) for i, a in enumerate(self._members)
                      for j, b in enumerate(other._members) if predicate(a, b))
        return memo(('cc', self._tag, other._tag, pairs),
                    lambda: z3.Or([z3.And(self._x == i, other._x == j) for i, j in pairs]))

    @property
    def __class__(self):
        classes = {type(member) for member in self._members}
        if len(classes) == 1:
            return next(iter(classes))
        return type(self._sx_pick())

    def __getattr__(self, name):
        return getattr(self._sx_pick(), name)

    def __hash__(self):
        return hash(self._sx_pick())

    def __bool__(self):
        return current().branch(self._sx_any(bool))

    def _rel(self, other, function):
        if type(other) is SymChoice:
            return SymBool(self._sx_pairs(other, function))
        if isinstance(other, (SymInt, SymObj, SymName, SymBool)):
            return function(self._sx_pick(), other)
        return SymBool(self._sx_any(lambda member: bool(function(member, other))))

    def __eq__(self, other): return self._rel(other, lambda a, b: a == b)
    def __ne__(self, other): return self._rel(other, lambda a, b: a != b)
    def __lt__(self, other): return self._ord(other, lambda a, b: a < b)
    def __le__(self, other): return self._ord(other, lambda a, b: a <= b)
    def __gt__(self, other): return self._ord(other, lambda a, b: a > b)
    def __ge__(self, other): return self._ord(other, lambda a, b: a >= b)

    def _ord(self, other, function):
        members = list(self._members) + (list(other._members) if type(other) is SymChoice else [other])
        if all(isinstance(member, int) for member in members):
            return self._rel(other, function)
        return function(self._sx_pick(), other._sx_pick() if type(other) is SymChoice else other)

    def __int__(self): return int(self._sx_pick())
    def __index__(self): return self._sx_pick().__index__()
    def __repr__(self): return repr(self._sx_pick())
    def __str__(self): return str(self._sx_pick())
    def __format__(self, spec): return format(self._sx_pick(), spec)
    def __len__(self): return len(self._sx_pick())
    def __iter__(self): return iter(self._sx_pick())
    def __getitem__(self, item): return self._sx_pick()[item]
    def __call__(self, *args, **kwargs): return self._sx_pick()(*args, **kwargs)
    def __add__(self, other): return self._sx_pick() + other
    def __sub__(self, other): return self._sx_pick() - other

    def __reduce_ex__(self, protocol):
        return self._sx_pick().__reduce_ex__(protocol)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


SYMBOLIC = (SymBool, SymInt, SymObj, SymName, SymChoice, _Affix)


def is_symbolic(value):
    return type(value) in SYMBOLIC


# ---------------------------------------------------------------- hooks used by instrumented code
def op_is(left, right):
    if left is right:
        return True
    tl, tr = type(left), type(right)
    if tl is SymChoice or tr is SymChoice:
        if tl is not SymChoice:
            left, right, tl, tr = right, left, tr, tl
        if tr is SymChoice:
            return SymBool(left._sx_pairs(right, lambda a, b: a is b))
        return SymBool(left._sx_any(lambda member: member is right))
    if tl is SymObj or tr is SymObj:
        if tl is not SymObj:
            left, right, tl, tr = right, left, tr, tl
        if tr is SymObj:
            return SymBool(memo(('ois', left.token, right.token), lambda: left.x == right.x))
        key = special_id(right)
        if key is not None and any(right is s for s in left.specials):
            return SymBool(memo(('oiss', left.token, key), lambda: left.x == key))
        return False
    if tl is SymBool and isinstance(right, bool):
        return SymBool(left.x == to_bool_expr(right))
    if tr is SymBool and isinstance(left, bool):
        return SymBool(right.x == to_bool_expr(left))
    if tl is SymBool and tr is SymBool:
        return SymBool(left.x == right.x)
    if tl is SymName and tr is SymName:
        # equal identifiers occurring in source are interned
        return SymBool(left._eq_expr(right))
    return False


def op_is_not(left, right):
    result = op_is(left, right)
    return negation(result)


def op_in(item, container):
    kind = type(container)
    if kind in (tuple, list, set, frozenset) and (is_symbolic(item)
                                                  or any(is_symbolic(e) for e in container)):
        exprs = []
        for element in container:
            if element is item:
                return True
            result = element == item
            if isinstance(result, SymBool):
                exprs.append(result.x)
            elif result:
                return True
        if not exprs:
            return False
        return SymBool(z3.Or(exprs))
    if (kind is dict or isinstance(container, (type({}.keys()),))) and is_symbolic(item):
        exprs = []
        for element in container:
            if element is item:
                return True
            result = element == item
            if isinstance(result, SymBool):
                exprs.append(result.x)
            elif result:
                return True
        return SymBool(z3.Or(exprs)) if exprs else False
    return item in container


def op_not_in(item, container):
    result = op_in(item, container)
    return negation(result)


def op_type(value):
    kind = type(value)
    if kind is SymName or kind is _Affix:
        return str
    if kind is SymBool:
        return bool
    if kind is SymInt:
        return int
    if kind is SymChoice:
        return value.__class__
    return kind


def op_isinstance(value, classes):
    kind = type(value)
    if kind is SymBool:
        return isinstance(True, classes)
    if kind is SymInt:
        return isinstance(1, classes)
    if kind is SymChoice:
        return SymBool(value._sx_any(lambda member: isinstance(member, classes)))
    return isinstance(value, classes)


def hash_expr(value):
    """z3 expression of hash(value), built structurally."""
    kind = type(value)
    if kind is SymName:
        return NHASH(value.x)
    if kind is SymObj:
        return HASH(EQC(value.x))
    if kind is SymInt:
        return value.x
    if kind is SymBool:
        return to_int_expr(value)
    if kind is SymChoice:
        result = z3.IntVal(hash(value._members[-1]))
        for i, member in list(enumerate(value._members))[:-1]:
            result = z3.If(value._x == i, z3.IntVal(hash(member)), result)
        return result
    if kind is tuple or kind is list:
        if kind is list:
            raise TypeError("unhashable type: 'list'")
        result = z3.IntVal(len(value))
        for element in value:
            result = COMB(result, hash_expr(element))
        return result
    if kind is frozenset:
        return z3.Sum([z3.IntVal(1927868237)] + [hash_expr(e) for e in value])
    engine = current()
    if kind is str and value.isidentifier():
        return NHASH(z3.IntVal(engine.name_const_int(value)))
    special = special_id(value)
    if special is not None:
        return HASH(z3.IntVal(SPECIAL_EQC[special]))
    method = kind.__hash__
    if method is None:
        raise TypeError(f"unhashable type: '{kind.__name__}'")
    if getattr(method, '__globals__', {}).get('__sx_instrumented__'):
        result = method(value)
        return to_int_expr(result)
    return z3.IntVal(hash(value))


def op_hash(value):
    if type(value) in (int, float, bytes, type, bool, type(None)):
        return hash(value)
    expr = hash_expr(value)
    return expr.as_long() if z3.is_int_value(expr) else SymInt(expr)


def op_id(value):
    if type(value) is SymObj:
        return SymInt(value.x)
    return id(value)


# ---------------------------------------------------------------- engines
class Counterexample(Exception):
    def __init__(self, message, assignment):
        super().__init__(message)
        self.message, self.assignment = message, assignment


class SymEngine:
    concrete = False

    def __init__(self, *, deadline=None, max_paths=10 ** 9, max_branches=20000, max_cex=3):
        self.solver = z3.Solver()
        self.solver.set('timeout', 60000)
        self.deadline, self.max_paths, self.max_branches = deadline, max_paths, max_branches
        self.max_cex = max_cex
        self.trail = []
        self.names_consts = {}
        self.stats = {'paths': 0, 'aborted': 0, 'branches': 0, 'queries': 0, 'checks': 0,
                      'solver_s': 0.0, 'unknown': 0, 'max_depth': 0}
        self.incomplete = {}
        self.functions = set()
        self.cexes = []
        self.exhausted = False
        self.dead = False  # the current path holds an abort

    # -- solver
    def _check(self, *assumptions):
        begin = time.perf_counter()
        result = self.solver.check(*assumptions)
        self.stats['solver_s'] += time.perf_counter() - begin
        self.stats['queries'] += 1
        if result == z3.unknown:
            self.stats['unknown'] += 1
        return result

    # -- exploration
    def explore(self, run, on_path=None):
        set_current(self)
        self.base_asserts = set()
        first = True
        try:
            while True:
                self.pos = 0
                self.vars = {}
                self.picked = {}
                self.local_asserts = []
                self.path_checks = 0
                self.queried_affixes = set()
                self.tokens = {}
                self.notes = []
                self.log = []
                completed = False
                try:
                    if first:
                        self.model = None
                        if self._check() != z3.sat:
                            raise HarnessError('unsatisfiable base')
                        self.model = self.solver.model()
                        first = False
                    run(self)
                    completed = True
                except Infeasible:
                    self.stats['aborted'] += 1
                except HarnessError:
                    raise
                except Exception as error:
                    self._unexpected(error)
                if completed:
                    self.stats['paths'] += 1
                    if self.pos < len(self.trail):
                        raise NonDeterminism('path ended early on replay')
                    if on_path is not None:
                        on_path(self)
                if len(self.cexes) >= self.max_cex:
                    return
                if self.stats['paths'] >= self.max_paths:
                    raise LimitReached('paths')
                # backtrack
                while self.trail:
                    entry = self.trail[-1]
                    if entry[2] is not None:
                        break
                    self.solver.pop()
                    self.trail.pop()
                else:
                    self.exhausted = True
                    return
                cond, value, alternative = entry
                self.solver.pop()
                self.solver.push()
                self.solver.add(z3.Not(cond) if value else cond)
                self.model = alternative
                self.trail[-1] = (cond, not value, None)
        except LimitReached as error:
            self.mark_incomplete('limit: ' + str(error))
        finally:
            set_current(None)

    def _unexpected(self, error):
        import traceback
        self.cexes.append(('unexpected ' + type(error).__name__ + ': '
                           + ''.join(traceback.format_exception(error))[-1500:],
                           self.assignment()))

    def branch(self, cond):
        if cond is _TRUE:
            return True
        if cond is _FALSE:
            return False
        pos = self.pos
        if pos < len(self.trail):
            entry = self.trail[pos]
            if entry[0] is cond or entry[0].eq(cond):
                self.pos += 1
                return entry[1]
        simple = z3.simplify(cond)
        if z3.is_true(simple):
            return True
        if z3.is_false(simple):
            return False
        if pos < len(self.trail):
            raise NonDeterminism(f'{entry[0]} vs {cond}')
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise LimitReached('time')
        if pos > self.max_branches:
            raise LimitReached('branches')
        self.stats['branches'] += 1
        value = z3.is_true(self.model.eval(cond, model_completion=True))
        other = z3.Not(cond) if value else cond
        result = self._check(other)
        if result == z3.sat:
            alternative = self.solver.model()
        elif result == z3.unsat:
            alternative = None
        else:
            self.mark_incomplete('solver answered unknown at a branch')
            alternative = None
        self.solver.push()
        if alternative is not None:
            self.solver.add(cond if value else z3.Not(cond))
        self.trail.append((cond, value, alternative))
        self.pos += 1
        self.stats['max_depth'] = max(self.stats['max_depth'], self.pos)
        return value

    def decide(self, value):
        return self.branch(to_bool_expr(value))

    def assume(self, value):
        """Restricts the inputs; both sides are treated as a branch with the false side dropped."""
        cond = to_bool_expr(value)
        pos = self.pos
        if pos < len(self.trail) and (self.trail[pos][0] is cond or self.trail[pos][0].eq(cond)):
            self.pos += 1
            return
        simple = z3.simplify(cond)
        if z3.is_true(simple):
            return
        if z3.is_false(simple):
            raise Infeasible
        if pos < len(self.trail):
            raise NonDeterminism(f'{self.trail[pos][0]} vs {cond}')
        holds = z3.is_true(self.model.eval(cond, model_completion=True))
        if not holds:
            result = self._check(cond)
            if result == z3.unknown:
                self.mark_incomplete('solver answered unknown at an assumption')
                raise Infeasible
            if result != z3.sat:
                raise Infeasible
            self.model = self.solver.model()
        self.solver.push()
        self.solver.add(cond)
        self.trail.append((cond, True, None))
        self.pos += 1

    def check(self, value, message):
        cond = to_bool_expr(value)
        self.path_checks += 1
        self.stats['checks'] += 1
        if self.pos < len(self.trail):  # already decided on the path explored before
            return
        if z3.is_true(z3.simplify(cond)):
            return
        result = self._check(z3.Not(cond))
        if result == z3.unsat:
            return
        if result == z3.unknown:
            self.mark_incomplete('solver answered unknown at an assertion')
            return
        self.cexes.append((message, self.assignment(self.solver.model())))
        raise Infeasible

    def fail(self, message):
        self.check(_FALSE, message)

    def concretize_int(self, expr):
        simple = z3.simplify(expr)
        if z3.is_int_value(simple):
            return simple.as_long()
        while True:
            if self.pos < len(self.trail):
                # the candidate is part of the recorded condition
                cond, value, _ = self.trail[self.pos]
                candidate = self._candidate(expr, cond)
            else:
                candidate = self.model.eval(expr, model_completion=True).as_long()
            if self.branch(expr == candidate):
                return candidate

    @staticmethod
    def _candidate(expr, cond):
        for child in cond.children():
            if z3.is_int_value(child):
                return child.as_long()
        raise NonDeterminism('concretization')

    def pick(self, var, members, tag):
        try:
            return members[self.picked[tag]]
        except KeyError:
            pass
        for index in range(len(members)):
            if index == len(members) - 1 or self.branch(memo(('pick', tag, index),
                                                             lambda: var == index)):
                self.picked[tag] = index
                return members[index]

    # -- declarations
    def _declare(self, tag, kind, expr, extra=None):
        if tag in self.vars:
            raise HarnessError('duplicate symbol ' + tag)
        self.vars[tag] = (kind, expr, extra)

    def memo(self, key, thunk):
        return memo(key, thunk)

    def name(self, tag, fresh=False):
        x = memo(('n', tag), lambda: z3.Int('n_' + tag))
        self._declare(tag, 'name', x, fresh)
        if fresh:
            self.assume(memo(('nb', tag), lambda: x >= 0))
        assert tag.isalnum(), tag
        token = f'sxn_{tag}_'
        result = self.tokens[token] = SymName(x, token, fresh)
        return result

    def const(self, tag):
        """An opaque literal: concretely an integer, equal to itself only."""
        x = memo(('o', tag), lambda: z3.Int('o_' + tag))
        self._declare(tag, 'const', x)
        self.assume(memo(('ob', tag), lambda: z3.And(x >= 0, x < 10 ** 6, EQC(x) == x,
                                                     TRUTHY(x))))
        assert tag.isalnum(), tag
        token = f'sxo_{tag}_'
        result = self.tokens[token] = SymObj(x, token, ())
        return result

    def obj(self, tag, specials=(None, Ellipsis, False, 0, '')):
        x = memo(('o', tag), lambda: z3.Int('o_' + tag))
        ids = tuple(special_id(s) for s in specials)
        self._declare(tag, 'obj', x, ids)
        self.assume(memo(('obs', tag, ids), lambda: z3.And(
                z3.Or([x >= 0] + [x == i for i in ids]),
                z3.Implies(x >= 0, EQC(x) >= 0),
                *[z3.Implies(x == i, z3.And(EQC(x) == SPECIAL_EQC[i],
                                            TRUTHY(x) == SPECIAL_TRUTHY[i])) for i in ids])))
        assert tag.isalnum(), tag
        token = f'sxo_{tag}_'
        result = self.tokens[token] = SymObj(x, token, tuple(specials))
        return result

    def bool(self, tag):
        x = memo(('b', tag), lambda: z3.Bool('b_' + tag))
        self._declare(tag, 'bool', x)
        return SymBool(x)

    def int(self, tag, low, high):
        x = memo(('i', tag), lambda: z3.Int('i_' + tag))
        self._declare(tag, 'int', x)
        self.assume(memo(('ib', tag, low, high), lambda: z3.And(x >= low, x <= high)))
        return SymInt(x)

    def choice(self, tag, members):
        x = memo(('ch', tag), lambda: z3.Int('c_' + tag))
        self._declare(tag, 'choice', x)
        members = list(members)
        self.assume(memo(('chb', tag, len(members)),
                         lambda: z3.And(x >= 0, x < len(members))))
        return SymChoice(x, members, tag)

    def select(self, tag, members):
        """Concretely chosen member (the path forks)."""
        members = list(members)
        return self.choice(tag, members)._sx_pick() if len(members) > 1 else members[0]

    def flag(self, tag):
        return bool(self.bool(tag))

    # -- expressions
    def name_const_int(self, text):
        try:
            return self.names_consts[text]
        except KeyError:
            result = self.names_consts[text] = NAME_CONST_BASE - len(self.names_consts)
            return result

    def name_const(self, text):
        return z3.IntVal(self.name_const_int(text))

    def affix(self, sort, text, x):
        predicate = affix_predicate(sort, text)
        self.queried_affixes.add((sort, text))
        return predicate(x)

    def nx(self, name):
        """Identity of a name."""
        if isinstance(name, SymName):
            return name.x
        if isinstance(name, str):
            return self.name_const(name)
        return z3.IntVal(-10 ** 9)

    def ox(self, value):
        """Identity of an opaque value."""
        if type(value) is SymObj:
            return value.x
        key = special_id(value)
        return z3.IntVal(-10 ** 9 if key is None else key)

    def bx(self, value):
        return to_bool_expr(value)

    def ix(self, value):
        return to_int_expr(value)

    def cx(self, value, members):
        """Index of a (possibly symbolic) member in members."""
        members = list(members)
        if type(value) is SymChoice:
            positions = tuple(next((j for j, m in enumerate(members) if m is member), -1)
                              for member in value._members)
            if positions == tuple(range(len(positions))):
                return value._x

            def build():
                result = z3.IntVal(-1)
                for i, position in enumerate(positions):
                    result = z3.If(value._x == i, z3.IntVal(position), result)
                return result
            return memo(('cx', value._tag, positions), build)
        return z3.IntVal(next((j for j, m in enumerate(members) if m is value), -1))

    def truthy_expr(self, value):
        return TRUTHY(value.x)

    def eqc(self, value):
        if type(value) is SymObj:
            return EQC(value.x)
        key = special_id(value)
        return z3.IntVal(-10 ** 9 if key is None else SPECIAL_EQC[key])

    def hash_of(self, value):
        return hash_expr(value)

    # -- misc
    def show(self, tag, value):
        self.log.append((tag, value))

    def mark_incomplete(self, reason):
        self.incomplete[reason] = self.incomplete.get(reason, 0) + 1

    def note(self, text):
        self.notes.append(text)

    def call(self, function, *args, **kwargs):
        """('ret', value) or ('exc', error)."""
        try:
            return 'ret', function(*args, **kwargs)
        except Exception as error:
            return 'exc', error

    def assignment(self, model=None):
        model = self.model if model is None else model
        ev = lambda e: model.eval(e, model_completion=True)
        result, affixes = {}, {}
        for tag, (kind, x, extra) in self.vars.items():
            value = ev(x)
            if kind == 'bool':
                result[tag] = ['bool', z3.is_true(value)]
            elif kind == 'obj':
                number = value.as_long()
                result[tag] = ['obj', number, ev(EQC(x)).as_long(), z3.is_true(ev(TRUTHY(x)))]
            elif kind == 'name':
                number = value.as_long()
                result[tag] = ['name', number]
                facts = [[sort, text, z3.is_true(ev(affix_predicate(sort, text)(x)))]
                         for sort, text in sorted(self.queried_affixes)]
                affixes[str(number)] = facts
            else:
                result[tag] = [kind, value.as_long()]
        return {'vars': result, 'affixes': affixes,
                'consts': {str(v): k for k, v in self.names_consts.items()}}


CONST_BASE = 7000000


class Val:
    """Concrete stand-in for an opaque value in replays."""

    def __init__(self, number, eqc, truthy):
        self.number, self.eqc, self.truthy = number, eqc, truthy

    def __eq__(self, other):
        if isinstance(other, Val):
            return self.eqc == other.eqc
        return False

    def __hash__(self):
        return hash(('Val', self.eqc))

    def __bool__(self):
        return self.truthy

    def __repr__(self):
        return f'sxo_val_{self.number}_'

    def __str__(self):
        return f'sxs_val_{self.number}_'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __call__(self, *args, **kwargs):
        raise TypeError('opaque value is not callable')


class ReplayMismatch(BaseException):
    pass


class ConcEngine:
    """Runs a harness on one assignment, with plain values, against the real code."""
    concrete = True

    def __init__(self, assignment):
        self.values = assignment['vars']
        self.consts = {int(k): v for k, v in assignment['consts'].items()}
        self.affixes = assignment['affixes']
        self.failures = []
        self.aborted = False
        self.texts = {}
        self.ids = {}
        self.objs = {}
        self.objs_by_tag = {}
        self.checks = 0
        self.log = []

    def run(self, harness):
        set_current(self)
        try:
            harness(self)
        except Infeasible:
            self.aborted = True
        except HarnessError:
            raise
        except Exception as error:
            import traceback
            self.failures.append('unexpected ' + type(error).__name__ + ': '
                                 + ''.join(traceback.format_exception(error))[-1500:])
        finally:
            set_current(None)

    def _get(self, tag, kind):
        try:
            entry = self.values[tag]
        except KeyError:
            # not reached symbolically on this path: the concrete run took another way
            raise ReplayMismatch(tag)
        assert entry[0] == kind, (tag, entry, kind)
        return entry

    def name_text(self, number):
        try:
            return self.texts[number]
        except KeyError:
            pass
        if number in self.consts:
            text = self.consts[number]
        else:
            facts = self.affixes.get(str(number), [])
            core = f'n{number + 10 ** 6:07d}' if number >= 0 else f'm{number + 10 ** 6:07d}'
            prefixes = ['', '_', '__'] + [t for s, t, _ in facts if s == 'starts']
            suffixes = ['', '_', '__'] + [t for s, t, _ in facts if s == 'ends']
            for prefix in prefixes:
                for suffix in suffixes:
                    text = prefix + core + suffix
                    if all((text.startswith(t) if s == 'starts' else text.endswith(t)) is v
                           for s, t, v in facts):
                        break
                else:
                    continue
                break
            else:
                raise ReplayMismatch(f'no text for name {number}: {facts}')
        self.texts[number] = text
        self.ids[text] = number
        return text

    def name(self, tag, fresh=False):
        text = self.name_text(self._get(tag, 'name')[1])
        self.log.append((tag, text))
        return text

    def obj(self, tag, specials=()):
        _, number, eqc, truthy = self._get(tag, 'obj')
        for index, key in SPECIAL_IDS.items():
            if key == number:
                value = SPECIALS[index]
                break
        else:
            value = self.objs.get(number)
            if value is None:
                value = self.objs[number] = Val(number, eqc, truthy)
        self.log.append((tag, value))
        self.objs_by_tag[tag] = value
        return value

    def const(self, tag):
        value = CONST_BASE + self._get(tag, 'const')[1]
        self.log.append((tag, value))
        return value

    def show(self, tag, value):
        self.log.append((tag, value))

    def bool(self, tag):
        value = self._get(tag, 'bool')[1]
        self.log.append((tag, value))
        return value

    flag = bool

    def int(self, tag, low, high):
        value = self._get(tag, 'int')[1]
        self.log.append((tag, value))
        return value

    def choice(self, tag, members):
        value = list(members)[self._get(tag, 'choice')[1]]
        self.log.append((tag, value))
        return value

    def select(self, tag, members):
        members = list(members)
        return self.choice(tag, members) if len(members) > 1 else members[0]

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        raise HarnessError(f'not concrete: {cond}')

    def memo(self, key, thunk):
        return thunk()

    def decide(self, value):
        return self.branch(to_bool_expr(value))

    def assume(self, value):
        if not self.decide(value):
            raise Infeasible

    def check(self, value, message):
        self.checks += 1
        if not self.decide(value):
            self.failures.append(message)
            raise Infeasible

    def fail(self, message):
        self.check(_FALSE, message)

    def name_const_int(self, text):
        try:
            return self.ids[text]
        except KeyError:
            result = self.ids[text] = NAME_CONST_BASE - 10 ** 6 - len(self.ids)
            return result

    def name_const(self, text):
        return z3.IntVal(self.name_const_int(text))

    def affix(self, sort, text, x):
        number = z3.simplify(x).as_long()
        value = self.texts.get(number) or next(t for t, n in self.ids.items() if n == number)
        return z3.BoolVal(value.startswith(text) if sort == 'starts' else value.endswith(text))

    def nx(self, name):
        if isinstance(name, str):
            return self.name_const(name)
        return z3.IntVal(-10 ** 9)

    def ox(self, value):
        if type(value) is Val:
            return z3.IntVal(value.number)
        if type(value) is int and value >= CONST_BASE:
            return z3.IntVal(value - CONST_BASE)
        key = special_id(value)
        return z3.IntVal(-10 ** 9 if key is None else key)

    def eqc(self, value):
        if type(value) is Val:
            return z3.IntVal(value.eqc)
        if type(value) is int and value >= CONST_BASE:
            return z3.IntVal(value - CONST_BASE)
        key = special_id(value)
        return z3.IntVal(-10 ** 9 if key is None else SPECIAL_EQC[key])

    def truthy_expr(self, value):
        return z3.BoolVal(bool(value))

    def bx(self, value):
        return to_bool_expr(value)

    def ix(self, value):
        return to_int_expr(value)

    def cx(self, value, members):
        return z3.IntVal(next((j for j, m in enumerate(members) if m is value), -1))

    def hash_of(self, value):
        return z3.IntVal(hash(value))

    def mark_incomplete(self, reason):
        pass

    def note(self, text):
        pass

    def call(self, function, *args, **kwargs):
        try:
            return 'ret', function(*args, **kwargs)
        except Exception as error:
            return 'exc', error
