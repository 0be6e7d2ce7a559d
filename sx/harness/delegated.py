"""C26: work delegated to a helper process."""
import itertools
import multiprocessing
import sys
import threading
import types

import z3

from .. import engine as en
from ..lib import *
from ..registry import HarnessError, harness


class Failure(Exception):
    """Of the multiprocessing machinery."""


class Falsy(Exception):
    def __bool__(self):
        return False


class Empty(Exception):
    def __len__(self):
        return 0


class Unpicklable(Exception):
    pass


class Waits(BaseException):
    """Nothing will ever come."""


class Killed(BaseException):
    """A thread is not needed any more."""


EXCEPTIONS = (ValueError, Falsy, Empty, StopIteration, SystemExit, KeyboardInterrupt,
              GeneratorExit, OSError)
STAGES = ('context', 'queue', 'process', 'start', 'get', 'join')


class Solo:
    """No other threads."""

    def __init__(self, E):
        self.E = E

    def point(self):
        pass


class Queue:
    def __init__(self, context):
        self.context, self.items = context, []

    def put(self, item):
        self.context.scheduler.point()
        if any(part is bad for part in (item if isinstance(item, tuple) else (item,))
               for bad in self.context.unpicklable):
            raise Unpicklable('cannot pickle')
        self.items.append(item)

    put_nowait = put

    def get(self, *args, **kwargs):
        self.context.reach('get')
        if not self.items:
            raise Waits()
        return self.items.pop(0)

    def empty(self):
        return not self.items

    def close(self):
        pass

    join_thread = cancel_join_thread = close

    # ends of pipes
    def send(self, item):
        self.put(item)

    def recv(self):
        self.context.reach('get')
        if not self.items:
            raise EOFError()
        return self.items.pop(0)


class Process:
    def __init__(self, context, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.context, self.target, self.name = context, target, name
        self.args, self.kwargs = args, kwargs or {}
        self.started = self.joined = False
        self.exitcode = None
        context.processes.append(self)

    def start(self):
        self.context.reach('start')
        self.started = True
        try:
            self.target(*self.args, **self.kwargs)
        except (en.PathAbort, Waits, Killed):
            raise
        except BaseException:
            self.exitcode = 1
        else:
            self.exitcode = 0

    def run(self):
        raise HarnessError('a process is run in place')

    def join(self, timeout=None):
        self.context.reach('join')
        self.joined = True

    def is_alive(self):
        return False

    def close(self):
        pass

    terminate = kill = close


class Context:
    def __init__(self, E, scheduler, fault=None, unpicklable=()):
        self.E, self.scheduler, self.fault, self.unpicklable = E, scheduler, fault, unpicklable
        self.processes, self.failure = [], Failure(fault)

    def reach(self, stage):
        self.scheduler.point()
        if self.fault == stage:
            raise self.failure

    def get_context(self, method=None):
        self.reach('context')
        return self

    def SimpleQueue(self):
        self.reach('queue')
        return Queue(self)

    def Queue(self, maxsize=0):
        return self.SimpleQueue()

    def Pipe(self, duplex=True):
        queue = self.SimpleQueue()
        return queue, queue

    def Process(self, *args, **kwargs):
        self.reach('process')
        return Process(self, *args, **kwargs)


class Replaced:
    """The multiprocessing machinery and locks are replaced while in it."""

    def __init__(self, context, lock):
        self.context, self.lock = context, lock

    def __enter__(self):
        execution = module('paradigm._core.execution')
        self.undo = []
        names = ('get_context', 'SimpleQueue', 'Queue', 'Pipe', 'Process')
        real = {}
        for name in names:
            real[name] = getattr(multiprocessing, name)
            self.put(multiprocessing, name, getattr(self.context, name))
        locks = {'Lock': lambda: self.lock(False), 'RLock': lambda: self.lock(True)}
        sorts = {'Lock': type(threading.Lock()), 'RLock': type(threading.RLock())}
        for attribute, value in list(vars(execution).items()):
            for name in names:
                if value is real[name]:
                    self.put(execution, attribute, getattr(self.context, name))
            for name, sort in sorts.items():
                if type(value) is sort:
                    self.put(execution, attribute, locks[name]())
                elif value is getattr(threading, name):
                    self.put(execution, attribute, locks[name])
        shim = types.SimpleNamespace(**{**vars(threading), **locks})
        for attribute, value in list(vars(execution).items()):
            if value is threading:
                self.put(execution, attribute, shim)
        return self

    def put(self, owner, name, value):
        self.undo.append((owner, name, getattr(owner, name)))
        setattr(owner, name, value)

    def __exit__(self, *_):
        for owner, name, value in reversed(self.undo):
            setattr(owner, name, value)


class Lock:
    """A lock of the scheduler."""

    def __init__(self, scheduler, reentrant):
        self.scheduler, self.reentrant, self.owner, self.depth = scheduler, reentrant, None, 0

    def me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        self.scheduler.point()
        while self.owner is not None and not (self.reentrant and self.owner == self.me()):
            if not blocking:
                return False
            self.scheduler.wait()
        self.owner, self.depth = self.me(), self.depth + 1
        return True

    def release(self):
        if self.owner != self.me():
            raise RuntimeError('release of a lock of another thread')
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()

    def locked(self):
        return self.owner is not None


def solo_lock(E):
    class Waiting(Solo):
        def wait(self):
            raise Waits()
    return lambda reentrant: Lock(Waiting(E), reentrant)


class Main:
    """The entry of the main module, put back afterwards."""

    def __init__(self, present):
        self.present = present

    def __enter__(self):
        self.kept = sys.modules.get('__main__')
        self.main = types.ModuleType('__main__')
        if self.present:
            sys.modules['__main__'] = self.main
        else:
            sys.modules.pop('__main__', None)
        return self

    def __exit__(self, *_):
        sys.modules['__main__'] = self.kept

    def check(self, E):
        E.check(z3.BoolVal(('__main__' in sys.modules) == self.present
                           and (not self.present or sys.modules['__main__'] is self.main)),
                'the entry of the main module is not put back')


def outcomes():
    return ('result',) + tuple(f'raises {e.__name__}' for e in EXCEPTIONS) + (
        'returns an error', 'unpicklable')


def single_cases(tier):
    size = 2 if tier == 'quick' else 3
    shapes = [(a, k) for a in range(size + 1) for k in range(size + 1)]
    result = [(present, outcome, None, (1, 1)) for present in (True,)
              for outcome in outcomes()]
    result += [(present, outcome, stage, (1, 0)) for present in (True,)
               for outcome in ('result', 'raises ValueError', 'raises Falsy')
               for stage in STAGES]
    result += [(True, outcome, None, shape) for outcome in ('result', 'raises ValueError')
               for shape in shapes]
    result += [(present, 'nested', stage, (1, 1)) for present in (True,)
               for stage in (None,)]
    return list(dict.fromkeys(result))


def sx_work(*args, **kwargs):
    """What is delegated (the module of the function matters for real processes only)."""
    return sx_work.action(args, kwargs)


@harness('C26', cases=single_cases,
         bounds='results (symbolic), 8 sorts of raised exceptions, exceptions that are returned, '
                'results that cannot be passed, a failure at any of 6 stages, up to 2 positional '
                'and 2 keyword arguments (thorough: 3 each) with symbolic names and values; nested '
                'delegation; there is a main module')
def single(E, case):
    present, outcome, stage, (count, named) = case
    function = entry('paradigm._core.execution', 'call_in_process')
    args = tuple(E.obj(f'a{i}') for i in range(count))
    names = [E.name(f'n{i}') for i in range(named)]
    for a, b in itertools.combinations(names, 2):
        E.assume(E.nx(a) != E.nx(b))
    for name in names:
        # that one is taken by the delegated function
        E.assume(z3.Not(E.bx(name == 'function')))
    kwargs = {name: E.obj(f'k{i}') for i, name in enumerate(names)}
    result, error = E.obj('r'), None
    unpicklable = ()
    if outcome.startswith('raises'):
        error = next(e for e in EXCEPTIONS if e.__name__ == outcome.split()[1])(7)
    elif outcome == 'returns an error':
        result = ValueError(8)
    elif outcome == 'unpicklable':
        result = Unpicklable(9)
        unpicklable = (result,)
    given = []

    def action(args_, kwargs_):
        given.append((args_, kwargs_))
        if outcome == 'nested' and len(given) == 1:
            return function(sx_work, 1)
        if error is not None:
            raise error
        return result

    sx_work.action = action
    context = Context(E, Solo(E), stage, unpicklable)
    checked(function, sx_work, *args, **kwargs)
    waits = False
    with Main(present) as main, Replaced(context, solo_lock(E)):
        try:
            actual = function(sx_work, *args, **kwargs), None
        except Waits:
            waits = True
        except (en.PathAbort, HarnessError):
            raise
        except BaseException as exception:
            actual = None, exception
        main.check(E)
    if waits:
        E.fail('a delegated call never returns')
    E.show('outcome', actual)
    E.show('error', actual[1] and ''.join(__import__('traceback').format_exception(actual[1]))[-900:])
    if stage is not None:
        # some ways of delegating do without a stage
        E.check(z3.BoolVal(actual[1] is context.failure or actual[1] is error
                           or stage in ('get', 'join', 'queue')),
                'a failure to delegate is reported as something else')
        if actual[1] is not context.failure:
            E.check(z3.BoolVal(actual[1] is error), 'a failure to delegate is replaced')
            if error is None:
                E.check(identical(E, actual[0], result), 'a delegated call returns something else')
        return
    E.check(z3.BoolVal(len(given) == (2 if outcome == 'nested' else 1)),
            'work is not done exactly once')
    args_, kwargs_ = given[0]
    E.check(z3.BoolVal(len(args_) == count and len(kwargs_) == named), 'arguments are lost')
    E.check(conj(*[identical(E, a, b) for a, b in zip(args_, args)]),
            'positional arguments are not passed as they are')
    E.check(conj(*[disj(conj(E.nx(a) == E.nx(b), identical(E, v, w))
                        for b, w in kwargs_.items()) for a, v in kwargs.items()]),
            'keyword arguments are not passed as they are')
    if outcome == 'unpicklable':
        E.check(z3.BoolVal(actual[1] is not None), 'what cannot be passed is returned')
        return
    if error is not None:
        E.check(z3.BoolVal(actual[1] is error), 'a delegated call raises something else')
    else:
        E.check(z3.BoolVal(actual[1] is None), 'a delegated call raises although its work did not')
        E.check(identical(E, actual[0], result), 'a delegated call returns something else')
    E.check(z3.BoolVal(all(p.joined for p in context.processes)), 'a helper process is left over')


def identical(E, actual, expected):
    if isinstance(expected, en.SymObj):
        return E.ox(actual) == E.ox(expected) if isinstance(actual, en.SymObj) \
            else z3.BoolVal(False)
    return z3.BoolVal(actual is expected)


# ---------------------------------------------------------------- threads
class Scheduler:
    """Threads of which one runs at a time; who continues at every point is symbolic."""

    def __init__(self, E, count, switches):
        self.E, self.count, self.left = E, count, switches
        self.batons = [threading.Semaphore(0) for _ in range(count)]
        self.done = [False] * count
        self.current = None
        self.over = threading.Event()
        self.error = None
        self.steps = self.idle = 0
        self.idents = {}

    def number(self):
        return self.idents[threading.get_ident()]

    def run(self, actions):
        def body(number):
            self.idents[threading.get_ident()] = number
            try:
                self.take(number)
                actions[number]()
            except Killed:
                pass
            except BaseException as error:
                if self.error is None:
                    self.error = error
            finally:
                self.done[number] = True
                others = [i for i in range(self.count) if not self.done[i]]
                if others:
                    self.give(others[0])
                else:
                    self.over.set()

        threads = [threading.Thread(target=body, args=(i,), daemon=True)
                   for i in range(self.count)]
        for thread in threads:
            thread.start()
        self.give(0)
        if not self.over.wait(60):
            raise HarnessError('threads wait for something unknown')
        for thread in threads:
            thread.join()
        if self.error is not None:
            raise self.error

    def take(self, number):
        self.batons[number].acquire()
        if self.error is not None:
            raise Killed()

    def give(self, number):
        self.batons[number].release()

    def switch(self, number, other):
        self.give(other)
        self.take(number)

    def point(self):
        self.idle = 0
        number = self.number()
        others = [i for i in range(self.count) if i != number and not self.done[i]]
        if not others or not self.left:
            return
        self.steps += 1
        if self.E.flag(f's{self.steps}'):
            self.left -= 1
            self.switch(number, others[0] if len(others) == 1 else
                        others[self.E.select(f'w{self.steps}', list(range(len(others))))])

    def wait(self):
        number = self.number()
        others = [i for i in range(self.count) if i != number and not self.done[i]]
        self.idle += 1
        if not others or self.idle > 10 * self.count:
            raise Waits()
        self.switch(number, min(others, key=lambda other: (other - number) % self.count))


@harness('C26', cases=lambda tier: [(present, outcomes_, fault) for present in (True,)
                                    for outcomes_ in (('result', 'result'), ('result', 'error'),
                                                      ('error', 'error'))
                                    for fault in (None, 'start', 'get')]
                                   + ([(True, ('result', 'error', 'result'), fault)
                                       for fault in (None, 'start')] if tier != 'quick' else []),
         bounds='two threads delegating at once (thorough: three), every interleaving of the steps '
                'of the machinery with up to 4 switches (the first to a symbolic thread)')
def threads(E, case):
    present, outcomes_, fault = case
    function = entry('paradigm._core.execution', 'call_in_process')
    count = len(outcomes_)
    scheduler = Scheduler(E, count, 4)
    context = Context(E, scheduler, fault)
    results = [E.obj(f'r{i}') for i in range(count)]
    errors = [ValueError(i) for i in range(count)]
    got = [None] * count

    def action(args, kwargs):
        scheduler.point()
        if outcomes_[args[0]] == 'error':
            raise errors[args[0]]
        return results[args[0]]

    sx_work.action = action

    def call(number):
        def run():
            try:
                got[number] = function(sx_work, number), None
            except (en.PathAbort, HarnessError, Killed, Waits):
                raise
            except BaseException as error:
                got[number] = None, error
        return run

    with Main(present) as main, Replaced(context, lambda r: Lock(scheduler, r)):
        try:
            scheduler.run([call(i) for i in range(count)])
        except Waits:
            E.fail('threads delegating at once wait forever')
        main.check(E)
    for number in range(count):
        result, error = got[number]
        E.show(f'outcome {number}', got[number])
        if fault is not None and error is context.failure:
            continue
        if outcomes_[number] == 'error':
            E.check(z3.BoolVal(error is errors[number]), 'a delegated call raises something else')
        else:
            E.check(z3.BoolVal(error is None), 'a delegated call raises although its work did not')
            E.check(identical(E, result, results[number]),
                    'a delegated call returns something else')
