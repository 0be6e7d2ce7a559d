"""Harnesses by property."""
import importlib
import inspect
import pkgutil

from .engine import HarnessError

HARNESSES = {}


class Harness:
    def __init__(self, prop, name, run, cases, bounds, entries, weight):
        self.prop, self.name, self.run = prop, name, run
        self.cases, self.bounds, self.entries, self.weight = cases, bounds, entries, weight


def harness(prop, *, cases, bounds, entries=(), weight=None, name=None):
    """Registers a harness: run(E, params) for every params in cases(tier)."""
    def decorate(function):
        label = name or function.__name__
        HARNESSES.setdefault(prop, {})[label] = Harness(prop, label, function, cases, bounds,
                                                        entries, weight)
        return function
    return decorate


def load():
    from . import harness as package
    for info in pkgutil.iter_modules(package.__path__):
        importlib.import_module(package.__name__ + '.' + info.name)


def module(name):
    """A module of the code under test."""
    try:
        return importlib.import_module(name)
    except Exception as error:
        raise HarnessError(f'cannot import {name}: {error!r}')


def entry(module_name, *path):
    """An entry point of the code under test; its absence means no answer, not a violation."""
    value = module(module_name)
    for part in path:
        try:
            value = getattr(value, part)
        except AttributeError:
            raise HarnessError(f'{module_name} has no {".".join(path)}')
    return value


def checked(function, *args, **kwargs):
    """Refuses (without answer) calls the entry point's parameters no longer allow."""
    try:
        inspect.signature(function).bind(*args, **kwargs)
    except TypeError as error:
        raise HarnessError(f'{function} cannot be called as before: {error}')
    except ValueError:
        pass
    return function
