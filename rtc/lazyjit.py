"""Compiles the numba functions of cheval.core with the declared signatures and options, but on first use rather than at
import (which takes 25 s for all of them)."""
import numba
from numba.core.dispatcher import Dispatcher
_real = numba.njit


class Lazy:
    def __init__(self, func, args, kws):
        self.func, self.args, self.kws, self.compiled = func, args, kws, None
        self.__name__ = func.__name__
        self.py_func = func

    def force(self):
        if self.compiled is None:
            g = self.func.__globals__
            for name in self.func.__code__.co_names:
                if isinstance(g.get(name), Lazy):
                    g[name] = g[name].force()
            kws = dict(self.kws)
            kws.pop('cache', None)
            self.compiled = _real(*self.args, **kws)(self.func)
            if g.get(self.__name__) is self:
                g[self.__name__] = self.compiled
        return self.compiled

    def __call__(self, *a, **k):
        return self.force()(*a, **k)


def njit(*args, **kws):
    if len(args) == 1 and callable(args[0]) and not kws and hasattr(args[0], '__code__'):
        return Lazy(args[0], (), {})
    return lambda f: Lazy(f, args, kws)


def install():
    numba.njit = njit
