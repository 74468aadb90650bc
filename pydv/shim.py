"""Symbolic stand-ins for the libraries the verified modules import. Each is an assumed contract on a dependency."""
import builtins, types
import numpy as _np
import z3
from . import engine
from .engine import *
from .engine import _isnumlike, _isreal
from .arrays import *
from .loops import SRange, SEnum, SZip, SRev, is_symiter, Undef


class Missing:
    """Anything the verifier has no contract for"""
    def __init__(self, name): self.__dict__['_name'] = name

    def __getattr__(self, a):
        if a.startswith('__') and a.endswith('__'):
            raise AttributeError(a)
        return Missing(self._name + '.' + a)

    def __call__(self, *a, **k): raise Unsupported('no contract for %s' % self._name)
    def __mro_entries__(self, bases): return (object,)
    def __repr__(self): return 'Missing(%s)' % self._name
    def __getitem__(self, k): return self
    def __or__(self, o): return self
    __ror__ = __or__


class Mod(types.ModuleType):
    def __init__(self, name, **attrs):
        super().__init__(name)
        self.__dict__.update(attrs)
        self.__dict__.setdefault('__path__', [])

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return Missing(self.__name__ + '.' + a)


# ---- numba: decorators are the identity. Assumed: compiled code computes what the Python code does (with the declared types)
def njit(*a, **k):
    if len(a) == 1 and builtins.callable(a[0]) and not k and isinstance(a[0], types.FunctionType):
        return a[0]
    return lambda f: f


class _Type:
    def __getitem__(self, k): return self
    def __call__(self, *a): return self


class PRange(SRange):
    parallel = True


def _prange(*a):
    if engine._ctx is not None and any(isinstance(x, Proxy) for x in a):
        return PRange(*a)
    return builtins.range(*[int(x) for x in a])


def numba_mod():
    t = _Type()
    types_ = Mod('numba.core.types', Tuple=t, boolean=t)
    core = Mod('numba.core', types=types_)
    return {'numba': Mod('numba', njit=njit, jit=njit, prange=_prange, boolean=t, float32=t, float64=t, int64=t, optional=t, void=t, core=core),
            'numba.core': core, 'numba.core.types': types_}


# ---- numpy
TINY = z3.Real('TINY')      # np.finfo(np.float64).tiny
UNI = z3.Function('uniform', R, R, I, I, R)      # uniform(low, high) at a position of the stream of a seed
RINT = z3.Function('randint', I, I, I, I, I)


def tiny():
    c = engine._ctx
    return SReal(TINY)


class _Random:
    @staticmethod
    def seed(s):
        ctx().rng = (zint(s), z3.IntVal(0))

    @staticmethod
    def _next(n):
        c = ctx()
        if c.rng is None:
            c.fail('random state', 'random numbers are drawn from an unknown state of the generator')
            c.rng = (c.fresh('rng', I), z3.IntVal(0))
        seed, pos = c.rng
        c.rng = (seed, z3.simplify(pos + n))
        return seed, pos

    @staticmethod
    def uniform(low=0.0, high=1.0, size=None):
        c = ctx()
        lo, hi = zreal(low)[0], zreal(high)[0]
        n = z3.IntVal(1) if size is None else zint(size)
        seed, pos = _Random._next(n)
        c.assume(z3.And(TINY > 0, TINY < 1))
        j = z3.Int('j')
        if size is None or z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 1:
            v = UNI(lo, hi, seed, pos)
            c.assume(z3.Implies(lo <= hi, z3.And(v >= lo, v <= hi)))
            return SReal(v) if size is None else newarr('f', (SInt(n),), [z3.K(I, v)], 'draw')
        out = fresh_buf('f', 1, 'draws')
        a = out.comps[0]
        u = UNI(lo, hi, seed, pos + j)
        c.assume(z3.ForAll([j], z3.Select(a, j) == u, patterns=[z3.Select(a, j)]))
        c.assume(z3.ForAll([j], z3.Implies(lo <= hi, z3.And(z3.Select(a, j) >= lo, z3.Select(a, j) <= hi)), patterns=[z3.Select(a, j)]))
        return SArr(out, (SInt(n),))

    @staticmethod
    def randint(low, high=None, size=None, dtype=None):
        c = ctx()
        if high is None:
            low, high = 0, low
        lo, hi = zint(low), zint(high)
        n = z3.IntVal(1) if size is None else zint(size)
        seed, pos = _Random._next(n)
        j = z3.Int('j')
        if size is None:
            v = RINT(lo, hi, seed, pos)
            c.assume(z3.Implies(lo < hi, z3.And(v >= lo, v < hi)))
            return SInt(v)
        out = fresh_buf('i', 1, 'randints')
        a = out.comps[0]
        c.assume(z3.ForAll([j], z3.Select(a, j) == RINT(lo, hi, seed, pos + j), patterns=[z3.Select(a, j)]))
        c.assume(z3.ForAll([j], z3.Implies(lo < hi, z3.And(z3.Select(a, j) >= lo, z3.Select(a, j) < hi)), patterns=[z3.Select(a, j)]))
        return SArr(out, (SInt(n),))


class _DType:
    def __init__(self, name, conv): self.__name__, self.conv = name, conv
    def __call__(self, x): return self.conv(x)


def _to_uint(bits):
    def f(x):
        if isinstance(x, SInt):
            ctx().prove('value fits into uint%d' % bits, z3.And(x.z >= 0, x.z < 2 ** bits))
            return x
        return builtins.int(x)
    return f


def _to_float(x):
    return SReal(*zreal(x)) if isinstance(x, Proxy) else builtins.float(x)


def _to_int(x):
    if isinstance(x, (SInt, SBool)):
        return SInt(zint(x))
    if isinstance(x, SReal):
        raise Unsupported('conversion of a symbolic real to int')
    return builtins.int(x)


def filled(shape, kind, value, name):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = tuple(s if isinstance(s, SInt) else SInt(zint(s)) for s in shape)
    c = ctx()
    for s in shape:
        c.prove('array dimension is not negative', s.z >= 0)
    vals = unwrap(kind, value)
    return newarr(kind, shape, [const(v, None, len(shape)) for v in vals], name)


class Finfo:
    def __init__(self, t): self.tiny = tiny()


class Iinfo:
    def __init__(self, t):
        i = _np.iinfo(getattr(t, '__name__', str(t)))
        self.max, self.min = builtins.int(i.max), builtins.int(i.min)


def numpy_mod():
    def d(dtype, default='f'):
        return default if dtype is None else kind_of(dtype)
    m = Mod('numpy', zeros=lambda shape, dtype=None: filled(shape, d(dtype), 0, 'zeros'), ones=lambda shape, dtype=None: filled(shape, d(dtype), 1, 'ones'),
            full=lambda shape, v, dtype=None: filled(shape, d(dtype), v, 'full'), exp=exp, log=log, random=_Random, finfo=Finfo, iinfo=Iinfo,
            float64=_DType('float64', _to_float), float32=_DType('float32', _to_float), int64=_DType('int64', _to_int), int32=_DType('int32', _to_int),
            uint32=_DType('uint32', _to_uint(32)), uint64=_DType('uint64', _to_uint(64)), ndarray=SArr, inf=builtins.float('inf'), nan=builtins.float('nan'))

    def empty(shape, dtype=None):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        return SArr(fresh_buf(d(dtype), len(shape), 'empty'), tuple(SInt(zint(s)) for s in shape))
    m.empty = empty
    typing = Mod('numpy.typing', NDArray=Missing('NDArray'), DTypeLike=Missing('DTypeLike'))
    return {'numpy': m, 'numpy.typing': typing, 'numpy.random': Mod('numpy.random', RandomState=Missing('RandomState'))}


# ---- builtins
def s_len(x):
    if hasattr(x, 'sym_len'):
        return x.sym_len()
    return builtins.len(x)


def s_range(*a):
    if engine._ctx is not None and any(isinstance(x, Proxy) for x in a):
        try:
            return builtins.range(*[x.__index__() for x in a])
        except Unsupported:
            return SRange(*a)
    return builtins.range(*a)


def s_enumerate(x, start=0):
    return SEnum(x, start) if is_symiter(x) else builtins.enumerate(x, start)


def s_zip(*xs, **k):
    return SZip(xs) if any(is_symiter(x) for x in xs) else builtins.zip(*xs, **k)


def s_reversed(x):
    return SRev(x) if is_symiter(x) else builtins.reversed(x)


def _sel(c, a, b):
    """value of `a if c else b` without forking"""
    if isinstance(c, builtins.bool):
        return a if c else b
    if not isinstance(c, SBool):
        return a if c else b
    if _isreal(a) or _isreal(b):
        (x, i), (y, j) = zreal(a), zreal(b)
        inf = False if i is False and j is False else z3.If(c.z, zb(i), zb(j))
        return SReal(z3.If(c.z, x, y), inf)
    return SInt(z3.If(c.z, zint(a), zint(b)))


def s_max(*xs, **k):
    if builtins.len(xs) == 1 and hasattr(xs[0], 'max') and isinstance(xs[0], Proxy):
        return xs[0].max()
    if builtins.len(xs) > 1 and any(isinstance(x, Proxy) for x in xs) and not k:
        m = xs[0]
        for x in xs[1:]:
            m = _sel(m >= x, m, x)
        return m
    return builtins.max(*xs, **k)


def s_min(*xs, **k):
    if builtins.len(xs) == 1 and hasattr(xs[0], 'min') and isinstance(xs[0], Proxy):
        return xs[0].min()
    if builtins.len(xs) > 1 and any(isinstance(x, Proxy) for x in xs) and not k:
        m = xs[0]
        for x in xs[1:]:
            m = _sel(m <= x, m, x)
        return m
    return builtins.min(*xs, **k)


def any(x):
    return builtins.any(x)


class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (builtins.int, SInt))


class s_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        return _to_int(x) if isinstance(x, Proxy) else builtins.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (builtins.float, SReal))


class s_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        return _to_float(x) if isinstance(x, Proxy) else builtins.float(x)


class _BoolMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (builtins.bool, SBool))


class s_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SBool): return x
        if isinstance(x, SNum): return x != 0
        return builtins.bool(x)


BUILTINS = dict(len=s_len, range=s_range, enumerate=s_enumerate, zip=s_zip, reversed=s_reversed, max=s_max, min=s_min, int=s_int, float=s_float, bool=s_bool)
