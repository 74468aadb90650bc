"""Symbolic Python objects for the code that glues the kernels together: opaque values, sequences, lists, dictionaries and sets of
unbounded size. Mutable containers register as buffers, so that loop cuts forget what the loop body may change in them."""
import itertools
import z3
from . import engine, poly as P
from .engine import *
from .engine import _isnumlike
from .arrays import Buf, SArr, SORT, I, R, B

OBJ = z3.DeclareSort('Obj')
NUM = z3.DeclareSort('Num')           # machine numbers, uninterpreted: nothing is assumed about their arithmetic
CODE = z3.Function('constant_code', OBJ, I)
BOXI = z3.Function('int_object', I, OBJ)
UNBOXI = z3.Function('int_of_object', OBJ, I)
ADD = z3.Function('num_add', NUM, NUM, NUM)
ISNAN = z3.Function('num_isnan', NUM, B)
SORT['o'] = NUM
SORT['O'] = OBJ
_const = {}


def pyconst(v):
    """The object that a Python constant is"""
    key = (type(v).__name__, repr(v))
    if key not in _const:
        _const[key] = (len(_const), z3.Const('const_%d_%s' % (len(_const), ''.join(ch for ch in str(v) if ch.isalnum())[:12]), OBJ))
    i, t = _const[key]
    c = ctx()
    if c is not None and ('const', i) not in c.axiom_done:
        c.axiom_done.add(('const', i))
        c.assume(CODE(t) == i)
    return t


def enc(v):
    """the Obj term of a value"""
    if isinstance(v, z3.ExprRef):
        if v.sort() == OBJ:
            return v
        if v.sort() == I:
            return box(v)
        raise Unsupported('object of %s' % v.sort())
    if isinstance(v, SVal):
        return v.z
    if hasattr(v, 'obj'):
        return v.obj
    if isinstance(v, SInt):
        return box(v.z)
    if isinstance(v, SArr):
        return pyconst('array#%d' % v.buf.id)
    if isinstance(v, MList):
        return pyconst('list#%d' % v.id)
    if isinstance(v, (MDict, MSet)):
        return pyconst('container#%d' % v.id)
    if v is None or isinstance(v, (str, bytes, float, bool, tuple)):
        return pyconst(v)
    if isinstance(v, int):
        return box(z3.IntVal(v))
    if type(v).__module__.startswith('cheval.'):          # an object made by the code itself: different from all others of its kind
        ctx().keep.append(v)
        return pyconst('%s#%d' % (type(v).__name__, id(v)))
    raise Unsupported('no object term for %r' % (v,))


def box(i):
    c = ctx()
    t = BOXI(i)
    c.assume(UNBOXI(t) == i)
    return t


class Typ:
    """What is known about the attributes of opaque objects: name -> function(value) (the assumed or proved contract of the attribute)"""
    def __init__(self, name, attrs=None, cls=None):
        self.name, self.attrs = name, attrs or {}


ANY = Typ('object')
NAME = Typ('str')


class SVal(Proxy):
    """An opaque object"""
    def __init__(self, z, typ=ANY):
        self.__dict__['z'], self.__dict__['typ'] = z, typ

    def __getattr__(self, a):
        if a.startswith('__') and a.endswith('__'):
            raise AttributeError(a)
        t = self.__dict__['typ']
        if a in t.attrs:
            return t.attrs[a](self)
        if a in ('item', 'length', 'sym_len', 'obj', 'at', 'frozen', 'comp', 'vkind', 'iloc', 'dtype', 'shape', 'element_term', 'as_element', 'substituted', 'parallel', 'wrap', 'element', 'has', 'members', 'data', 'seq', 'mem'):
            raise AttributeError(a)
        raise Unsupported('attribute %s of a %s' % (a, t.name))

    def __getitem__(self, k):
        h = self.typ.attrs.get('[]')
        if h is None:
            raise Unsupported('item of a %s' % self.typ.name)
        return h(self)(k)

    def __setattr__(self, a, v):
        h = self.typ.attrs.get('=' + a)
        if h is None:
            raise Unsupported('assignment to attribute %s of a %s' % (a, self.typ.name))
        h(self, v)

    def __eq__(self, o):
        if isinstance(o, SVal):
            return SBool(self.z == o.z)
        if isinstance(o, (str, bytes, float, bool)) or o is None:
            return SBool(self.z == pyconst(o))
        if isinstance(o, (int, SInt)):
            return SBool(self.z == enc(o))
        if hasattr(o, 'obj'):
            return SBool(self.z == o.obj)
        raise Unsupported('comparison of an opaque object with %r' % (o,))

    def __ne__(self, o): return ~(self == o)

    def __add__(self, o):
        if self.typ is not NAME or not isinstance(o, (str, SVal)):
            raise Unsupported('%r + %r' % (self, o))
        return text([self, o])

    def __radd__(self, o):
        if self.typ is not NAME or not isinstance(o, str):
            raise Unsupported('%r + %r' % (o, self))
        return text([o, self])

    def __hash__(self): raise Unsupported('hash of a symbolic object')
    def __bool__(self): raise Unsupported('truth value of an opaque object')
    def __format__(self, spec): return '<%s>' % self.z
    def __str__(self): return '<%s>' % self.z
    def __repr__(self): return 'SVal(%s)' % self.z

    def __call__(self, *a, **k):
        h = self.typ.attrs.get('()')
        if h is None:
            raise Unsupported('call of a %s' % self.typ.name)
        return h(self, *a, **k)


CONCAT = z3.Function('concat', OBJ, OBJ, OBJ)


def text(parts):
    """concatenation of constants and names"""
    out = []
    for p in parts:
        for x in (p.__dict__.get('pieces', (p,)) if isinstance(p, SVal) else (p,)):
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif not (isinstance(x, str) and not x):
                out.append(x)
    if not out or len(out) == 1:
        return out[0] if out else ''
    t = enc(out[0])
    for x in out[1:]:
        t = CONCAT(t, enc(x))
    v = SVal(t, NAME)
    v.__dict__['pieces'] = tuple(out)
    return v


class ONum(Proxy):
    """An opaque number"""
    def __init__(self, z): self.z = z

    def _f(name):
        fn = z3.Function('num_' + name, NUM, NUM, NUM)

        def f(self, o):
            if not isinstance(o, ONum):
                raise Unsupported('arithmetic of an opaque number with %r' % (o,))
            return ONum(fn(self.z, o.z))
        return f
    __sub__, __mul__, __truediv__ = _f('sub'), _f('mul'), _f('div')

    def __add__(self, o):
        if not isinstance(o, ONum):
            raise Unsupported('arithmetic of an opaque number with %r' % (o,))
        return ONum(ADD(self.z, o.z))
    def __eq__(self, o): return SBool(self.z == o.z)
    def __ne__(self, o): return SBool(self.z != o.z)
    __hash__ = object.__hash__
    def __repr__(self): return 'ONum(%s)' % self.z


def num(x):
    """Obj/number constants as opaque numbers"""
    if isinstance(x, ONum):
        return x.z
    if isinstance(x, z3.ExprRef) and x.sort() == NUM:
        return x
    if isinstance(x, (int, float)):
        return z3.Const('num_%r' % float(x), NUM)
    raise Unsupported('not a number: %r' % (x,))


def decode(z, typ=ANY):
    if hasattr(typ, 'element'):
        return typ.element(z)
    if z.sort() == OBJ:
        return typ.wrap(z) if hasattr(typ, 'wrap') else SVal(z, typ)
    if z.sort() == NUM:
        return ONum(z)
    if z.sort() == I:
        return SInt(z)
    if z.sort() == B:
        return SBool(z)
    return SReal(z)


def zterm(v):
    if hasattr(v, 'element_term'):
        return v.element_term()
    if isinstance(v, (SInt, SBool, SVal, ONum)):
        return v.z
    if isinstance(v, SReal) and v.inf is False:
        return v.z
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    return enc(v)


def subst(v, pairs):
    """value with constants replaced (values built from proxies, tuples and lists)"""
    if isinstance(v, SVal):
        return decode(z3.substitute(v.z, *pairs), v.typ)
    if isinstance(v, (SInt, SBool, ONum)):
        return type(v)(z3.substitute(v.z, *pairs))
    if isinstance(v, SReal):
        return SReal(z3.substitute(v.z, *pairs), v.inf if isinstance(v.inf, bool) else z3.substitute(v.inf, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if v is None or isinstance(v, (str, int, float, bool, bytes)):
        return v
    if hasattr(v, 'substituted'):
        return v.substituted(pairs)
    if hasattr(type(v), 'subst'):
        return v.subst(lambda x: subst(x, pairs))
    raise Unsupported('element %r of a symbolic sequence' % (v,))


class SSeq(Proxy):
    """Immutable sequence: length and element function"""
    def __init__(self, n, get):
        self.n, self.get = (n if isinstance(n, SInt) else SInt(zint(n))), get

    def length(self): return self.n
    sym_len = length
    def item(self, k): return self.get(SInt(zint(k)))

    def at(self, k): return self.get(SInt(zint(k)))

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('slice step')
            lo, hi = bound(k.start, 0, self.n), bound(k.stop, self.n, self.n)
            m = z3.simplify(z3.If(zint(hi) >= zint(lo), zint(hi) - zint(lo), 0))
            return SSeq(SInt(m), lambda j: self.get(SInt(zint(j) + zint(lo))))
        z = z3.simplify(zint(k))
        if z3.is_int_value(z) and z.as_long() < 0:
            z = zint(self.n) + z
        ctx().prove('sequence index in bounds', z3.And(z >= 0, z < zint(self.n)))
        return self.get(SInt(z))

    def __iter__(self):
        n = z3.simplify(zint(self.n))
        if z3.is_int_value(n):
            return iter([self.get(SInt(i)) for i in range(n.as_long())])
        raise Unsupported('iteration over a symbolic sequence outside of a for loop')

    def __add__(self, o):
        o = seq(o)
        c = ctx()
        if c.nofork == 0:
            r = named_concat(c, self, o)
            if r is not None:
                return r
        return SSeq(SInt(zint(self.n) + zint(o.n)), lambda j: choose(SBool(zint(j) < zint(self.n)), lambda: self.get(j), lambda: o.get(SInt(zint(j) - zint(self.n)))))

    def __radd__(self, o): return seq(o) + self

    def __contains__(self, x):
        return bool(exists(self.n, lambda k: self.get(k) == x))

    def comp(self, kind, elt, conds):
        if conds:
            raise Unsupported('filtered comprehension over a symbolic sequence')
        c = ctx()
        k = c.fresh('ck', I)
        c.nofork += 1
        mark = len(c.pc)
        c.pc.append(z3.And(k >= 0, k < zint(self.n)))
        try:
            t = elt(self.get(SInt(k)))
        finally:
            c.nofork -= 1
            del c.pc[mark:]
        s = SSeq(self.n, lambda j: subst(t, [(k, zint(j))]))
        if kind in ('gen',):
            return s
        if kind == 'list':
            return MList(s)
        raise Unsupported('%s comprehension over a symbolic sequence' % kind)

    def __eq__(self, o): raise Unsupported('comparison of sequences')
    def __bool__(self): return bool(self.n > 0)
    def __repr__(self): return 'SSeq(%s)' % self.n


def named_concat(c, a, b):
    """concatenation of two sequences of objects as an array"""
    k = z3.Int(c.fresh_name('cat'))
    if z3.is_int_value(z3.simplify(zint(a.n))) or z3.is_int_value(z3.simplify(zint(b.n))):
        return None
    x, y = a.get(SInt(k)), b.get(SInt(k))
    if not (isinstance(x, SVal) and isinstance(y, SVal)):
        return None
    typ = x.typ
    arr = c.fresh('concat', z3.ArraySort(I, OBJ))
    n, m = zint(a.n), zint(b.n)
    e = z3.Select(arr, k)
    yy = z3.substitute(y.z, (k, k - n))
    c.assume(z3.ForAll([k], z3.And(z3.Implies(z3.And(k >= 0, k < n), e == x.z), z3.Implies(z3.And(k >= n, k < n + m), e == yy)), patterns=[e]))
    for lo, hi, at, t in ((0, n, k, x.z), (0, m, n + k, y.z)):
        try:
            c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), z3.Select(arr, at) == t), patterns=[t]))
        except z3.Z3Exception:
            return None
    return SSeq(SInt(n + m), lambda j: SVal(z3.Select(arr, zint(j)), typ))


def choose(cnd, a, b):
    """value of `a if cnd else b` without forking (a, b functions)"""
    z = z3.simplify(zbool(cnd))
    if z3.is_true(z): return a()
    if z3.is_false(z): return b()
    x, y = a(), b()
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(choose(cnd, lambda p=p: p, lambda q=q: q) for p, q in zip(x, y))
    if x is None or isinstance(x, str) or y is None or isinstance(y, str) or isinstance(x, SVal) or isinstance(y, SVal):
        typ = x.typ if isinstance(x, SVal) else y.typ if isinstance(y, SVal) else ANY
        return decode(z3.If(z, enc(x), enc(y)), typ)
    p, q = zterm(x), zterm(y)
    if p.sort() != q.sort():
        raise Unsupported('choice between %r and %r' % (x, y))
    return decode(z3.If(z, p, q))


def bound(x, default, n):
    if x is None:
        return default
    z = z3.simplify(zint(x))
    if z3.is_int_value(z) and z.as_long() < 0:
        z = zint(n) + z
    return SInt(z3.simplify(z3.If(z > zint(n), zint(n), z3.If(z < 0, 0, z))))


def exists(n, f):
    c = ctx()
    k = z3.Int(c.fresh_name('ex'))
    c.nofork += 1
    try:
        body = zbool(f(SInt(k)))
    finally:
        c.nofork -= 1
    return SBool(z3.Exists([k], z3.And(k >= 0, k < zint(n), body)))


def seq(x):
    if isinstance(x, SSeq):
        return x
    if isinstance(x, MList):
        return x.seq()
    if hasattr(x, 'item') and hasattr(x, 'length'):
        return SSeq(x.length(), x.item)
    xs = list(x)

    def get(j):
        z = z3.simplify(zint(j))
        if z3.is_int_value(z):
            i = z.as_long()
            if 0 <= i < len(xs):
                return xs[i]
            return xs[-1] if xs else SVal(pyconst('no element'))
        if not xs:
            return SVal(pyconst('no element'))
        v = xs[-1]
        for i in range(len(xs) - 2, -1, -1):
            v = choose(SBool(z == i), lambda i=i: xs[i], lambda v=v: v)
        return v
    return SSeq(len(xs), get)


class Cell:
    """Mutable state: registers as a buffer"""
    readonly = False

    def _register(self):
        c = ctx()
        self.id = c.bufs
        c.bufs += 1
        c.ghost.setdefault('bufs', {})[self.id] = self

    def _wrote(self):
        ctx().writes.append(('w', self.id, (None,)))
        if self.readonly:
            ctx().fail('frame', 'write to something that must not be changed')


class MList(Proxy, Cell):
    """list / deque"""
    vkind = 'L'

    def __init__(self, xs=()):
        self.xs = list(xs) if not hasattr(xs, 'item') or isinstance(xs, (list, tuple)) else seq(xs)
        self.etyp, self.esort = None, None
        self._register()

    # -- state
    def seq(self):
        return self.xs if isinstance(self.xs, SSeq) else seq(self.xs)

    @property
    def n(self):
        return self.xs.n if isinstance(self.xs, SSeq) else SInt(len(self.xs))

    def at(self, k): return self.seq().at(k)

    def frozen(self):
        return SSeq(self.n, self.seq().get)

    def note(self, v):
        """remembers what the elements are"""
        if hasattr(v, 'as_element'):
            self.esort, self.etyp = v.as_element()
        elif isinstance(v, tuple):
            self.esort, self.etyp = [zterm(x).sort() for x in v], [x.typ if isinstance(x, SVal) else ANY for x in v]
        else:
            self.esort, self.etyp = zterm(v).sort(), v.typ if isinstance(v, SVal) else ANY
        info = ctx().ghost.setdefault('elements', {})
        info[self.id] = (self.esort, self.etyp)

    def havoc(self):
        c = ctx()
        es, et = c.loopelems.get(self.id, (self.esort, self.etyp)) if hasattr(c, 'loopelems') else (self.esort, self.etyp)
        if es is None:
            for x in (self.xs if isinstance(self.xs, list) else []):
                self.note(x)
                es, et = self.esort, self.etyp
        if es is None:
            es, et = OBJ, ANY
        n = c.fresh('len', I)
        c.assume(n >= 0)
        if isinstance(es, list):
            arrs = [c.fresh('elems', z3.ArraySort(I, s)) for s in es]
            self.arrs = arrs
            self.xs = SSeq(SInt(n), lambda j: tuple(decode(z3.Select(a, zint(j)), t) for a, t in zip(arrs, et)))
        else:
            a = c.fresh('elems', z3.ArraySort(I, es))
            self.arrs = [a]
            self.xs = SSeq(SInt(n), lambda j: decode(z3.Select(a, zint(j)), et))
        self.esort, self.etyp = es, et

    # -- list
    def append(self, v):
        self.note(v)
        self._wrote()
        c = ctx()
        if isinstance(self.xs, list):
            self.xs.append(v)
            return
        old = self.xs
        if getattr(self, 'arrs', None) is not None and not isinstance(self.esort, list):
            a = c.fresh('elems', self.arrs[0].sort())
            c.assume(a == z3.Store(self.arrs[0], zint(old.n), zterm(v)))
            et = self.etyp
            self.arrs = [a]
            self.xs = SSeq(old.n + 1, lambda j: decode(z3.Select(a, zint(j)), et))
            return
        self.xs = old + [v]

    def appendleft(self, v):
        self.note(v)
        self._wrote()
        if isinstance(self.xs, list):
            self.xs.insert(0, v)
        elif getattr(self, 'arrs', None) is not None and not isinstance(self.esort, list):
            c, old, b = ctx(), self.xs, self.arrs[0]
            a = c.fresh('elems', b.sort())
            j = z3.Int(c.fresh_name('j'))
            c.assume(z3.Select(a, 0) == zterm(v))
            c.assume(z3.ForAll([j], z3.Implies(j > 0, z3.Select(a, j) == z3.Select(b, j - 1)), patterns=[z3.Select(a, j)]))
            et = self.etyp
            self.arrs = [a]
            self.xs = SSeq(old.n + 1, lambda j: decode(z3.Select(a, zint(j)), et))
        else:
            self.xs = seq([v]) + self.xs

    def insert(self, k, v):
        if isinstance(k, int) and k == 0:
            return self.appendleft(v)
        raise Unsupported('insertion into the middle of a list')

    def extend(self, o):
        self._wrote()
        if isinstance(self.xs, list) and not hasattr(o, 'item'):
            self.xs.extend(list(o))
        elif isinstance(self.xs, list) and not self.xs:
            self.xs = seq(o)
        else:
            self.xs = self.seq() + o

    def popleft(self):
        self._wrote()
        if isinstance(self.xs, list):
            return self.xs.pop(0)
        if not bool(self.xs.n > 0):
            raise IndexError('pop from an empty deque')
        v = self.xs.get(SInt(z3.IntVal(0)))
        self.xs = self.xs[1:]
        return v

    def clear(self):
        self._wrote()
        self.xs = []

    def copy(self): return MList(self.xs if isinstance(self.xs, SSeq) else list(self.xs))
    def sym_len(self): return len(self.xs) if isinstance(self.xs, list) else self.xs.n

    def __getattr__(self, a):
        if a in ('item', 'length') and isinstance(self.__dict__.get('xs'), SSeq):
            return getattr(self.xs, a)
        raise AttributeError(a)

    def __iter__(self): return iter(self.xs)

    def __getitem__(self, k):
        if isinstance(self.xs, list) and (isinstance(k, int) or isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step))):
            return MList(self.xs[k]) if isinstance(k, slice) else self.xs[k]
        r = self.seq()[k]
        return MList(r) if isinstance(k, slice) else r

    def __setitem__(self, k, v):
        self._wrote()
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('slice assignment')
            s, n = self.seq(), self.n
            lo, hi = bound(k.start, 0, n), bound(k.stop, n, n)
            hi = SInt(z3.simplify(z3.If(zint(hi) < zint(lo), zint(lo), zint(hi))))
            self.xs = s[:lo] + seq(v) + s[hi:]
            return
        if isinstance(self.xs, list) and isinstance(k, int):
            self.xs[k] = v
            return
        s, n = self.seq(), self.n
        z = z3.simplify(zint(k))
        if z3.is_int_value(z) and z.as_long() < 0:
            z = zint(n) + z
        elif not z3.is_int_value(z):
            z = z3.If(z < 0, z + zint(n), z)
        ctx().prove('list index in bounds', z3.And(z >= 0, z < zint(n)))
        self.xs = SSeq(n, lambda j: choose(SBool(zint(j) == z), lambda: v, lambda: s.get(j)))

    def __add__(self, o):
        if isinstance(self.xs, list) and not hasattr(o, 'item'):
            return MList(self.xs + list(o))
        return MList(self.seq() + o)

    def __radd__(self, o):
        return MList(seq(o) + self.seq())

    def __mul__(self, k):
        if isinstance(self.xs, list) and isinstance(k, int):
            return MList(self.xs * k)
        if isinstance(self.xs, list) and len(self.xs) == 1:
            n = zint(k)
            return MList(SSeq(SInt(z3.simplify(z3.If(n < 0, 0, n))), lambda j: self.xs[0]))
        raise Unsupported('repetition of a symbolic list')

    def __contains__(self, x):
        if isinstance(self.xs, list):
            return any(bool(y == x) for y in self.xs)
        return x in self.xs

    def __bool__(self): return bool(self.sym_len() > 0)
    def __eq__(self, o): raise Unsupported('comparison of lists')
    __hash__ = object.__hash__
    def __repr__(self): return 'MList(%r)' % (self.xs,)


class OpaqueSlice(Proxy):
    """some slice: it selects m positions of n, of which nothing else is known"""
    def __init__(self, n):
        c = ctx()
        self.n = n
        self.m = SInt(c.fresh('sliced', I))
        src = c.fresh('sliced_from', z3.ArraySort(I, I))
        j = z3.Int(c.fresh_name('j'))
        s = z3.Select(src, j)
        c.assume(self.m.z >= 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.m.z), z3.And(s >= 0, s < zint(n))), patterns=[s]))
        self.src = lambda j: z3.Select(src, zint(j))

    def of(self, a):
        from .pdshim import FArr, farr
        f = farr(a)
        ctx().prove('the slice is one of as many rows', zint(f.shape[0]) == zint(self.n))
        return FArr((self.m,), lambda j: f.at(SInt(self.src(j))), f.kind)


class STuple(SSeq):
    """tuple of symbolic length"""


class Enumeration:
    """the members of a set in some order (for dictionaries: by insertion)"""
    def __init__(self, c, mem, stamp=None):
        self.n = c.fresh('count', I)
        self.key = c.fresh('enum', z3.ArraySort(I, OBJ))
        self.pos = c.fresh('enumpos', z3.ArraySort(OBJ, I))
        k, x, j = z3.Int('k'), z3.Const('x', OBJ), z3.Int('j')
        kk = z3.Select(self.key, k)
        c.assume(self.n >= 0)
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.n), z3.And(z3.Select(mem, kk), z3.Select(self.pos, kk) == k)), patterns=[kk]))
        px = z3.Select(self.pos, x)
        c.assume(z3.ForAll([x], z3.Implies(z3.Select(mem, x), z3.And(px >= 0, px < self.n, z3.Select(self.key, px) == x)), patterns=[px]))
        if z3.is_const(mem):
            c.assume(z3.ForAll([x], z3.Implies(z3.Select(mem, x), z3.And(px >= 0, px < self.n, z3.Select(self.key, px) == x)), patterns=[z3.Select(mem, x)]))
        if stamp is not None:
            kj = z3.Select(self.key, j)
            c.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < self.n), z3.Select(stamp, kj) < z3.Select(stamp, kk)), patterns=[z3.MultiPattern(kj, kk)]))


def enumeration(mem, stamp=None):
    c = ctx()
    d = c.ghost.setdefault('enums', {})
    key = (mem.get_id(), None if stamp is None else stamp.get_id())
    if key not in d:
        d[key] = Enumeration(c, mem, stamp)
        c.keep.extend([mem] + ([stamp] if stamp is not None else []))
    return d[key]


class MDict(Proxy, Cell):
    vkind = 'D'

    def __init__(self, pairs=(), ktyp=NAME, vtyp=ANY, name='dict', arbitrary=False):
        c = ctx()
        self.ktyp, self.vtyp, self.name = ktyp, vtyp, name
        self._register()
        self.pyvals = {}          # the Python values behind object terms that only exist as constants
        if arbitrary:
            self.mem, self.val, self.stamp = (c.fresh(name + s, z3.ArraySort(OBJ, t)) for s, t in (('_has', B), ('_val', OBJ), ('_at', I)))
            self.clock = c.fresh(name + '_clock', I)
            x = z3.Const('x', OBJ)
            c.assume(z3.ForAll([x], z3.Select(self.stamp, x) < self.clock, patterns=[z3.Select(self.stamp, x)]))
        else:
            self.mem = z3.K(OBJ, z3.BoolVal(False))
            self.val = z3.K(OBJ, pyconst(None))
            self.stamp, self.clock = z3.K(OBJ, z3.IntVal(-1)), z3.IntVal(0)
            for k, v in pairs:
                self._put(k, v)

    def _name(self, attr, t):
        c = ctx()
        f = c.fresh(self.name + attr, t.sort())
        c.assume(f == t)
        return f

    def _put(self, k, v):
        k = enc(k)
        t = enc(v)
        if not isinstance(v, SVal):
            self.pyvals[t.get_id()] = (t, v)
        had = z3.Select(self.mem, k)
        self.stamp = self._name('_at', z3.If(had, self.stamp, z3.Store(self.stamp, k, self.clock)))
        self.clock = self.clock + 1
        self.val = self._name('_val', z3.Store(self.val, k, t))
        self.mem = self._name('_has', z3.Store(self.mem, k, z3.BoolVal(True)))

    def havoc(self):
        c = ctx()
        self.mem, self.val, self.stamp = (c.fresh(self.name + s, t.sort()) for s, t in (('_has', self.mem), ('_val', self.val), ('_at', self.stamp)))
        self.clock = c.fresh(self.name + '_clock', I)
        x = z3.Const('x', OBJ)
        c.assume(z3.ForAll([x], z3.Select(self.stamp, x) < self.clock, patterns=[z3.Select(self.stamp, x)]))

    def frozen(self):
        d = MDict.__new__(MDict)
        d.__dict__.update(self.__dict__)
        d.pyvals, d.readonly, d.id = dict(self.pyvals), True, self.id
        return d

    # -- specification
    def has(self, k): return SBool(z3.Select(self.mem, enc(k)))
    def get_z(self, k): return z3.Select(self.val, enc(k))

    def _dec(self, t):
        t = z3.simplify(t)
        if t.get_id() in self.pyvals:
            return self.pyvals[t.get_id()][1]
        return decode(t, self.vtyp)

    # -- dict
    def __contains__(self, k): return bool(self.has(k))

    def __getitem__(self, k):
        if not bool(self.has(k)):
            raise KeyError(k)
        return self._dec(self.get_z(k))

    def get(self, k, default=None):
        return self._dec(self.get_z(k)) if bool(self.has(k)) else default

    def __setitem__(self, k, v):
        self._wrote()
        self._put(k, v)

    def __delitem__(self, k):
        if not bool(self.has(k)):
            raise KeyError(k)
        self._wrote()
        self.mem = self._name('_has', z3.Store(self.mem, enc(k), z3.BoolVal(False)))

    def pop(self, k, *default):
        if not bool(self.has(k)):
            if default:
                return default[0]
            raise KeyError(k)
        v = self._dec(self.get_z(k))
        del self[k]
        return v

    def clear(self):
        self._wrote()
        self.mem = z3.K(OBJ, z3.BoolVal(False))

    def copy(self):
        d = MDict.__new__(MDict)
        d.__dict__.update(self.__dict__)
        d.pyvals, d.readonly = dict(self.pyvals), False
        d._register()
        return d

    def _enum(self): return enumeration(self.mem, self.stamp)

    def keys(self):
        return DKeys(self)

    def values(self):
        e, d = self._enum(), self.frozen()
        return SSeq(SInt(e.n), lambda k: d._dec(z3.Select(d.val, z3.Select(e.key, zint(k)))))

    def items(self):
        e, d = self._enum(), self.frozen()
        return SSeq(SInt(e.n), lambda k: (decode(z3.Select(e.key, zint(k)), d.ktyp), d._dec(z3.Select(d.val, z3.Select(e.key, zint(k))))))

    def sym_len(self): return SInt(self._enum().n)
    def length(self): return SInt(self._enum().n)
    def item(self, k): return self.keys().item(k)
    def __bool__(self): return bool(self.sym_len() > 0)
    def __iter__(self): raise Unsupported('iteration over a symbolic dictionary outside of a for loop')
    def __eq__(self, o): raise Unsupported('comparison of dictionaries')
    __hash__ = object.__hash__


class DKeys(SSeq):
    def __init__(self, d):
        self.d, self.mem = d.frozen(), d.mem

    @property
    def n(self): return SInt(self.d._enum().n)

    def get(self, k): return decode(z3.Select(self.d._enum().key, zint(k)), self.d.ktyp)
    def has(self, x): return SBool(z3.Select(self.mem, enc(x)))
    def __contains__(self, x): return bool(self.has(x))


class MSet(Proxy, Cell):
    vkind = 'S'

    def __init__(self, items=(), typ=NAME, name='set', mem=None, arbitrary=False):
        c = ctx()
        self.typ, self.name = typ, name
        self._register()
        self.mem = mem
        if arbitrary:
            self.mem = c.fresh(name, z3.ArraySort(OBJ, B))
        elif mem is None:
            self.mem = z3.K(OBJ, z3.BoolVal(False))
            for x in items:
                self.mem = z3.Store(self.mem, enc(x), z3.BoolVal(True))

    def havoc(self): self.mem = ctx().fresh(self.name, self.mem.sort())

    def frozen(self):
        d = MSet.__new__(MSet)
        d.__dict__.update(self.__dict__)
        d.readonly = True
        return d

    def has(self, x): return SBool(z3.Select(self.mem, enc(x)))
    def __contains__(self, x): return bool(self.has(x))

    def _set(self, m):
        c = ctx()
        f = c.fresh(self.name, m.sort())
        c.assume(f == m)
        self._wrote()
        self.mem = f

    def add(self, x): self._set(z3.Store(self.mem, enc(x), z3.BoolVal(True)))
    def discard(self, x): self._set(z3.Store(self.mem, enc(x), z3.BoolVal(False)))

    def remove(self, x):
        if not bool(self.has(x)):
            raise KeyError(x)
        self.discard(x)

    def clear(self):
        self._wrote()
        self.mem = z3.K(OBJ, z3.BoolVal(False))

    def copy(self): return MSet(typ=self.typ, name=self.name, mem=self.mem)

    def _op(self, o, f):
        m = members(o)
        c = ctx()
        r = c.fresh(self.name, self.mem.sort())
        x = z3.Const('x', OBJ)
        c.assume(z3.ForAll([x], z3.Select(r, x) == f(z3.Select(self.mem, x), z3.Select(m, x)), patterns=[z3.Select(r, x)]))
        c.assume(z3.ForAll([x], z3.Select(r, x) == f(z3.Select(self.mem, x), z3.Select(m, x)), patterns=[z3.Select(self.mem, x)]) if z3.is_const(self.mem) else z3.BoolVal(True))
        c.assume(z3.ForAll([x], z3.Select(r, x) == f(z3.Select(self.mem, x), z3.Select(m, x)), patterns=[z3.Select(m, x)]) if z3.is_const(m) else z3.BoolVal(True))
        return r

    def __or__(self, o): return MSet(typ=self.typ, name=self.name, mem=self._op(o, z3.Or))
    def __and__(self, o): return MSet(typ=self.typ, name=self.name, mem=self._op(o, z3.And))
    def __sub__(self, o): return MSet(typ=self.typ, name=self.name, mem=self._op(o, lambda a, b: z3.And(a, z3.Not(b))))
    def issubset(self, o): return subset(self.mem, members(o))

    def issuperset(self, o):
        s = o if isinstance(o, (MSet, MDict)) else seq(o) if hasattr(o, 'item') or isinstance(o, (list, tuple)) else None
        if s is None or isinstance(s, (MSet, MDict)):
            return subset(members(o), self.mem)
        return P.forall(0, s.n, lambda j: self.has(s.get(j)), pattern=lambda j: self.has(s.get(j)))
    __le__, __ge__ = issubset, issuperset
    union, intersection, difference = __or__, __and__, __sub__

    def __ior__(self, o):
        m = self._op(o, z3.Or)
        self._wrote()
        self.mem = m
        return self
    def update(self, o): self.__ior__(o)
    def __isub__(self, o):
        m = self._op(o, lambda a, b: z3.And(a, z3.Not(b)))
        self._wrote()
        self.mem = m
        return self
    difference_update = __isub__

    def _enum(self): return enumeration(self.mem)
    def length(self): return SInt(self._enum().n)
    sym_len = length
    def item(self, k): return decode(z3.Select(self._enum().key, zint(k)), self.typ)
    def __bool__(self): return bool(self.sym_len() > 0)
    def __iter__(self): raise Unsupported('iteration over a symbolic set outside of a for loop')
    def __eq__(self, o): raise Unsupported('comparison of sets')
    __hash__ = object.__hash__


def members(x):
    """the set of the elements of a collection"""
    if isinstance(x, MSet):
        return x.mem
    if isinstance(x, MDict):
        return x.mem
    if isinstance(x, DKeys):
        return x.mem
    if hasattr(x, 'members'):
        return x.members
    c = ctx()
    if type(x).__name__ == 'SRange' and x.step == 1:
        m, y = c.fresh('members', z3.ArraySort(OBJ, B)), z3.Const('y', OBJ)
        c.assume(z3.ForAll([y], z3.Select(m, y) == z3.And(BOXI(UNBOXI(y)) == y, zint(x.lo) <= UNBOXI(y), UNBOXI(y) < zint(x.hi)), patterns=[z3.Select(m, y)]))
        return m
    s = seq(x)
    m, pos = c.fresh('members', z3.ArraySort(OBJ, B)), c.fresh('where', z3.ArraySort(OBJ, I))
    k, y = z3.Int('k'), z3.Const('y', OBJ)
    n = z3.simplify(zint(s.n))
    if z3.is_int_value(n):
        m = z3.K(OBJ, z3.BoolVal(False))
        for i in range(n.as_long()):
            m = z3.Store(m, enc(s.get(SInt(i))), z3.BoolVal(True))
        return m
    t = enc(s.get(SInt(k)))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(m, t)), patterns=[t]))
    w = z3.Select(pos, y)
    ty = z3.substitute(t, (k, w))
    c.assume(z3.ForAll([y], z3.Implies(z3.Select(m, y), z3.And(w >= 0, w < n, ty == y)), patterns=[z3.Select(m, y)]))
    return m


def subset(a, b):
    x = z3.Const(ctx().fresh_name('x'), OBJ)
    return SBool(z3.ForAll([x], z3.Implies(z3.Select(a, x), z3.Select(b, x)), patterns=[z3.Select(a, x)] if z3.is_const(a) else []))


class CSet:
    """A set display used as a collection of alternatives: membership of a symbolic value"""
    def __init__(self, xs): self.xs = xs

    def __contains__(self, v):
        r = None
        for x in self.xs:
            e = v == x if isinstance(v, Proxy) else x == v
            if isinstance(e, SBool):
                r = e if r is None else r | e
            elif e:
                return True
        return bool(r) if r is not None else False

    def __iter__(self): return iter(self.xs)
