"""Assumed contracts of pandas and NumPy as used by cheval/ldf: join keys are opaque objects (for keys of several levels: tuples),
of which some are incomplete (a level is missing). Pandas matches a key of several levels that it does not contain with an entry in
which a level is missing, drops missing keys when it factorizes a single level, and NumPy counts negative positions from the end."""
import z3
from . import engine, poly as P, pdshim
from .engine import *
from .arrays import I, B, SArr, arr, newarr
from .obj import *
from .obj import Cell
from .pdshim import FArr, farr, mask_of, Meta
from .glue import glue_numpy
from .shim import Mod, Missing

INC = z3.Function('key_is_incomplete', OBJ, B)
KEYS = z3.ArraySort(I, OBJ)


def q(c, name='q'):
    return z3.Int(c.fresh_name(name))


class JIndex(Proxy):
    """pandas.Index of join keys. multi: a MultiIndex; levels: codes of its levels (-1: missing)"""
    def __init__(self, n, key, multi, name='index', unique=None, complete=False):
        c = ctx()
        self.n, self.key, self.multi, self.name = SInt(zint(n)), key, multi, name
        self.obj = self.name + str(c.fresh('index_id', I))
        self.range_type = False
        self.is_range = c.fresh('counts_the_rows', B)
        self.nlevels = SInt(c.fresh('nlevels', I))
        self.codes_of = None
        self.uniq = c.fresh(name + '_unique', B) if unique is None else unique
        if self.uniq is True or isinstance(self.uniq, z3.ExprRef):
            u = z3.BoolVal(True) if self.uniq is True else self.uniq
            self.pos = c.fresh(name + '_pos', z3.ArraySort(OBJ, I))
            i, x = q(c), z3.Const(c.fresh_name('x'), OBJ)
            a, b = c.fresh('a', I), c.fresh('b', I)
            p = z3.Select(self.pos, x)
            k = key(i)
            c.assume(z3.Implies(u, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n.z), z3.Select(self.pos, k) == i), patterns=[k])))
            c.assume(z3.ForAll([x], z3.And(p >= -1, p < self.n.z, z3.Implies(p >= 0, key(p) == x)), patterns=[p]))
            c.assume(z3.Implies(z3.Not(u), z3.And(0 <= a, a < b, b < self.n.z, key(a) == key(b))))
        if multi:
            self.L = c.fresh('levels', I)
            f = c.fresh('codes', z3.ArraySort(I, z3.ArraySort(I, I)))
            w = c.fresh('missing_level', z3.ArraySort(I, I))
            i, l = q(c), q(c)
            code = z3.Select(z3.Select(f, l), i)
            wl = z3.Select(w, i)
            c.assume(self.L >= 1)
            c.assume(z3.ForAll([l, i], z3.Implies(z3.And(l >= 0, l < self.L, i >= 0, i < self.n.z, code == -1), INC(key(i))), patterns=[code]))
            c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n.z, INC(key(i))), z3.And(wl >= 0, wl < self.L, z3.Select(z3.Select(f, wl), i) == -1)), patterns=[key(i)]))
            self.codes_f = f
        if complete:
            i = q(c)
            c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n.z), z3.Not(INC(key(i)))), patterns=[key(i)]))

    @staticmethod
    def fresh(name, multi, n=None, **k):
        c = ctx()
        n = c.fresh('n_' + name, I) if n is None else zint(n)
        c.assume(n >= 0)
        a = c.fresh('keys_' + name, KEYS)
        return JIndex(SInt(n), lambda i: z3.Select(a, zint(i)), multi, name, **k)

    @property
    def is_unique(self): return SBool(z3.BoolVal(True) if self.uniq is True else self.uniq)

    @property
    def has_duplicates(self): return ~self.is_unique

    @property
    def codes(self):
        if not self.multi:
            raise AttributeError('codes')
        return MList(SSeq(SInt(self.L), lambda l: FArr((self.n,), lambda i: SInt(z3.Select(z3.Select(self.codes_f, zint(l)), zint(i))), 'i')))

    def sym_len(self): return self.n
    shape = property(lambda self: (self.n,))
    size = property(lambda self: self.n)

    def __getattr__(self, a):
        if a in ('item', 'length'):
            raise AttributeError(a)
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('%s of an index' % a)

    def equals(self, o):
        if o is self:
            return True
        if isinstance(o, RangeOf):
            return SBool(z3.And(self.is_range, self.n.z == zint(o.n)))
        if not isinstance(o, JIndex):
            raise Unsupported('equals(%r)' % (o,))
        c = ctx()
        e, i, w = c.fresh('equal', B), q(c), c.fresh('differs', I)
        pat = [z3.MultiPattern(self.key(i)), z3.MultiPattern(o.key(i))]
        c.assume(z3.Implies(e, z3.And(self.n.z == o.n.z, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n.z), self.key(i) == o.key(i)), patterns=pat))))
        c.assume(z3.Implies(z3.Not(e), z3.Or(self.n.z != o.n.z, z3.And(w >= 0, w < self.n.z, self.key(w) != o.key(w)))))
        return SBool(e)

    def get_indexer(self, o):
        if not isinstance(o, JIndex):
            raise Unsupported('get_indexer(%r)' % (o,))
        c = ctx()
        c.prove('get_indexer of an index without duplicates', zbool(self.is_unique))
        r = arr('indexer', 'i', o.n)
        j = q(c)
        g = zint(r.at(SInt(j)))
        t = o.key(j)
        p = z3.Select(self.pos, t)
        inj = z3.And(j >= 0, j < o.n.z)
        c.assume(z3.ForAll([j], z3.Implies(inj, z3.And(g >= -1, g < self.n.z)), patterns=[g]))
        if self.multi:
            c.assume(z3.ForAll([j], z3.Implies(z3.And(inj, p >= 0), g == p), patterns=[g]))
            c.assume(z3.ForAll([j], z3.Implies(z3.And(inj, p < 0, g >= 0), INC(self.key(g))), patterns=[g]))
        else:
            c.assume(z3.ForAll([j], z3.Implies(inj, g == p), patterns=[g]))
        return r

    def factorize(self, *a, **k):
        if a or k:
            raise Unsupported('factorize with arguments')
        c = ctx()
        order = JIndex.fresh('groups', self.multi, unique=True, complete=not self.multi)
        ints = arr('ints', 'i', self.n)
        first = c.fresh('first', z3.ArraySort(I, I))
        i, g = q(c), q(c)
        t = zint(ints.at(SInt(i)))
        ini = z3.And(i >= 0, i < self.n.z)
        found = z3.And(t >= 0, t < order.n.z, order.key(t) == self.key(i))
        c.assume(z3.ForAll([i], z3.Implies(ini, found if self.multi else z3.If(INC(self.key(i)), t == -1, found)), patterns=[t]))
        w = z3.Select(first, g)
        c.assume(z3.ForAll([g], z3.Implies(z3.And(g >= 0, g < order.n.z), z3.And(w >= 0, w < self.n.z, self.key(w) == order.key(g), zint(ints.at(SInt(w))) == g)), patterns=[order.key(g)]))
        return ints, order

    def __getitem__(self, k):
        if isinstance(k, (FArr, SArr)) and k.kind == 'b':
            m = mask_of(k)
            ctx().prove('the mask has the length of the axis', zint(m.n) == self.n.z)
            return self._take(SInt(m.m), lambda j: z3.Select(m.src, zint(j)))
        if isinstance(k, (FArr, SArr)) and k.kind == 'i' and k.ndim == 1:
            c, a = ctx(), ctx().fresh('a', I)
            c.prove('positions are in bounds', z3.Implies(z3.And(0 <= a, a < zint(k.shape[0])), z3.And(zint(k.at(a)) >= 0, zint(k.at(a)) < self.n.z)))
            return self._take(k.shape[0], lambda j: zint(k.at(SInt(zint(j)))))
        raise Unsupported('index[%r]' % (k,))

    def take(self, k): return self[k]

    def _take(self, n, src):
        c = ctx()
        a = c.fresh('taken', KEYS)
        j = q(c)
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(n)), z3.Select(a, j) == self.key(src(j))), patterns=[z3.Select(a, j)]))
        if hasattr(src(j), 'decl'):
            c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(n)), z3.Select(a, j) == self.key(src(j))), patterns=[src(j)]))
        return JIndex(n, lambda i: z3.Select(a, zint(i)), self.multi, self.name)

    def __eq__(self, o): raise Unsupported('comparison of indexes')
    __hash__ = object.__hash__
    def __bool__(self): raise Unsupported('truth value of an index')
    def __repr__(self): return 'JIndex(%s)' % self.name


# ---------------------------------------------------------------------------------------------- columns
class DT:
    def __init__(self, kind): self.kind = kind
    def __repr__(self): return 'dtype(%s)' % self.kind


class VArr(Proxy):
    """Values of a column: an array (kind of its dtype) or a Categorical, with opaque elements.
    takes(v): whether v can be stored in it. `owned`: nobody else sees it"""
    vkind = 'V'

    def __init__(self, n, f, cls='ndarray', kind=None, owned=False, takes=None, origin=None, cats=None):
        self.n, self.f, self.cls, self.owned, self.origin = SInt(zint(n)), f, cls, owned, origin
        self._kind, self._takes = kind, takes
        self.cats = cats or (lambda z: CATEGORY(z))
        self.is_col = True

    @property
    def kind(self):
        """b: Boolean, i: integer, u: unsigned, f: anything else"""
        if self._kind is None:
            c = ctx()
            self._kind = 'u'
            for k in 'bif':
                if c.choose('the dtype is of kind ' + k):
                    self._kind = k
                    break
        return self._kind

    @property
    def dtype(self):
        if self.cls != 'ndarray':
            raise Unsupported('dtype of a Categorical')
        return DT(self.kind)

    shape = property(lambda self: (self.n,))
    ndim = 1
    size = property(lambda self: self.n)
    def sym_len(self): return self.n
    def at(self, i): return SVal(self.f(zint(i)))

    def fresh_like(self):
        """an arbitrary one (possibly one that others see)"""
        c = ctx()
        a = c.fresh('values', KEYS)
        n = c.fresh('len', I)
        c.assume(n >= 0)
        m = c.fresh('categories', z3.ArraySort(OBJ, B))
        return VArr(n, lambda i: z3.Select(a, i), self.cls, cats=lambda z: z3.Select(m, z))

    def frozen(self): return VArr(self.n, self.f, self.cls, self._kind, self.owned, self._takes, self.origin, self.cats)
    def copy(self, *a, **k): return VArr(self.n, self.f, self.cls, self._kind, True, self._takes, None, self.cats)

    def _named(self, n, g, **k):
        c = ctx()
        a, j = c.fresh('values', KEYS), q(c)
        e = z3.Select(a, j)
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(n)), e == g(j)), patterns=[e]))
        return VArr(n, lambda i: z3.Select(a, i), self.cls, k.get('kind', self._kind), True, k.get('takes', self._takes), None, self.cats)

    def __getitem__(self, k):
        c = ctx()
        if isinstance(k, (FArr, SArr)) and k.ndim == 1 and k.kind == 'i':
            a = c.fresh('a', I)
            n = self.n.z
            x = zint(k.at(a))
            c.prove('positions are in bounds (negative ones count from the end)', z3.Implies(z3.And(0 <= a, a < zint(k.shape[0])), z3.And(x >= -n, x < n)))

            def pick(j):
                x = zint(k.at(SInt(j)))
                return self.f(z3.If(x < 0, x + n, x))
            return self._named(k.shape[0], pick)
        raise Unsupported('values[%r]' % (k,))

    def take(self, k, allow_fill=False, **kw):
        c = ctx()
        if kw:
            raise Unsupported('take with %s' % sorted(kw))
        if allow_fill is not True or self.cls == 'ndarray':
            return self[k] if not allow_fill else Unsupported('take')
        na = c.fresh('na', OBJ)
        n, a = self.n.z, c.fresh('a', I)
        x = zint(k.at(a))
        c.prove('positions are in bounds (-1: missing)', z3.Implies(z3.And(0 <= a, a < zint(k.shape[0])), z3.And(x >= -1, x < n)))
        return self._named(k.shape[0], lambda j: z3.If(zint(k.at(SInt(j))) < 0, na, self.f(zint(k.at(SInt(j))))))

    def __setitem__(self, k, v):
        c = ctx()
        if not self.owned:
            c.fail('frame', 'values that others see are changed')
            return
        if not isinstance(v, SVal):
            raise Unsupported('storing %r' % (v,))
        z = enc(v)
        c.prove('the array can hold the fill value', z3.BoolVal(True) if self.takes(v) is True else zbool(self.takes(v)))
        old = self.f
        if isinstance(k, (FArr, SArr)) and k.kind == 'b':
            inside = lambda j: zbool(k.at(SInt(j)))
        elif hasattr(k, 'chosen'):
            inside = k.chosen
        else:
            raise Unsupported('values[%r] = ...' % (k,))
        self.f = self._named(self.n, lambda j: z3.If(inside(j), z, old(j))).f

    def takes(self, v):
        if self._takes is not None:
            return self._takes(v)
        if self.cls == 'ndarray':
            return self.kind == 'f'
        return SBool(z3.Or(self.cats(v.z), ISNA(v.z)))

    def astype(self, t, copy=True):
        """(assumed: values are not changed by a type that can hold them)"""
        if isinstance(t, ResultType):
            if t.dtype_of is not self._kind and t.dtype_of != self.kind:
                raise Unsupported('astype to the common type of something else')
            return VArr(self.n, self.f, self.cls, 'f', True, lambda v, t=t: True if v is t.value else SBool(v.z == t.value.z))
        if t is object or str(t) in ('object', 'O'):
            return VArr(self.n, self.f, self.cls, 'f', True, lambda v: True)
        raise Unsupported('astype(%r)' % (t,))

    # Categorical
    @property
    def categories(self):
        if self.cls == 'ndarray':
            raise AttributeError('categories')
        return Categories(self)

    def add_categories(self, new):
        vs = list(new) if not isinstance(new, MList) else list(new.xs)
        c = ctx()
        for v in vs:
            c.prove('new categories are not there yet', z3.Not(self.cats(v.z)))
            c.prove('missing values are no category', z3.Not(ISNA(v.z)))
        old = self.cats
        return VArr(self.n, self.f, self.cls, None, True, None, None, lambda z: z3.Or([old(z)] + [z == x.z for x in vs]))

    def __eq__(self, o): raise Unsupported('comparison of values')
    __hash__ = object.__hash__
    def __bool__(self): raise Unsupported('truth value of an array')
    def __repr__(self): return 'VArr(%s)' % self.cls


CATEGORY = z3.Function('is_a_category', OBJ, B)
ISNA = z3.Function('isna', OBJ, B)


class Categories:
    def __init__(self, v): self.v = v
    def has(self, x): return SBool(self.v.cats(x.z))
    def __contains__(self, x): return bool(self.has(x))


class ResultType:
    def __init__(self, dtype, value): self.dtype_of, self.value = dtype.kind, value


class Positions(FArr):
    """np.nonzero(condition)[0]"""
    def __init__(self, cond):
        m = mask_of(cond)
        self.cond, self.m_ = cond, m
        c, i = ctx(), q(ctx())
        c.nofork += 1
        t = zbool(cond.at(SInt(i)))
        c.nofork -= 1
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(cond.shape[0]), t), m.m > 0)))
        FArr.__init__(self, (SInt(m.m),), lambda j: SInt(z3.Select(m.src, zint(j))), 'i')

    def chosen(self, j): return z3.And(j >= 0, j < zint(self.cond.shape[0]), zbool(self.cond.at(SInt(j))))


class NDMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (SArr, FArr)) or isinstance(x, VArr) and x.cls == 'ndarray'


class CatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, VArr) and x.cls == 'categorical'


class MultiMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, JIndex) and x.multi


class RangeOf:
    """pd.RangeIndex(n)"""
    def __init__(self, n): self.n = n


class RangeMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, JIndex) and x.range_type
    def __call__(cls, n): return RangeOf(n)


class IndexMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, JIndex)


DTYPES = ('int64', 'int32', 'int16', 'int8', 'uint64', 'uint32', 'uint16', 'uint8', 'float64', 'float32', 'float16')


class Scalar:
    """np.int64 and so on"""
    def __init__(self, name): self.name = name
    def __repr__(self): return 'np.' + self.name


class DType:
    """the dtype of a Series: equal to the types that stand for it"""
    def __init__(self, name): self.name = name
    kind = property(lambda self: 'O' if self.name == 'object' else self.name[0])

    def __eq__(self, o):
        n = o.name if isinstance(o, (Scalar, DType)) else {NumBool: 'bool'}.get(o, getattr(o, '__name__', o))
        n = n[2:] if n[:2] in ('s_', 'g_') else n
        return self.name == {'int': 'int64', 'float': 'float64'}.get(n, n)
    def __hash__(self): return hash(self.name)


class NumberType: pass
class NumBool: pass


def numpy():
    base = glue_numpy()
    np_ = base['numpy']

    def isin(a, b, **k):
        a = farr(a)
        if not isinstance(b, Positions) or k:
            raise Unsupported('isin(%r)' % (b,))
        return FArr(a.shape, lambda i: SBool(b.chosen(zint(a.at(i)))), 'b')

    def where(cond, x, y):
        f = lambda v: (lambda i: v.at(i)) if isinstance(v, Proxy) and hasattr(v, 'shape') else (lambda i: SInt(zint(v)))
        cond, gx, gy = farr(cond), f(x), f(y)
        if any(isinstance(v, VArr) for v in (x, y)):
            raise Unsupported('where() of values')
        return FArr(cond.shape, lambda i: P.ite(cond.at(i), gx(i), gy(i)), 'i')

    def nonzero(cond):
        return (Positions(farr(cond)),)

    def any_(a, axis=None):
        if axis is None:
            return farr(a).any()
        if axis != 0 or not isinstance(a, (MList, SSeq)):
            raise Unsupported('any(..., axis=%r)' % (axis,))
        s = seq(a)
        if z3.is_int_value(z3.simplify(zint(s.n))):
            raise Unsupported('any')
        c = ctx()
        probe = s.get(SInt(z3.Int('level_probe')))
        f, w = c.fresh('any', z3.ArraySort(I, B)), c.fresh('witness', z3.ArraySort(I, I))
        i, l = q(c), q(c)
        n = zint(probe.shape[0])
        e = zbool(s.get(SInt(l)).at(SInt(i)))
        fi, wi = z3.Select(f, i), z3.Select(w, i)
        ini = z3.And(i >= 0, i < n)
        code = find_select(e)
        c.assume(z3.ForAll([i], z3.Implies(z3.And(ini, fi), z3.And(wi >= 0, wi < zint(s.n), z3.substitute(e, (l, wi)))), patterns=[fi]))
        c.assume(z3.ForAll([i, l], z3.Implies(z3.And(ini, l >= 0, l < zint(s.n), e), fi), patterns=[code]))
        return FArr((SInt(n),), lambda i: SBool(z3.Select(f, zint(i))), 'b')

    def arange(*a, dtype=None):
        lo, n = (SInt(0), a[0]) if len(a) == 1 else (SInt(zint(a[0])), a[1] - a[0])
        if len(a) > 2:
            raise Unsupported('arange with a step')
        return FArr((SInt(zint(n)),), lambda i: lo + i, 'i')

    zeros0 = np_.zeros

    def zeros(shape, dtype=None):
        if isinstance(dtype, DT):
            z = ctx().fresh('zero', OBJ)
            return VArr(shape if not isinstance(shape, tuple) else shape[0], lambda i: z, 'ndarray', dtype.kind, True)
        return zeros0(shape, dtype)

    np_.isin, np_.where, np_.nonzero, np_.any, np_.arange, np_.zeros = isin, where, nonzero, any_, arange, zeros
    np_.flatnonzero = lambda a: Positions(farr(a))
    np_.result_type = lambda d, v: ResultType(d, v)
    np_.ndarray = NDMeta('ndarray', (), {})
    np_.number, np_.bool_ = NumberType, NumBool
    np_.double, np_.single = Scalar('float64'), Scalar('float32')
    for t in DTYPES:
        setattr(np_, t, Scalar(t))
    np_.int_ = np_.int64
    np_.intp = 'intp'
    np_.datetime64 = lambda x: ('datetime64', x)
    np_.asarray = lambda a, dtype=None: farr(a) if isinstance(a, (SArr, FArr)) else a
    return base


def find_select(e):
    """a term to trigger on: the innermost selection that mentions both bound variables"""
    found = []

    def walk(t):
        if z3.is_select(t):
            found.append(t)
        for x in t.children():
            walk(x)
    walk(e)
    if not found:
        raise Unsupported('no trigger in %s' % e)
    return found[0]


class SeriesVal(Proxy):
    """pandas.Series(values, index=index)"""
    def __init__(self, data=None, index=None, name=None): self.data, self.index, self.name = data, index, name


class FrameBase:
    _internal_names = ['_mgr']
    con = None

    def __init__(self, *a, **k): FrameBase.con.made(self, a, k)
    def __getitem__(self, item): return FrameBase.con.column(self, item)
    def __getattr__(self, item): return FrameBase.con.attribute(self, item)

    def __finalize__(self, other, method=None, **k): return self
    def _take_with_is_copy(self, indices, axis=0): return FrameBase.con.rows(self, indices, axis)
    def _take(self, indices, axis=0, is_copy=True): return FrameBase.con.rows(self, indices, axis)
    def _slice(self, slobj, axis=0): return FrameBase.con.rows(self, slobj, axis)
    def _reindex_with_indexers(self, reindexers, fill_value=None, copy=False, allow_dups=False): return FrameBase.con.reindexed(self, reindexers)
    def copy(self, deep=True): return FrameBase.con.copied(self, deep)
    def _update_inplace(self, result, verify_is_copy=True): FrameBase.con.updated(self, result)


def pandas():
    def isna(v): return SBool(ISNA(v.z))
    pd = Mod('pandas', DataFrame=FrameBase, Index=IndexMeta('Index', (), {}), MultiIndex=MultiMeta('MultiIndex', (), {}), Series=SeriesVal,
             Categorical=CatMeta('Categorical', (), {}), RangeIndex=RangeMeta('RangeIndex', (), {}), isna=isna, isnull=isna)
    return {'pandas': pd}


# arrays compared with numbers
_eq = pdshim.cmp(lambda a, b: P.eq(a, b))
_ne = pdshim.cmp(lambda a, b: P.not_(P.eq(a, b)))
for _c in (FArr, SArr):
    _c.__eq__, _c.__ne__ = _eq, _ne
    _c.__hash__ = object.__hash__
