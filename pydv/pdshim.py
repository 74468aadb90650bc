"""Assumed contracts of pandas (and of NumPy on the arrays that pandas holds), stated by position and label"""
import z3
from . import engine, poly as P
from .engine import *
from .engine import _isnumlike
from .arrays import Buf, SArr, I, R, B, arr, newarr
from .obj import *
from .obj import Cell

POSA = z3.ArraySort(OBJ, I)


class FArr(Proxy):
    """Immutable array: shape and element function"""
    def __init__(self, shape, f, kind='o', dtype=None):
        self._shape, self.f, self.kind = tuple(s if isinstance(s, SInt) else SInt(zint(s)) for s in shape), f, kind
        self.dt = dtype

    shape = property(lambda self: self._shape)
    ndim = property(lambda self: len(self._shape))
    dtype = property(lambda self: self.kind)

    def at(self, *idx): return self.f(*[SInt(zint(i)) for i in idx])
    def sym_len(self): return self._shape[0]
    length = sym_len
    def item(self, k): return self.at(k) if self.ndim == 1 else self[k]
    def copy(self, *a, **k): return self
    def frozen(self): return self
    def subst(self, g): return FArr([g(n) for n in self._shape], lambda *i: g(self.f(*i)), self.kind, self.dt)

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        key = tuple(k for k in key if k is not Ellipsis)
        while len(key) < self.ndim:
            key += (slice(None),)
        shape, maps = [], []
        for d, k in enumerate(key):
            n = self._shape[d]
            if isinstance(k, slice) and k == slice(None):
                shape.append(n), maps.append(lambda j: j)
            elif isinstance(k, (FArr, SSeries, SArr)) and getattr(k, 'kind', 'b') == 'b':
                m = mask_of(k)
                ctx().prove('the mask has the length of the axis', zint(m.n) == zint(n))
                shape.append(SInt(m.m)), maps.append(lambda j, m=m: SInt(z3.Select(m.src, zint(j))))
            elif isinstance(k, (FArr, SArr)) and k.ndim == 1:
                shape.append(k.shape[0]), maps.append(lambda j, k=k: SInt(zint(k.at(j))))
            elif _isnumlike(k):
                z = zint(k)
                ctx().prove('array index in bounds', z3.And(z >= 0, z < zint(n)))
                maps.append(SInt(z))
            else:
                raise Unsupported('index %r' % (k,))
        if not shape:
            return self.f(*maps)

        def get(*idx):
            idx, out = list(idx), []
            for m in maps:
                out.append(m if isinstance(m, SInt) else m(idx.pop(0)))
            return self.f(*out)
        return FArr(shape, get, self.kind, self.dt)

    def __invert__(self): return FArr(self._shape, lambda *i: ~self.f(*i), 'b')
    def __eq__(self, o): raise Unsupported('comparison of arrays')
    def __bool__(self): raise Unsupported('truth value of an array')
    __hash__ = object.__hash__
    def __repr__(self): return 'FArr%r' % (self._shape,)

    def sum(self): return count(self)
    def any(self): return count(self) > 0


def farr(a):
    """snapshot of an array"""
    if isinstance(a, FArr):
        return a
    if isinstance(a, SSeries):
        return a.data
    if isinstance(a, NArr):
        return FArr(a.shape, a.at, a.kind)
    f = a.frozen()
    return FArr(a.shape, lambda *i: f.at(*i), a.kind)


def count(a):
    """number of true elements: 0 exactly if there is none"""
    if a.kind != 'b':
        raise Unsupported('sum of %s' % a.kind)
    c = ctx()
    n = c.fresh('count', I)
    w = [c.fresh('where', I) for _ in a.shape]
    c.assume(n >= 0)
    c.assume(z3.Implies(n > 0, z3.And([zbool(a.at(*w))] + [z3.And(x >= 0, x < zint(s)) for x, s in zip(w, a.shape)])))
    if len(w) == 1:
        c.assume(z3.Implies(n == 0, zbool(P.forall(0, a.shape[0], lambda i: ~_sb(a.at(i))))))
    else:
        i, j = z3.Int(c.fresh_name('q')), z3.Int(c.fresh_name('q'))
        c.assume(z3.Implies(n == 0, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < zint(a.shape[0]), j >= 0, j < zint(a.shape[1])), z3.Not(zbool(a.at(i, j)))))))
    return SInt(n)


def _sb(x): return x if isinstance(x, SBool) else SBool(zbool(x))


class Ix:
    """np.ix_(rows, columns)"""
    def __init__(self, rows, cols): self.grid = (rows, cols)


def cmp(op):
    def f(self, o):
        if not _isnumlike(o):
            raise Unsupported('comparison of an array with %r' % (o,))
        a = farr(self)
        return FArr(a.shape, lambda *i: op(a.at(*i), o), 'b')
    return f


for _n, _op in (('__lt__', lambda x, y: x < y), ('__le__', lambda x, y: x <= y), ('__gt__', lambda x, y: x > y), ('__ge__', lambda x, y: x >= y)):
    setattr(FArr, _n, cmp(_op))
    setattr(SArr, _n, cmp(_op))


def inverse(c, ix, n, N):
    """source position of each target position of an index array, or -1 (no duplicates: obligation)"""
    if ix is None:
        return lambda i: zint(i)
    c.prove('as many positions as elements', zint(ix.shape[0]) == zint(n))
    k, i = z3.Int(c.fresh_name('k')), z3.Int(c.fresh_name('i'))
    a, b = c.fresh('a', I), c.fresh('b', I)
    c.prove('positions are in bounds', z3.Implies(z3.And(0 <= a, a < zint(n)), z3.And(zint(ix.at(a)) >= 0, zint(ix.at(a)) < zint(N))))
    c.prove('the index has no duplicates', z3.Implies(z3.And(0 <= a, a < b, b < zint(n)), zint(ix.at(a)) != zint(ix.at(b))))
    inv = c.fresh('source', z3.ArraySort(I, I))
    s = z3.Select(inv, i)
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(n)), z3.Select(inv, zint(ix.at(k))) == k), patterns=[zint(ix.at(k))]))
    c.assume(z3.ForAll([i], z3.And(s >= -1, s < zint(n), z3.Implies(s >= 0, zint(ix.at(s)) == i)), patterns=[s]))
    return lambda i: z3.Select(inv, zint(i))


def scatter(self, key, value):
    """assumed contract of a[np.ix_(rows, columns)] = values, a[rows, :] = values, a[:, columns] = values"""
    c = ctx()
    if hasattr(key, 'grid'):
        rows, cols = key.grid
    else:
        rows, cols = key
        if all(isinstance(x, (SArr, FArr)) for x in key):
            raise Unsupported('paired index arrays')
        if not all(isinstance(x, (SArr, FArr)) or isinstance(x, slice) and x == slice(None) for x in key):
            raise Unsupported('assignment to %r' % (key,))
        rows, cols = (None if isinstance(x, slice) else x for x in key)
    if self.ndim != 2 or self.row is not None or self.kind != 'o':
        raise Unsupported('assignment by index arrays')
    if self.buf.readonly:
        c.fail('frame', 'write to a read-only array %s' % self.buf.name)
    value = value.values if isinstance(value, SFrame) else value
    if not isinstance(value, (SArr, FArr)) or value.ndim != 2:
        raise Unsupported('assigning %r' % (value,))
    (R, C), (r, cc) = self.shape, value.shape
    src = [inverse(c, rows, r, R), inverse(c, cols, cc, C)]
    for ix, n, N in ((rows, r, R), (cols, cc, C)):
        if ix is None:
            c.prove('shapes of the assignment match', zint(n) == zint(N))
    old, add = self.frozen(), farr(value)
    self.buf.havoc()
    c.writes.append(('w', self.buf.id, (None,)))
    c.assume(P.forall2(R, C, lambda i, j: P.eq(self.at(i, j), P.ite_(P.and_(SBool(src[0](i) >= 0), SBool(src[1](j) >= 0)), add.at(SInt(src[0](i)), SInt(src[1](j))), old.at(i, j))),
                       pattern=lambda i, j: self.at(i, j)))


SArr.scatter = scatter


class NArr(Proxy):
    """np.ndarray of one dimension, or a row or column made of one by assigning to its shape: views share the elements, not the shape"""
    def __init__(self, f, n, shape=None, kind='O'):
        self.f, self.n, self.kind = f, SInt(zint(n)), kind
        self._shape = shape or (self.n,)

    ndim = property(lambda self: len(self._shape))
    dtype = property(lambda self: SVal(ctx().fresh('dtype', OBJ)))

    @property
    def shape(self): return self._shape

    @shape.setter
    def shape(self, s):
        s = tuple(x if isinstance(x, SInt) else SInt(zint(x)) for x in (s if isinstance(s, (tuple, list)) else (s,)))
        long = [x for x in s if not (z3.is_int_value(z3.simplify(x.z)) and z3.simplify(x.z).as_long() == 1)]
        if len(long) != 1 or len(s) > 2:
            raise Unsupported('shape %r' % (s,))
        ctx().prove('the new shape has as many elements', zint(long[0]) == zint(self.n))
        self._shape, self.axis = s, s.index(long[0]) if len(s) == 1 else [x is long[0] for x in s].index(True)

    axis = 0

    def at(self, *i): return self.f(SInt(zint(i[self.axis])))
    def sym_len(self): return self._shape[0]
    length = sym_len
    def copy(self): return NArr(self.f, self.n, self._shape, self.kind)

    def __getitem__(self, key):
        if key is Ellipsis:
            v = NArr(self.f, self.n, self._shape, self.kind)
            v.axis = self.axis
            return v
        return FArr(self._shape, self.at, self.kind)[key]

    def __bool__(self): raise Unsupported('truth value of an array')
    def __eq__(self, o): raise Unsupported('comparison of arrays')
    __hash__ = object.__hash__


class Mask:
    """The positions at which a Boolean array is true, in order"""
    def __init__(self, c, n, f):
        self.n = n
        N = zint(n)
        self.m, self.src, self.dst = c.fresh('selected', I), c.fresh('src', z3.ArraySort(I, I)), c.fresh('dst', z3.ArraySort(I, I))
        j, k = z3.Int(c.fresh_name('j')), z3.Int(c.fresh_name('k'))
        s, d = z3.Select(self.src, j), z3.Select(self.dst, k)
        c.nofork += 1
        fs, fk = zbool(f(SInt(s))), zbool(f(SInt(k)))
        c.nofork -= 1
        c.assume(z3.And(self.m >= 0, self.m <= N))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.m), z3.And(s >= 0, s < N, fs, z3.Select(self.dst, s) == j)), patterns=[s]))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N, fk), z3.And(d >= 0, d < self.m, z3.Select(self.src, d) == k)), patterns=[d]))
        i2 = z3.Int(c.fresh_name('j2'))
        c.assume(z3.ForAll([j, i2], z3.Implies(z3.And(0 <= j, j < i2, i2 < self.m), s < z3.Select(self.src, i2)), patterns=[z3.MultiPattern(s, z3.Select(self.src, i2))]))


def mask_of(a):
    c = ctx()
    if isinstance(a, SSeries):
        a = a.data
    n = a.shape[0]
    probe = z3.Int('mask_probe')
    c.nofork += 1
    t = z3.simplify(zbool(a.at(SInt(probe))))
    c.nofork -= 1
    d = c.ghost.setdefault('masks', {})
    key = (t.get_id(), z3.simplify(zint(n)).get_id())
    if key not in d:
        d[key] = Mask(c, n, a.at)
        c.keep.extend([t, z3.simplify(zint(n))])
    return d[key]


class SIndex(Proxy):
    """pd.Index with unique labels"""
    typ = 'index'

    def __init__(self, n, lab, pos, nlevels=1, name='index'):
        c = ctx()
        self.n, self.lab, self.pos, self.nlevels = SInt(zint(n)), lab, pos, nlevels
        self.obj = c.fresh(name, OBJ)
        self.names = SVal(c.fresh('names', OBJ))

    @staticmethod
    def fresh(name, nlevels=None, n=None):
        c = ctx()
        n = c.fresh('n_' + name, I) if n is None else zint(n)
        lab, pos = c.fresh(name, z3.ArraySort(I, OBJ)), c.fresh('pos_' + name, POSA)
        c.assume(n >= 0)
        ix = SIndex(n, lambda k: SVal(z3.Select(lab, zint(k)), LABEL), lambda x: SInt(z3.Select(pos, enc(x))), 1 if nlevels is None else nlevels, name)
        ix.axioms(lambda k: z3.Select(lab, k), lambda x: z3.Select(pos, x))
        return ix

    @staticmethod
    def of(s, name='index', nlevels=1):
        """index of the labels of a sequence (no duplicates)"""
        c = ctx()
        s = seq(s)
        pos = c.fresh('pos_' + name, POSA)
        lab = c.fresh(name, z3.ArraySort(I, OBJ))
        k = z3.Int(c.fresh_name('k'))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(s.n)), z3.Select(lab, k) == enc(s.get(SInt(k)))), patterns=[z3.Select(lab, k)]))
        ix = SIndex(s.n, lambda k: SVal(z3.Select(lab, zint(k)), LABEL), lambda x: SInt(z3.Select(pos, enc(x))), nlevels, name)
        ix.source = s
        ix.axioms(lambda k: z3.Select(lab, k), lambda x: z3.Select(pos, x))
        return ix

    def axioms(self, lab, pos):
        c = ctx()
        k, x = z3.Int(c.fresh_name('k')), z3.Const(c.fresh_name('x'), OBJ)
        n = zint(self.n)
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), pos(lab(k)) == k), patterns=[lab(k)]))
        c.assume(z3.ForAll([x], z3.And(pos(x) >= -1, pos(x) < n, z3.Implies(pos(x) >= 0, lab(pos(x)) == x)), patterns=[pos(x)]))

    def sym_len(self): return self.n
    length = sym_len
    def item(self, k): return self.lab(k)
    def at(self, k): return self.lab(k)
    shape = property(lambda self: (self.n,))

    def same(self, o):
        return P.and_(self.n == o.n, P.forall(0, self.n, lambda k: self.lab(k) == o.lab(k), pattern=lambda k: self.lab(k)))

    def equals(self, o):
        if not isinstance(o, SIndex):
            raise Unsupported('Index.equals(%r)' % (o,))
        if o is self or o.obj is self.obj:
            return True
        c = ctx()
        b = SBool(c.fresh('equals', B))
        w = c.fresh('differ', I)
        f = self.same(o)
        c.assume(z3.Implies(b.z, zbool(f)))
        c.assume(z3.Implies(z3.Not(b.z), z3.Or(zint(self.n) != zint(o.n), z3.And(w >= 0, w < zint(self.n), self.lab(w).z != o.lab(w).z))))
        return b

    def get_indexer(self, o):
        c = ctx()
        a = arr('indexer', 'i', o.n)
        k = z3.Int(c.fresh_name('k'))
        t = a.terms_at(k)[0]
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(o.n)), t == zint(self.pos(o.lab(SInt(k))))), patterns=[t]))
        a.indexer_of = (self, o)
        return a

    def get_loc(self, label):
        if isinstance(label, (tuple, STuple)):
            return get_loc_multi(self, seq(label))
        if isinstance(self.nlevels, SInt) or self.nlevels != 1:
            raise Unsupported('get_loc(%r) of a MultiIndex' % (label,))
        p = self.pos(label)
        if not bool(p >= 0):
            raise KeyError(label)
        return p

    def isin(self, o):
        return FArr((self.n,), lambda k: o.pos(self.lab(k)) >= 0, 'b')

    def __contains__(self, x): return bool(self.pos(x) >= 0)

    def __getitem__(self, key):
        if isinstance(key, (FArr, SSeries)):
            m = mask_of(key)
            ctx().prove('the mask has the length of the index', zint(m.n) == zint(self.n))
            return SIndex(m.m, lambda j: self.lab(SInt(z3.Select(m.src, zint(j)))), lambda x: self._sub(m, x), self.nlevels, 'selected')
        if _isnumlike(key):
            ctx().prove('index position in bounds', z3.And(zint(key) >= 0, zint(key) < zint(self.n)))
            return self.lab(SInt(zint(key)))
        raise Unsupported('Index[%r]' % (key,))

    def _sub(self, m, x):
        p = self.pos(x)
        d = z3.Select(m.dst, zint(p))
        return SInt(z3.If(z3.And(zint(p) >= 0, d >= 0, d < m.m, z3.Select(m.src, d) == zint(p)), d, -1))

    def take(self, idx):
        idx = farr(idx)
        n = zint(self.n)
        j = ctx().fresh('j', I)
        ctx().prove('positions are valid', z3.Implies(z3.And(j >= 0, j < zint(idx.shape[0])), z3.And(zint(idx.at(j)) >= 0, zint(idx.at(j)) < n)))
        return FArr(idx.shape, lambda k: self.lab(idx.at(k)), 'O')

    def astype(self, t):
        return Lookup(self, lambda v: SVal(CAST(v.z, enc(t))))

    def copy(self, *a, **k): return self
    def __eq__(self, o): raise Unsupported('comparison of indexes')
    def __bool__(self): raise Unsupported('truth value of an index')
    __hash__ = object.__hash__
    def __repr__(self): return 'SIndex(%s)' % self.obj


LEVEL = z3.Function('level_of_label', OBJ, I, OBJ)


class Locs(Proxy):
    """positions of the labels that begin with a key (a slice or a mask)"""
    def __init__(self, match): self.match = match
    def positions(self, j): return z3.Select(self.match, j)


def get_loc_multi(ix, s):
    """assumed contract of MultiIndex.get_loc: the position of a full label, the positions of all labels that begin with a shorter one, or KeyError"""
    c = ctx()
    N, L, n = zint(ix.n), zint(ix.nlevels), zint(s.n)
    if bool(SBool(n > L)):
        raise KeyError('too long')
    match, diff = c.fresh('matches', z3.ArraySort(I, B)), c.fresh('differs', z3.ArraySort(I, I))
    q, k = z3.Int(c.fresh_name('q')), z3.Int(c.fresh_name('k'))
    m, d = z3.Select(match, q), z3.Select(diff, q)
    lv = LEVEL(ix.lab(SInt(q)).z, k)
    c.nofork += 1
    sk, sd = enc(s.get(SInt(k))), enc(s.get(SInt(d)))
    c.nofork -= 1
    c.assume(z3.ForAll([q, k], z3.Implies(z3.And(m, k >= 0, k < n), lv == sk), patterns=[z3.MultiPattern(m, lv)]))
    c.assume(z3.ForAll([q], z3.Implies(m, z3.And(q >= 0, q < N)), patterns=[m]))
    no = z3.Implies(z3.And(q >= 0, q < N, z3.Not(m)), z3.And(d >= 0, d < n, LEVEL(ix.lab(SInt(q)).z, d) != sd))
    c.assume(z3.ForAll([q], no, patterns=[m]), z3.ForAll([q], no, patterns=[ix.lab(SInt(q)).z]))
    p = c.fresh('loc', I)
    found = SBool(c.fresh('found', B))
    c.assume(z3.Implies(found.z, z3.Select(match, p)))
    c.assume(z3.Implies(z3.Not(found.z), z3.ForAll([q], z3.Not(m), patterns=[m])))
    if not bool(found):
        raise KeyError('no such label')
    if bool(SBool(n == L)):
        c.assume(z3.ForAll([q], z3.Implies(m, q == p), patterns=[m]))       # labels are unique
        return SInt(p)
    return Locs(match)


LABEL = Typ('label')
CAST = z3.Function('cast', OBJ, OBJ, OBJ)


class Lookup(Proxy):
    """labels converted to a data type (Index.astype, Categorical)"""
    def __init__(self, ix, f): self.ix, self.f = ix, f

    def take(self, idx):
        a = self.ix.take(idx)
        return FArr(a.shape, lambda k: self.f(a.at(k)), 'O')


class SeriesElement:
    """Series as elements of a list: the array of the values"""
    def __init__(self, index, n, kind): self.index, self.n, self.kind = index, n, kind
    def __eq__(self, o): return isinstance(o, SeriesElement) and z3.eq(z3.simplify(zint(o.n)), z3.simplify(zint(self.n))) and o.kind == self.kind
    def __ne__(self, o): return not self == o
    __hash__ = None

    def element(self, z):
        return SSeries(FArr((self.n,), lambda i: decode(z3.Select(z, zint(i))), self.kind), self.index)


class SSeries(Proxy):
    def as_element(self):
        t = zterm(self.data.at(z3.Int('probe')))
        return z3.ArraySort(I, t.sort()), SeriesElement(self.index, self.data.shape[0], self.kind)

    def element_term(self):
        c = ctx()
        i = z3.Int(c.fresh_name('i'))
        c.nofork += 1
        t = zterm(self.data.at(SInt(i)))
        c.nofork -= 1
        a = c.fresh('series', z3.ArraySort(I, t.sort()))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(self.data.shape[0])), z3.Select(a, i) == t), patterns=[z3.Select(a, i)]))
        return a

    def __init__(self, data, index, name=None):
        self.data, self.index, self.name = farr(data), index, name
        ctx().prove('Series: as many values as labels', zint(self.data.shape[0]) == zint(index.n)) if index is not None else None
    shape = property(lambda self: self.data.shape)
    kind = property(lambda self: self.data.kind)
    values = property(lambda self: self.data)
    def to_numpy(self, *a, **k): return self.data
    def at(self, k): return self.data.at(k)
    def sym_len(self): return self.data.shape[0]
    def length(self): return self.data.shape[0]
    def copy(self, *a, **k): return SSeries(self.data, self.index, self.name)
    def __invert__(self): return SSeries(~self.data, self.index, self.name)
    def __bool__(self): raise Unsupported('truth value of a Series')
    def __eq__(self, o): raise Unsupported('comparison of Series')
    __hash__ = object.__hash__


class SFrame(Proxy):
    """pd.DataFrame of one data type. values: SArr (shared memory) or FArr"""
    def __init__(self, values, index, columns):
        self.data, self.index, self.columns = values, index, columns
        ctx().prove('DataFrame: as many rows as labels', zint(values.shape[0]) == zint(index.n))
        ctx().prove('DataFrame: as many columns as labels', zint(values.shape[1]) == zint(columns.n))
    values = property(lambda self: self.data)
    shape = property(lambda self: self.data.shape)
    kind = property(lambda self: self.data.kind)
    def to_numpy(self, *a, **k): return self.data
    def at(self, i, j): return self.data.at(i, j)
    def sym_len(self): return self.data.shape[0]
    def copy(self, deep=True):
        return SFrame(self.data.copy() if deep else self.data, self.index, self.columns)

    def transpose(self, *a):
        d = farr(self.data)
        return SFrame(FArr((d.shape[1], d.shape[0]), lambda i, j: d.at(j, i), d.kind), self.columns, self.index)
    T = property(transpose)

    @property
    def loc(self):
        return Loc(self)

    @property
    def iloc(self):
        return ILoc(self)

    def __bool__(self): raise Unsupported('truth value of a DataFrame')
    def __eq__(self, o): raise Unsupported('comparison of DataFrames')
    __hash__ = object.__hash__
    def __repr__(self): return 'SFrame(%r)' % (self.data,)


class ILoc:
    def __init__(self, f): self.f = f

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None) and _isnumlike(key[1]):
            d = farr(self.f.data)
            return SSeries(d[:, key[1]], self.f.index)
        raise Unsupported('iloc[%r]' % (key,))


class Loc:
    def __init__(self, f): self.f = f

    def __getitem__(self, mask):
        f = self.f
        if isinstance(mask, SSeries):
            c = ctx()
            c.prove('the mask is labelled like the frame', zbool(mask.index.same(f.index)) if mask.index is not f.index else z3.BoolVal(True))
            mask = mask.data
        if isinstance(mask, FArr) and mask.kind == 'b':
            d = farr(f.data)
            return SFrame(d[mask, :], f.index[mask], f.columns)
        raise Unsupported('loc[%r]' % (mask,))


class Concat:
    """frame under construction by pd.concat(list of Series, axis=1)"""
    def __init__(self, cols, index, n, rows): self.cols, self.index, self.n, self.rows = cols, index, n, rows


class Meta(type):
    def __instancecheck__(cls, x): return isinstance(x, cls.inst)


def pandas_mod():
    from .shim import Mod, Missing

    def as2d(v): return v

    class Index(metaclass=Meta):
        inst = (SIndex,)

        def __new__(cls, data, name=None, dtype=None):
            return data if isinstance(data, SIndex) else SIndex.of(data)

    class MultiIndex(metaclass=Meta):
        inst = (type(None),)

        @staticmethod
        def from_tuples(t, names=None):
            s = seq(t)
            return SIndex.of(s, nlevels=len_of_label(s))

    class Series(metaclass=Meta):
        inst = (SSeries,)

        def __new__(cls, data, index=None, name=None, dtype=None):
            return SSeries(data, index, name)

    class DataFrame(metaclass=Meta):
        inst = (SFrame,)

        def __new__(cls, data, index=None, columns=None):
            if isinstance(data, MList):
                raise Unsupported('DataFrame of a list')
            return SFrame(data, index, columns)

    def RangeIndex(n, name=None):
        ix = SIndex.of(SSeq(n, lambda k: SVal(box(zint(k)))))
        ix.rangename = name
        return ix

    def Categorical(ix):
        return Lookup(ix, lambda v: v)

    def concat(xs, axis=0):
        if axis != 1:
            raise Unsupported('concat along rows')
        s = seq(xs)
        probe = ctx().fresh('col', I)
        one = s.get(SInt(probe))
        if not isinstance(one, SSeries):
            raise Unsupported('concat of %r' % (one,))
        f = FArr((one.data.shape[0], s.n), lambda i, j: s.get(j).at(i), one.data.kind)
        return SFrame(f, one.index, RangeIndex(s.n))
    types = Mod('pandas.api.types', is_integer_dtype=Missing('is_integer_dtype'))
    api = Mod('pandas.api', types=types)
    return {'pandas': Mod('pandas', Index=Index, MultiIndex=MultiIndex, Series=Series, DataFrame=DataFrame, RangeIndex=RangeIndex, Categorical=Categorical, concat=concat, api=api),
            'pandas.api': api, 'pandas.api.types': types}


def len_of_label(s):
    t = s.get(SInt(z3.Int('probe')))
    return getattr(t, 'nlevels', SInt(ctx().fresh('nlevels', I)))
