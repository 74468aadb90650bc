"""Contracts of cheval/utils.py: the values of a column as numexpr gets them"""
import z3
from . import poly as P
from .engine import *
from .arrays import *
from .obj import *
from .pdshim import NArr
from .glue import Glue, glue_numpy
from .model_contracts import new
from .api_contracts import false
from .shim import Mod

TEXTLEN = z3.Function('length_of_text', OBJ, I)
BYTES = z3.Function('bytes_of_text', OBJ, OBJ)
TRUNCATED = z3.Function('truncated', OBJ, I, OBJ)
CAST = z3.Function('cast', OBJ, OBJ, OBJ)
ARRAY_OF = z3.Function('array_of', OBJ, OBJ)
NANV = float('nan')


class Dtype:
    def __init__(self, name, **k):
        self.name = name
        self.__dict__.update(k)

    def __str__(self): return self.name


FLOATS = ('float', 'float64', 'f8', 'd')


class Isna(Proxy):
    def __init__(self, f, n): self.f, self.n = f, n
    def __invert__(self): return Isna(lambda i: z3.Not(self.f(i)), self.n)
    def all(self, *a): return SBool(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zint(self.n)), self.f(J))))
    def any(self, *a): return SBool(z3.Exists([J], z3.And(J >= 0, J < zint(self.n), self.f(J))))
    def __bool__(self): raise Unsupported('truth value of a Series')


J = z3.Int('j!na')


class Lengths:
    """.str.len() of texts: .max() skips missing ones; a number with decimals if some are missing, NaN if there are none"""
    def __init__(self, val, na, n): self.val, self.na, self.n = val, na, n

    def max(self):
        c = ctx()
        i = z3.Int(c.fresh_name('i'))
        some_na = z3.Exists([i], z3.And(i >= 0, i < zint(self.n), self.na(i)))
        if bool(SBool(some_na)) or bool(SBool(zint(self.n) == 0)):
            return Inexact(bool(c.choose('no text at all')))
        m = SInt(c.fresh('longest', I))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(self.n)), TEXTLEN(self.val(i)) <= m.z), patterns=[self.val(i)]))
        c.assume(z3.Exists([i], z3.And(i >= 0, i < zint(self.n), TEXTLEN(self.val(i)) == m.z)))
        return m


class Inexact:
    """a floating-point number as the longest length"""
    def __init__(self, nan): self.nan = nan
    def __format__(self, s): return 'nan' if self.nan else '3.0'


class Categorical:
    def __init__(self, con): self.con = con

    @property
    def categories(self):
        con = self.con
        k = Cats()
        k.dtype = con.catdtype
        if con.kind == 'text categories':
            k.str = Str(con.cat, lambda i: z3.BoolVal(False), con.ncat)
        return k

    def astype(self, d): return self.con.converted(d)


class Cats:
    pass


class Str:
    def __init__(self, *a): self.a = a
    def len(self): return Lengths(*self.a)


class Column:
    """a Series"""
    def __init__(self, con): self.con = con
    dtype = property(lambda self: self.con.dtype)
    def isna(self): return Isna(self.con.na, self.con.n)
    isnull = isna
    def notna(self): return ~self.isna()
    def sym_len(self): return self.con.n
    def __bool__(self): raise Unsupported('truth value of a Series')

    @property
    def str(self):
        con = self.con
        if con.kind not in ('text', 'text categories'):
            raise AttributeError('Can only use .str accessor with string values!')
        return Str(con.val, con.na, con.n)

    @property
    def values(self):
        con = self.con
        if con.kind in ('text categories', 'number categories'):
            return Categorical(con)
        return con.own()

    array = values

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        con = self.con
        if dtype is None and na_value is None:
            return con.own()
        return con.converted(dtype, na_value)

    def astype(self, d): return self.con.converted(d)


class ConvertSeries(Glue):
    """The cells of the array are the values of the Series, at the same positions: numbers as they are, missing integers as NaN, text in bytes without being cut"""
    name = 'convert_series'
    module = 'cheval/utils.py'
    raises = ('TypeError', 'ValueError', 'AttributeError')
    KINDS = ('integers', 'nullable integers', 'text categories', 'number categories', 'text', 'objects', 'datetime', 'timedelta', 'other numbers')

    def imports(self):
        d = glue_numpy()
        np_ = d['numpy']
        con = self

        def isnan(v):
            if isinstance(v, Inexact):
                return v.nan
            if isinstance(v, (SInt, int)):
                return False
            raise Unsupported('isnan(%r)' % (v,))
        np_.isnan = isnan
        np_.all = lambda a: a.all()
        np_.any = lambda a: a.any()
        np_.asarray = np_.array = lambda s, dtype=None: s.to_numpy(dtype)
        np_.datetime64, np_.timedelta64, np_.integer, np_.floating, np_.number, np_.object_ = ('datetime64', 'timedelta64', 'integer', 'floating', 'number', 'object')
        np_.issubdtype = lambda d, t: t in con.ancestors(d)
        types = Mod('pandas.api.types', is_integer_dtype=lambda d: 'integer' in con.ancestors(d), is_categorical_dtype=lambda d: getattr(d, 'dtype', d).name == 'category', is_object_dtype=lambda d: d.name == 'object')
        return dict(d, **{'pandas.api': Mod('pandas.api', types=types), 'pandas.api.types': types})

    def ancestors(self, d):
        if d is self.dtype:
            return {'integers': ('integer', 'number'), 'nullable integers': ('integer', 'number'), 'datetime': ('datetime64',), 'timedelta': ('timedelta64',), 'other numbers': ('floating', 'number'), 'text': ('object',), 'objects': ('object',)}.get(self.kind, ())
        return ()

    def stubs(self, c, w):
        return {':to_numpy': lambda s, ignore_check=False: self.own()}

    def build(self, c, w):
        w.module(self.module)['_USE_TO_NUMPY'] = True          # pandas 1.4 (the other branches are for pandas below 0.24)
        self.kind = self.KINDS[-1]
        for k in self.KINDS[:-1]:
            if c.choose(k):
                self.kind = k
                break
        arr, miss, cats, codes = c.fresh('values', z3.ArraySort(I, OBJ)), c.fresh('missing', z3.ArraySort(I, B)), c.fresh('categories', z3.ArraySort(I, OBJ)), c.fresh('codes', z3.ArraySort(I, I))
        self.n, self.ncat = SInt(c.fresh('n', I)), SInt(c.fresh('n_categories', I))
        c.assume(self.n >= 0, self.ncat >= 0)
        self.val = lambda i: z3.Select(arr, zint(i))
        self.na = lambda i: z3.Select(miss, zint(i))
        self.cat = lambda i: z3.Select(cats, zint(i))
        i = z3.Int('i')
        kind = self.kind
        if kind == 'integers':
            c.assume(z3.ForAll([i], z3.Not(self.na(i))))
        if 'categories' in kind:
            code = z3.Select(codes, i)
            c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(self.n), z3.Not(self.na(i))), z3.And(code >= 0, code < zint(self.ncat), self.val(i) == self.cat(code))), patterns=[self.val(i)]))
        names = {'integers': 'int64', 'nullable integers': 'Int64', 'text categories': 'category', 'number categories': 'category', 'text': 'object', 'objects': 'object', 'datetime': 'datetime64[ns]',
                 'timedelta': 'timedelta64[ns]', 'other numbers': 'float64'}
        self.dtype = Dtype(names[kind])
        self.catdtype = Dtype('object' if kind == 'text categories' else 'int64')
        if kind == 'nullable integers':
            self.dtype.numpy_dtype = Dtype('int64')
        self.s = Column(self)
        self.raw = SBool(c.fresh('allow_raw', B))
        return (self.s,), ({'allow_raw': self.raw} if c.choose('allow_raw given') else {})

    # what pandas and numpy do
    def own(self):
        if not hasattr(self, '_own') or self._own_ctx is not self.s:
            self._own, self._own_ctx = NArr(lambda i: SVal(self.val(i)), self.n), self.s
        return self._own

    def converted(self, d, na_value=None):
        c = ctx()
        i = z3.Int(c.fresh_name('i'))
        some_na = SBool(z3.Exists([i], z3.And(i >= 0, i < zint(self.n), self.na(i))))
        if isinstance(d, SVal):
            p = d.__dict__.get('pieces', ())
            if len(p) == 2 and p[0] in ('S', '|S') and isinstance(p[1], SVal) and 'decimal' in p[1].__dict__:
                w = p[1].__dict__['decimal']
                if self.kind not in ('text', 'text categories'):
                    return NArr(lambda i: SVal(TRUNCATED(CAST(pyconst('bytes'), self.val(i)), w)), self.n)
                return NArr(lambda i: SVal(z3.If(TEXTLEN(self.val(i)) <= w, BYTES(self.val(i)), TRUNCATED(BYTES(self.val(i)), w))), self.n)
            raise Unsupported('dtype %r' % (d,))
        if isinstance(d, str) and d[:1] in 'S' and not d[1:].isdigit():
            raise TypeError('data type %r not understood' % d)
        if isinstance(d, str) and d[:1] == 'S':
            w = int(d[1:])
            return NArr(lambda i: SVal(z3.If(TEXTLEN(self.val(i)) <= w, BYTES(self.val(i)), TRUNCATED(BYTES(self.val(i)), w))), self.n)
        whole = d is self.dtype or d is self.catdtype or d is getattr(self.dtype, 'numpy_dtype', self)
        name = getattr(d, 'name', None) or getattr(d, '__name__', None) or d
        if name in FLOATS and na_value is not None:
            ok = isinstance(na_value, float) and na_value != na_value
            if not ok:
                raise Unsupported('na_value %r' % (na_value,))
            return NArr(lambda i: SVal(z3.If(self.na(i), enc(NANV), self.val(i))), self.n)
        if (self.kind in ('nullable integers', 'number categories') and bool(some_na)):
            raise ValueError('missing values')
        if d is self.dtype and self.kind == 'nullable integers':
            return NArr(lambda i: SVal(self.val(i)), self.n, kind='objects')          # (pandas: an array of Python integers)
        if d is self.dtype and 'categories' not in self.kind:
            return self.own()
        f = (lambda i: self.val(i)) if whole or name in FLOATS else (lambda i: CAST(pyconst(str(name)), self.val(i)))
        return NArr(lambda i: SVal(f(i)), self.n)

    def ensures(self, res, exc):
        c = ctx()
        i = z3.Int('i')
        rows = z3.And(i >= 0, i < zint(self.n))
        kind = self.kind
        some_na = z3.Exists([i], z3.And(rows, self.na(i)))
        if exc is not None:
            if kind in ('datetime', 'timedelta', 'objects'):
                yield 'dates, times and objects that are no text are refused', false(True)
            elif kind in ('text', 'text categories', 'number categories'):
                yield 'text is only refused if there is none, or a part of it is missing', SBool(z3.Or(some_na, zint(self.ncat if kind == 'text categories' else self.n) == 0))
            else:
                yield 'numbers are not refused', false(False)
            return
        if kind in ('datetime', 'timedelta', 'objects'):
            yield 'dates, times and objects that are no text are refused', false(False)
            return
        if not isinstance(res, NArr):
            yield 'an array', false(False)
            return
        want = self.val(i)
        if kind in ('text', 'text categories'):
            want = BYTES(want)
        elif kind == 'nullable integers':
            want = z3.If(self.na(i), enc(NANV), want)
        known = z3.Not(self.na(i)) if kind in ('text', 'text categories', 'number categories') else z3.BoolVal(True)
        yield 'as many values as rows', P.eq(res.n, self.n)
        yield 'each value is that of its row', SBool(z3.ForAll([i], z3.Implies(z3.And(rows, known), enc(res.at(SInt(i))) == want)))
        if kind != 'text categories' and kind != 'text':
            yield 'numbers, not objects', false(res.kind != 'objects')
        yield 'its shape can be changed without changing the column', false(res is not self.own())


class ToNumpy(Glue):
    """the data of the frame, Series or index, with or without a copy"""
    name = 'to_numpy'
    module = 'cheval/utils.py'

    def imports(self):
        d = glue_numpy()
        d['numpy'].shares_memory = lambda a, b: bool(ctx().choose('they share memory'))
        return d

    def build(self, c, w):
        w.module(self.module)['_USE_TO_NUMPY'] = bool(c.choose('a recent pandas'))
        self.z = z = c.fresh('data', OBJ)
        obj = new(type('Pandas', (), {'to_numpy': lambda s, dtype=None, copy=False: SVal(ARRAY_OF(z)), 'values': property(lambda s: SVal(ARRAY_OF(z)))}))
        return (obj,), ({'ignore_check': SBool(c.fresh('ignore_check', B))} if c.choose('ignore_check given') else {})

    def ensures(self, res, exc):
        return [('the data', SBool(enc(res) == ARRAY_OF(self.z)))]
