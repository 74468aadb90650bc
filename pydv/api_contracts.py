"""Contracts of the symbols (cheval/api.py): what is accepted, what is used, what a copy has"""
import z3
from . import engine, poly as P
from .engine import *
from .arrays import *
from .obj import *
from .pdshim import *
from .glue import Glue, pandas_mod
from .model_contracts import new
from .shim import Mod, Missing

CONVV = z3.Function('converted_value', OBJ, OBJ)          # the value that a cell of a column has after conversion (convert_series)
ITEM = z3.Function('item_of', OBJ, OBJ, OBJ)
AGG = z3.Function('aggregate', OBJ, OBJ, OBJ, OBJ)
COLLEN = z3.Function('length_of_column', OBJ, I)
COLVAL = z3.Function('value_of_column', OBJ, I, OBJ)
INCOLS = z3.Function('has_column', OBJ, OBJ, B)
LINKED = z3.Function('is_linked', OBJ, B)


class Parent:
    def __init__(self):
        self.decision_units, self.choices = SIndex.fresh('units'), SIndex.fresh('choices')

    def axis(self, orientation): return self.choices if orientation else self.decision_units


class STable(Proxy):
    """a DataFrame of which only labels and columns matter"""
    def __init__(self, name='table', index=None):
        c = ctx()
        self.index, self.obj = SIndex.fresh('rows') if index is None else index, c.fresh(name, OBJ)

    def has(self, x): return SBool(INCOLS(self.obj, enc(x)))
    def __contains__(self, x): return bool(self.has(x))
    columns = property(lambda self: self)
    origin = None

    def __getitem__(self, x):
        if isinstance(x, (SSeries, FArr, SArr)):
            return self.loc[x]
        return SVal(ITEM(self.obj, enc(x)), COLUMN)

    @property
    def loc(self): return TableLoc(self)
    def copy(self, deep=True): return self
    def __bool__(self): raise Unsupported('truth value of a DataFrame')
    def __eq__(self, o): raise Unsupported('comparison of tables')
    __hash__ = object.__hash__


class TableLoc:
    def __init__(self, t): self.t = t

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], slice) and k[1] == slice(None):
            k = k[0]
        if not (isinstance(k, (SSeries, FArr, SArr)) and k.kind == 'b'):
            raise Unsupported('loc[%r]' % (k,))
        if isinstance(k, SSeries):
            ctx().prove('the mask is labelled like the table', zbool(k.index.same(self.t.index)) if k.index is not self.t.index else z3.BoolVal(True))
        out = type(self.t)(index=self.t.index[k])
        out.origin = (self.t, mask_of(k))
        return out


class LTable(STable):
    """a LinkedDataFrame"""


COLUMN = Typ('column or link', {
    '[]': lambda s: lambda k: SVal(ITEM(s.z, enc(k)), COLUMN),
    'getattr': lambda s, name: lambda args: SVal(AGG(s.z, name.z, enc(args)), COLUMN),
})


def converted(s, allow_raw=False):
    """assumed here (bounded: rtc/c10.py): the values of a column, as many as there are rows"""
    if isinstance(s, SSeries):
        return NArr(lambda i: SVal(CONVV(enc(s.at(i)))), s.length())
    if isinstance(s, SVal):
        n = SInt(COLLEN(s.z))
        ctx().assume(n >= 0)
        return NArr(lambda i: SVal(CONVV(COLVAL(s.z, zint(i)))), n)
    raise Unsupported('conversion of %r' % (s,))


class SymbolContract(Glue):
    module = 'cheval/api.py'

    def imports(self):
        pd = pandas_mod()
        pd['pandas'].DataFrame.inst = (SFrame, STable)
        return dict(pd, **{'cheval.ldf': Mod('cheval.ldf', LinkedDataFrame=type(pd['pandas'].DataFrame)('LinkedDataFrame', (), {'inst': (LTable,)}))})

    def stubs(self, c, w):
        return {':convert_series': converted}

    def symbol(self, w, name, **attrs):
        self.parent = Parent()
        return new(w.cls(name, 'cheval/api.py'), _parent=self.parent, _name=SVal(ctx().fresh('name', OBJ), NAME), **attrs)

    def orient(self, c): return 1 if c.choose('aligned with the choices') else 0


# ---------------------------------------------------------------------------------------------- vectors
class VectorAssign(SymbolContract):
    name = 'VectorSymbol.assign'
    raises = ('AssertionError', 'TypeError')

    def build(self, c, w):
        self.o = self.orient(c)
        self.obj = self.symbol(w, 'VectorSymbol', _orientation=self.o, _raw_array=None)
        vals = c.fresh('data', z3.ArraySort(I, OBJ))
        self.at = lambda i: SVal(z3.Select(vals, zint(i)))
        n = SInt(c.fresh('n_data', I))
        c.assume(n >= 0)
        self.n = n
        if c.choose('a Series'):
            self.case = 'series'
            self.index = self.parent.axis(self.o) if c.choose('the same index object') else SIndex.fresh('labels')
            self.data = SSeries(FArr((self.index.n,), self.at, 'O'), self.index)
        elif c.choose('an array'):
            self.case = 'array'
            self.data = NArr(self.at, n)
        elif c.choose('a matrix'):
            self.case = 'matrix'
            self.data = FArr((n, SInt(c.fresh('m_data', I))), lambda i, j: self.at(i), 'O')
        else:
            self.case, self.data = 'other', MList([1, 2])
        return (self.obj, self.data), {}

    def accepted(self):
        ax = self.parent.axis(self.o)
        if self.case == 'series':
            return self.index.same(ax)
        if self.case == 'array':
            return P.eq(self.n, ax.n)
        return SBool(z3.BoolVal(False))

    def ensures(self, res, exc):
        ax = self.parent.axis(self.o)
        ok = self.accepted()
        if exc is not None:
            return [('refused only if labels or length differ', P.not_(ok))]
        a = self.obj._raw_array
        if a is None:
            return [('the data is kept', SBool(z3.BoolVal(False)))]
        want = (lambda i: SVal(CONVV(self.at(i).z))) if self.case == 'series' else self.at
        shape = (1, ax.n) if self.o else (ax.n, 1)
        cell = (lambda i: a.at(0, i)) if self.o else (lambda i: a.at(i, 0))
        out = [('accepted only if the labels (or the length) are those of the axis', ok),
               ('a row, or a column, according to the orientation', P.and_(SBool(z3.BoolVal(a.ndim == 2)), *[P.eq(x, y) for x, y in zip(a.shape, shape)])),
               ('the values are those assigned, in order', P.forall(0, ax.n, lambda i: P.eq(cell(i), want(i)), pattern=None))]
        if self.case == 'array':
            out.append(('the array of the caller keeps its shape', SBool(z3.BoolVal(self.data.ndim == 1))))
        return out


class VectorGet(SymbolContract):
    name = 'VectorSymbol._get'
    raises = ('ModelNotReadyError',)

    def build(self, c, w):
        self.a = NArr(lambda i: SVal(COLVAL(pyconst('x'), zint(i))), SInt(c.fresh('n', I))) if c.choose('assigned') else None
        self.obj = self.symbol(w, 'VectorSymbol', _orientation=self.orient(c), _raw_array=self.a)
        return (self.obj,), {}

    def ensures(self, res, exc):
        if exc is not None:
            return [('refused only without data', SBool(z3.BoolVal(self.a is None)))]
        return [('the data assigned', SBool(z3.BoolVal(self.a is not None and res is self.a)))]


# ---------------------------------------------------------------------------------------------- tables
class TableAssign(SymbolContract):
    name = 'TableSymbol.assign'
    raises = ('AssertionError', 'TypeError')

    def build(self, c, w):
        self.o = self.orient(c)
        self.mandatory = MSet(name='mandatory', arbitrary=True)
        self.mand0 = self.mandatory.frozen()
        self.links = bool(c.choose('links are allowed'))
        self.obj = self.symbol(w, 'TableSymbol', _orientation=self.o, _mandatory_attributes=self.mandatory, _allow_links=self.links, _table=None)
        index = self.parent.axis(self.o) if c.choose('the same index object') else SIndex.fresh('labels')
        self.case = 'linked' if c.choose('a LinkedDataFrame') else 'plain' if c.choose('a DataFrame') else 'other'
        self.data = LTable(index=index) if self.case == 'linked' else STable(index=index) if self.case == 'plain' else SSeries(FArr((index.n,), lambda i: SVal(COLVAL(pyconst('x'), zint(i))), 'O'), index)
        self.index = index
        return (self.obj, self.data), {}

    def complete(self, k=None, it=None):
        x = z3.Const('x', OBJ)
        m = z3.Select(self.mand0.mem, x)
        return SBool(z3.ForAll([x], z3.Implies(m, INCOLS(self.data.obj, x)), patterns=[m]))

    def extra(self, info, loop, env0, names, kinds):
        if self.case != 'other':
            yield 'the attributes seen so far are there', lambda st, S: P.forall(0, st.k, lambda j: self.data.has(st.it.item(j)), pattern=lambda j: st.it.item(j))

    def ensures(self, res, exc):
        ax = self.parent.axis(self.o)
        if self.case == 'other':
            return [('only tables are accepted', SBool(z3.BoolVal(exc is not None)))]
        ok = P.and_(self.index.same(ax), self.complete(), SBool(z3.BoolVal(self.links or self.case == 'plain')))
        if exc is not None:
            return [('refused only for its labels, a mandatory attribute or its links', P.not_(ok))]
        return [('labels are those of the axis', self.index.same(ax)), ('all mandatory attributes are there', self.complete()),
                ('no links unless allowed', SBool(z3.BoolVal(self.links or self.case == 'plain'))),
                ('the table is the one assigned', SBool(z3.BoolVal(self.obj._table is self.data)))]


class TableGet(SymbolContract):
    name = 'TableSymbol._get'
    raises = ('AssertionError',)

    def build(self, c, w):
        self.o, con = self.orient(c), self
        self.linked = bool(c.choose('a LinkedDataFrame'))
        self.table = SVal(c.fresh('table', OBJ), Typ('table', dict(COLUMN.attrs, isinstance=lambda s, t: self.linked or t is not con.w.module(con.module)['LinkedDataFrame'])))
        self.obj = self.symbol(w, 'TableSymbol', _orientation=self.o, _table=self.table, _mandatory_attributes=MSet(), _allow_links=True)
        self.chain = c.fresh('chain', z3.ArraySort(I, OBJ))
        self.L = SInt(c.fresh('n_chain', I))
        c.assume(self.L >= 1)
        self.withfunc = SBool(c.fresh('withfunc', B))
        self.func, self.args = SVal(c.fresh('func', OBJ), NAME), SVal(c.fresh('args', OBJ), NAME)
        names = MList(SSeq(self.L, lambda k: SVal(z3.Select(self.chain, zint(k)), NAME)))
        self.info = w.cls('ChainTuple', 'cheval/parsing/expr_items.py')(names, self.func, self.args, self.withfunc)
        # the attribute that the names denote, from the last name (next to the table) to the first
        self.fold = c.fresh('looked_up', z3.ArraySort(I, OBJ))
        k = z3.Int(c.fresh_name('k'))
        f = z3.Select(self.fold, k)
        c.assume(z3.Select(self.fold, 0) == self.table.z)
        step = z3.Select(self.fold, k + 1) == ITEM(f, z3.Select(self.chain, zint(self.L) - 1 - k))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(self.L)), step), patterns=[f]))
        return (self.obj,), dict(chain_info=self.info)

    def extra(self, info, loop, env0, names, kinds):
        for a in [a for a in names if isinstance(env0.get(a), SVal)]:
            yield 'looked up so far: %s' % a, lambda st, S, a=a: SBool(enc(st[a]) == z3.Select(self.fold, zint(st.k)))

    def ensures(self, res, exc):
        linked = self.linked
        chained = P.or_(self.L > 1, self.withfunc)
        if exc is not None:
            return [('refused only if a plain table would be looked up through links', P.and_(chained, SBool(z3.BoolVal(not linked))))]
        last = z3.Select(self.fold, zint(self.L))
        want = z3.If(self.withfunc.z, AGG(last, self.func.z, self.args.z), last)
        n = SInt(COLLEN(want))
        cell = (lambda i: res.at(0, i)) if self.o else (lambda i: res.at(i, 0))
        shape = (1, n) if self.o else (n, 1)
        return [('a row, or a column, according to the orientation', P.and_(SBool(z3.BoolVal(res.ndim == 2)), *[P.eq(x, y) for x, y in zip(res.shape, shape)])),
                ('the values of what the names denote', P.forall(0, n, lambda i: P.eq(cell(i), SVal(CONVV(COLVAL(want, zint(i))))), pattern=None))]


# ---------------------------------------------------------------------------------------------- matrices
class MatrixAssign(SymbolContract):
    name = 'MatrixSymbol.assign'
    raises = ('AssertionError', 'NotImplementedError', 'TypeError', 'AttributeError')

    def build(self, c, w):
        self.o = self.orient(c)
        self.rc, self.rr = SBool(c.fresh('reindex_cols', B)), SBool(c.fresh('reindex_rows', B))
        self.fill = ONum(c.fresh('fill', NUM))
        self.obj = self.symbol(w, 'MatrixSymbol', _orientation=self.o, _reindex_cols=self.rc, _reindex_rows=self.rr, _fill_value=self.fill, _matrix=None)
        p = self.parent
        rows = p.decision_units if c.choose('same row index object') else SIndex.fresh('rows')
        cols = p.choices if c.choose('same column index object') else SIndex.fresh('columns')
        c.assume(rows.n >= 1), c.assume(cols.n >= 1)
        self.rows, self.cols = rows, cols
        if c.choose('a DataFrame'):
            self.case = 'table'
            if self.o:
                self.table = SFrame(arr('table', 'o', cols.n, rows.n), cols, rows)
                v = self.table.data.frozen()
                self.value = lambda i, j: v.at(j, i)
            else:
                self.table = SFrame(arr('table', 'o', rows.n, cols.n), rows, cols)
                v = self.table.data.frozen()
                self.value = v.at
        else:
            self.case, self.table = 'other', MList([1])
        return (self.obj, self.table), {}

    def ensures(self, res, exc):
        if self.case == 'other':
            return [('only tables are accepted', SBool(z3.BoolVal(exc is not None)))]
        if exc == 'AttributeError':
            raise Unsupported(self.exc_text)
        p, rows, cols = self.parent, self.rows, self.cols
        same_r, same_c = rows.same(p.decision_units), cols.same(p.choices)
        known = P.and_(P.forall(0, rows.n, lambda k: p.decision_units.pos(rows.lab(k)) >= 0, pattern=lambda k: rows.lab(k)),
                       P.forall(0, cols.n, lambda k: p.choices.pos(cols.lab(k)) >= 0, pattern=lambda k: cols.lab(k)))
        may = P.and_(P.or_(same_r, self.rr), P.or_(same_c, self.rc))
        if exc is not None:
            return [('refused only with unknown labels, or other labels without re-indexing', P.not_(P.and_(known, may)))]
        m = self.obj._matrix

        def want(i, j):
            a, b = rows.pos(p.decision_units.lab(i)), cols.pos(p.choices.lab(j))
            return P.ite_(P.and_(a >= 0, b >= 0), self.value(a, b), self.fill)
        if m is None:
            return [('the data is kept', SBool(z3.BoolVal(False)))]
        return [('unknown labels are refused', known), ('other labels are refused without re-indexing', may),
                ('one row per decision unit, one column per choice', P.and_(P.eq(m.shape[0], p.decision_units.n), P.eq(m.shape[1], p.choices.n))),
                ('each cell has the value with its labels, or the fill value',
                 P.forall2(p.decision_units.n, p.choices.n, lambda i, j: P.eq(m.at(i, j), want(i, j)), pattern=lambda i, j: m.at(i, j)))]


class MatrixGet(SymbolContract):
    name = 'MatrixSymbol._get'

    def build(self, c, w):
        self.a = arr('m', 'o', SInt(c.fresh('r', I)), SInt(c.fresh('c', I)))
        self.obj = self.symbol(w, 'MatrixSymbol', _matrix=self.a, _orientation=0)
        return (self.obj,), {}

    def ensures(self, res, exc):
        return [('the data assigned', SBool(z3.BoolVal(res is self.a)))]


# ---------------------------------------------------------------------------------------------- numbers
class NumberAssign(SymbolContract):
    name = 'NumberSymbol.assign'

    def build(self, c, w):
        self.v = SReal(c.fresh('value', R))
        self.obj = self.symbol(w, 'NumberSymbol', _val=None)
        return (self.obj, self.v), {}

    def ensures(self, res, exc):
        return [('the number assigned', P.eq(self.obj._val, self.v))]


class NumberGet(SymbolContract):
    name = 'NumberSymbol._get'
    raises = ('ModelNotReadyError',)

    def build(self, c, w):
        self.v = SReal(c.fresh('value', R)) if c.choose('assigned') else None
        self.obj = self.symbol(w, 'NumberSymbol', _val=self.v)
        return (self.obj,), {}

    def ensures(self, res, exc):
        if exc is not None:
            return [('refused only without a number', SBool(z3.BoolVal(self.v is None)))]
        return [('the number assigned', SBool(z3.BoolVal(self.v is not None and res is self.v)))]


# ---------------------------------------------------------------------------------------------- construction (C11)
def false(b): return SBool(z3.BoolVal(bool(b)))


class Init(SymbolContract):
    raises = ('AssertionError',)
    cls = None

    def start(self, c, w):
        self.parent = Parent()
        self.obj = new(w.cls(self.cls, 'cheval/api.py'))
        self.nm = SVal(c.fresh('name', OBJ), NAME)
        self.o = SInt(c.fresh('orientation', I))

    def valid(self): return P.or_(P.eq(self.o, 0), P.eq(self.o, 1))

    def ensures(self, res, exc):
        if exc is not None:
            return [('refused only for its orientation', P.not_(self.valid()))]
        o = self.obj
        return [('only orientations 0 and 1', self.valid()), ('the orientation is kept', P.eq(o._orientation, self.o)), ('no data yet', false(not bool(o.filled))),
                ('belongs to the model under its name', P.and_(false(o._parent is self.parent), P.eq(o._name, self.nm)))] + self.more()

    def more(self): return []


class VectorInit(Init):
    name, cls = 'VectorSymbol.__init__', 'VectorSymbol'

    def build(self, c, w):
        self.start(c, w)
        return (self.obj, self.parent, self.nm, self.o), {}


class TableInit(Init):
    name, cls = 'TableSymbol.__init__', 'TableSymbol'

    def build(self, c, w):
        self.start(c, w)
        self.mandatory = MSet(name='mandatory', arbitrary=True) if c.choose('mandatory attributes') else None
        self.links = SBool(c.fresh('allow_links', B))
        return (self.obj, self.parent, self.nm, self.o), dict(mandatory_attributes=self.mandatory, allow_links=self.links)

    def more(self):
        x = z3.Const('x', OBJ)
        got = members(self.obj._mandatory_attributes)
        want = self.mandatory.mem if self.mandatory is not None else z3.K(OBJ, z3.BoolVal(False))
        return [('the mandatory attributes are those given', SBool(z3.ForAll([x], z3.Select(got, x) == z3.Select(want, x)))),
                ('links are allowed as given', SBool(zbool(self.obj._allow_links) == self.links.z))]


class MatrixInit(Init):
    name, cls = 'MatrixSymbol.__init__', 'MatrixSymbol'

    def build(self, c, w):
        self.start(c, w)
        self.rc, self.rr, self.fill = SBool(c.fresh('rc', B)), SBool(c.fresh('rr', B)), ONum(c.fresh('fill', NUM))
        return (self.obj, self.parent, self.nm), dict(orientation=self.o, reindex_cols=self.rc, reindex_rows=self.rr, fill_value=self.fill)

    def more(self):
        o = self.obj
        return [('re-indexing and fill value are those given', P.and_(SBool(zbool(o._reindex_cols) == self.rc.z), SBool(zbool(o._reindex_rows) == self.rr.z), P.eq(o._fill_value, self.fill)))]


class NumberInit(Init):
    name, cls = 'NumberSymbol.__init__', 'NumberSymbol'

    def build(self, c, w):
        self.start(c, w)
        return (self.obj, self.parent, self.nm), {}

    def ensures(self, res, exc):
        o = self.obj
        return [('accepted', false(exc is None)), ('no data yet', false(not bool(o.filled))), ('belongs to the model under its name', P.and_(false(o._parent is self.parent), P.eq(o._name, self.nm)))]


class Filled(SymbolContract):
    """filled: data has been assigned; empty(): it is forgotten"""
    cls, slot = None, None

    def build(self, c, w):
        v = self.value(c) if c.choose('assigned') else None
        self.was = v is not None
        self.obj = self.symbol(w, self.cls, _orientation=0, **{self.slot: v})
        return (self.obj,), {}

    def value(self, c): return NArr(lambda i: SVal(COLVAL(pyconst('x'), zint(i))), SInt(c.fresh('n', I)))

    def ensures(self, res, exc):
        if self.name.endswith('filled'):
            return [('exactly when there is data', false(bool(res) == self.was))]
        return [('no data afterwards', false(not bool(self.obj.filled) and self.obj.__dict__[self.slot] is None))]


def _filled(prefix, cls, slot, value=None):
    out = []
    for m in ('filled', 'empty'):
        d = dict(name='%s.%s' % (cls, m), cls=cls, slot=slot, __module__=__name__)
        if value:
            d['value'] = value
        out.append(type(prefix + m.capitalize(), (Filled,), d))
    return out


VectorFilled, VectorEmpty = _filled('Vector', 'VectorSymbol', '_raw_array')
TableFilled, TableEmpty = _filled('Table', 'TableSymbol', '_table', lambda self, c: STable())
MatrixFilled, MatrixEmpty = _filled('Matrix', 'MatrixSymbol', '_matrix', lambda self, c: arr('m', 'o', SInt(c.fresh('r', I)), SInt(c.fresh('c', I))))
NumberFilled, NumberEmpty = _filled('Number', 'NumberSymbol', '_val', lambda self, c: SReal(c.fresh('v', R)))


class CheckSymbolName(Glue):
    name = 'ChoiceModel._check_symbol_name'
    raises = ('SyntaxError',)
    def build(self, c, w):
        self.nm = SVal(c.fresh('name', OBJ), NAME)
        self.words = ['NAN', 'NEG_INF', 'OUT']
        self.more = sorted(w.module('cheval/parsing/constants.py')['RESERVED_WORDS'])
        return (self.nm,), {}

    def ensures(self, res, exc):
        reserved = P.or_(*[P.eq(self.nm, x) for x in self.words])
        if exc is not None:
            return [('only reserved words are refused', P.or_(reserved, *[P.eq(self.nm, x) for x in self.more]))]
        return [('reserved words are refused', P.not_(reserved))]


class Declare(Glue):
    raises = ('SyntaxError', 'AssertionError')
    kind = None

    def stubs(self, c, w):
        con = self

        def check(name):
            if bool(con.reserved):
                raise SyntaxError('reserved')
        return {':ChoiceModel._check_symbol_name': check}

    def build(self, c, w):
        self.scope = MDict(name='scope', vtyp=Typ('symbol'), arbitrary=True)
        self.old = self.scope.frozen()
        self.model = new(w.cls('ChoiceModel'), _scope=self.scope)
        self.nm, self.reserved = SVal(c.fresh('name', OBJ), NAME), SBool(c.fresh('reserved', B))
        self.o = SInt(c.fresh('orientation', I))
        self.cls = w.cls(self.kind, 'cheval/api.py')
        return self.call(c)

    def valid(self): return P.or_(P.eq(self.o, 0), P.eq(self.o, 1))
    def modifies_objects(self): return [self.scope]

    def ensures(self, res, exc):
        x = z3.Const('x', OBJ)
        a, b = self.scope, self.old
        if exc is not None:
            return [('refused only for its name or orientation', P.or_(self.reserved, P.not_(self.valid()))),
                    ('nothing is declared then', SBool(z3.ForAll([x], z3.And(z3.Select(a.mem, x) == z3.Select(b.mem, x), z3.Select(a.val, x) == z3.Select(b.val, x)))))]
        n = self.nm.z
        s = [v for t, v in a.pyvals.values()]
        s = s[-1] if s else None
        out = [('reserved names and other orientations are refused', P.and_(P.not_(self.reserved), self.valid())),
               ('a symbol of this kind is declared under the name', false(isinstance(s, self.cls))),
               ('all other names are as before', SBool(z3.ForAll([x], z3.Implies(x != n, z3.And(z3.Select(a.mem, x) == z3.Select(b.mem, x), z3.Implies(z3.Select(b.mem, x), z3.Select(a.val, x) == z3.Select(b.val, x)))))))]
        if isinstance(s, self.cls):
            out += [('it is the one found under the name', SBool(z3.And(z3.Select(a.mem, n), z3.Select(a.val, n) == enc(s)))),
                    ('it belongs to the model and has no data', P.and_(false(s._parent is self.model and not bool(s.filled)), P.eq(s._name, self.nm)))] + self.more(s)
        return out

    def more(self, s): return [('it has the orientation given', P.eq(s._orientation, self.o))]


class DeclareNumber(Declare):
    name, kind = 'ChoiceModel.declare_number', 'NumberSymbol'
    def valid(self): return SBool(z3.BoolVal(True))
    def call(self, c): return (self.model, self.nm), {}
    def more(self, s): return []


class DeclareVector(Declare):
    name, kind = 'ChoiceModel.declare_vector', 'VectorSymbol'
    def call(self, c): return (self.model, self.nm, self.o), {}


class DeclareTable(Declare):
    name, kind = 'ChoiceModel.declare_table', 'TableSymbol'

    def call(self, c):
        self.mandatory = MSet(name='mandatory', arbitrary=True) if c.choose('mandatory attributes') else None
        self.links = SBool(c.fresh('allow_links', B))
        return (self.model, self.nm, self.o), dict(mandatory_attributes=self.mandatory, allow_links=self.links)

    def more(self, s):
        x = z3.Const('x', OBJ)
        want = self.mandatory.mem if self.mandatory is not None else z3.K(OBJ, z3.BoolVal(False))
        return Declare.more(self, s) + [('with the mandatory attributes given', SBool(z3.ForAll([x], z3.Select(members(s._mandatory_attributes), x) == z3.Select(want, x)))),
                                        ('links are allowed as given', SBool(zbool(s._allow_links) == self.links.z))]


class DeclareMatrix(Declare):
    name, kind = 'ChoiceModel.declare_matrix', 'MatrixSymbol'

    def call(self, c):
        self.rc, self.rr, self.fill = SBool(c.fresh('rc', B)), SBool(c.fresh('rr', B)), ONum(c.fresh('fill', NUM))
        return (self.model, self.nm), dict(orientation=self.o, reindex_cols=self.rc, reindex_rows=self.rr, fill_value=self.fill)

    def more(self, o):
        return Declare.more(self, o) + [('re-indexing and fill value are those given', P.and_(SBool(zbool(o._reindex_cols) == self.rc.z), SBool(zbool(o._reindex_rows) == self.rr.z), P.eq(o._fill_value, self.fill)))]


class PrecisionSetter(Glue):
    name, setter = 'ChoiceModel.precision', True
    raises = ('ValueError',)

    def build(self, c, w):
        self.i = SInt(c.fresh('precision', I))
        self.model = new(w.cls('ChoiceModel'), _precision=8)
        return (self.model, self.i), {}

    def ensures(self, res, exc):
        ok = P.or_(P.eq(self.i, 4), P.eq(self.i, 8))
        if exc is not None:
            return [('4 and 8 are accepted', P.not_(ok)), ('nothing changes', P.eq(self.model._precision, 8))]
        return [('only 4 and 8', ok), ('it is used', P.eq(self.model._precision, self.i))]
