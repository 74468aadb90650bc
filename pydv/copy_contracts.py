"""Contracts of copying: symbols, expression groups, models (cheval/api.py, cheval/model.py)"""
import z3
from . import engine, poly as P
from .engine import *
from .arrays import *
from .obj import *
from .pdshim import *
from .glue import Glue, pandas_mod
from .model_contracts import Model, new, same_cells
from .api_contracts import SymbolContract, STable, false, COLVAL
from .shim import Mod


# ---------------------------------------------------------------------------------------------- symbols
def some_mask(c, index):
    vals = c.fresh('selected', z3.ArraySort(I, B))
    return SSeries(FArr((index.n,), lambda i: SBool(z3.Select(vals, zint(i))), 'b'), index)


def is_selection(a, b, mask):
    """the rows of a are those of b where the mask is true, in order"""
    m = mask_of(mask)
    return P.and_(SBool(z3.BoolVal(a.ndim == 2 and b.ndim == 2)), P.eq(a.shape[0], SInt(m.m)), P.eq(a.shape[1], b.shape[1]),
                  P.forall2(SInt(m.m), a.shape[1], lambda i, j: P.eq(a.at(i, j), b.at(SInt(z3.Select(m.src, zint(i))), j)), pattern=None))


def is_same(a, b):
    return P.and_(SBool(z3.BoolVal(a.ndim == b.ndim == 2)), P.eq(a.shape[0], b.shape[0]), P.eq(a.shape[1], b.shape[1]),
                  P.forall2(a.shape[0], a.shape[1], lambda i, j: P.eq(a.at(i, j), b.at(i, j)), pattern=None))


class SymbolCopy(SymbolContract):
    cls, slot, config = None, None, ()

    def build(self, c, w):
        self.conf = {}
        for k, kind in self.config:
            self.conf[k] = self.orient(c) if kind == 'orientation' else (SVal(c.fresh(k, OBJ)) if kind is None else SBool(c.fresh(k, B)) if kind == 'flag' else kind())
        self.obj = self.symbol(w, self.cls, **self.conf)
        o = self.conf.get('_orientation', 0)
        self.data = self.value(c, o) if c.choose('assigned') else None
        self.obj.__dict__[self.slot] = self.data
        self.before = dict(self.obj.__dict__)
        self.contents = self.data.frozen() if isinstance(self.data, (SArr, FArr)) else self.data
        self.copied = SBool(c.fresh('copy_data', B))
        self.mask = some_mask(c, self.parent.decision_units) if c.choose('rows are selected') else None
        self.target = object.__new__(Parent2)
        return (self.obj, self.target), dict(copy_data=self.copied, row_mask=self.mask)

    def value(self, c, o):
        rows, cols = (SInt(1), self.parent.choices.n) if o else (self.parent.decision_units.n, SInt(1))
        f = c.fresh('value', z3.ArraySort(I, z3.ArraySort(I, OBJ)))
        return FArr((rows, cols), lambda i, j: SVal(z3.Select(z3.Select(f, zint(i)), zint(j))), 'O')

    def masked(self): return self.mask is not None and self.conf.get('_orientation', 0) == 0

    def same_content(self, got):
        if got is None:
            return SBool(z3.BoolVal(False))
        return is_selection(got, self.contents, self.mask) if self.masked() else is_same(got, self.contents)

    def ensures(self, res, exc):
        if exc is not None:
            return [('a symbol can be copied', SBool(z3.BoolVal(False)))]
        o = self.obj
        out = [('another symbol of the same class', false(type(res) is type(o) and res is not o)),
               ('it belongs to the new model', false(res._parent is self.target)),
               ('with the same name and settings', P.and_(P.eq(res._name, o._name), *[P.eq(res.__dict__[k], self.conf[k]) if isinstance(self.conf[k], (SVal, SBool, int)) else equal_sets(res.__dict__[k], self.conf[k])
                                                                                   for k in self.conf])),
               ('the original symbol is unchanged', false(set(o.__dict__) == set(self.before) and all(o.__dict__[k] is v for k, v in self.before.items())))]
        got = res.__dict__[self.slot]
        if self.data is None:
            out.append(('no data to copy', false(got is None)))
        elif got is None:
            out.append(('data is left out only on demand', P.not_(self.copied)))
        else:
            out.append(('data is copied only on demand', self.copied))
            out.append(('the data of the selected decision units' if self.masked() else 'the same data', self.same_content(got)))
        return out


def equal_sets(a, b):
    x = z3.Const('x', OBJ)
    return SBool(z3.ForAll([x], z3.Select(members(a), x) == z3.Select(members(b), x)))


class Parent2:
    """the model that gets the copy"""


class NumberCopy(SymbolCopy):
    name, cls, slot = 'NumberSymbol.copy', 'NumberSymbol', '_val'
    def value(self, c, o): return SReal(c.fresh('number', R))
    def same_content(self, got): return P.eq(got, self.data)


class VectorCopy(SymbolCopy):
    name, cls, slot = 'VectorSymbol.copy', 'VectorSymbol', '_raw_array'
    config = (('_orientation', 'orientation'),)


class TableCopy(SymbolCopy):
    name, cls, slot = 'TableSymbol.copy', 'TableSymbol', '_table'
    config = (('_orientation', 'orientation'), ('_mandatory_attributes', lambda: MSet(name='mandatory', arbitrary=True)), ('_allow_links', 'flag'))

    def value(self, c, o): return STable(index=self.parent.axis(o))

    def same_content(self, got):
        t = self.data
        if not self.masked():
            return false(got is t)
        return false(getattr(got, 'origin', None) is not None and got.origin[0] is t and got.origin[1] is mask_of(self.mask))


class MatrixCopy(SymbolCopy):
    name, cls, slot = 'MatrixSymbol.copy', 'MatrixSymbol', '_matrix'
    config = (('_orientation', 'orientation'), ('_reindex_cols', 'flag'), ('_reindex_rows', 'flag'), ('_fill_value', None))

    def value(self, c, o): return arr('matrix', 'o', self.parent.decision_units.n, self.parent.choices.n)
    def masked(self): return self.mask is not None


# ---------------------------------------------------------------------------------------------- models
SYMCOPY = z3.Function('copy_of_symbol', OBJ, OBJ, OBJ, OBJ, OBJ)       # symbol, model, with data, mask
SYMBOL = Typ('symbol', {'copy': lambda s: lambda new_parent, copy_data, row_mask: SVal(SYMCOPY(s.z, enc(new_parent), flag(copy_data), mask_term(row_mask)), SYMBOL)})


def mask_term(mask):
    if not isinstance(mask, (SSeries, FArr, SArr)):
        return enc(mask)
    m = mask_of(mask)
    if not hasattr(m, 'term'):
        m.term = ctx().fresh('mask', OBJ)
    return m.term


def flag(b): return z3.If(zbool(b), pyconst(True), pyconst(False)) if isinstance(b, SBool) else pyconst(bool(b))


class Group:
    """an ExpressionGroup: copied by its own contract (GroupCopy)"""
    def __init__(self): self.copies = []

    def copy(self):
        g = Group()
        self.copies.append(g)
        return g


class CopyContract(Glue):
    module = 'cheval/model.py'
    mask = None

    def stubs(self, c, w):
        get = w.cls('ChoiceModel').__dict__['decision_units'].fget

        def set_units(model, units):
            """the contract of the setter (DecisionUnitsSetter): data of symbols and partial utilities are discarded"""
            model._decision_units, model._cached_utils = units if isinstance(units, SIndex) else SIndex.of(seq(units)), None
            d = model._scope
            d._wrote()
            d.val = c.fresh('without_data', d.val.sort())
        return {':ChoiceModel.choices': lambda s: self.m.choices, ':ExpressionGroup': lambda: Group(), ':ChoiceModel.decision_units': property(get, set_units)}

    def imports(self): return pandas_mod()

    def model(self, c, w):
        self.m = m = Model(c, w)
        o = m.obj
        m.scope = o.__dict__['_scope'] = MDict(name='scope', vtyp=SYMBOL, arbitrary=True)
        o.__dict__['_expressions'] = self.group = Group()
        o.__dict__['_top_nodes'] = MSet(name='tops', arbitrary=True)
        o.__dict__['_all_nodes'] = MDict(name='nodes', arbitrary=True)
        o.__dict__['_precision'] = self.prec = SInt(c.fresh('precision', I))
        c.assume(z3.Or(self.prec.z == 4, self.prec.z == 8))
        o.__dict__['_max_level'] = SInt(c.fresh('max_level', I))
        o.__dict__['debug_id'] = SVal(c.fresh('debug_id', OBJ))
        o.__dict__['_cached_cols'] = m.choices
        self.before = dict(o.__dict__)
        self.contents = {k: v.frozen() for k, v in o.__dict__.items() if isinstance(v, (MDict, MSet))}
        m.freeze()

    def scope_copied(self, new, data, mask, upto=None):
        """the symbols of the new scope are the copies of those of the original"""
        x = z3.Const('name', OBJ)
        old, d = self.contents['_scope'], new._scope
        has = z3.Select(old.mem, x)
        return SBool(z3.ForAll([x], z3.And(z3.Select(d.mem, x) == has, z3.Implies(has, z3.Select(d.val, x) == SYMCOPY(z3.Select(old.val, x), enc(new), flag(data), mask_term(mask)))),
                               patterns=[z3.Select(d.mem, x)]))

    def extra(self, info, loop, env0, names, kinds):
        for a in names:
            new = env0.get(a)
            if type(new).__name__ != 'ChoiceModel' or new is self.m.obj:
                continue

            def f(st, S, a=a):
                x = z3.Const('name', OBJ)
                new, old = st[a], self.contents['_scope']
                d, e = new._scope, old._enum()
                seen = z3.And(z3.Select(old.mem, x), z3.Select(e.pos, x) < zint(st.k))
                return SBool(z3.ForAll([x], z3.And(z3.Select(d.mem, x) == seen, z3.Implies(seen, z3.Select(d.val, x) == SYMCOPY(z3.Select(old.val, x), enc(new), flag(self.with_data()), mask_term(self.mask)))),
                                       patterns=[z3.Select(d.mem, x)]))
            yield 'the symbols seen so far are copied', f

    def same(self, a, b):
        if isinstance(b, MDict):
            x = z3.Const('x', OBJ)
            has = z3.Select(b.mem, x)
            return SBool(z3.ForAll([x], z3.And(z3.Select(a.mem, x) == has, z3.Implies(has, z3.And(z3.Select(a.val, x) == z3.Select(b.val, x)))))) & SBool(z3.BoolVal(a.stamp is b.stamp or z3.eq(a.stamp, b.stamp)))
        return equal_sets(a, b)

    def common(self, res):
        o, was = self.m.obj, self.before
        if type(res) is not type(o):
            return [('a model', false(False))]
        out = [('another model', false(res is not o)),
               ('the original keeps its parts', false(all(o.__dict__.get(k) is v for k, v in was.items()))),
               ('the contents of the original are unchanged', P.and_(*[self.same(was[k], v) for k, v in self.contents.items()])),
               ('same settings', P.and_(P.eq(res._precision, was['_precision']), P.eq(res._max_level, was['_max_level']), P.eq(res.debug_id, was['debug_id']) if res.debug_id is not None else false(False))),
               ('the same choices', P.and_(*[self.same(res.__dict__[k], self.contents[k]) for k in ('_top_nodes', '_all_nodes')])),
               ('the choices, symbols and expressions are the own ones of the copy', false(all(res.__dict__[k] is not was[k] for k in ('_top_nodes', '_all_nodes', '_scope', '_expressions')))),
               ('cached choices are those of the model', false(res._cached_cols is None or res._cached_cols is self.m.choices))]
        if self.m.cached:
            out.append(('the partial utilities of the original are unchanged', same_cells(self.m.partial.data, self.m.old)))
        return out


class ModelCopy(CopyContract):
    name = 'ChoiceModel.copy'

    def build(self, c, w):
        self.model(c, w)
        if c.choose('no decision units'):
            self.m.obj.__dict__['_decision_units'] = self.before['_decision_units'] = None
        self.f = {k: c.choose(k) for k in ('decision_units', 'scope_declared', 'scope_assigned', 'expressions', 'utilities')}
        return (self.m.obj,), dict(self.f)

    def with_data(self): return self.f['scope_assigned']

    def ensures(self, res, exc):
        if exc is not None:
            return [('every model can be copied', false(False))]
        f, was, m = self.f, self.before, self.m
        out = self.common(res)
        if type(res) is not type(m.obj):
            return out
        out.append(('decision units are copied on demand, and always with the data', false(res._decision_units is (was['_decision_units'] if f['decision_units'] or f['scope_assigned'] else None))))
        if f['scope_declared'] or f['scope_assigned']:
            out.append(('every symbol is copied, with its data on demand', self.scope_copied(res, f['scope_assigned'], None)))
        else:
            x = z3.Const('name', OBJ)
            out.append(('no symbols', SBool(z3.ForAll([x], z3.Not(z3.Select(res._scope.mem, x))))))
        g = res._expressions
        out.append(('expressions are copied on demand', false(any(g is x for x in self.group.copies) if f['expressions'] else isinstance(g, Group) and g is not self.group and g not in self.group.copies)))
        u = res._cached_utils
        if m.cached and f['utilities']:
            if u is None:
                return out + [('partial utilities are copied', false(False))]
            out += [('partial utilities are copied', P.and_(u.index.same(m.units), u.columns.same(m.choices), same_cells(u.data, m.old))),
                    ('to new memory', false(u is not m.partial and getattr(u.data, 'buf', None) is not m.partial.data.buf))]
        else:
            out.append(('no partial utilities', false(u is None)))
        return out


class ModelSubset(CopyContract):
    name = 'ChoiceModel.copy_subset'
    raises = ('AssertionError',)

    def build(self, c, w):
        self.model(c, w)
        self.index = self.m.units if c.choose('the index of the decision units') else SIndex.fresh('labels')
        self.mask = some_mask(c, self.index)
        return (self.m.obj, self.mask), {}

    def with_data(self): return True

    def ensures(self, res, exc):
        m, ok = self.m, self.index.same(self.m.units)
        if exc is not None:
            return [('refused only if the mask is not labelled by the decision units', P.not_(ok))]
        out = self.common(res)
        if type(res) is not type(m.obj):
            return out
        k = mask_of(self.mask)
        u = res._decision_units
        src = lambda i: SInt(z3.Select(k.src, zint(i)))
        out += [('accepted only if the mask is labelled by the decision units', ok),
                ('the selected decision units, in order', P.and_(P.eq(u.n, SInt(k.m)), P.forall(0, u.n, lambda i: P.eq(u.lab(i), m.units.lab(src(i))), pattern=lambda i: u.lab(i))) if u is not None else false(False)),
                ('every symbol is copied with the data of the selected decision units', self.scope_copied(res, True, self.mask)),
                ('expressions are copied', false(any(res._expressions is x for x in self.group.copies)))]
        t = res._cached_utils
        if m.cached:
            if t is None:
                return out + [('the partial utilities of the selected decision units', false(False))]
            out += [('the partial utilities of the selected decision units', P.and_(t.index.same(u), t.columns.same(m.choices),
                     P.forall2(u.n, m.C, lambda i, j: P.eq(t.at(i, j), m.old.at(src(i), j)), pattern=lambda i, j: t.at(i, j)))),
                    ('in new memory', false(getattr(t.data, 'buf', None) is not m.partial.data.buf))]
        else:
            out.append(('no partial utilities', false(t is None)))
        return out


# ---------------------------------------------------------------------------------------------- pre-evaluation
USES = z3.Function('expression_uses', OBJ, OBJ, B)
EXPRS = z3.Function('expressions_of_model', I, OBJ)
MEMBERS = z3.Function('expressions_of_group', I, OBJ)


class Uses(SSeq):
    """the names an expression uses"""
    def __init__(self, e):
        self.e = e
        x = z3.Const('x', OBJ)
        self.members = ctx().fresh('used', z3.ArraySort(OBJ, B))
        ctx().assume(z3.ForAll([x], z3.Select(self.members, x) == USES(e, x), patterns=[z3.Select(self.members, x)]))

    n = property(lambda s: SInt(enumeration(s.members).n))
    def get(self, k): return decode(z3.Select(enumeration(self.members).key, zint(k)), NAME)
    def has(self, x): return SBool(USES(self.e, enc(x)))
    def __contains__(self, x): return bool(self.has(x))


EXPR = Typ('expression', {'all_symbols': lambda e: Uses(e.z)})


class Preval(CopyContract):
    """C13: the group is evaluated and dropped; everything the remaining expressions use stays"""
    name = 'ChoiceModel.preval'
    raises = ('ModelNotReadyError', 'UtilityBoundsError')

    def stubs(self, c, w):
        err = w.module('cheval/exceptions.py')['ModelNotReadyError']

        def validate(model, *, group=None, **k):
            c.prove('the group is validated', z3.BoolVal(model is self.m.obj and group is self.gname and not k))
            if c.choose('the model is not ready'):
                self.refused = True
                raise err()

        def evaluate(model, expressions, n_threads=None, logger=None, **k):
            c.prove('the group is evaluated', z3.BoolVal(expressions is self.sub and model is self.m.obj and not k))
            c.prove('with the symbols it uses', z3.BoolVal(z3.eq(self.m.obj._scope.mem, self.contents['_scope'].mem)))
            if c.choose('the evaluation fails'):
                self.failed = True
                raise err()
            self.events.append('evaluated')
            return self.result
        return {':ChoiceModel.choices': lambda s: self.m.choices, ':ChoiceModel.validate': validate, ':ChoiceModel._evaluate_utilities': evaluate}

    def build(self, c, w):
        self.model(c, w)
        self.refused = self.failed = False
        self.events = []
        self.gname = SVal(c.fresh('group', OBJ))
        self.n, self.k = SInt(c.fresh('n_expressions', I)), SInt(c.fresh('n_in_group', I))
        c.assume(self.n >= 0, self.k >= 0)
        self.result = SFrame(arr('utilities', 'o', self.m.R, self.m.C), self.m.units, self.m.choices)
        con = self
        # the expressions of the group; which of those of the model these are
        self.ingroup, self.where = c.fresh('in_group', z3.ArraySort(OBJ, B)), c.fresh('where_in_group', z3.ArraySort(OBJ, I))
        j, e, x = z3.Int('j'), z3.Const('e', OBJ), z3.Const('x', OBJ)
        wh = z3.Select(self.where, e)
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.k.z), z3.Select(self.ingroup, MEMBERS(j))), patterns=[MEMBERS(j)]))
        c.assume(z3.ForAll([e], z3.Implies(z3.Select(self.ingroup, e), z3.And(wh >= 0, wh < self.k.z, MEMBERS(wh) == e)), patterns=[z3.Select(self.ingroup, e)]))
        # names needed by the expressions that remain
        self.needed, self.witness = c.fresh('needed', z3.ArraySort(OBJ, B)), c.fresh('needed_by', z3.ArraySort(OBJ, I))
        wi = z3.Select(self.witness, x)
        c.assume(z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < self.n.z, z3.Not(z3.Select(self.ingroup, EXPRS(j))), USES(EXPRS(j), x)), z3.Select(self.needed, x)),
                           patterns=[USES(EXPRS(j), x)]))
        c.assume(z3.ForAll([x], z3.Implies(z3.Select(self.needed, x), z3.And(wi >= 0, wi < self.n.z, z3.Not(z3.Select(self.ingroup, EXPRS(wi))), USES(EXPRS(wi), x))),
                           patterns=[z3.Select(self.needed, x)]))
        # the names of the group: plain ones and those of chains
        self.gsimple, self.gchained, self.by = (c.fresh(s, z3.ArraySort(OBJ, t)) for s, t in (('plain_names', B), ('chained_names', B), ('named_by', I)))
        by = z3.Select(self.by, x)
        self.named = lambda x: z3.Or(z3.Select(self.gsimple, x), z3.Select(self.gchained, x))
        c.assume(z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < self.k.z, USES(MEMBERS(j), x)), self.named(x)), patterns=[USES(MEMBERS(j), x)]))
        for m in (self.gsimple, self.gchained):
            c.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.And(by >= 0, by < self.k.z, USES(MEMBERS(by), x))), patterns=[z3.Select(m, x)]))

        class Sub(SSeq):
            def __init__(s): SSeq.__init__(s, con.k, lambda j: SVal(MEMBERS(zint(j)), EXPR))
            def itersimple(s): return DSet(con.gsimple)
            def iterchained(s): return DSet(con.gchained)
        self.sub = Sub()

        class Exprs(SSeq):
            def __init__(s): SSeq.__init__(s, con.n, lambda j: SVal(EXPRS(zint(j)), EXPR))

            def get_group(s, name):
                ctx().prove('the named group', z3.BoolVal(name is con.gname))
                return con.sub

            def drop_group(s, name):
                ctx().prove('the named group is dropped', z3.BoolVal(name is con.gname))
                con.events.append('dropped')
        self.m.obj.__dict__['_expressions'] = self.before['_expressions'] = Exprs()
        self.drop, self.clean = c.choose('drop_group'), c.choose('cleanup_scope')
        return (self.m.obj, self.gname), dict(drop_group=self.drop, cleanup_scope=self.clean)

    def modifies_objects(self): return [self.m.scope]

    def extra(self, info, loop, env0, names, kinds):
        x = z3.Const('name', OBJ)
        old = self.contents['_scope']
        for a in names:
            if not isinstance(env0.get(a), MSet):
                continue
            yield 'only names that are needed: %s' % a, lambda st, S, a=a: SBool(z3.ForAll([x], z3.Implies(z3.Select(st[a].mem, x), z3.Select(self.needed, x)), patterns=[z3.Select(st[a].mem, x)]))

            def all_needed(st, S, a=a):
                j = z3.Int('j')
                e = enc(st.it.item(SInt(j)))
                return SBool(z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < zint(st.k), z3.Not(z3.Select(self.ingroup, e)), USES(e, x)), z3.Select(st[a].mem, x)), patterns=[USES(e, x)]))
            yield 'all names needed so far: %s' % a, all_needed

            def all_named(st, S, a=a):
                j = z3.Int('j')
                e = enc(st.it.item(SInt(j)))
                return SBool(z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < zint(st.k), USES(e, x)), z3.Select(st[a].mem, x)), patterns=[USES(e, x)]))
            yield 'all names used so far: %s' % a, all_named
            yield 'only names of the group: %s' % a, lambda st, S, a=a: SBool(z3.ForAll([x], z3.Implies(z3.Select(st[a].mem, x), self.named(x)), patterns=[z3.Select(st[a].mem, x)]))

        def only_some(st, S):
            d, m = self.m.obj._scope, members(st.it)
            has = z3.Select(d.mem, x)
            return SBool(z3.ForAll([x], z3.And(z3.Implies(has, z3.And(z3.Select(old.mem, x), z3.Select(d.val, x) == z3.Select(old.val, x))),
                                               z3.Implies(z3.And(z3.Select(old.mem, x), z3.Not(z3.Select(m, x))), has)), patterns=[has, z3.Select(old.mem, x)]))
        yield 'only the names seen are removed', only_some

        def removed(st, S):
            j = z3.Int('j')
            e = enc(st.it.item(SInt(j)))
            return SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(st.k)), z3.Not(z3.Select(self.m.obj._scope.mem, e))), patterns=[e]))
        yield 'the names seen are removed', removed

        def kept(st, S):
            d = self.m.obj._scope
            has = z3.Select(d.mem, x)
            return SBool(z3.ForAll([x], z3.And(z3.Implies(has, z3.And(z3.Select(old.mem, x), z3.Select(d.val, x) == z3.Select(old.val, x))),
                                               z3.Implies(z3.And(z3.Select(old.mem, x), z3.Select(self.needed, x)), has)), patterns=[has, z3.Select(old.mem, x)]))
        yield 'nothing that is needed is removed', kept

    def ensures(self, res, exc):
        o, was, old = self.m.obj, self.before, self.contents['_scope']
        d = o._scope
        x = z3.Const('name', OBJ)
        has = z3.Select(d.mem, x)
        same = lambda: SBool(z3.ForAll([x], z3.And(has == z3.Select(old.mem, x), z3.Implies(has, z3.Select(d.val, x) == z3.Select(old.val, x)))))
        keeps = ('the rest of the model is unchanged', P.and_(false(all(o.__dict__.get(k) is v for k, v in was.items() if k not in ('_cached_utils', '_scope'))),
                                                            *[self.same(was[k], v) for k, v in self.contents.items() if k != '_scope']))
        if exc is not None:
            return [keeps, ('refused only if the model is not ready, or the group cannot be evaluated', false(self.refused or self.failed)),
                    ('a refused group changes nothing', P.and_(same(), false(o._cached_utils is was['_cached_utils'] and 'dropped' not in self.events)))]
        out = [keeps, ('not done if the model is refused', false(not self.refused and not self.failed)),
               ('the utilities are those of the group', false(o._cached_utils is self.result)),
               ('the group is dropped on demand, once it has been evaluated', false(self.events == ['evaluated'] + (['dropped'] if self.drop else [])))]
        if not self.clean:
            return out + [('the scope is unchanged', same())]
        return out + [('no symbol that another expression uses is removed', SBool(z3.ForAll([x], z3.Implies(z3.And(z3.Select(old.mem, x), z3.Select(self.needed, x)),
                                                                                                      z3.And(has, z3.Select(d.val, x) == z3.Select(old.val, x)))))),
                      ('only symbols of the group are removed, and nothing is added', SBool(z3.ForAll([x], z3.And(
                          z3.Implies(z3.And(z3.Select(old.mem, x), z3.Not(self.named(x))), has), z3.Implies(has, z3.And(z3.Select(old.mem, x), z3.Select(d.val, x) == z3.Select(old.val, x))))))),
                      ('the symbols only the group uses are removed', SBool(z3.ForAll([x], z3.Implies(z3.And(self.named(x), z3.Not(z3.Select(self.needed, x))), z3.Not(has)))))]


class DSet(SSeq):
    """a sequence of distinct names: the members of a set"""
    def __init__(self, mem): self.members = mem
    n = property(lambda s: SInt(enumeration(s.members).n))
    def get(self, k): return decode(z3.Select(enumeration(self.members).key, zint(k)), NAME)
    def has(self, x): return SBool(z3.Select(self.members, enc(x)))
    def __contains__(self, x): return bool(self.has(x))
