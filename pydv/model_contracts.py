"""Contracts of cheval/model.py"""
import z3
from . import engine, poly as P
from .engine import *
from .arrays import *
from .obj import *
from .pdshim import *
from .glue import Glue, World, pandas_mod
from .shim import Mod, Missing


def new(cls, **attrs):
    o = cls.__new__(cls)
    for k, v in attrs.items():
        o.__dict__[k] = v
    return o


def same_cells(a, b):
    n, m = a.shape
    return P.forall2(n, m, lambda i, j: P.eq(P.at(a, i, j), P.at(b, i, j)), pattern=lambda i, j: P.at(a, i, j))


def raiser(w, name, module='cheval/exceptions.py'):
    return w.module(module)[name]


class Model:
    """An arbitrary ChoiceModel: decision units and choices with unique labels; partial utilities cached or not"""
    def __init__(self, c, w, cached=None):
        cls = w.cls('ChoiceModel')
        self.units, self.choices = SIndex.fresh('units'), SIndex.fresh('choices')
        self.R, self.C = self.units.n, self.choices.n
        c.assume(self.C >= 1)
        if cached is None:
            cached = c.choose('partial utilities are cached')
        self.cached = cached
        table = arr('partial', 'o', self.R, self.C)          # (always there, so that buffers have the same numbers on all paths)
        self.partial = SFrame(table, self.units, self.choices) if cached else None
        self.scope = MDict(name='scope', vtyp=SYMBOL, arbitrary=True)
        self.obj = new(cls, _decision_units=self.units, _cached_utils=self.partial, _cached_cols=None, _precision=8, debug_id=None, debug_results=None, _max_level=0,
                       _scope=self.scope)

    def partial_at(self, i, j):
        """the partial utility of a cell (0 without a cached table)"""
        return self.old.at(i, j) if self.cached else ONum(num(0))

    def freeze(self):
        self.old = self.partial.data.frozen() if self.cached else None
        return self


SYMBOL = Typ('symbol')


class PartialUtilities(Glue):
    name = 'ChoiceModel._partial_utilities'

    def stubs(self, c, w):
        return {':ChoiceModel.validate': lambda s, **k: None, ':ChoiceModel.choices': lambda s: self.m.choices}

    def build(self, c, w):
        self.m = Model(c, w).freeze()
        return (self.m.obj,), {}

    def ensures(self, res, exc):
        m = self.m
        return [('labelled by the decision units and the choices', P.and_(res.index.same(m.units), res.columns.same(m.choices))),
                ('the cached values, or zeros', P.forall2(m.R, m.C, lambda i, j: P.eq(res.at(i, j), m.partial_at(i, j)), pattern=lambda i, j: res.at(i, j))),
                ('the table is cached: later additions go to it', SBool(z3.BoolVal(m.obj._cached_utils is res and isinstance(res.values, SArr))))]


class Labelled:
    """Ghost: the value a table gives to a pair of labels"""
    def __init__(self, table):
        self.t = table

    def cell(self, rowlab, collab):
        p, q = self.t.index.pos(rowlab), self.t.columns.pos(collab)
        return p, q, P.and_(p >= 0, q >= 0)


class AddPartialUtilities(Glue):
    name = 'ChoiceModel.add_partial_utilities'
    raises = ('KeyError', 'AssertionError')

    def stubs(self, c, w):
        return {':ChoiceModel.validate': lambda s, **k: None, ':ChoiceModel.choices': lambda s: self.m.choices,
                ':ChoiceModel._partial_utilities': lambda s: self.m.partial, ':fast_indexed_add': self.add}

    def add(self, out, addition, row_index=None, col_index=None):
        """the contract of fast_indexed_add (C06)"""
        c = ctx()
        rows, cols = row_index, col_index
        (R, C), (r, cc) = out.shape, addition.shape

        def fits(ix, n, N):
            if ix is None:
                return P.eq(n, N)
            return P.and_(P.eq(ix.shape[0], n), P.forall(0, ix.shape[0], lambda k: P.and_(ix.at(k) >= 0, ix.at(k) < N), pattern=lambda k: ix.at(k)))
        ok = SBool(c.fresh('fits', B))
        # exactly: the negation with a witness
        goods = [fits(rows, r, R), fits(cols, cc, C)]
        c.assume(z3.Implies(ok.z, z3.And([zbool(g) for g in goods])))
        wit = []
        for ix, n, N in ((rows, r, R), (cols, cc, C)):
            if ix is None:
                wit.append(zint(n) != zint(N))
            else:
                k = c.fresh('bad', I)
                v = zint(ix.at(k))
                wit.append(z3.Or(zint(ix.shape[0]) != zint(n), z3.And(k >= 0, k < zint(ix.shape[0]), z3.Or(v < 0, v >= zint(N)))))
        c.assume(z3.Implies(z3.Not(ok.z), z3.Or(wit)))
        if not bool(ok):
            raise AssertionError('does not fit')
        old = out.frozen()
        src = []
        for ix, n in ((rows, r), (cols, cc)):
            if ix is None:
                src.append(lambda i: zint(i))
                continue
            inv = c.fresh('source', z3.ArraySort(I, I))
            k, i = z3.Int(c.fresh_name('k')), z3.Int(c.fresh_name('i'))
            a, b = c.fresh('a', I), c.fresh('b', I)
            c.prove('the index has no duplicates', z3.Implies(z3.And(0 <= a, a < b, b < zint(n)), zint(ix.at(a)) != zint(ix.at(b))))
            s = z3.Select(inv, i)
            c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(n)), z3.Select(inv, zint(ix.at(k))) == k), patterns=[zint(ix.at(k))]))
            c.assume(z3.ForAll([i], z3.And(s >= -1, s < zint(n), z3.Implies(s >= 0, zint(ix.at(s)) == i)), patterns=[s]))
            src.append(lambda i, inv=inv: z3.Select(inv, zint(i)))
        new = out.buf
        new.havoc()
        c.writes.append(('w', out.buf.id, (None,)))
        add = farr(addition)
        c.assume(P.forall2(R, C, lambda i, j: P.eq(out.at(i, j), P.ite_(P.and_(SBool(src[0](i) >= 0), SBool(src[1](j) >= 0)),
                 ONum(ADD(old.at(i, j).z, add.at(SInt(src[0](i)), SInt(src[1](j))).z)), old.at(i, j))), pattern=lambda i, j: out.at(i, j)))

    def build(self, c, w):
        self.m = m = Model(c, w, cached=True).freeze()
        rows = m.units if c.choose('same row index object') else SIndex.fresh('rows')
        cols = m.choices if c.choose('same column index object') else SIndex.fresh('columns')
        c.assume(rows.n >= 1), c.assume(cols.n >= 1)
        self.t = SFrame(arr('table', 'o', rows.n, cols.n), rows, cols)
        self.tv = self.t.data.frozen()
        self.rr, self.rc = SBool(c.fresh('reindex_rows', B)), SBool(c.fresh('reindex_columns', B))
        return (m.obj, self.t), dict(reindex_rows=self.rr, reindex_columns=self.rc)

    def modifies_objects(self): return [self.m.partial.data]

    def known(self):
        t, m = self.t, self.m
        return P.and_(P.forall(0, t.index.n, lambda k: m.units.pos(t.index.lab(k)) >= 0, pattern=lambda k: t.index.lab(k)),
                      P.forall(0, t.columns.n, lambda k: m.choices.pos(t.columns.lab(k)) >= 0, pattern=lambda k: t.columns.lab(k)))

    def ensures(self, res, exc):
        m, t = self.m, self.t
        out = m.partial.data
        same_r, same_c = t.index.same(m.units), t.columns.same(m.choices)
        if exc is not None:
            return [('refused tables change nothing', same_cells(out, m.old)),
                    ('refused only with unknown labels, or different labels without re-indexing',
                     P.not_(P.and_(self.known(), P.or_(same_r, self.rr), P.or_(same_c, self.rc))))]
        L = Labelled(t)

        def value(i, j):
            p, q, hit = L.cell(m.units.lab(i), m.choices.lab(j))
            return P.ite_(hit, ONum(ADD(m.old.at(i, j).z, self.tv.at(p, q).z)), m.old.at(i, j))
        return [('unknown labels are refused', self.known()),
                ('different labels are refused without re-indexing', P.and_(P.or_(same_r, self.rr), P.or_(same_c, self.rc))),
                ('each cell is increased by the value with its labels, all others are unchanged',
                 P.forall2(m.R, m.C, lambda i, j: P.eq(out.at(i, j), value(i, j)), pattern=lambda i, j: out.at(i, j))),
                ('the table is not modified', same_cells(t.data, self.tv))]


# ---------------------------------------------------------------------------------------------- decision units
NUMBER = z3.Function('is_number_symbol', OBJ, B)


class Scope:
    """The symbols of a model: which are filled (have data)"""
    def __init__(self, c, w):
        self.filled = MSet(name='filled', arbitrary=True)
        self.typ = Typ('symbol', {
            'empty': lambda s: lambda: self.filled.discard(s),
            'filled': lambda s: self.filled.has(s),
            'isinstance': lambda s, t: SBool(NUMBER(s.z)) if getattr(t, '__name__', '') == 'NumberSymbol' else self._no(t),
        })
        self.d = MDict(name='scope', vtyp=self.typ, arbitrary=True)

    def _no(self, t): raise Unsupported('isinstance(symbol, %r)' % (t,))


class DecisionUnitsSetter(Glue):
    name = 'ChoiceModel.decision_units'
    setter = True

    def build(self, c, w):
        self.m = Model(c, w)
        self.s = Scope(c, w)
        self.m.obj._scope = self.s.d
        self.old = self.s.filled.frozen()
        self.item = SIndex.fresh('new_units') if c.choose('an Index') else SSeq(SInt(c.fresh('n', I)), lambda k, f=z3.Function('items', I, OBJ): SVal(f(zint(k))))
        return (self.m.obj, self.item), {}

    def modifies_objects(self): return [self.s.filled]

    def extra(self, info, loop, env0, names, kinds):
        yield 'data of the symbols seen so far is discarded', lambda st, S: P.forall(0, st.k, lambda j: P.or_(SBool(NUMBER(st.it.item(j).z)), P.not_(self.s.filled.has(st.it.item(j)))),
                                                                                     pattern=lambda j: st.it.item(j))
        x = z3.Const('x', OBJ)
        yield 'numbers are kept, nothing is filled', lambda st, S: self.frame()

    def frame(self):
        x = z3.Const('x', OBJ)
        a, b = z3.Select(self.s.filled.mem, x), z3.Select(self.old.mem, x)
        return SBool(z3.ForAll([x], z3.And(z3.Implies(a, b), z3.Implies(NUMBER(x), a == b)), patterns=[a]))

    def ensures(self, res, exc):
        x = z3.Const('name', OBJ)
        d = self.s.d
        v = z3.Select(d.val, x)
        u = self.m.obj._decision_units
        lab = self.item.lab if isinstance(self.item, SIndex) else self.item.get
        return [('row and choice data of every symbol is discarded', SBool(z3.ForAll([x], z3.Implies(z3.And(z3.Select(d.mem, x), z3.Not(NUMBER(v))), z3.Not(z3.Select(self.s.filled.mem, v))),
                                                                                     patterns=[z3.Select(d.mem, x)]))),
                ('numbers are kept', self.frame()),
                ('partial utilities are discarded', SBool(z3.BoolVal(self.m.obj._cached_utils is None))),
                ('the new units are used', P.and_(u.n == self.item.length() if not isinstance(self.item, SIndex) else u.n == self.item.n,
                                                  P.forall(0, u.n, lambda k: u.lab(k) == lab(k), pattern=lambda k: u.lab(k))))]


# ---------------------------------------------------------------------------------------------- validation
NCHILD = z3.Function('n_children', OBJ, I)
FULL = z3.Function('full_name', OBJ, OBJ)
NODE = Typ('choice node', {'n_children': lambda s: SInt(NCHILD(s.z)), 'full_name': lambda s: SVal(FULL(s.z), NAME), 'is_parent': lambda s: SBool(NCHILD(s.z) > 0)})


class NameSeq:
    """an arbitrary sequence of names"""
    def __init__(self, c, name):
        a = c.fresh(name, z3.ArraySort(I, OBJ))
        n = SInt(c.fresh('n_' + name, I))
        c.assume(n >= 0)
        self.a, self.n, self.seq = a, n, SSeq(n, lambda k: SVal(z3.Select(a, zint(k)), NAME))


class Container:
    """an expression group or subgroup: the names it uses"""
    def __init__(self, c, name):
        self.simple, self.chained = NameSeq(c, name + '_simple'), NameSeq(c, name + '_chained')

    def itersimple(self): return self.simple.seq
    def iterchained(self): return self.chained.seq


class Validate(Glue):
    name = 'ChoiceModel.validate'
    raises = ('ModelNotReadyError', 'KeyError')

    def build(self, c, w):
        self.m = Model(c, w)
        m = self.m.obj
        self.s = Scope(c, w)
        m._scope = self.s.d
        m._top_nodes = self.top = MSet(name='top', typ=NODE, arbitrary=True)
        m._all_nodes = self.nodes = MDict(name='nodes', vtyp=NODE, arbitrary=True)
        self.units_set = c.choose('units are set')
        if not self.units_set:
            m._decision_units = None
        self.all, self.grouped = Container(c, 'all'), Container(c, 'group')
        self.has_group = SBool(c.fresh('has_group', B))
        con = self

        class Exprs:
            itersimple, iterchained = self.all.itersimple, self.all.iterchained

            def get_group(s, g):
                if not bool(con.has_group):
                    raise KeyError(g)
                return con.grouped
        m._expressions = Exprs()
        self.group = SVal(c.fresh('group', OBJ)) if c.choose('a group') else None
        self.flags = {f: SBool(c.fresh(f, B)) for f in ('tree', 'decision_units', 'expressions', 'assignment')}
        self.reserved = w.module('cheval/parsing/constants.py')['RESERVED_WORDS']
        return (m,), dict(self.flags, group=self.group)

    def ok_name(self, x):
        reserved = P.or_(*[x == r for r in sorted(self.reserved)])
        v = self.s.d.get_z(x)
        return P.or_(reserved, P.and_(self.s.d.has(x), P.or_(P.not_(self.flags['assignment']), self.s.filled.has(SVal(v)))))

    def extra(self, info, loop, env0, names, kinds):
        yield 'no nest seen so far has exactly one child', lambda st, S: P.forall(0, st.k, lambda j: st.it.item(j).n_children != 1, pattern=lambda j: st.it.item(j))
        yield 'the names seen so far are usable', lambda st, S: P.forall(0, st.k, lambda j: self.ok_name(st.it.item(j)), pattern=lambda j: st.it.item(j))

    def all_ok(self, s):
        return P.forall(0, s.n, lambda j: self.ok_name(s.seq.get(j)), pattern=lambda j: s.seq.get(j))

    def ready(self):
        f = self.flags
        x = z3.Const('key', OBJ)
        v = z3.Select(self.nodes.val, x)
        tree = P.and_(self.top.length() >= 2, SBool(z3.ForAll([x], z3.Implies(z3.Select(self.nodes.mem, x), NCHILD(v) != 1), patterns=[z3.Select(self.nodes.mem, x)])))
        who = self.all if self.group is None else self.grouped
        exprs = P.and_(self.all_ok(who.simple), self.all_ok(who.chained), True if self.group is None else self.has_group)
        return P.and_(P.implies(f['tree'], tree), P.implies(f['decision_units'], SBool(z3.BoolVal(self.units_set))), P.implies(P.or_(f['expressions'], f['assignment']), exprs))

    def ensures(self, res, exc):
        if exc == 'KeyError':
            return [('KeyError only for an unknown group', P.and_(SBool(z3.BoolVal(self.group is not None)), P.not_(self.has_group)))]
        if exc is not None:
            return [('refused only if something is missing', P.not_(self.ready()))]
        return [('accepted only if nothing is missing', self.ready())]


# ---------------------------------------------------------------------------------------------- running
PICK = z3.Function('position_sampled', I, I, I)           # record, draw -> position among the nodes
LSUM, TERM, PROB = z3.Function('logsum', I, NUM), z3.Function('nested_term', I, I, NUM), z3.Function('probability', I, I, NUM)


class Running(Glue):
    """run_discrete / run_stochastic: what is passed on to the kernels, what is made of their results"""
    raises = ('ModelNotReadyError', 'ValueError', 'UtilityBoundsError', 'KeyError')

    def common_stubs(self, c, w):
        con = self
        NotReady = raiser(w, 'ModelNotReadyError')

        def validate(s, **k):
            con.validated.append(k)
            if not bool(con.ready):
                raise NotReady('not ready')

        def evaluate(s, expressions, n_threads=None, logger=None, allow_casting=True):
            con.called.append('evaluate')
            con.evaluated = expressions
            c.prove('utilities are evaluated for a validated model', z3.BoolVal(bool(con.validated)))
            c.prove('utilities are evaluated before the scope is cleared', z3.BoolVal('clear' not in con.called))
            return con.table

        def flatten(s): return con.tree

        def clear(s): con.called.append('clear')
        return {':ChoiceModel.validate': validate, ':ChoiceModel._evaluate_utilities': evaluate, ':ChoiceModel._flatten': flatten, ':ChoiceModel.clear_scope': clear,
                ':ChoiceModel.depth': lambda s: con.depth, ':ChoiceModel.choices': lambda s: con.m.choices}

    def common(self, c, w):
        self.m = m = Model(c, w)
        self.validated, self.called = [], []
        self.ready = SBool(c.fresh('ready', B))
        self.table = SFrame(arr('utilities', 'o', m.R, m.C), m.units, m.choices)
        self.tree = tuple(arr(n, k, m.C) for n, k in (('hierarchy', 'i'), ('levels', 'i'), ('scales', 'f'), ('bottom', 'b')))
        self.depth = SInt(c.fresh('depth', I))
        c.assume(self.depth >= 1)
        self.subgroup = SVal(c.fresh('subgroup', OBJ))
        self.all = type('Exprs', (), {'get_group': lambda s, g: self.get_group(g)})()
        m.obj._expressions = self.all
        self.group = None
        self.scale, self.check = SBool(c.fresh('scale', B)), SBool(c.fresh('check', B))
        self.clear = SBool(c.fresh('clear_scope', B))

    def get_group(self, g):
        ctx().prove('the requested group is looked up', g == self.group)
        return self.subgroup

    def passed(self, nested, u, tree, scale):
        c = ctx()
        c.prove('the evaluated utilities are passed on', z3.BoolVal(u is self.table.data))
        c.prove('nested models use the nested kernel', z3.Not(zbool(self.depth > 1)) if not nested else zbool(self.depth > 1))
        if nested:
            c.prove('the arrays of the tree are passed on', z3.BoolVal(len(tree) == 4 and all(x is y for x, y in zip(tree, self.tree))))
            c.prove('the scaling switch is passed on', zbool(P.eq(scale, self.scale)))

    def cleared(self):
        return ('the scope is cleared exactly if asked', SBool(z3.BoolVal('clear' in self.called)) == self.clear)


class RunDiscrete(Running):
    name = 'ChoiceModel.run_discrete'

    def stubs(self, c, w):
        con = self

        def sample(nested, u, tree, n, seed, scale):
            con.passed(nested, u, tree, scale)
            c.prove('the number of draws is passed on', zint(n) == zint(con.draws))
            c.prove('the seed is passed on', zint(con.seed_used(seed)) == zint(seed))
            if not bool(con.feasible):
                raise con.bounds('infeasible')
            con.raw = FArr((con.m.R, con.draws), lambda i, d: SInt(PICK(zint(i), zint(d))), 'i')
            return con.raw, FArr((con.m.R,), lambda i: ONum(LSUM(zint(i))))

        def convert(s, raw, astype, squeeze, result_name):
            c.prove('the sampled positions and the options are passed on', z3.BoolVal(raw is con.raw and astype is con.astype and squeeze is con.squeeze and result_name is con.rname))
            con.called.append('convert')
            return con.converted
        return dict(self.common_stubs(c, w), **{
            ':worker_nested_sample': lambda u, h, l, s, b, n, seed, scale: sample(True, u, (h, l, s, b), n, seed, scale),
            ':worker_multinomial_sample': lambda u, n, seed: sample(False, u, None, n, seed, None),
            ':ChoiceModel._convert_result': convert})

    def seed_used(self, seed):
        return self.seed if isinstance(self.seed, SInt) else (self.seed.drawn[0] if self.seed is not None and len(self.seed.drawn) == 1 else seed)

    def build(self, c, w):
        self.common(c, w)
        self.bounds = w.imports['cheval.core'].UtilityBoundsError
        self.feasible = SBool(c.fresh('feasible', B))
        self.draws = SInt(c.fresh('draws', I))
        RS = w.imports['numpy.random'].RandomState
        self.seed = (None if c.choose('no seed') else RS()) if c.choose('no integer seed') else SInt(c.fresh('seed', I))
        self.astype, self.squeeze, self.rname, self.converted = object(), object(), object(), object()
        return (self.m.obj,), dict(random_seed=self.seed, n_draws=self.draws, astype=self.astype, squeeze=self.squeeze, clear_scope=self.clear, result_name=self.rname,
                                   scale_utilities=self.scale)

    def ensures(self, res, exc):
        if exc == 'ModelNotReadyError':
            return [('refused because it is not ready', P.not_(self.ready))]
        if exc == 'ValueError':
            return [('refused because of the number of draws', self.draws < 1), ('nothing was evaluated', SBool(z3.BoolVal('evaluate' not in self.called)))]
        if exc == 'UtilityBoundsError':
            return [('an infeasible record', P.not_(self.feasible))]
        if exc is not None:
            return [('no other exception', SBool(z3.BoolVal(False)))]
        result, ls = res
        return [('a model that is not ready is refused', self.ready), ('less than one draw is refused', self.draws >= 1), self.cleared(),
                ('all expressions are evaluated', SBool(z3.BoolVal(self.evaluated is self.all))),
                ('the whole model is validated', SBool(z3.BoolVal(all(not k or all(v is None for v in k.values()) for k in self.validated)))),
                ('the result is made of the sampled positions', SBool(z3.BoolVal(result is self.converted))),
                ('the logsums are those of the records, in order', P.and_(ls.index.same(self.m.units), P.forall(0, self.m.R, lambda i: P.eq(ls.at(i), ONum(LSUM(zint(i)))), pattern=lambda i: ONum(LSUM(zint(i))))))]


class RunStochastic(Running):
    name = 'ChoiceModel.run_stochastic'

    def stubs(self, c, w):
        con = self

        def probs(nested, u, tree, scale, check):
            con.passed(nested, u, tree, scale)
            c.prove('the feasibility switch is passed on', zbool(P.eq(check, con.check)))
            if not bool(con.feasible):
                raise con.bounds('infeasible')
            R, C = con.m.R, con.m.C
            con.raw = FArr((R, C), lambda i, j: ONum(PROB(zint(i), zint(j))))
            return con.raw, FArr((R,), lambda i: ONum(LSUM(zint(i)))), FArr((R, C), lambda i, j: ONum(TERM(zint(i), zint(j))))
        return dict(self.common_stubs(c, w), **{
            ':worker_nested_probabilities': lambda u, h, l, s, b, scale, check: probs(True, u, (h, l, s, b), scale, check),
            ':worker_multinomial_probabilities': lambda u, check: probs(False, u, None, None, check),
            ':ChoiceModel.elemental_choices': lambda s: con.elemental})

    def build(self, c, w):
        self.common(c, w)
        self.bounds = w.imports['cheval.core'].UtilityBoundsError
        self.feasible = SBool(c.fresh('feasible', B))
        self.elemental = SIndex.fresh('elemental')
        m, e = self.m, self.elemental
        k = z3.Int('k')
        # elemental choices are choices
        c.assume(P.forall(0, e.n, lambda k: m.choices.pos(e.lab(k)) >= 0, pattern=lambda k: e.lab(k)))
        c.assume(z3.Implies(zint(self.depth) == 1, zbool(P.forall(0, m.choices.n, lambda k: e.pos(m.choices.lab(k)) >= 0, pattern=lambda k: m.choices.lab(k)))))
        self.group = SVal(c.fresh('group', OBJ)) if c.choose('a group') else None
        return (m.obj,), dict(group=self.group, clear_scope=self.clear, scale_utilities=self.scale, check_infeasible=self.check)

    def ensures(self, res, exc):
        if exc == 'ModelNotReadyError':
            return [('refused because it is not ready', P.not_(self.ready))]
        if exc == 'UtilityBoundsError':
            return [('an infeasible record', P.not_(self.feasible))]
        if exc is not None:
            return [('no other exception', SBool(z3.BoolVal(False)))]
        f, ls, nested = res
        m, e = self.m, self.elemental
        val = lambda i, j: ONum(PROB(zint(i), zint(m.choices.pos(f.columns.lab(j)))))
        return [('a model that is not ready is refused', self.ready), self.cleared(),
                ('exactly the requested expressions are evaluated', SBool(z3.BoolVal(self.evaluated is self.all)) if self.group is None else
                 SBool(z3.BoolVal(isinstance(self.evaluated, SVal) and self.evaluated.z.eq(self.subgroup.z)))),
                ('the requested expressions are validated', SBool(z3.BoolVal(any(set(k) <= {'group'} and k.get('group') is self.group for k in self.validated)))),
                ('probabilities are labelled by the decision units', f.index.same(m.units)),
                ('every column is an elemental choice', P.forall(0, f.columns.n, lambda j: e.pos(f.columns.lab(j)) >= 0, pattern=lambda j: f.columns.lab(j))),
                ('every elemental choice has a column', P.forall(0, e.n, lambda k: f.columns.pos(e.lab(k)) >= 0, pattern=lambda k: e.lab(k))),
                ('each probability is that of its record and its choice', P.forall2(m.R, f.columns.n, lambda i, j: P.eq(f.at(i, j), val(i, j)), pattern=lambda i, j: f.at(i, j))),
                ('the logsums are those of the records, in order', P.and_(ls.index.same(m.units), P.forall(0, m.R, lambda i: P.eq(ls.at(i), ONum(LSUM(zint(i)))), pattern=lambda i: ONum(LSUM(zint(i)))))),
                ('the terms are those of their records and choices', P.and_(nested.index.same(m.units), nested.columns.same(m.choices),
                 P.forall2(m.R, m.C, lambda i, j: P.eq(nested.at(i, j), ONum(TERM(zint(i), zint(j)))), pattern=lambda i, j: ONum(TERM(zint(i), zint(j))))))]


class ConvertResult(Glue):
    name = 'ChoiceModel._convert_result'

    def stubs(self, c, w):
        return {':ChoiceModel.choices': lambda s: self.m.choices}

    def build(self, c, w):
        self.m = m = Model(c, w)
        self.nested = c.choose('nested')
        m.choices.nlevels = SInt(c.fresh('nlevels', I))
        c.assume(m.choices.nlevels >= 2 if self.nested else m.choices.nlevels == 1)
        names = NameSeq(c, 'nodes')
        c.assume(names.n == m.C)
        nodes = SSeq(names.n, lambda k: SVal(z3.Select(names.a, zint(k)), NODE))
        self.nodes = nodes
        m.obj._all_nodes = type('Nodes', (), {'values': lambda s: nodes})()
        self.D = SInt(c.fresh('draws', I))
        c.assume(self.D >= 1)
        R, C = m.R, m.C
        self.raw = FArr((R, self.D), lambda i, d: SInt(PICK(zint(i), zint(d))), 'i')
        i, d = z3.Ints('i d')
        p = PICK(i, d)
        c.assume(z3.ForAll([i, d], z3.Implies(z3.And(i >= 0, i < zint(R), d >= 0, d < zint(self.D)), z3.And(p >= 0, p < zint(C))), patterns=[p]))
        self.squeeze = SBool(c.fresh('squeeze', B))
        self.rname = SVal(c.fresh('result_name', OBJ))
        self.astype = 'index' if c.choose('index') else 'category' if c.choose('category') else SVal(c.fresh('dtype', OBJ))
        if isinstance(self.astype, SVal):
            c.assume(self.astype != 'index'), c.assume(self.astype != 'category')
        return (m.obj, self.raw, self.astype, self.squeeze, self.rname), {}

    def label(self, p):
        """what is reported for a position"""
        v = self.nodes.get(p).full_name if self.nested else self.m.choices.lab(p)
        return v if isinstance(self.astype, str) and self.astype == 'category' else SVal(CAST(v.z, enc(self.astype)))

    def expected(self, i, d):
        p = SInt(PICK(zint(i), zint(d)))
        return p if isinstance(self.astype, str) and self.astype == 'index' else self.label(p)

    def extra(self, info, loop, env0, names, kinds):
        for n in names:
            if kinds[n] == 'L':
                yield 'len(%s) == k' % n, lambda st, S, n=n: P.eq(st[n].n, st.k)
                yield '%s holds the draws seen so far' % n, lambda st, S, n=n: self.columns(st[n], st.k)

    def columns(self, lst, k):
        c = ctx()
        d, i = z3.Int(c.fresh_name('d')), z3.Int(c.fresh_name('i'))
        if isinstance(lst.xs, list) and not lst.xs:
            return P.eq(k, 0)
        s = lst.at(SInt(d))
        if not isinstance(s, SSeries):
            raise Unsupported('element')
        cell = zterm(s.at(SInt(i)))
        return SBool(z3.ForAll([d, i], z3.Implies(z3.And(d >= 0, d < zint(k), i >= 0, i < zint(self.m.R)), cell == zterm(self.expected(SInt(i), SInt(d)))), patterns=[cell]))

    def ensures(self, res, exc):
        m = self.m
        one = P.and_(self.D == 1, self.squeeze)
        out = [('labelled by the decision units, in order', res.index.same(m.units)),
               ('a Series exactly for one draw with squeeze', SBool(z3.BoolVal(isinstance(res, SSeries))) == one)]
        if isinstance(res, SSeries):
            return out + [('named as asked', SBool(z3.BoolVal(res.name is self.rname))),
                          ('each record reports what was sampled for it', P.forall(0, m.R, lambda i: P.eq(res.at(i), self.expected(i, 0)), pattern=lambda i: SInt(PICK(zint(i), z3.IntVal(0)))))]
        return out + [('a column for each draw', P.and_(res.columns.n == self.D, P.forall(0, self.D, lambda d: res.columns.lab(d) == SVal(BOXI(zint(d))), pattern=lambda d: res.columns.lab(d)))),
                      ('each record and draw reports what was sampled for it', P.forall2(m.R, self.D, lambda i, d: P.eq(res.at(i, d), self.expected(i, d)), pattern=lambda i, d: SInt(PICK(zint(i), zint(d)))))]
