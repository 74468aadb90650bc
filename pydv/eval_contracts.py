"""Contracts of the evaluation of utility expressions (ChoiceModel._evaluate_utilities, _kernel_eval, _make_column_mask; Expression's dict literals)"""
import ast
import z3
from . import engine, poly as P
from .engine import *
from .arrays import *
from .obj import *
from .pdshim import *
from .glue import Glue, World
from .model_contracts import Model, new, raiser, NameSeq
from .shim import Mod, Missing

# ghost: what an expression is
TRANSFORMED, FILTER, RAW = (z3.Function(n, OBJ, OBJ) for n in ('transformed_text', 'filter_of', 'raw_text'))
EXPR_OF = z3.Function('expression_of_text', OBJ, OBJ)
SIMPLE = z3.Function('uses_name', OBJ, OBJ, B)
ISDICT = z3.Function('is_dict_substitution', OBJ, OBJ, B)
DICTVAL = z3.Function('dict_literal_array', OBJ, OBJ, OBJ)
CH_N, CH_KEY, CH_VAL = z3.Function('n_chains', OBJ, I), z3.Function('chain_symbol', OBJ, I, OBJ), z3.Function('chain_usages', OBJ, I, OBJ)
U_N, U_KEY, U_VAL = z3.Function('n_usages', OBJ, I), z3.Function('usage_name', OBJ, I, OBJ), z3.Function('usage_info', OBJ, I, OBJ)
W1, W2 = z3.Function('chain_of_substitution', OBJ, OBJ, I), z3.Function('usage_of_substitution', OBJ, OBJ, I)
KIND = z3.Function('kind_of_name', OBJ, I)          # 0 reserved, 1 symbol, 2 chain substitution, 3 dict substitution
GET, CHAIN = z3.Function('symbol_data', OBJ, OBJ), z3.Function('chained_data', OBJ, OBJ, OBJ)
COLMASK = z3.Function('column_of_filter', OBJ, OBJ)
HIT = z3.Function('column_selected', OBJ, I, B)
VAL = z3.Function('value_of_expression', OBJ, I, I, NUM)
ACC = z3.Function('utilities_after', I, I, I, NUM)


class Items(SSeq):
    """items() of an immutable dictionary given by functions of its owner"""
    def __init__(self, owner, n, key, val, vtyp, ktyp=NAME):
        self.owner, self.kind_ = owner, n.name()
        SSeq.__init__(self, SInt(n(owner)), lambda k: (SVal(key(owner, zint(k)), ktyp), SVal(val(owner, zint(k)), vtyp)))


class FunDict:
    def __init__(self, *a): self.a = a
    def items(self): return Items(*self.a)

    def keys(self):
        s = Items(*self.a)
        return SSeq(s.n, lambda k: s.get(k)[0])

    def values(self):
        s = Items(*self.a)
        return SSeq(s.n, lambda k: s.get(k)[1])


INFO = Typ('chain info')
USAGES = Typ('chain usages', {'items': lambda u: lambda: Items(u.z, U_N, U_KEY, U_VAL, INFO)})
TEXT = Typ('expression text')
SYM = Typ('symbol', {'_get': lambda s: lambda chain_info=None, **k: SVal(GET(s.z)) if chain_info is None else SVal(CHAIN(s.z, enc(chain_info)))})


class EvaluateUtilities(Glue):
    name = 'ChoiceModel._evaluate_utilities'
    raises = ('ModelNotReadyError', 'UtilityBoundsError')

    def stubs(self, c, w):
        return {':ChoiceModel.validate': lambda s, **k: None, ':ChoiceModel.choices': lambda s: self.m.choices,
                ':ChoiceModel._partial_utilities': lambda s: self.partial,
                ':ChoiceModel._make_column_mask': lambda s, f: SVal(COLMASK(enc(f)), MASK),
                ':ChoiceModel._kernel_eval': lambda *a, **k: self.kernel(*a, **k),
                ':cpu_count': lambda: 8}

    # -- contract of Expression._prepare_dict_literals
    def prepare(self, e, index, d):
        c = ctx()
        c.prove('dict literals are expanded for the choices of the model', z3.BoolVal(index is self.m.choices))
        old = d.frozen()
        d._wrote()
        d.havoc()
        x = z3.Const('x', OBJ)
        here = ISDICT(e.z, x)
        for new_, olda in ((d.mem, old.mem), (d.val, old.val)):
            want = z3.Or(here, z3.Select(olda, x)) if new_ is d.mem else z3.If(here, DICTVAL(e.z, x), z3.Select(olda, x))
            c.assume(z3.ForAll([x], z3.Select(new_, x) == want, patterns=[z3.Select(new_, x)]))

    # -- contract of ChoiceModel._kernel_eval: the column (or all columns) increases by the value of the expression
    def kernel(self, text, d, out, column, casting_rule='same_kind'):
        c = ctx()
        if not (isinstance(text, SVal) and text.typ is TEXT):
            raise Unsupported('text evaluated: %r' % (text,))
        e = EXPR_OF(text.z)
        c.prove('the utilities are updated in place', d.get_z('OUT') == enc(out) if isinstance(out, SArr) else z3.BoolVal(False))
        c.prove('the column is that of the filter', enc(column) == COLMASK(FILTER(e)))
        for what, f in self.required(e, d):
            c.prove(what, f)
        old = out.frozen()
        d._wrote()
        d.havoc()               # (it may be restricted to the column)
        out.buf.havoc()
        c.writes.append(('w', out.buf.id, (None,)))
        i, j = z3.Ints('i j')
        t = out.at(SInt(i), SInt(j)).z
        c.assume(z3.ForAll([i, j], t == z3.If(HIT(COLMASK(FILTER(e)), j), ADD(old.at(SInt(i), SInt(j)).z, VAL(e, i, j)), old.at(SInt(i), SInt(j)).z), patterns=[t]))

    def required(self, e, d):
        """what the evaluation of e finds under the names it uses"""
        x = z3.Const(ctx().fresh_name('x'), OBJ)
        k, m = z3.Int(ctx().fresh_name('k')), z3.Int(ctx().fresh_name('m'))
        res = [pyconst(r) for r in sorted(self.reserved)]
        has, val = z3.Select(d.mem, x), z3.Select(d.val, x)
        out = [('reserved words have their values', z3.And([z3.And(z3.Select(d.mem, pyconst(r)), z3.Select(d.val, pyconst(r)) == enc(v)) for r, v in
                                                             (('NAN', float('nan')), ('NEG_INF', float('-inf')))]))]
        out.append(('every plain symbol has its data', z3.ForAll([x], z3.Implies(SIMPLE(e, x), z3.Or(z3.Or([x == r for r in res]), z3.And(has, val == GET(z3.Select(self.scope.val, x))))), patterns=[SIMPLE(e, x)])))
        u = CH_VAL(e, k)
        s = U_KEY(u, m)
        out.append(('every chain is replaced by the data it denotes', z3.ForAll([k, m], z3.Implies(z3.And(k >= 0, k < CH_N(e), m >= 0, m < U_N(u)),
                    z3.And(z3.Select(d.mem, s), z3.Select(d.val, s) == CHAIN(z3.Select(self.scope.val, CH_KEY(e, k)), U_VAL(u, m)))), patterns=[s])))
        out.append(('every dict literal is expanded', z3.ForAll([x], z3.Implies(ISDICT(e, x), z3.And(has, val == DICTVAL(e, x))), patterns=[ISDICT(e, x)])))
        return out

    def build(self, c, w):
        self.m = m = Model(c, w, cached=True)
        self.partial = m.partial
        self.P = m.partial.data.frozen()
        self.reserved = w.module('cheval/parsing/constants.py')['RESERVED_WORDS']
        self.scope = MDict(name='scope', vtyp=SYM, arbitrary=True)
        m.obj._scope = self.scope
        self.units_set = c.choose('units are set')
        if not self.units_set:
            m.obj._decision_units = None
        self.E = E = c.fresh('expressions', z3.ArraySort(I, OBJ))
        self.n = n = SInt(c.fresh('n_expressions', I))
        c.assume(n >= 0)
        con = self
        self.etyp = Typ('expression', {
            'raw': lambda e: SVal(RAW(e.z), NAME), 'filter_': lambda e: SVal(FILTER(e.z), Typ('filter', {'optional': True})),
            'transformed': lambda e: SVal(TRANSFORMED(e.z), TEXT),
            'chains': lambda e: FunDict(e.z, CH_N, CH_KEY, CH_VAL, USAGES),
            '_prepare_dict_literals': lambda e: lambda index, d: con.prepare(e, index, d)})
        self.names = NameSeq(c, 'names')
        seq_ = SSeq(n, lambda k: SVal(z3.Select(E, zint(k)), self.etyp))

        class Exprs:
            def itersimple(s): return con.names.seq
            def length(s): return n
            def item(s, k): return seq_.get(k)
        self.exprs = Exprs()
        # the facts about expressions
        k, kk, mm = z3.Ints('k kk mm')
        x, e = z3.Const('x', OBJ), z3.Const('e', OBJ)
        pos = c.fresh('position_of_name', z3.ArraySort(OBJ, I))
        px = z3.Select(pos, x)
        nm = z3.Select(self.names.a, px)
        c.assume(z3.ForAll([e], EXPR_OF(TRANSFORMED(e)) == e, patterns=[TRANSFORMED(e)]))
        ek = z3.Select(E, k)
        # (the names of the container are those of its expressions: contract of ExpressionGroup)
        c.assume(z3.ForAll([k, x], z3.Implies(z3.And(k >= 0, k < zint(n), SIMPLE(ek, x)), z3.And(px >= 0, px < zint(self.names.n), nm == x)), patterns=[SIMPLE(ek, x)]))
        # names are reserved, symbols or substitutions
        res = [pyconst(r) for r in sorted(self.reserved)]
        for r in res:
            c.assume(KIND(r) == 0)
        nk = z3.Select(self.names.a, k)
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(self.names.n)), z3.Or(z3.And(KIND(nk) == 0, z3.Or([nk == r for r in res])), KIND(nk) == 1)), patterns=[nk]))
        uu = z3.Const('u', OBJ)
        c.assume(z3.ForAll([uu, mm], KIND(U_KEY(uu, mm)) == 2, patterns=[U_KEY(uu, mm)]))
        c.assume(z3.ForAll([e, x], z3.Implies(ISDICT(e, x), KIND(x) == 3), patterns=[ISDICT(e, x)]))
        ue = CH_VAL(e, kk)
        c.assume(z3.ForAll([e, kk, mm], z3.Implies(z3.And(kk >= 0, kk < CH_N(e), mm >= 0, mm < U_N(ue)), z3.And(W1(e, U_KEY(ue, mm)) == kk, W2(e, U_KEY(ue, mm)) == mm)), patterns=[U_KEY(ue, mm)]))
        c.assume(z3.ForAll([e], CH_N(e) >= 0, patterns=[CH_N(e)]))
        c.assume(z3.ForAll([uu], U_N(uu) >= 0, patterns=[U_N(uu)]))
        # (validated: contract of ChoiceModel.validate) every symbol is declared
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(self.names.n), KIND(nk) == 1), z3.Select(self.scope.mem, nk)), patterns=[nk]))
        c.assume(z3.ForAll([k, kk], z3.Implies(z3.And(k >= 0, k < zint(n), kk >= 0, kk < CH_N(ek)), z3.Select(self.scope.mem, CH_KEY(ek, kk))), patterns=[CH_KEY(ek, kk)]))
        # the specification
        i, j = z3.Ints('i j')
        c.assume(z3.ForAll([i, j], ACC(0, i, j) == self.P.at(SInt(i), SInt(j)).z, patterns=[ACC(0, i, j)]))
        a1 = ACC(k + 1, i, j)
        self.step = lambda k: z3.ForAll([i, j], ACC(k + 1, i, j) == z3.If(HIT(COLMASK(FILTER(z3.Select(E, k))), j), ADD(ACC(k, i, j), VAL(z3.Select(E, k), i, j)), ACC(k, i, j)), patterns=[ACC(k + 1, i, j)])
        logger = None if c.choose('no logger') else SVal(c.fresh('logger', OBJ), Typ('logger', {'debug': lambda s: lambda *a: None, 'info': lambda s: lambda *a: None}))
        return (m.obj, self.exprs), dict(n_threads=SInt(c.fresh('threads', I)), logger=logger)

    def instances(self, k):
        ctx().assume(self.step(zint(k)))

    def extra(self, info, loop, env0, names, kinds):
        it = loop.it
        for a in names:
            if kinds[a] == 'a2o':
                yield '%s == the sum of the expressions seen so far' % a, lambda st, S, a=a: self.summed(st[a], st.k)
            if kinds[a] == 'D':
                yield 'reserved words of %s are kept' % a, lambda st, S, a=a: P.and_(*[P.and_(st[a].has(r), SBool(st[a].get_z(r) == st.entry[a].get_z(r))) for r in sorted(self.reserved)])
                yield 'the names seen so far are in %s' % a, lambda st, S, a=a: self.named(st[a], st.it, st.k)
                yield 'what is in %s is right' % a, lambda st, S, a=a: self.rightly(st[a])
                yield 'only substitutions of chains change in %s' % a, lambda st, S, a=a: self.kept(st[a], st.entry[a], lambda x: KIND(x) != 2)
                if isinstance(it, Items) and it.kind_ == 'n_usages':
                    yield 'the usages seen so far are in %s' % a, lambda st, S, a=a: self.used(st[a], st.it.owner, st.k)
                    yield 'other substitutions are kept in %s' % a, lambda st, S, a=a: self.kept(st[a], st.entry[a], lambda x, st=st: z3.Not(self.among(st.it.owner, x)))
                if isinstance(it, Items) and it.kind_ == 'n_chains':
                    yield 'the chains seen so far are in %s' % a, lambda st, S, a=a: self.chained(st[a], st.it.owner, st.k)

    def summed(self, a, k):
        i, j = z3.Ints('i j')
        t = a.at(SInt(i), SInt(j)).z
        return SBool(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < zint(a.shape[0]), j >= 0, j < zint(a.shape[1])), t == ACC(zint(k), i, j)), patterns=[t]))

    def named(self, d, it, k):
        j = z3.Int(ctx().fresh_name('j'))
        x = it.item(SInt(j)).z
        return SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(k)), z3.And(z3.Select(d.mem, x), z3.Or(KIND(x) == 0, z3.Select(d.val, x) == GET(z3.Select(self.scope.val, x))))), patterns=[x]))

    def rightly(self, d):
        x = z3.Const(ctx().fresh_name('x'), OBJ)
        h = z3.Select(d.mem, x)
        return SBool(z3.ForAll([x], z3.Implies(h, z3.Or(z3.Or([x == pyconst(r) for r in sorted(self.reserved)]), z3.Select(d.val, x) == GET(z3.Select(self.scope.val, x)))), patterns=[h]))

    def kept(self, d, old, cond):
        x = z3.Const(ctx().fresh_name('x'), OBJ)
        a, b = z3.Select(d.mem, x), z3.Select(d.val, x)
        f = z3.Implies(cond(x), z3.And(a == z3.Select(old.mem, x), b == z3.Select(old.val, x)))
        return SBool(z3.And(z3.ForAll([x], f, patterns=[a]), z3.ForAll([x], f, patterns=[b])))

    def among(self, u, x):
        """x is a substitution of the usages u = CH_VAL(e, k)"""
        e, k = u.arg(0), u.arg(1)
        m = W2(e, x)
        return z3.And(W1(e, x) == k, m >= 0, m < U_N(u), U_KEY(u, m) == x)

    def right(self, d, e, k, m):
        u = CH_VAL(e, k)
        s = U_KEY(u, m)
        return z3.And(z3.Select(d.mem, s), z3.Select(d.val, s) == CHAIN(z3.Select(self.scope.val, CH_KEY(e, k)), U_VAL(u, m)))

    def used(self, d, u, k):
        m = z3.Int(ctx().fresh_name('m'))
        return SBool(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < zint(k)), self.right(d, u.arg(0), u.arg(1), m)), patterns=[U_KEY(u, m)]))

    def chained(self, d, e, k):
        j, m = z3.Int(ctx().fresh_name('j')), z3.Int(ctx().fresh_name('m'))
        u = CH_VAL(e, j)
        return SBool(z3.ForAll([j, m], z3.Implies(z3.And(j >= 0, j < zint(k), m >= 0, m < U_N(u)), self.right(d, e, j, m)), patterns=[U_KEY(u, m)]))

    def ensures(self, res, exc):
        m = self.m
        R, C, n = m.R, m.C, zint(self.n)
        if exc == 'ModelNotReadyError':
            return [('refused because there are no decision units', SBool(z3.BoolVal(not self.units_set)))]
        i, j = z3.Ints('i j')
        cells = z3.And(i >= 0, i < zint(R), j >= 0, j < zint(C))
        if exc == 'UtilityBoundsError':
            return [('refused because a utility is NaN', SBool(z3.Exists([i, j], z3.And(cells, ISNAN(ACC(n, i, j))))))]
        return [('decision units are set', SBool(z3.BoolVal(self.units_set))),
                ('labelled by the decision units and the choices', P.and_(res.index.same(m.units), res.columns.same(m.choices))),
                ('every utility is the partial utility plus the values of the expressions for its choice', P.forall2(R, C, lambda i, j: P.eq(res.at(i, j), ONum(ACC(n, zint(i), zint(j)))), pattern=lambda i, j: ONum(ACC(n, zint(i), zint(j))))),
                ('no utility is NaN', SBool(z3.ForAll([i, j], z3.Implies(cells, z3.Not(ISNAN(ACC(n, i, j)))), patterns=[ACC(n, i, j)])))]


MASK = Typ('column position', {'optional': True})


class KernelEval(Glue):
    """one expression: its column (or all) increases by its value, computed from what its names denote at that column"""
    name = 'ChoiceModel._kernel_eval'
    ISARR, ISARR1 = z3.Function('is_table', OBJ, B), None
    NR, NC = z3.Function('n_rows', OBJ, I), z3.Function('n_columns', OBJ, I)
    ELEM = z3.Function('element', OBJ, I, I, NUM)
    SCALAR = z3.Function('scalar', OBJ, NUM)
    COLUMN = z3.Function('one_column', OBJ, I, OBJ)
    ISCOL = z3.Function('is_column', OBJ, B)
    C_SRC, C_POS = z3.Function('table_of_column', OBJ, OBJ), z3.Function('position_of_column', OBJ, I)
    V = z3.Function('value_in_row', OBJ, I, I, NUM)

    def build(self, c, w):
        con = self
        K = KernelEval

        def shape(s):
            if not bool(SBool(K.ISARR(s.z))):
                raise AttributeError('shape')
            return (SInt(K.NR(s.z)), SInt(K.NC(s.z)))

        def getitem(s):
            def f(key):
                if not (isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None) and isinstance(key[1], (int, SInt))):
                    raise Unsupported('index %r' % (key,))
                p = zint(key[1])
                c.prove('the column exists', z3.And(K.ISARR(s.z), p >= 0, p < K.NC(s.z)))
                t = K.COLUMN(s.z, p)
                c.assume(K.ISCOL(t), z3.Not(K.ISARR(t)), K.C_SRC(t) == s.z, K.C_POS(t) == p)
                return SVal(t, DATA)
            return f
        DATA = Typ('data', {'shape': shape, '[]': getitem})
        self.R, self.C = SInt(c.fresh('R', I)), SInt(c.fresh('C', I))
        c.assume(self.R >= 1, self.C >= 2)
        self.out = arr('out', 'o', self.R, self.C)
        self.old = self.out.frozen()
        self.d = MDict(name='local', vtyp=DATA, arbitrary=True)
        x = z3.Const('x', OBJ)
        v = z3.Select(self.d.val, x)
        # what symbols evaluate to: scalars, or tables that broadcast to the utilities
        c.assume(z3.ForAll([x], z3.Implies(K.ISARR(v), z3.And(z3.Or(K.NR(v) == 1, K.NR(v) == zint(self.R)), z3.Or(K.NC(v) == 1, K.NC(v) == zint(self.C)))), patterns=[v]))
        c.assume(z3.ForAll([x], z3.Not(K.ISCOL(v)), patterns=[v]))
        self.d0 = self.d.frozen()
        self.pos = None if c.choose('no filter') else SInt(c.fresh('column', I))
        if self.pos is not None:
            c.assume(self.pos >= 0, self.pos < self.C)
        self.text = SVal(c.fresh('text', OBJ), TEXT)
        self.calls = 0
        w.imports['numexpr'].evaluate = self.evaluate
        return (self.text, self.d, self.out, self.pos), {}

    def at(self, o, i, j):
        """the number that a value has at a cell of the utilities"""
        K = KernelEval
        return z3.If(K.ISARR(o), K.ELEM(o, z3.If(K.NR(o) == 1, 0, i), z3.If(K.NC(o) == 1, 0, j)), K.SCALAR(o))

    def evaluate(self, text, local_dict=None, out=None, casting=None, **k):
        """assumed contract of numexpr.evaluate: cell by cell, names denote the elements of local_dict"""
        c = ctx()
        K = KernelEval
        self.calls += 1
        c.prove('evaluated once', z3.BoolVal(self.calls == 1))
        mark = str(self.text)
        c.prove('the text is OUT + (expression)', z3.BoolVal(''.join(text.split()) == 'OUT+(%s)' % ''.join(mark.split())))
        c.prove('the names are those of the expression', z3.BoolVal(local_dict is self.d))
        x = z3.Const('x', OBJ)
        i, j = c.fresh('row', I), c.fresh('col', I)
        # view of the utilities that is written
        if out is self.out:
            cols = lambda j: j
            wrote = lambda j: z3.BoolVal(True)
        elif isinstance(out, SArrColumn) and out.base is self.out:
            cols = lambda j: zint(out.col)
            wrote = lambda j: j == zint(out.col)
        else:
            raise Unsupported('output %r' % (out,))
        has, v, v0 = z3.Select(self.d.mem, x), z3.Select(self.d.val, x), z3.Select(self.d0.val, x)
        col = isinstance(out, SArrColumn)
        y = c.fresh('name', OBJ)
        v, v0 = z3.Select(self.d.val, y), z3.Select(self.d0.val, y)
        src, p = K.C_SRC(v), K.C_POS(v)
        now = z3.If(K.ISCOL(v), K.ELEM(src, z3.If(K.NR(src) == 1, 0, i), p), self.at(v, i, j))
        fits = z3.Or(z3.Not(K.ISARR(v)), z3.BoolVal(not col))      # tables do not broadcast to one column
        inrange = z3.And(i >= 0, i < zint(self.R), j >= 0, j < zint(self.C), wrote(j))
        c.prove('the names are kept', z3.Select(self.d.mem, y) == z3.Select(self.d0.mem, y))
        c.prove('the data broadcasts to the output', z3.Implies(z3.And(z3.Select(self.d0.mem, y), y != pyconst('OUT')), fits))
        c.prove('every name has its value at the cell', z3.Implies(z3.And(z3.Select(self.d0.mem, y), y != pyconst('OUT'), inrange), now == self.at(v0, i, j)))
        i, j = z3.Ints('i j')
        old = self.out.frozen()
        self.out.buf.havoc()
        c.writes.append(('w', self.out.buf.id, (None,)))
        t = self.out.at(SInt(i), SInt(j)).z
        c.assume(z3.ForAll([i, j], t == z3.If(wrote(j), ADD(old.at(SInt(i), SInt(j)).z, K.V(self.text.z, i, j)), old.at(SInt(i), SInt(j)).z), patterns=[t]))

    def modifies_objects(self): return [self.out, self.d]

    def extra(self, info, loop, env0, names, kinds):
        for a in names:
            if kinds[a] == 'D' and self.pos is not None:
                yield 'the values seen so far are restricted to the column in %s' % a, lambda st, S, a=a: self.restricted(st, a)

    def restricted(self, st, a):
        K = KernelEval
        d = st[a]
        x = z3.Const(ctx().fresh_name('x'), OBJ)
        e = self.d0._enum()
        p = z3.Select(e.pos, x)
        v, v0 = z3.Select(d.val, x), z3.Select(self.d0.val, x)
        done = z3.And(z3.Select(self.d0.mem, x), p < zint(st.k))
        want = z3.If(K.ISARR(v0), v == K.COLUMN(v0, z3.If(K.NC(v0) == 1, 0, zint(self.pos))), v == v0)
        facts = z3.Implies(z3.And(done, K.ISARR(v0)), z3.And(K.ISCOL(v), z3.Not(K.ISARR(v)), K.C_SRC(v) == v0, K.C_POS(v) == z3.If(K.NC(v0) == 1, 0, zint(self.pos))))
        return SBool(z3.And(z3.ForAll([x], z3.Select(d.mem, x) == z3.Select(self.d0.mem, x), patterns=[z3.Select(d.mem, x)]),
                            z3.ForAll([x], z3.And(z3.Implies(z3.Not(done), v == v0), z3.Implies(done, want), facts), patterns=[v])))

    def ensures(self, res, exc):
        K = KernelEval
        hit = lambda j: z3.BoolVal(True) if self.pos is None else zint(j) == zint(self.pos)
        return [('evaluated once', SBool(z3.BoolVal(self.calls == 1))),
                ('the cells of the column increase by the value of the expression, others do not change', P.forall2(self.R, self.C, lambda i, j: P.eq(self.out.at(i, j),
                 ONum(z3.If(hit(j), ADD(self.old.at(i, j).z, K.V(self.text.z, zint(i), zint(j))), self.old.at(i, j).z))), pattern=lambda i, j: self.out.at(i, j)))]


# ---------------------------------------------------------------------------------------------- columns by name
NPART, PART = z3.Function('n_parts', OBJ, I), z3.Function('part', OBJ, I, OBJ)


def whole(s):
    # a text without dots is its only part
    ctx().assume(NPART(s.z) >= 1, z3.Implies(NPART(s.z) == 1, PART(s.z, 0) == s.z))


def dots(s):
    def f(sep):
        if sep != '.':
            raise Unsupported('%r in a filter' % (sep,))
        whole(s)
        return SInt(NPART(s.z) - 1)
    return f


def split(s):
    def f(sep=None):
        if sep != '.':
            raise Unsupported('split(%r)' % (sep,))
        whole(s)
        return MList(SSeq(SInt(NPART(s.z)), lambda k: SVal(PART(s.z, zint(k)), NAME)))
    return f


def padded(ix, j, n, part):
    """label j consists of the n parts, then of dots"""
    k = z3.Int(ctx().fresh_name('k'))
    lv = LEVEL(ix.lab(j).z, k)
    return SBool(z3.And(zint(n) <= zint(ix.nlevels), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(ix.nlevels)), lv == z3.If(k < zint(n), part(k), pyconst('.'))), patterns=[lv])))


def prefixed(ix, j, n, part):
    k = z3.Int(ctx().fresh_name('k'))
    lv = LEVEL(ix.lab(j).z, k)
    return SBool(z3.And(zint(n) <= zint(ix.nlevels), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(n)), lv == part(k)), patterns=[lv])))


def choice_index(c, nested):
    ix = SIndex.fresh('choices')
    ix.nlevels = SInt(c.fresh('nlevels', I)) if nested else 1
    if nested:
        c.assume(ix.nlevels >= 2)
    return ix


class MakeColumnMask(Glue):
    name = 'ChoiceModel._make_column_mask'
    raises = ('AssertionError', 'KeyError')

    def stubs(self, c, w):
        return {':ChoiceModel.choices': lambda s: self.ix}

    def build(self, c, w):
        self.nested = c.choose('nested')
        self.ix = choice_index(c, self.nested)
        self.f = None if c.choose('no filter') else SVal(c.fresh('filter', OBJ), Typ('filter', {'split': split, 'count': dots, 'has': lambda s: lambda x: dots(s)(x) > 0}))
        return (new(w.cls('ChoiceModel')), self.f), {}

    def extra(self, info, loop, env0, names, kinds):
        for a, v in env0.items():
            if isinstance(v, MList) and self.f is not None:
                yield '%s holds the parts, then dots' % a, lambda st, S, a=a: self.dotted(st[a].seq())

    def dotted(self, s):
        n, at = NPART(self.f.z), lambda j: SBool(s.get(j).z == z3.If(zint(j) < n, PART(self.f.z, zint(j)), pyconst('.')))
        return P.and_(s.n >= SInt(n), P.or_(P.eq(s.n, SInt(n)), s.n <= self.ix.nlevels), P.forall(0, s.n, at, pattern=lambda j: s.get(j)))

    def ensures(self, res, exc):
        ix = self.ix
        if self.f is None:
            return [('no filter: all columns', SBool(z3.BoolVal(res is None and exc is None)))]
        n, part = NPART(self.f.z), lambda k: PART(self.f.z, k)
        deep = zint(ix.nlevels)
        if exc == 'AssertionError':
            return [('refused only if it names no choice', SBool(n > deep if self.nested else n != 1))]
        q = SInt(ctx().fresh('q', I))
        if exc == 'KeyError':
            is_ = padded(ix, q, SInt(n), part) if self.nested else SBool(ix.lab(q).z == part(0))
            return [('refused only if no choice has this name', P.implies(P.and_(q >= 0, q < ix.n), P.not_(is_)))]
        return [('a column of the model', P.and_(res >= 0, res < ix.n)),
                ('the column of the choice that is named', P.and_(SBool(n <= deep), padded(ix, res, SInt(n), part)) if self.nested else SBool(z3.And(n == 1, ix.lab(res).z == part(0))))]


class InsertDictVal(Glue):
    """one item of a dictionary literal"""
    module = 'cheval/parsing/expressions.py'
    name = 'Expression._insert_dict_val'
    raises = ('AssertionError', 'KeyError')

    def imports(self): return {'cheval.parsing.ast_transformer': Missing('ast_transformer')}

    def build(self, c, w):
        self.nested = c.choose('nested')
        self.ix = choice_index(c, self.nested)
        a = c.fresh('key', z3.ArraySort(I, OBJ))
        self.n = SInt(c.fresh('n_key', I))
        c.assume(self.n >= 1)
        self.part = lambda k: z3.Select(a, k)
        c.assume(z3.Select(a, 0) != pyconst('_'))
        self.val = ONum(c.fresh('val', z3.DeclareSort('Num')))
        self.arr = arr('row', 'o', SInt(1), self.ix.n)
        self.old = self.arr.frozen()
        return (STuple(self.n, lambda k: SVal(z3.Select(a, zint(k)), NAME)), self.ix, self.val, self.arr), {}

    def modifies_objects(self): return [self.arr]

    def first(self, p):
        """p parts are before the first underscore (or the end)"""
        k = z3.Int(ctx().fresh_name('k'))
        t = self.part(k)
        return z3.And(p >= 0, p <= zint(self.n), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < p), t != pyconst('_')), patterns=[t]))

    def extra(self, info, loop, env0, names, kinds):
        for n in names:
            if kinds[n] == 'L':
                yield '%s holds the parts seen so far' % n, lambda st, S, n=n: self.same(st[n], st.k)
        yield 'no underscore so far', lambda st, S: SBool(self.first(zint(st.k)))
        for n in names:
            if kinds[n] == 'b':
                yield '%s is False' % n, lambda st, S, n=n: P.not_(st[n]) if isinstance(st[n], SBool) else not st[n]

    def same(self, lst, k):
        if isinstance(lst.xs, list) and not lst.xs:
            return P.eq(k, 0)
        j = z3.Int(ctx().fresh_name('j'))
        t = enc(lst.at(SInt(j)))
        return P.and_(P.eq(lst.n, k), SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(k)), t == self.part(j)), patterns=[t])))

    def hit(self, j, p, partial):
        ix = self.ix
        if not self.nested:
            return SBool(ix.lab(j).z == self.part(0))
        whole = padded(ix, j, SInt(p), self.part)
        if not partial:
            return whole
        return P.and_(prefixed(ix, j, SInt(p), self.part), P.not_(whole))

    def ensures(self, res, exc):
        c = ctx()
        ix = self.ix
        p, q = c.fresh('p', I), SInt(c.fresh('q', I))
        c.assume(self.first(p), z3.Or(p == zint(self.n), self.part(p) == pyconst('_')))
        inside = P.and_(q >= 0, q < ix.n)
        if exc == 'AssertionError':
            return [('refused only if it names no choice', SBool(z3.And(z3.BoolVal(not self.nested), zint(self.n) != 1)))]
        if exc == 'KeyError':
            return [('refused only if no choice has this name', P.implies(inside, P.not_(self.hit(q, p, False))))]
        new_, old = self.arr.at(0, q).z, self.old.at(0, q).z
        out = [] if self.nested else [('dotted names are refused without nests', SBool(zint(self.n) == 1))]
        for partial in (False, True):
            guard = z3.And(zbool(inside), (p < zint(self.n)) if partial else (p == zint(self.n)))
            if not self.nested:
                guard = zbool(inside)
            h = zbool(self.hit(q, p, partial))
            out += [('the alternatives that are named get the number' + (' (all below a node)' if partial else ''), SBool(z3.Implies(z3.And(guard, h), new_ == self.val.z))),
                    ('all others keep theirs' + (' (all below a node)' if partial else ''), SBool(z3.Implies(z3.And(guard, z3.Not(h)), new_ == old)))]
        return out


HITK = z3.Function('key_selects', OBJ, I, B)
L_N, L_KEY, L_VAL = z3.Function('n_items', OBJ, I), z3.Function('item_key', OBJ, I, OBJ), z3.Function('item_value', OBJ, I, NUM)
FOLD = z3.Function('row_after_items', OBJ, I, I, NUM)
CELL, ISROW = z3.Function('cell_of_array', OBJ, I, I, NUM), z3.Function('is_row_of', OBJ, I, B)


class LiteralItems(SSeq):
    def __init__(self, l):
        self.owner, self.kind_ = l, 'n_items'
        SSeq.__init__(self, SInt(L_N(l)), lambda k: (SVal(L_KEY(l, zint(k)), Typ('key')), ONum(L_VAL(l, zint(k)))))


class Rows(MDict):
    """names -> arrays; an array is not written any more once it is in there"""
    def _put(self, k, v):
        if isinstance(v, SArr):
            c = ctx()
            i, j = z3.Ints('i j')
            f = v.frozen()
            t = CELL(enc(v), i, j)
            c.assume(z3.ForAll([i, j], t == f.at(SInt(i), SInt(j)).z, patterns=[t]))
            c.assume(ISROW(enc(v), zint(v.shape[1])) == (zint(v.shape[0]) == 1))
            c.ghost.setdefault('published', set()).add(v.buf.id)
        MDict._put(self, k, v)


class PrepareDictLiterals(Glue):
    module = 'cheval/parsing/expressions.py'
    name = 'Expression._prepare_dict_literals'

    def imports(self): return {'cheval.parsing.ast_transformer': Missing('ast_transformer')}

    def stubs(self, c, w):

        def insert(key, ix, val, a):
            c.prove('the choices of the model', z3.BoolVal(ix is self.ix))
            if a.buf.id in c.ghost.get('published', ()):
                raise Unsupported('write to a row that is already stored')
            old = a.frozen()
            a.buf.havoc()
            c.writes.append(('w', a.buf.id, (None,)))
            j = z3.Int('j')
            t = a.at(SInt(0), SInt(j)).z
            c.assume(z3.ForAll([j], t == z3.If(HITK(key.z, j), val.z, old.at(SInt(0), SInt(j)).z), patterns=[t]))
        return {':Expression._insert_dict_val': insert}

    def build(self, c, w):
        self.ix = SIndex.fresh('choices')
        lit = Typ('literal', {'items': lambda l: lambda: LiteralItems(l.z)})
        self.lits = MDict(name='literals', vtyp=lit, arbitrary=True)
        self.d = Rows(name='local', arbitrary=True)
        self.d0 = self.d.frozen()
        l, j = z3.Const('l', OBJ), z3.Int('j')
        c.assume(z3.ForAll([l, j], FOLD(l, 0, j) == num(0), patterns=[FOLD(l, 0, j)]), z3.ForAll([l], L_N(l) >= 0, patterns=[L_N(l)]))
        e = new(w.module(self.module)['Expression'], dict_literals=self.lits)
        return (e, self.ix, self.d), {}

    def modifies_objects(self): return [self.d]

    def instances(self, k):
        k = zint(k)
        l, j = z3.Const('l', OBJ), z3.Int('j')
        ctx().assume(z3.ForAll([l, j], FOLD(l, k + 1, j) == z3.If(HITK(L_KEY(l, k), j), L_VAL(l, k), FOLD(l, k, j)), patterns=[FOLD(l, k + 1, j)]))

    def right(self, d, s):
        v, l = z3.Select(d.val, s), z3.Select(self.lits.val, s)
        j = z3.Int(ctx().fresh_name('j'))
        t = CELL(v, 0, j)
        return z3.And(z3.Select(d.mem, s), ISROW(v, zint(self.ix.n)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(self.ix.n)), t == FOLD(l, L_N(l), j)), patterns=[t]))

    def extra(self, info, loop, env0, names, kinds):
        it = loop.it
        for a in names:
            if kinds[a] == 'a2o' and isinstance(it, LiteralItems):
                yield '%s holds the items seen so far' % a, lambda st, S, a=a: self.folded(st[a], st.it.owner, st.k)
            if kinds[a] == 'D':
                yield 'the literals seen so far are in %s' % a, lambda st, S, a=a: self.done(st[a], st.it, st.k)
                yield 'nothing else changes in %s' % a, lambda st, S, a=a: self.kept(st[a])

    def folded(self, a, l, k):
        j = z3.Int(ctx().fresh_name('j'))
        t = a.at(SInt(0), SInt(j)).z
        return SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(self.ix.n)), t == FOLD(l, zint(k), j)), patterns=[t]))

    def done(self, d, it, k):
        m, j = z3.Int(ctx().fresh_name('m')), z3.Int(ctx().fresh_name('j'))
        s = enc(it.item(SInt(m))[0])
        v, l = z3.Select(d.val, s), z3.Select(self.lits.val, s)
        t = CELL(v, 0, j)
        return SBool(z3.And(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < zint(k)), z3.And(z3.Select(d.mem, s), ISROW(v, zint(self.ix.n)))), patterns=[s]),
                            z3.ForAll([m, j], z3.Implies(z3.And(m >= 0, m < zint(k), j >= 0, j < zint(self.ix.n)), t == FOLD(l, L_N(l), j)), patterns=[t])))

    def kept(self, d):
        x = z3.Const(ctx().fresh_name('x'), OBJ)
        a, b = z3.Select(d.mem, x), z3.Select(d.val, x)
        f = z3.Implies(z3.Not(z3.Select(self.lits.mem, x)), z3.And(a == z3.Select(self.d0.mem, x), b == z3.Select(self.d0.val, x)))
        return SBool(z3.And(z3.ForAll([x], f, patterns=[a]), z3.ForAll([x], f, patterns=[b])))

    def ensures(self, res, exc):
        s = ctx().fresh('s', OBJ)
        return [('every literal is expanded: its numbers for the alternatives it names, 0 for all others', SBool(z3.Implies(z3.Select(self.lits.mem, s), self.right(self.d, s)))),
                ('nothing else changes', self.kept(self.d))]
