"""Contract of LinkedDataFrame.evaluate: what the translated expression is computed from"""
import z3
from . import engine, poly as P
from .engine import *
from .arrays import *
from .obj import *
from .ldf_contracts import LDF, no_attribute
from .ldf_shim import SeriesVal
from .model_contracts import new, NameSeq
from .api_contracts import false, COLUMN, ITEM, AGG
from .eval_contracts import EvaluateUtilities, Items, FunDict, CH_N, CH_KEY, CH_VAL, U_N, U_KEY, U_VAL, W1, W2, KIND, TRANSFORMED
from .shim import Mod

LENGTH, ATTR_AT = z3.Function('chain_length', OBJ, I), z3.Function('chain_attribute', OBJ, I, OBJ)
WITHF, FUNC, ARG = z3.Function('with_function', OBJ, B), z3.Function('chain_function', OBJ, OBJ), z3.Function('chain_argument', OBJ, OBJ)
LOOKED = z3.Function('looked_up', OBJ, OBJ, I, OBJ)
DATA = z3.Function('data_of_column', OBJ, OBJ)
HAS = z3.Function('frame_has', OBJ, B)
COMPUTED = z3.Function('computed_from_text', OBJ, OBJ)
INFO = Typ('chain info', {'chain': lambda i: MList(SSeq(SInt(LENGTH(i.z)), lambda k: SVal(ATTR_AT(i.z, zint(k)), NAME))), 'func': lambda i: SVal(FUNC(i.z), NAME), 'args': lambda i: SVal(ARG(i.z), NAME),
                          'withfunc': lambda i: SBool(WITHF(i.z))})
USAGES = Typ('chained symbol', {'items': lambda u: lambda: Items(u.z, U_N, U_KEY, U_VAL, INFO)})


class FrameEvaluate(LDF, EvaluateUtilities):
    """every plain name has the data of its column (or what was given for it), every chain the data its attributes lead to, from the link on; the
    result is what numexpr computes from these for the translated text, one value per row"""
    name = 'LinkedDataFrame.evaluate'
    raises = ('UnsupportedSyntaxError', 'SyntaxError', 'KeyError', 'AssertionError')
    module = LDF.module
    stopped = None

    def imports(self):
        d = LDF.imports(self)
        con = self
        d['numexpr'] = Mod('numexpr', evaluate=lambda *a, **k: con.compute(*a, **k), set_num_threads=lambda n: None, set_vml_num_threads=lambda n: None)

        class Expression:
            @staticmethod
            def parse(e, prior_simple=None, prior_chained=None, mode='unknown'):
                c = ctx()
                flags = con.w.module('cheval/parsing/expr_items.py')['EvaluationMode']
                c.prove('ensures the expression given is parsed, without dict literals, by itself', z3.BoolVal(e is con.text and mode is flags.DATAFRAME and prior_simple is None and prior_chained is None))
                if c.choose('it is refused'):
                    con.stopped = 'refused'
                    raise con.w.module('cheval/parsing/exceptions.py')['UnsupportedSyntaxError']()
                return con.expr
        d['cheval.parsing.expressions'] = Mod('cheval.parsing.expressions', Expression=Expression)
        return d

    def stubs(self, c, w):
        def getitem(frame, item):
            z = enc(item)
            if frame is not self.frame:
                raise Unsupported('item of another frame')
            if not bool(SBool(HAS(z))):
                raise KeyError(item)
            return SVal(ITEM(self.z, z), COLUMN)

        def link(frame, item): return SVal(ITEM(self.z, enc(item)), COLUMN)
        convert = lambda s, allow_raw=False: SVal(DATA(enc(s)))
        return {'LinkedDataFrame.__getitem__': getitem, 'LinkedDataFrame._init_link': link, 'LinkedDataFrame.__getattr__': no_attribute, 'convert_series': convert, 'to_numpy': lambda x: SVal(DATA(enc(x)))}

    def build(self, c, w):
        self.w = w
        self.stopped = None
        self.computed = []
        self.z = c.fresh('frame', OBJ)
        self.links = MDict(name='links', arbitrary=True)
        self.index = new(type('Ix', (), {}))
        self.frame = new(self.cls('LinkedDataFrame'), _links=self.links, index=self.index)
        self.text = SVal(c.fresh('text', OBJ), NAME)
        self.names = NameSeq(c, 'names')
        self.E = e = c.fresh('expression', OBJ)
        self.has_filter = bool(c.choose('a filter'))
        self.expr = new(type('E', (), {}), symbols=self.names.seq, chains=FunDict(e, CH_N, CH_KEY, CH_VAL, USAGES), transformed=SVal(TRANSFORMED(e), NAME),
                        filter_=SVal(c.fresh('filter', OBJ), NAME) if self.has_filter else None, raw=self.text)
        given = MDict(name='given', arbitrary=True)          # (made on every path: cells are known by their order)
        self.given = given if c.choose('names given') else None
        self.out = SVal(c.fresh('out', OBJ)) if c.choose('out given') else None
        self.casting = SBool(c.fresh('casting', B))
        # names: reserved 0, symbols 1, substitutions 2; substitutions of one expression differ (contracts of the parser and of ChainedSymbol)
        k, mm, j = z3.Ints('k m j')
        nk = z3.Select(self.names.a, k)
        self.reserved = ('NAN', 'NEG_INF')
        for r in self.reserved:
            c.assume(KIND(pyconst(r)) == 0)
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(self.names.n)), z3.Or(KIND(nk) == 1, z3.And(KIND(nk) == 0, z3.Or([nk == pyconst(r) for r in self.reserved])))), patterns=[nk]))
        uu, x, i = z3.Const('u', OBJ), z3.Const('x', OBJ), z3.Const('i', OBJ)
        c.assume(z3.ForAll([uu, mm], KIND(U_KEY(uu, mm)) == 2, patterns=[U_KEY(uu, mm)]))
        ue = CH_VAL(e, k)
        c.assume(z3.ForAll([k, mm], z3.Implies(z3.And(k >= 0, k < CH_N(e), mm >= 0, mm < U_N(ue)), z3.And(W1(e, U_KEY(ue, mm)) == k, W2(e, U_KEY(ue, mm)) == mm)), patterns=[U_KEY(ue, mm)]))
        c.assume(CH_N(e) >= 0, z3.ForAll([uu], U_N(uu) >= 0, patterns=[U_N(uu)]), z3.ForAll([i], LENGTH(i) >= 0, patterns=[LENGTH(i)]))
        c.assume(z3.ForAll([x, i], LOOKED(x, i, 0) == x, patterns=[LOOKED(x, i, 0)]))
        # links are items of the frame; nothing is called like the reserved words
        sel = z3.Select(self.links.mem, x)
        c.assume(z3.ForAll([x], z3.Implies(sel, HAS(x)), patterns=[sel]))
        c.assume(*[z3.Not(HAS(pyconst(r))) for r in self.reserved])
        kw = dict(local_dict=self.given, allow_casting=self.casting, ignore_check=SBool(c.fresh('ignore_check', B)))
        if self.out is not None:
            kw['out'] = self.out
        return (self.frame, self.text), kw

    def instances(self, k):
        x, i = z3.Const('x', OBJ), z3.Const('i', OBJ)
        k = zint(k)
        t = LOOKED(x, i, k + 1)
        ctx().assume(z3.ForAll([x, i], z3.Implies(z3.And(k >= 0, k < LENGTH(i)), t == ITEM(LOOKED(x, i, k), ATTR_AT(i, LENGTH(i) - 1 - k))), patterns=[t]))

    def modifies_objects(self): return ()

    # what the names stand for
    def plain(self, d, x):
        """x is a symbol: the column of the frame, else what was given"""
        own = z3.And(HAS(x), z3.Select(d.val, x) == DATA(ITEM(self.z, x)))
        if self.given is None:
            return z3.And(z3.Select(d.mem, x), z3.Or(own, KIND(x) == 0))
        theirs = z3.And(z3.Select(self.given.mem, x), z3.Select(d.val, x) == z3.Select(self.given.val, x))
        return z3.And(z3.Select(d.mem, x), z3.Or(own, KIND(x) == 0, theirs))

    def named(self, d, it, k):
        j = z3.Int(ctx().fresh_name('j'))
        x = it.get(SInt(j)).z
        return SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(k)), self.plain(d, x)), patterns=[x]))

    def grown(self, d, old):
        x = z3.Const(ctx().fresh_name('x'), OBJ)
        o = z3.Select(old.mem, x)
        kept = z3.And(z3.Select(d.mem, x), z3.Or(z3.Select(d.val, x) == z3.Select(old.val, x), z3.And(KIND(x) == 1, HAS(x)), KIND(x) == 2))
        return SBool(z3.ForAll([x], z3.Implies(o, kept), patterns=[o]))

    def rightly(self, d):
        x = z3.Const(ctx().fresh_name('x'), OBJ)
        h = z3.Select(d.mem, x)
        return SBool(z3.ForAll([x], z3.Implies(z3.And(h, KIND(x) == 1), self.plain(d, x)), patterns=[h]))

    def right(self, d, e, k, m):
        u = CH_VAL(e, k)
        s, i = U_KEY(u, m), U_VAL(u, m)
        last = LOOKED(ITEM(self.z, CH_KEY(e, k)), i, LENGTH(i))
        return z3.And(z3.Select(d.mem, s), z3.Select(d.val, s) == DATA(z3.If(WITHF(i), AGG(last, FUNC(i), ARG(i)), last)))

    def extra(self, info, loop, env0, names, kinds):
        yield from EvaluateUtilities.extra(self, info, loop, env0, [n for n in names if kinds[n] == 'D'], kinds)
        for a in [n for n in names if kinds[n] == 'D']:
            yield 'no name is lost from %s' % a, lambda st, S, a=a: self.grown(st[a], st.entry[a])
        if isinstance(loop.it, Items):
            return
        for a in [a for a in names if isinstance(env0.get(a), SVal) and env0[a].typ is COLUMN]:
            def so_far(st, S, a=a):
                u, s = st.entry[a], st.env[a]
                chains = [t for t in ([v for v in st.env.values() if isinstance(v, SVal) and v.typ is INFO])]
                return SBool(z3.Or([enc(s) == LOOKED(enc(u), t.z, zint(st.k)) for t in chains])) if chains else false(False)
            yield 'looked up so far: %s' % a, so_far

    def compute(self, text, local_dict=None, global_dict=None, out=None, casting='safe', **k):
        c = ctx()
        d = local_dict
        c.prove('ensures the translated text is computed', enc(text) == TRANSFORMED(self.E))
        c.prove('ensures the rounding of types is as asked', z3.BoolVal(casting == 'same_kind') == self.casting.z)
        c.prove('ensures the result goes where it was asked', z3.BoolVal(out is None) if self.out is None else enc(out) == DATA(self.out.z))
        for r, v in (('NAN', float('nan')), ('NEG_INF', float('-inf'))):
            c.prove('ensures the reserved words have their values', z3.And(z3.Select(d.mem, pyconst(r)), z3.Select(d.val, pyconst(r)) == enc(v)))
        j, m = z3.Int('j'), z3.Int('m')
        x = z3.Select(self.names.a, j)
        c.prove('ensures every plain name has its column, or what was given', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(self.names.n)), self.plain(d, x))))
        s = U_KEY(CH_VAL(self.E, j), m)
        c.prove('ensures every chain has the data it leads to', z3.ForAll([j, m], z3.Implies(z3.And(j >= 0, j < CH_N(self.E), m >= 0, m < U_N(CH_VAL(self.E, j))), self.right(d, self.E, j, m))))
        v = SVal(COMPUTED(enc(text)))
        self.computed.append(v)
        return v

    def ensures(self, res, exc):
        c = ctx()
        j = z3.Int('j')
        x = z3.Select(self.names.a, j)
        if exc in ('UnsupportedSyntaxError', 'SyntaxError'):
            yield 'only filters, and what the parser refuses, are refused', false(self.stopped == 'refused' or self.has_filter)
        elif exc == 'KeyError':
            known = z3.Or(HAS(x), z3.Select(self.given.mem, x) if self.given is not None else False, KIND(x) == 0)
            yield 'some name is unknown', SBool(z3.Exists([j], z3.And(j >= 0, j < zint(self.names.n), z3.Not(known))))
        elif exc == 'AssertionError':
            yield 'some link is unknown', SBool(z3.Exists([j], z3.And(j >= 0, j < CH_N(self.E), z3.Not(z3.Select(self.links.mem, CH_KEY(self.E, j))))))
        if exc is not None:
            return
        yield 'filters are refused', false(not self.has_filter)
        yield 'one thing is computed', false(len(self.computed) == 1)
        yield 'a value for each row, labelled like the rows', false(isinstance(res, SeriesVal) and len(self.computed) == 1 and res.data is self.computed[0] and res.index is self.index)
