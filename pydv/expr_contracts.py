"""Contracts of Expression and ChainedSymbol (cheval/parsing): what an expression consists of is what its text was translated to"""
import z3
from . import engine, poly as P
from .engine import *
from .arrays import *
from .obj import *
from .glue import Glue
from .shim import Mod
from .model_contracts import new
from .api_contracts import false
from .group_contracts import same_set, is_union, NAMESET

PART = z3.Function('part_of_text', OBJ, I, OBJ)
ATS = z3.Function('number_of_at_signs', OBJ, I)
TRIM = z3.Function('trimmed', OBJ, OBJ)
TREE = z3.Function('tree_of_text', OBJ, OBJ)
SEEN, WRITTEN = z3.Function('translated_tree', OBJ, OBJ), z3.Function('source_of_tree', OBJ, OBJ)
CODE = Typ('text of an expression')


def parts_of(e, sep, limit=None):
    if sep != '@' or limit is not None:
        raise Unsupported('splitting a text at %r' % (sep,))
    return MList(SSeq(SInt(ATS(e.z) + 1), lambda k: SVal(PART(e.z, zint(k)), CODE)))


def trimmed(e):
    z = TRIM(e.z)
    ctx().assume(TRIM(z) == z)
    return SVal(z, CODE)


def count(e, what):
    if what != '@':
        raise Unsupported('counting %r in a text' % (what,))
    return SInt(ATS(e.z))


def partition(e, sep):
    n = ATS(e.z)
    if sep != '@' or not bool(SBool(n <= 1)):
        raise Unsupported('partition of a text')
    if bool(SBool(n == 0)):
        return e, '', ''
    return SVal(PART(e.z, 0), CODE), '@', SVal(PART(e.z, 1), CODE)


CODE.attrs.update({'split': lambda e: lambda sep, limit=None: parts_of(e, sep, limit), 'strip': lambda e: lambda: trimmed(e), 'count': lambda e: lambda what: count(e, what),
                   'partition': lambda e: lambda sep: partition(e, sep), '__contains__': lambda e: lambda what: SBool(ATS(e.z) > 0) if what == '@' else None})


class ExpressionParse(Glue):
    """an expression has the filter behind its '@'; the text before it is translated by one new parser, that knows the names given,
    and the names, chains and literals are those that parser recorded"""
    module = 'cheval/parsing/expressions.py'
    preload = ('cheval/parsing/expressions.py',)
    name = 'Expression.parse'
    raises = ('UnsupportedSyntaxError', 'SyntaxError')

    def imports(self):
        con = self

        def parse(text, filename='', mode='exec'):
            if mode != 'eval' or not (isinstance(text, SVal) and text.typ is CODE):
                raise Unsupported('ast.parse of %r in mode %r' % (text, mode))
            if ctx().choose('the text is no Python'):
                con.refused = True
                raise SyntaxError()
            # blanks around an expression are ignored
            return Mod('Expression', body=SVal(TREE(TRIM(text.z)), Typ('tree')))

        def to_source(tree):
            return SVal(WRITTEN(tree.z), NAME)

        class ExpressionParser:
            def __init__(self, prior_simple=None, prior_chained=None, mode='unknown'):
                c = ctx()
                con.parsers.append(self)
                self.given = prior_simple, prior_chained, mode
                self.trees = []
                self.visited_simple, self.chained_symbols, self.dict_literals = MSet(name='visited', arbitrary=True), MDict(name='chains', arbitrary=True), MDict(name='literals', arbitrary=True)

            def visit(self, tree):
                if ctx().choose('the parser refuses'):
                    con.refused = True
                    raise con.w.module('cheval/parsing/exceptions.py')['UnsupportedSyntaxError']()
                # the names are there when the tree was visited, in the sets the parser has
                for s in (self.visited_simple, self.chained_symbols, self.dict_literals):
                    s.havoc()
                self.trees.append(tree)
                return SVal(SEEN(tree.z), Typ('tree'))
        return {'ast': Mod('ast', parse=parse), 'astor': Mod('astor', to_source=to_source), 'cheval.parsing.ast_transformer': Mod('ast_transformer', ExpressionParser=ExpressionParser)}

    def build(self, c, w):
        self.w = w
        self.parsers, self.refused = [], False
        self.e = SVal(c.fresh('text', OBJ), CODE)
        z = self.e.z
        c.assume(ATS(z) >= 0, z3.Implies(ATS(z) == 0, PART(z, 0) == z))
        self.prior = [MSet(name='prior_' + label, arbitrary=True) if c.choose('prior ' + label) else None for label in ('plain', 'chained')]
        self.mode = w.module('cheval/parsing/expr_items.py')['EvaluationMode'].DATAFRAME if c.choose('mode') else None
        if self.mode is None:
            return (self.e, *self.prior), {}
        return (self.e, *self.prior), dict(mode=self.mode)

    def modifies_objects(self):
        return [s for p in self.parsers for s in (p.visited_simple, p.chained_symbols, p.dict_literals)]

    def ensures(self, res, exc):
        z = self.e.z
        n = ATS(z)
        if exc is not None:
            yield 'refused only for two filters, or by the parser', P.or_(SBool(n > 1), false(self.refused))
            return
        yield 'more than one filter is refused', SBool(n <= 1)
        cls = self.w.module(self.module)['Expression']
        yield 'an expression', false(isinstance(res, cls))
        yield 'one parser', false(len(self.parsers) == 1)
        if not isinstance(res, cls) or len(self.parsers) != 1:
            return
        p = self.parsers[0]
        for label, g, want in zip(('plain', 'chained'), p.given, self.prior):
            yield 'the parser knows the %s names given' % label, false(g is want)
        if self.mode is not None:
            yield 'the parser has the mode given', false(p.given[2] is self.mode)
        yield 'it visits one tree', false(len(p.trees) == 1)
        if len(p.trees) != 1:
            return
        yield 'that of the text before the filter', SBool(enc(p.trees[0]) == TREE(TRIM(PART(z, 0))))
        yield 'what is computed is the translated tree', SBool(enc(res.transformed) == WRITTEN(SEEN(TREE(TRIM(PART(z, 0))))))
        yield 'without filter there is none', P.or_(SBool(n > 0), false(res.filter_ is None))
        if res.filter_ is not None:
            yield 'the filter is what follows', SBool(TRIM(enc(res.filter_)) == TRIM(PART(z, 1)))
        else:
            yield 'no filter is lost', SBool(n == 0)
        yield 'the text is kept', SBool(enc(res.raw) == z)
        yield 'the plain names are those the parser recorded', same_set(members(res.symbols), p.visited_simple.mem)
        for label, d, want in (('chains', res.chains, p.chained_symbols), ('literals', res.dict_literals, p.dict_literals)):
            x = z3.Const('x', OBJ)
            yield 'the %s are those the parser recorded' % label, SBool(z3.ForAll([x], z3.And(z3.Select(d.mem, x) == z3.Select(want.mem, x), z3.Implies(z3.Select(want.mem, x), z3.Select(d.val, x) == z3.Select(want.val, x)))))


class AllSymbols(Glue):
    """all names an expression uses: the plain ones and the chained ones"""
    module = 'cheval/parsing/expressions.py'
    preload = ('cheval/parsing/expressions.py',)
    name = 'Expression.all_symbols'

    def imports(self): return ExpressionParse.imports(self)

    def build(self, c, w):
        self.s, self.ch = MSet(name='plain', arbitrary=True), MDict(name='chains', arbitrary=True)
        self.o = new(w.module(self.module)['Expression'], symbols=self.s, chains=self.ch)
        self.was = self.s.mem, self.ch.mem
        return (self.o,), {}

    def modifies_objects(self): return ()

    def ensures(self, res, exc):
        yield 'exactly the names', is_union(members(res), *self.was)
        yield 'and not the set of the expression itself', false(res is not self.s)


class ChainInit(Glue):
    """a new chained symbol has its name and no chains"""
    module = 'cheval/parsing/expr_items.py'
    name = 'ChainedSymbol.__init__'

    def build(self, c, w):
        self.o = object.__new__(w.module(self.module)['ChainedSymbol'])
        self.n = SVal(c.fresh('name', OBJ), NAME)
        return (self.o, self.n), {}

    def modifies_objects(self): return ()

    def ensures(self, res, exc):
        x = z3.Const('x', OBJ)
        yield 'its name', false(self.o._name is self.n)
        yield 'no chains', SBool(z3.ForAll([x], z3.Not(z3.Select(members(self.o._lookups), x))))


class ChainItems(Glue):
    """the chains of a symbol: each with the name it has"""
    module = 'cheval/parsing/expr_items.py'
    name = 'ChainedSymbol.items'

    def build(self, c, w):
        self.d = MDict(name='lookups', arbitrary=True)
        self.o = new(w.module(self.module)['ChainedSymbol'], _name=SVal(c.fresh('name', OBJ), NAME), _lookups=self.d)
        return (self.o,), {}

    def modifies_objects(self): return ()

    def ensures(self, res, exc):
        x, k = z3.Const('x', OBJ), z3.Int('k')
        c = ctx()
        s = seq(res)
        e = self.d._enum()
        t = s.get(SInt(k))
        yield 'as many as there are', P.eq(s.n, SInt(e.n))
        yield 'name and chain', SBool(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(s.n)), z3.And(z3.Select(self.d.mem, enc(t[0])), z3.Select(self.d.val, enc(t[0])) == enc(t[1])))))
        u = s.get(SInt(z3.Int('j')))
        yield 'each once', SBool(z3.ForAll([k, z3.Int('j')], z3.Implies(z3.And(k >= 0, k < z3.Int('j'), z3.Int('j') < zint(s.n)), enc(t[0]) != enc(u[0]))))
