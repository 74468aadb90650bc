"""Contracts of the translation of expressions (cheval/parsing): every visitor method keeps the meaning of its node, given that the
visits of its children keep theirs. Meanings are those of one element (expressions are computed element by element): VAL is a set of
values, operators are uninterpreted functions on it; Boolean values are the images of true and false."""
import ast as _ast
import z3
from . import engine, poly as P, loops, obj
from .engine import *
from .arrays import *
from .obj import *
from .glue import Glue
from .shim import Mod
from .model_contracts import new
from .api_contracts import false
from .group_contracts import same_set, NAMESET

VAL = z3.DeclareSort('Val')
TRUTH, OF_BOOL = z3.Function('truth', VAL, B), z3.Function('of_bool', B, VAL)
SOURCE, TARGET = z3.Function('meaning_as_written', OBJ, VAL), z3.Function('meaning_translated', OBJ, VAL)
VISITED = z3.Function('visit_of', OBJ, OBJ)
CMP = z3.Function('compares', OBJ, VAL, VAL, B)
NEG = z3.Function('negated', VAL, VAL)
BIN = z3.Function('combined', OBJ, VAL, VAL, VAL)
ATTR, VALUE, ID, TEXT, LOWER, CODE_OF = (z3.Function(n, OBJ, OBJ) for n in ('node_attr', 'node_value', 'node_id', 'node_text', 'lower', 'source_of'))
OPERAND, OPERATOR, NUMBER, FLOAT, MINUS = (z3.Function(n, OBJ, OBJ) for n in ('node_operand', 'node_op', 'node_number', 'float64', 'minus'))
KEY = z3.Function('key_of', OBJ, OBJ)
IS = {}
NAME.attrs['lower'] = lambda s: lambda: SVal(LOWER(s.z), NAME)
REAL = {n: getattr(_ast, n) for n in dir(_ast) if isinstance(getattr(_ast, n), type) and issubclass(getattr(_ast, n), _ast.AST) and n not in ('Num', 'Str', 'Bytes', 'NameConstant', 'Ellipsis')}


def is_kind(z, kind):
    """the node (or operator) is one of this class; classes exclude each other"""
    if kind not in IS:
        IS[kind] = z3.Function('is_' + kind, OBJ, B)
    c = ctx()
    if ('kind', kind) not in c.axiom_done:
        x = z3.Const('x', OBJ)
        for other in [k for t, k in [a for a in c.axiom_done if isinstance(a, tuple) and a[0] == 'kind']]:
            c.assume(z3.ForAll([x], z3.Not(z3.And(IS[kind](x), IS[other](x))), patterns=[z3.MultiPattern(IS[kind](x), IS[other](x))]))
        c.axiom_done.add(('kind', kind))
    return IS[kind](z)


def node_isinstance(x, t):
    kinds = [k for k in (t if isinstance(t, tuple) else (t,))]
    return SBool(z3.Or([is_kind(x.z, getattr(k, 'kind_name', k.__name__)) for k in kinds]))


def needs(kind, f):
    def get(x):
        if not bool(SBool(is_kind(x.z, kind))):
            raise AttributeError('not a %s' % kind)
        return f(x)
    return get


class Number(SVal):
    def __neg__(self): return Number(MINUS(self.z), NUMBER_T)


NUMBER_T = Typ('number')
NUMBER_T.wrap = lambda z: Number(z, NUMBER_T)
OP = Typ('operator', {'isinstance': node_isinstance, '__class__': None})
NODE = Typ('node', {'isinstance': node_isinstance})
NODE.attrs.update({
    'attr': needs('Attribute', lambda x: SVal(ATTR(x.z), NAME)), 'value': needs('Attribute', lambda x: SVal(VALUE(x.z), NODE)),
    'id': needs('Name', lambda x: SVal(ID(x.z), NAME)), 's': needs('Str', lambda x: SVal(TEXT(x.z), NAME)),
    'operand': needs('UnaryOp', lambda x: SVal(OPERAND(x.z), NODE)), 'op': needs('UnaryOp', lambda x: SVal(OPERATOR(x.z), OP)),
    'n': needs('Num', lambda x: Number(NUMBER(x.z), NUMBER_T))})


def opcode(op):
    return op.z if isinstance(op, SVal) else pyconst('operator ' + type(op).__name__)


def meaning(x):
    """of a translated node"""
    c = ctx()
    if isinstance(x, SVal):
        return TARGET(x.z)
    m = c.fresh('meaning', VAL)
    if isinstance(x, _ast.AST):
        assume_meaning(m, type(x).__name__, vars(x))
    return m


def assume_meaning(m, kind, f):
    """what numexpr computes for a node; nothing is known about the value of anything else"""
    c = ctx()
    if kind == 'UnaryOp':
        v = meaning(f['operand'])
        if isinstance(f['op'], _ast.Invert):
            c.assume(m == OF_BOOL(z3.Not(TRUTH(v))))
        elif isinstance(f['op'], _ast.USub):
            c.assume(m == NEG(v))
    elif kind == 'BinOp':
        v, w = meaning(f['left']), meaning(f['right'])
        if isinstance(f['op'], _ast.BitAnd):
            c.assume(m == OF_BOOL(z3.And(TRUTH(v), TRUTH(w))))
        elif isinstance(f['op'], _ast.BitOr):
            c.assume(m == OF_BOOL(z3.Or(TRUTH(v), TRUTH(w))))
        else:
            c.assume(m == BIN(opcode(f['op']), v, w))
    elif kind == 'Compare':
        ops, cs = seq(f['ops']), seq(f['comparators'])
        one = z3.And(zint(ops.n) == 1, zint(cs.n) == 1)
        r = cs.get(SInt(0))
        c.assume(z3.Implies(one, m == OF_BOOL(CMP(opcode(ops.get(SInt(0))), meaning(f['left']), meaning(r)))))


class NodeMeta(type):
    """a class of nodes: what is made is an opaque object with the meaning of the node"""
    def __instancecheck__(cls, x): return isinstance(x, cls.real)
    def __subclasscheck__(cls, x): return issubclass(getattr(x, 'real', x), cls.real)

    def __call__(cls, *args, **kw):
        if engine._ctx is None:
            return cls.real(*args, **kw)
        f = dict(zip(cls.real._fields, args))
        f.update(kw)
        c = ctx()
        x = SVal(c.fresh(cls.__name__, OBJ), NODE)
        x.__dict__['made'] = (cls.__name__, f)
        c.assume(is_kind(x.z, cls.__name__))
        assume_meaning(TARGET(x.z), cls.__name__, f)
        if cls.__name__ == 'Name':
            c.assume(ID(x.z) == enc(f['id']))
        return x


def ast_mod():
    m = Mod('ast')
    for n, k in REAL.items():
        m.__dict__[n] = k
        if n in ('BinOp', 'UnaryOp', 'Compare', 'Name', 'BoolOp', 'Call', 'Attribute', 'Constant'):
            m.__dict__[n] = NodeMeta(n, (), {'real': k, 'kind_name': n})
    for n in ('Num', 'Str', 'Bytes'):
        m.__dict__[n] = NodeMeta(n, (), {'real': type('no ' + n, (), {'_fields': ('s',)}), 'kind_name': n})
    m.__dict__['NodeTransformer'] = _ast.NodeTransformer
    m.__dict__['NodeVisitor'] = _ast.NodeVisitor
    return m


class Names:
    """the functions numexpr has"""
    def __iter__(self): return iter(('sqrt', 'where'))


ISFUNC = z3.Function('numexpr_has', OBJ, B)


def made(x, kind):
    """the fields of a node that was made, or of one that was given"""
    if isinstance(x, SVal):
        k, f = x.__dict__.get('made', (None, {}))
        return f if k == kind else None
    return vars(x) if type(x).__name__ == kind else None


class Visits(Cell):
    """the nodes visited so far"""
    name = 'nodes visited'

    def __init__(self):
        self._register()
        self.mem = z3.K(OBJ, z3.BoolVal(False))

    def havoc(self): self.mem = ctx().fresh('visited', NAMESET)

    def frozen(self):
        v = object.__new__(Visits)
        v.__dict__.update(self.__dict__)
        return v

    def add(self, z):
        c = ctx()
        m = c.fresh('visited', NAMESET)
        c.assume(m == z3.Store(self.mem, z, z3.BoolVal(True)))
        self._wrote()
        self.mem = m

    def add_all(self, s):
        c, x, k = ctx(), z3.Const('x', OBJ), z3.Int('k')
        m, was = c.fresh('visited', NAMESET), self.mem
        t = enc(s.get(SInt(k)))
        at = c.fresh('visited_at', z3.ArraySort(OBJ, I))
        a = z3.Select(at, x)
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(s.n)), z3.Select(m, t)), patterns=[t]))
        c.assume(z3.ForAll([x], z3.Implies(z3.Select(was, x), z3.Select(m, x)), patterns=[z3.Select(m, x)]))
        c.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.Or(z3.Select(was, x), z3.And(a >= 0, a < zint(s.n), enc(s.get(SInt(a))) == x))), patterns=[z3.Select(m, x)]))
        self._wrote()
        self.mem = m


MANGLED = 'ExpressionParser._ExpressionParser__'


class Parser(Glue):
    """a visitor method; self.parser is the parser in any state its methods leave"""
    module = 'cheval/parsing/ast_transformer.py'
    raises = ('UnsupportedSyntaxError', 'SyntaxError')

    def imports(self):
        nee = Mod('numexpr.expressions', functions=Mod('functions', keys=lambda: Names()))
        return {'ast': ast_mod(), 'numexpr': Mod('numexpr', expressions=nee), 'numexpr.expressions': nee,
                'astor': Mod('astor', to_source=lambda x: SVal(CODE_OF(enc(x)), NAME))}

    def stubs(self, c, w):
        con = self

        def visit(p, node):
            c = ctx()
            c.prove('ensures a child of the node is visited', z3.BoolVal(isinstance(node, SVal) and node.typ is NODE and p is con.parser))
            if con.recording is None and c.choose('the child is refused'):
                con.child_refused = True
                raise con.Refused()
            z = node.z
            c.assume(TARGET(VISITED(z)) == SOURCE(z))
            if con.recording is not None:
                con.recording.append(z)
            else:
                con.visits.add(z)
            return SVal(VISITED(z), NODE)

        def get_visitor(p, node): return lambda n: visit(p, n if n is node else None)
        return {'ExpressionParser.visit': visit, MANGLED + 'get_visitor': get_visitor}

    recording = None

    def parser_state(self, c, w):
        ns = w.module(self.module)
        c.assume(z3.BoolVal(True))
        x, b = z3.Const('x', OBJ), z3.Bool('b')
        c.assume(z3.ForAll([b], TRUTH(OF_BOOL(b)) == b, patterns=[OF_BOOL(b)]))
        self.Refused = w.module('cheval/parsing/exceptions.py')['UnsupportedSyntaxError']
        self.child_refused, self.recording = False, None
        self.visits = Visits()
        self.simple, self.all_chained, self.visited = (MSet(name=n, arbitrary=True) for n in ('plain_names', 'all_chained', 'visited_names'))
        self.chained = MDict(name='chained', vtyp=ANY, arbitrary=True)
        self.dicts = MDict(name='dict_literals', vtyp=ANY, arbitrary=True)
        self.S0, self.A0 = c.fresh('plain_before', NAMESET), c.fresh('chained_before', NAMESET)
        S, A, V, C = self.simple.mem, self.all_chained.mem, self.visited.mem, self.chained.mem
        sel = z3.Select
        c.assume(*[z3.ForAll([x], f, patterns=[p]) for p in (sel(S, x), sel(A, x), sel(V, x), sel(C, x)) for f in (
            sel(S, x) == z3.Or(sel(self.S0, x), sel(V, x)), sel(A, x) == z3.Or(sel(self.A0, x), sel(C, x)), z3.Not(z3.And(sel(S, x), sel(A, x))))])
        self.was = S, A, V, C, self.chained.val, self.dicts.mem, self.dicts.val
        self.mode = c.choose('mode') and 'cheval' or w.module('cheval/parsing/expr_items.py')['EvaluationMode'].UTILITIES
        self.parser = new(ns['ExpressionParser'], mode=self.mode, dict_literals=self.dicts, simple_symbols=self.simple, all_chained_symbols=self.all_chained,
                          chained_symbols=self.chained, visited_simple=self.visited)
        c.comp_rule = self.comp_rule
        return self.parser

    def comp_rule(self, kind, it, elt, conds):
        """[self.visit(x) for x in children]: an arbitrary element must visit that child only; then all are visited"""
        if conds or kind not in ('list', 'gen'):
            return None
        s = seq(it)
        probe = s.get(SInt(0))
        if not (isinstance(probe, SVal) and probe.typ is NODE):
            return None
        c = ctx()
        if c.choose('a child is refused'):
            self.child_refused = True
            raise self.Refused()
        k = c.fresh('ck', I)
        self.recording = rec = []
        mark, wmark = len(c.pc), len(c.writes)
        c.pc.append(z3.And(k >= 0, k < zint(s.n)))
        item = s.get(SInt(k))
        c.nofork += 1
        try:
            t = elt(item)
        finally:
            self.recording = None
            c.nofork -= 1
            del c.pc[mark:]
        if len(c.writes) != wmark:
            raise Unsupported('comprehension with other effects')
        if rec:
            if not all(z3.eq(z, item.z) for z in rec):
                raise Unsupported('a comprehension that visits other nodes than its elements')
            self.visits.add_all(s)
            j = z3.Int('j')
            ez = enc(s.get(SInt(j)))
            c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(s.n)), TARGET(VISITED(ez)) == SOURCE(ez)), patterns=[VISITED(ez)]))
        r = SSeq(s.n, lambda j: subst(t, [(k, zint(j))]))
        return MList(r) if kind == 'list' else r

    def node(self, c, name='child'): return SVal(c.fresh(name, OBJ), NODE)

    def nodes(self, c, name):
        l = MList([])
        l.etyp, l.esort = NODE, OBJ
        l.havoc()
        l.name = name
        return l

    def modifies_objects(self): return (self.visits,)
    def was_visited(self, x): return SBool(z3.Select(self.visits.mem, enc(x)))

    def all_visited(self, s):
        s, k = seq(s), z3.Int('k')
        return SBool(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(s.n)), z3.Select(self.visits.mem, enc(s.get(SInt(k)))))))

    # how the sets of names change
    def names_change(self, plain=None, chained=None):
        """exactly this name is added"""
        sel, x = z3.Select, z3.Const('x', OBJ)
        S, A, V, C = self.was[:4]
        now = self.parser.simple_symbols.mem, self.parser.all_chained_symbols.mem, self.parser.visited_simple.mem, self.parser.chained_symbols.mem
        add = (plain, chained, plain, chained)
        return SBool(z3.And([z3.ForAll([x], sel(m, x) == (sel(o, x) if a is None else z3.Or(sel(o, x), x == a))) for m, o, a in zip(now, (S, A, V, C), add)]))

    def consistent(self):
        sel, x = z3.Select, z3.Const('x', OBJ)
        p = self.parser
        S, A, V, C = p.simple_symbols.mem, p.all_chained_symbols.mem, p.visited_simple.mem, p.chained_symbols.mem
        return SBool(z3.ForAll([x], z3.And(sel(S, x) == z3.Or(sel(self.S0, x), sel(V, x)), sel(A, x) == z3.Or(sel(self.A0, x), sel(C, x)), z3.Not(z3.And(sel(S, x), sel(A, x))))))

    def same_containers(self, but=None):
        sel, x = z3.Select, z3.Const('x', OBJ)
        d = self.parser.chained_symbols
        return SBool(z3.ForAll([x], z3.Implies(z3.And(sel(self.was[3], x), x != but if but is not None else True), sel(d.val, x) == sel(self.was[4], x))))


# ---------------------------------------------------------------------------------------------- operators
class VisitUnary(Parser):
    """`not x` is true where x is not; `-x` stays"""
    name = 'ExpressionParser.visit_unaryop'
    raises = Parser.raises + ('NotImplementedError',)

    def build(self, c, w):
        p = self.parser_state(c, w)
        self.op = _ast.Not() if c.choose('not') else _ast.USub() if c.choose('minus') else _ast.UAdd() if c.choose('plus') else _ast.Invert()
        self.x = self.node(c)
        return (p, _ast.UnaryOp(op=self.op, operand=self.x)), {}

    def ensures(self, res, exc):
        known = isinstance(self.op, (_ast.Not, _ast.USub))
        if exc is not None:
            yield 'refused only if the operator is not supported or the operand is refused', false(self.child_refused or not known)
            return
        v = SOURCE(self.x.z)
        yield 'the meaning stays', SBool(meaning(res) == (OF_BOOL(z3.Not(TRUTH(v))) if isinstance(self.op, _ast.Not) else NEG(v))) if known else false(False)
        yield 'the operand is visited', self.was_visited(self.x)
        yield 'no names but those of the operand', P.and_(self.names_change(), self.same_containers())


def each(n, f, pattern=None):
    """f holds for 0..n-1"""
    k = z3.Int('k')
    t = None if pattern is None else pattern(k)
    ok = t is not None and t.num_args() and not z3.eq(z3.substitute(t, (k, z3.IntVal(-7))), t)
    return SBool(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(n)), f(k)), **(dict(patterns=[t]) if ok else {})))


class Conjunction:
    """all of terms 0..i-1 hold (any: for disjunctions)"""
    def __init__(self, c, term, every=True):
        self.upto = z3.Function(c.fresh_name('all' if every else 'any'), I, B)
        w = z3.Function(c.fresh_name('which'), I, I)
        i, k = z3.Ints('i k')
        t = (lambda k: term(k)) if every else (lambda k: z3.Not(term(k)))
        a = (lambda i: self.upto(i)) if every else (lambda i: z3.Not(self.upto(i)))
        c.assume(z3.ForAll([i, k], z3.Implies(z3.And(a(i), k >= 0, k < i), t(k)), patterns=[z3.MultiPattern(self.upto(i), term(k))]))
        c.assume(z3.ForAll([i], z3.Or(a(i), z3.And(w(i) >= 0, w(i) < i, z3.Not(t(w(i))))), patterns=[self.upto(i)]))


class VisitBoolop(Parser):
    """`a and b and ...` is true where all are, `a or b or ...` where any is"""
    name = 'ExpressionParser.visit_boolop'

    def build(self, c, w):
        p = self.parser_state(c, w)
        self.every = c.choose('and')
        self.values = self.nodes(c, 'values')
        self.values.readonly = True
        c.assume(zint(self.values.n) >= 2)
        self.all = Conjunction(c, lambda k: TRUTH(SOURCE(enc(self.values.at(SInt(k))))), self.every)
        return (p, _ast.BoolOp(op=_ast.And() if self.every else _ast.Or(), values=self.values)), {}

    def extra(self, info, loop, env0, names, kinds):
        vs = [a for a in env0 if kinds.get(a) == 'v' and getattr(env0[a], 'typ', None) is NODE]
        ints = {a: (lambda st, a=a: zint(st.env[a])) for a in env0 if kinds.get(a) == 'i'}
        ints['k'] = lambda st: zint(st.k)
        ints['k + 1'] = lambda st: zint(st.k) + 1
        n = zint(self.values.n)
        for i, at in ints.items():
            for a in vs:
                m = lambda st, a=a: TARGET(enc(st.env[a]))
                yield '%s: the first %s' % (a, i), lambda st, S, m=m, at=at: SBool(TRUTH(m(st)) == self.all.upto(at(st)))
                yield '%s is Boolean from the second on (%s)' % (a, i), lambda st, S, m=m, at=at: SBool(z3.Implies(at(st) > 1, m(st) == OF_BOOL(TRUTH(m(st)))))
            yield '%s >= 1' % i, lambda st, S, at=at: SBool(at(st) >= 1)
            yield '%s <= n' % i, lambda st, S, at=at: SBool(at(st) <= zint(self.values.n))
            yield 'the first %s are visited' % i, lambda st, S, at=at: each(at(st), lambda k: z3.Select(self.visits.mem, enc(self.values.at(SInt(k)))), lambda k: enc(self.values.at(SInt(k))))

    def ensures(self, res, exc):
        if exc is not None:
            yield 'refused only if a part is refused', false(self.child_refused)
            return
        yield 'the meaning stays', SBool(meaning(res) == OF_BOOL(self.all.upto(zint(self.values.n))))
        yield 'all parts are visited', self.all_visited(self.values)
        yield 'no names but those of the parts', P.and_(self.names_change(), self.same_containers())


class VisitCompare(Parser):
    """`a < b < c` is true where all comparisons of neighbours are"""
    name = 'ExpressionParser.visit_compare'

    def build(self, c, w):
        p = self.parser_state(c, w)
        self.left, self.others = self.node(c, 'left'), self.nodes(c, 'comparators')
        self.ops = MList([])
        self.ops.etyp, self.ops.esort = OP, OBJ
        self.ops.havoc()
        self.ops.readonly = self.others.readonly = True
        c.assume(zint(self.ops.n) == zint(self.others.n), zint(self.ops.n) >= 1)
        self.term = z3.Function(c.fresh_name('compared'), I, B)
        k = z3.Int('k')
        o = lambda k: enc(self.others.at(SInt(k)))
        c.assume(self.term(0) == CMP(enc(self.ops.at(SInt(0))), SOURCE(self.left.z), SOURCE(o(z3.IntVal(0)))))
        c.assume(z3.ForAll([k], z3.Implies(k > 0, self.term(k) == CMP(enc(self.ops.at(SInt(k))), SOURCE(o(k - 1)), SOURCE(o(k)))), patterns=[self.term(k)]))
        self.all = Conjunction(c, self.term)
        return (p, _ast.Compare(left=self.left, ops=self.ops, comparators=self.others)), {}

    def bad(self, z): return z3.Or([is_kind(z, k) for k in ('Is', 'IsNot', 'In', 'NotIn')])

    def instances(self, k):
        c, k = ctx(), zint(k)
        c.assume(self.term(k) == self.term(k), self.all.upto(k) == self.all.upto(k), self.all.upto(k + 1) == self.all.upto(k + 1))
        for t in (k - 1, k, k + 1, k + 2):
            d = self.term(t)
            c.keep.append(d)
            c.assume(z3.Or(d, z3.Not(d)))

    def extra(self, info, loop, env0, names, kinds):
        k = z3.Int('k')
        z = lambda st: zint(st.k)
        op = lambda k: enc(self.ops.at(SInt(k)))
        yield 'the operators seen are supported', lambda st, S: SBool(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < z(st)), z3.Not(self.bad(op(k)))), patterns=[op(k)]))
        for a in env0:
            if kinds.get(a) == 'v' and getattr(env0[a], 'typ', None) is NODE:
                m = lambda st, a=a: TARGET(enc(st.env[a]))
                for d in (0, 1, 2):
                    yield '%s: the first k + %d' % (a, d), lambda st, S, m=m, d=d: SBool(m(st) == OF_BOOL(self.all.upto(z(st) + d)))
                yield '%s is the last operand' % a, lambda st, S, m=m: SBool(m(st) == z3.If(z(st) == 0, SOURCE(self.left.z), SOURCE(enc(self.others.at(SInt(z(st) - 1))))))
            if kinds.get(a) == 'L':
                l = lambda st, a=a: seq(st.env[a])
                yield '%s: one for each' % a, lambda st, S, l=l: SBool(zint(l(st).n) == z(st))
                yield '%s: the comparisons seen' % a, lambda st, S, l=l: each(st.k, lambda k: TARGET(enc(l(st).at(SInt(k)))) == OF_BOOL(self.term(k)), lambda k: enc(l(st).at(SInt(k))))

    def ensures(self, res, exc):
        k, n = z3.Int('k'), zint(self.ops.n)
        bad = z3.Exists([k], z3.And(k >= 0, k < n, self.bad(enc(self.ops.at(SInt(k))))))
        if exc is not None:
            yield 'refused only if a part or an operator is', SBool(bad) if not self.child_refused else false(True)
            return
        yield 'is and in are refused', SBool(z3.Not(bad))
        yield 'the meaning stays', SBool(meaning(res) == OF_BOOL(self.all.upto(n)))
        yield 'all parts are visited', P.and_(self.was_visited(self.left), self.all_visited(self.others))
        yield 'no names but those of the parts', P.and_(self.names_change(), self.same_containers())


# ---------------------------------------------------------------------------------------------- names
class VisitName(Parser):
    """None and NaN mean NaN; any other name is recorded as a plain symbol, and refused if it has been used with attributes"""
    name = 'ExpressionParser.visit_name'

    def build(self, c, w):
        p = self.parser_state(c, w)
        self.id = SVal(c.fresh('id', OBJ), NAME)
        self.nan = z3.Or(LOWER(self.id.z) == pyconst('none'), LOWER(self.id.z) == pyconst('nan'))
        self.nan_str = w.module('cheval/parsing/constants.py')['NAN_STR']
        self.n = _ast.Name(id=self.id, ctx=_ast.Load())
        return (p, self.n), {}

    def modifies_objects(self): return self.simple, self.visited

    def ensures(self, res, exc):
        used = z3.Select(self.was[1], self.id.z)
        if exc is not None:
            yield 'refused only if the name has been used with attributes', SBool(z3.And(z3.Not(self.nan), used))
            return
        f = made(res, 'Name')
        yield 'a name', false(f is not None)
        plain = z3.If(self.nan, pyconst('no name'), self.id.z)
        if f is not None:
            yield 'the same name, or NaN', SBool(enc(f['id']) == z3.If(self.nan, pyconst(self.nan_str), self.id.z))
        yield 'refused if the name has been used with attributes', SBool(z3.Implies(z3.Not(self.nan), z3.Not(used)))
        sel, x = z3.Select, z3.Const('x', OBJ)
        p = self.parser
        yield 'the name is recorded as a plain symbol, no other', SBool(z3.And([z3.ForAll([x], sel(m, x) == z3.Or(sel(o, x), z3.And(z3.Not(self.nan), x == self.id.z))) for m, o in (
            (p.simple_symbols.mem, self.was[0]), (p.visited_simple.mem, self.was[2]))]))
        yield 'no name is recorded with attributes', P.and_(same_set(p.all_chained_symbols.mem, self.was[1]), same_set(p.chained_symbols.mem, self.was[3]), self.same_containers())
        yield 'no name is used both ways', self.consistent()


class Path:
    """a node followed down its values: node 0 is the node itself, node i + 1 the value of node i"""
    def __init__(self, c, top):
        self.at = z3.Function(c.fresh_name('path'), I, OBJ)
        i = z3.Int('i')
        c.assume(self.at(0) == top)
        c.assume(z3.ForAll([i], self.at(i + 1) == VALUE(self.at(i)), patterns=[VALUE(self.at(i))]))

    def attrs(self, n):
        """the first n are attributes"""
        return each(n, lambda k: is_kind(self.at(k), 'Attribute'), lambda k: self.at(k))

    def candidates(self, env0, kinds):
        for a in env0:
            if kinds.get(a) == 'v' and getattr(env0[a], 'typ', None) is NODE:
                yield '%s: as deep as the loop' % a, lambda st, S, a=a: SBool(enc(st.env[a]) == self.at(zint(st.k)))
            if kinds.get(a) == 'L':
                l = lambda st, a=a: seq(st.env[a])
                yield '%s: one for each node' % a, lambda st, S, l=l: SBool(zint(l(st).n) == zint(st.k))
                for d, idx in (('outermost first', lambda st, k: k), ('innermost first', lambda st, k: zint(st.k) - 1 - k)):
                    yield '%s: the attributes, %s' % (a, d), lambda st, S, l=l, idx=idx: each(
                        st.k, lambda k: enc(l(st).at(SInt(k))) == ATTR(self.at(idx(st, k))), lambda k: enc(l(st).at(SInt(k))))
        yield 'all attributes so far', lambda st, S: self.attrs(st.k)

    def is_name_with(self, name, attrs, skip=0):
        """attrs are the attributes (without the outermost `skip`), outermost first; below them is the name"""
        s = seq(attrs)
        n = zint(s.n) + skip
        return P.and_(SBool(is_kind(self.at(n), 'Name')), SBool(enc(name) == ID(self.at(n))), self.attrs(SInt(n)),
                      each(s.n, lambda k: enc(s.at(SInt(k))) == ATTR(self.at(k + skip)), lambda k: enc(s.at(SInt(k)))))


class NameFromAttribute(Parser):
    """the name at the bottom of a chain of attributes, and the attributes, outermost first"""
    name = 'ExpressionParser._ExpressionParser__get_name_from_attribute'

    def build(self, c, w):
        p = self.parser_state(c, w)
        self.top = self.node(c, 'top')
        self.path = Path(c, self.top.z)
        return (self.top,), {}

    def extra(self, info, loop, env0, names, kinds): return self.path_candidates(env0, kinds)

    def path_candidates(self, env0, kinds):
        for d, _ in self.path.candidates(env0, kinds):
            yield d, lambda st, S, d=d: dict(self.path.candidates(st.env, kinds))[d](st, S)

    def ensures(self, res, exc):
        if exc is not None:
            i = z3.Int('i')
            yield 'refused only if there is something else than attributes above a name', SBool(z3.Exists([i], z3.And(
                i >= 0, z3.Not(is_kind(self.path.at(i), 'Attribute')), z3.Not(is_kind(self.path.at(i), 'Name')))))
            return
        yield 'the name and its attributes', self.path.is_name_with(res[0], res[1])

    def modifies_objects(self): return ()


class Chained(Parser):
    """what the chained symbols record"""
    def chain_state(self, c, w):
        p = self.parser_state(c, w)
        con = self
        self.added, self.made_for = [], {}

        def add_chain(x):
            def f(chain, func=None, args=None, *, prepend_at=False):
                sub = SVal(ctx().fresh('substitution', OBJ), NAME)
                con.added.append((x.z, seq(chain).__class__(seq(chain).n, seq(chain).get), func, args, prepend_at, sub))
                return sub
            return f
        self.CONT = Typ('chained symbol', {'add_chain': add_chain})
        self.chained.vtyp = self.CONT

        def make(name):
            z = ctx().fresh('new_container', OBJ)
            con.made_for[z.get_id()] = (z, name)
            return SVal(z, con.CONT)
        w.module(self.module)['ChainedSymbol'] = make
        return p

    def modifies_objects(self): return self.simple, self.visited, self.all_chained, self.chained, self.visits

    def recorded(self, name, func, args):
        """-> postconditions: one chain of this name is recorded, with this function"""
        n = enc(name)
        sel = z3.Select
        yield 'refused if the name has been used without attributes', SBool(z3.Not(sel(self.was[0], n)))
        yield 'one chain is recorded', false(len(self.added) == 1)
        if len(self.added) != 1:
            return
        z, chain, f, a, at, sub = self.added[0]
        yield 'with its function and argument', false(at is False and (f is None) == (func is None) and (a is None) == (args is None))
        if f is not None and func is not None:
            yield 'the function as written', SBool(enc(f) == enc(func))
        if a is not None and args is not None:
            yield 'the argument as written', SBool(enc(a) == enc(args))
        yield 'for the symbol of its name', SBool(z3.And(sel(self.parser.chained_symbols.mem, n), sel(self.parser.chained_symbols.val, n) == z))
        new_ = self.made_for.get(z.get_id())
        if new_ is None:
            yield 'which was there', SBool(z3.And(sel(self.was[3], n), sel(self.was[4], n) == z))
        else:
            yield 'which is new', SBool(z3.And(z3.Not(sel(self.was[3], n)), enc(new_[1]) == n))
        yield 'the other symbols stay', self.same_containers(n)
        yield 'exactly the name is recorded, with attributes', self.names_change(chained=n)
        yield 'no name is used both ways', self.consistent()

    def is_substitution(self, res):
        f = made(res, 'Name')
        if f is None or len(self.added) != 1:
            return false(False)
        return SBool(enc(f['id']) == self.added[0][5].z)


class VisitAttribute(Chained):
    """`a.b.c` is replaced by a name that stands for the chain c, b of symbol a"""
    name = 'ExpressionParser.visit_attribute'

    def stubs(self, c, w):
        out = super().stubs(c, w)
        out[MANGLED + 'get_name_from_attribute'] = self.name_of
        return out

    def name_of(self, *a):
        """contract NameFromAttribute"""
        c = ctx()
        c.prove('ensures the chain of the node is read', z3.BoolVal(len(a) > 0 and a[-1] is self.top))
        if c.choose('not a chain of attributes'):
            self.child_refused = True
            raise self.Refused()
        n = SVal(c.fresh('name', OBJ), NAME)
        l = MList([])
        l.etyp, l.esort = NAME, OBJ
        l.havoc()
        c.assume(zint(l.n) >= 1)
        self.base, self.chain = n, l.frozen()
        return n, l

    def build(self, c, w):
        p = self.chain_state(c, w)
        self.top = _ast.Attribute(value=None, attr=None, ctx=_ast.Load())
        return (p, self.top), {}

    def same_chain(self, l, skip=0):
        n = zint(self.chain.n) - skip
        return P.and_(SBool(zint(l.n) == n), each(SInt(n), lambda k: enc(l.at(SInt(k))) == enc(self.chain.at(SInt(k + skip)))))

    def ensures(self, res, exc):
        if exc is not None:
            yield 'refused only if it is no chain, or the name has been used without attributes', false(True) if self.child_refused else SBool(z3.Select(self.was[0], self.base.z))
            return
        yield from self.recorded(self.base, None, None)
        if len(self.added) == 1:
            yield 'with the attributes, outermost first', self.same_chain(self.added[0][1])
        yield 'the substitution stands for it', self.is_substitution(res)


class VisitMethod(VisitAttribute):
    """`a.b.sum(x)` is replaced by a name that stands for the sum of x over the chain b of symbol a; anything but one plain argument is refused"""
    name = 'ExpressionParser.visit_call'

    def build(self, c, w):
        p = self.chain_state(c, w)
        self.top = _ast.Attribute(value=None, attr=None, ctx=_ast.Load())
        self.args, self.keywords = self.nodes(c, 'args'), self.nodes(c, 'keywords')
        self.args.readonly = self.keywords.readonly = True
        self.call = _ast.Call(func=self.top, args=self.args, keywords=self.keywords)
        return (p, self.call), {}

    def supported(self, f):
        return z3.Or([enc(f) == pyconst(s) for s in sorted(self.w.module(self.module)['_SUPPORTED_AGGREGATIONS'])])

    def ensures(self, res, exc):
        f = self.chain.at(SInt(0)) if not self.child_refused else None
        starred = is_kind(enc(self.args.at(SInt(0))), 'Starred')
        one = z3.And(zint(self.args.n) == 1, zint(self.keywords.n) == 0, z3.Not(starred))
        if exc is not None:
            yield 'refused only if there is a reason', false(True) if self.child_refused else SBool(z3.Or(z3.Select(self.was[0], self.base.z), z3.Not(one), z3.Not(self.supported(f))))
            return
        yield 'anything but one plain argument is refused', SBool(one)
        yield 'other functions are refused', SBool(self.supported(f))
        yield from self.recorded(self.base, f, SVal(CODE_OF(enc(self.args.at(SInt(0)))), NAME))
        if len(self.added) == 1:
            yield 'with the attributes without the function, outermost first', self.same_chain(self.added[0][1], 1)
        yield 'the substitution stands for it', self.is_substitution(res)


class VisitFunction(Parser):
    """`f(x, y)`: the same function of the visited arguments; functions numexpr does not have are refused"""
    name = 'ExpressionParser.visit_call'

    def build(self, c, w):
        p = self.parser_state(c, w)
        self.f = SVal(c.fresh('function', OBJ), NAME)
        ns = w.module(self.module)
        if '_NUMEXPR_FUNCTIONS' in ns:
            s = MSet(name='functions of numexpr', arbitrary=True)
            s.readonly = True
            x = z3.Const('x', OBJ)
            c.assume(z3.ForAll([x], z3.Select(s.mem, x) == ISFUNC(x), patterns=[z3.Select(s.mem, x)]))
            ns['_NUMEXPR_FUNCTIONS'] = s
        self.args, self.keywords = self.nodes(c, 'args'), self.nodes(c, 'keywords')
        self.args.readonly = self.keywords.readonly = True
        self.call = _ast.Call(func=_ast.Name(id=self.f, ctx=_ast.Load()), args=self.args, keywords=self.keywords)
        return (p, self.call), {}

    def extra(self, info, loop, env0, names, kinds):
        at = lambda k: enc(self.args.at(SInt(k)))
        yield 'the arguments so far are visited', lambda st, S: each(st.k, lambda k: z3.Select(self.visits.mem, at(k)), at)
        for a in env0:
            if kinds.get(a) == 'L':
                l = lambda st, a=a: seq(st.env[a])
                yield '%s: one for each' % a, lambda st, S, l=l: SBool(zint(l(st).n) == zint(st.k))
                yield '%s: the visited arguments' % a, lambda st, S, l=l: each(st.k, lambda k: TARGET(enc(l(st).at(SInt(k)))) == SOURCE(at(k)), lambda k: enc(l(st).at(SInt(k))))

    def ensures(self, res, exc):
        if exc is not None:
            yield 'refused only if numexpr does not have the function, or an argument is refused', false(True) if self.child_refused else SBool(z3.Not(ISFUNC(self.f.z)))
            return
        yield 'refused if numexpr does not have the function', SBool(ISFUNC(self.f.z))
        f = made(res, 'Call')
        g = made(f['func'], 'Name') if f is not None else None
        yield 'a call', false(g is not None)
        if g is None:
            return
        yield 'of the same function', SBool(enc(g['id']) == self.f.z)
        new_ = seq(f['args'])
        yield 'the meaning of the arguments stays', P.and_(SBool(zint(new_.n) == zint(self.args.n)), each(
            self.args.n, lambda k: TARGET(enc(new_.at(SInt(k)))) == SOURCE(enc(self.args.at(SInt(k))))))
        yield 'all arguments are visited', self.all_visited(self.args)
        yield 'no names but those of the arguments', P.and_(self.names_change(), self.same_containers())


class VisitOtherCall(Parser):
    """a call of anything else is left to the generic visitor (which visits the parts; numexpr refuses it)"""
    name = 'ExpressionParser.visit_call'

    def build(self, c, w):
        p = self.parser_state(c, w)
        self.call = _ast.Call(func=_ast.Lambda(args=None, body=None), args=self.nodes(c, 'args'), keywords=self.nodes(c, 'keywords'))
        self.answer = SVal(c.fresh('generic', OBJ), NODE)
        type(p).generic_visit = lambda s, n: self.answer if n is self.call else None
        return (p, self.call), {}

    def ensures(self, res, exc):
        yield 'left to the generic visitor, or refused', false(exc is not None or res is self.answer)
        if exc is None:
            yield 'no names of its own', P.and_(self.names_change(), self.same_containers())


# ---------------------------------------------------------------------------------------------- dictionaries
class DictKey(Parser):
    """the key a, 'a' or a.b.c: its parts from the outermost choice inwards"""
    name = 'ExpressionParser._ExpressionParser__get_dict_key'
    raises = Parser.raises + ('AttributeError',)

    def build(self, c, w):
        p = self.parser_state(c, w)
        self.top = self.node(c, 'key')
        self.path = Path(c, self.top.z)
        return (self.top,), {}

    def extra(self, info, loop, env0, names, kinds):
        for d, _ in self.path.candidates(env0, kinds):
            yield d, lambda st, S, d=d: dict(self.path.candidates(st.env, kinds))[d](st, S)

    def modifies_objects(self): return ()

    def ensures(self, res, exc):
        z = self.top.z
        if exc is not None:
            i = z3.Int('i')
            yield 'refused only if it is neither a name, a text nor attributes above a name', SBool(z3.Exists([i], z3.And(
                i >= 0, z3.Not(is_kind(self.path.at(i), 'Attribute')), z3.Not(is_kind(self.path.at(i), 'Name')), z3.Implies(i == 0, z3.Not(is_kind(z, 'Str'))))))
            return
        s = seq(res)
        n = zint(s.n)
        at = lambda k: enc(s.at(SInt(k)))
        simple = z3.If(is_kind(z, 'Name'), z3.And(n == 1, at(z3.IntVal(0)) == ID(z)), z3.And(n == 1, at(z3.IntVal(0)) == TEXT(z)))
        chain = z3.And(n >= 2, is_kind(self.path.at(n - 1), 'Name'), at(z3.IntVal(0)) == ID(self.path.at(n - 1)),
                       zbool(each(SInt(n - 1), lambda k: at(k + 1) == ATTR(self.path.at(n - 2 - k)), None)), zbool(self.path.attrs(SInt(n - 1))))
        yield 'its parts from the outermost choice inwards', SBool(z3.Or(z3.And(z3.Or(is_kind(z, 'Name'), is_kind(z, 'Str')), simple), z3.And(is_kind(z, 'Attribute'), chain)))


class VisitDict(Parser):
    """a dictionary of numbers is replaced by a new name that stands for it; other values are refused, as are dictionaries where they are not allowed"""
    name = 'ExpressionParser.visit_dict'

    def stubs(self, c, w):
        out = super().stubs(c, w)
        con = self

        def key(*a):
            n = a[-1]
            c = ctx()
            c.prove('ensures keys of the dictionary are read', z3.BoolVal(isinstance(n, SVal) and n.typ is NODE))
            if c.choose('the key is refused'):
                con.child_refused = True
                raise con.Refused()
            return SVal(KEY(n.z), ANY)
        out[MANGLED + 'get_dict_key'] = key
        return out

    def imports(self):
        out = super().imports()
        from .glue import glue_numpy
        np_ = glue_numpy()
        np_['numpy'].float64 = lambda x: Number(FLOAT(x.z), NUMBER_T)
        out.update(np_)
        return out

    def build(self, c, w):
        p = self.parser_state(c, w)
        self.keys, self.values = self.nodes(c, 'keys'), self.nodes(c, 'values')
        self.keys.readonly = self.values.readonly = True
        self.values.xs = SSeq(self.keys.n, self.values.xs.get)
        self.last = z3.Function(c.fresh_name('last_with_key'), OBJ, I, I)
        x, i = z3.Const('x', OBJ), z3.Int('i')
        c.assume(z3.ForAll([x], self.last(x, 0) == -1, patterns=[self.last(x, 0)]))
        # keys of the dictionaries recorded so far: __dict0, __dict1, ...
        num_ = c.fresh('number_of', z3.ArraySort(OBJ, I))
        e = self.dicts._enum()
        k = z3.Select(num_, x)
        self.sub = lambda i: text(['__dict', dec(i)]).z
        c.assume(z3.ForAll([x], z3.Implies(z3.Select(self.dicts.mem, x), z3.And(k >= 0, k < e.n, x == self.sub(k))), patterns=[z3.Select(self.dicts.mem, x)]))
        self.count = e.n
        self.node_ = _ast.Dict(keys=self.keys, values=self.values)
        return (p, self.node_), {}

    def modifies_objects(self): return (self.dicts,)
    key_at = lambda self, k: KEY(enc(self.keys.at(SInt(k))))

    def value_at(self, k):
        v = enc(self.values.at(SInt(k)))
        return z3.If(is_kind(v, 'UnaryOp'), FLOAT(MINUS(NUMBER(OPERAND(v)))), FLOAT(NUMBER(v)))

    def number(self, k):
        v = enc(self.values.at(SInt(k)))
        return z3.Or(is_kind(v, 'Num'), z3.And(is_kind(v, 'UnaryOp'), is_kind(OPERAND(v), 'Num'), is_kind(OPERATOR(v), 'USub')))

    def instances(self, k):
        c, k, x = ctx(), zint(k), z3.Const('x', OBJ)
        c.assume(z3.ForAll([x], self.last(x, k + 1) == z3.If(self.key_at(k) == x, k, self.last(x, k)), patterns=[self.last(x, k + 1)]))
        c.assume(z3.ForAll([x], z3.Implies(k > 0, self.last(x, k) == z3.If(self.key_at(k - 1) == x, k - 1, self.last(x, k - 1))), patterns=[self.last(x, k)]))

    def holds(self, d, k):
        """d maps every key of the first k entries to the value of the last entry with this key"""
        x = z3.Const('x', OBJ)
        l = self.last(x, zint(k))
        has = z3.Select(d.mem, x)
        return SBool(z3.And(z3.ForAll([x], has == (l >= 0), patterns=[has]), z3.ForAll([x], z3.Implies(has, z3.Select(d.val, x) == self.value_at(l)), patterns=[has])))

    def extra(self, info, loop, env0, names, kinds):
        at = lambda k: enc(self.values.at(SInt(k)))
        yield 'numbers so far', lambda st, S: each(st.k, lambda k: self.number(k), at)
        for a in env0:
            if kinds.get(a) == 'D' and env0[a] is not self.dicts:
                yield '%s: the entries so far' % a, lambda st, S, a=a: self.holds(st.env[a], st.k)

    def ensures(self, res, exc):
        k, n = z3.Int('k'), zint(self.keys.n)
        bad = z3.Exists([k], z3.And(k >= 0, k < n, z3.Not(self.number(k))))
        allowed = self.mode == 'cheval'
        if exc is not None:
            yield 'refused only if there is a reason', false(True) if self.child_refused or not allowed else SBool(bad)
            yield 'nothing is recorded then', same_set(self.parser.dict_literals.mem, self.was[5])
            return
        yield 'anything but numbers is refused', SBool(z3.Not(bad))
        yield 'refused where not allowed', false(allowed)
        d = self.parser.dict_literals
        sel, x = z3.Select, z3.Const('x', OBJ)
        f = made(res, 'Name')
        yield 'a name', false(f is not None)
        if f is None:
            return
        sub = enc(f['id'])
        yield 'a new name', SBool(z3.Not(sel(self.was[5], sub)))
        yield 'only this name is recorded', SBool(z3.And(z3.ForAll([x], sel(d.mem, x) == z3.Or(sel(self.was[5], x), x == sub)), z3.ForAll([x], z3.Implies(x != sub, sel(d.val, x) == sel(self.was[6], x)))))
        recorded = [v for t, v in d.pyvals.values() if isinstance(v, MDict)]
        yield 'for one dictionary', false(len(recorded) == 1)
        if len(recorded) == 1:
            v = recorded[0]
            yield 'which it stands for', SBool(sel(d.val, sub) == enc(v))
            yield 'with every key and the last value given for it', self.holds(v, SInt(n))
        yield 'no name is recorded', P.and_(self.names_change(), self.same_containers())
        c = ctx()
        e = d._enum()
        c.assume(z3.Implies(z3.Not(sel(self.was[5], sub)), e.n == self.count + 1))      # (one key more)
        i = z3.Const('i', I)
        yield 'the names are __dict0, __dict1, ...', SBool(z3.ForAll([x], z3.Implies(sel(d.mem, x), z3.Exists([i], z3.And(i >= 0, i < e.n, x == self.sub(i))))))


def dec(i):
    """str(i) for any term i; strings that differ only in a number at their end are equal only for equal numbers"""
    from .glue import DECIMAL, NUMERAL
    c = ctx()
    if ('decimals',) not in c.axiom_done:
        c.axiom_done.add(('decimals',))
        j, a = z3.Int('j'), z3.Const('a', OBJ)
        t = CONCAT(a, DECIMAL(j))
        c.assume(z3.ForAll([a, j], NUMERAL(DECIMAL(j)) == j, patterns=[t]))
        tail = z3.Function('without_start', OBJ, OBJ, OBJ)
        c.assume(z3.ForAll([a, j], tail(t, a) == DECIMAL(j), patterns=[t]))
    v = SVal(DECIMAL(i), NAME)
    v.__dict__['decimal'] = i
    return v


# ---------------------------------------------------------------------------------------------- dispatch
METHODS = {'BoolOp': 'visit_boolop', 'UnaryOp': 'visit_unaryop', 'Compare': 'visit_compare', 'Call': 'visit_call', 'Dict': 'visit_dict', 'Name': 'visit_name', 'Attribute': 'visit_attribute'}
REFUSED = ('IfExp', 'Subscript', 'ListComp', 'DictComp', 'Starred')
GENERIC = ('BinOp', 'Constant', 'Add', 'Sub', 'Mult', 'Div', 'Mod', 'Pow')


RETIRED = ('Index', 'ExtSlice', 'Suite', 'AugLoad', 'AugStore', 'Param', 'slice')     # classes that Python keeps but never makes


class Dispatch(Parser):
    """which method visits a node: for every class of nodes that Python has"""
    name = 'ExpressionParser.visit'

    def stubs(self, c, w): return {}

    def build(self, c, w):
        self.parser_state(c, w)
        names = sorted(n for n, k in REAL.items() if not k.__subclasses__() and n not in RETIRED)
        self.kind = names[-1]
        for n in names[:-1]:
            if c.choose(n):
                self.kind = n
                break
        p, con = self.parser, self
        self.n = REAL[self.kind]()
        self.seen = []
        cls = type(p)
        self.answer = SVal(c.fresh('answer', OBJ), NODE)

        def method(m):
            def f(*a):
                con.seen.append((m, a[-1]))
                return con.answer
            return f
        for m in set(METHODS.values()) | {'generic_visit'}:
            setattr(cls, m, method(m))
        return (p, self.n), {}

    def ensures(self, res, exc):
        if self.kind in REFUSED:
            yield '%s is refused' % self.kind, false(exc is not None)
        want = METHODS.get(self.kind, 'generic_visit' if self.kind in GENERIC else None)
        if want is not None:
            yield '%s is visited by %s' % (self.kind, want), false(exc is None and res is self.answer and len(self.seen) == 1 and self.seen[0][0] == want and self.seen[0][1] is self.n)
        yield '%s is refused, or visited by one method' % self.kind, false(exc is not None and not self.seen or exc is None and len(self.seen) == 1 and self.seen[0][1] is self.n and res is self.answer)


class ParserInit(Parser):
    """a new parser has no names but those given"""
    name = 'ExpressionParser.__init__'

    def stubs(self, c, w): return {}

    def build(self, c, w):
        self.given = []
        for label in ('plain', 'chained'):
            self.given.append(MSet(name='prior_' + label, arbitrary=True) if c.choose('prior ' + label) else None)
        self.p = object.__new__(w.module(self.module)['ExpressionParser'])
        self.m = 'cheval'
        return (self.p, *self.given), dict(mode=self.m)

    def modifies_objects(self): return ()

    def ensures(self, res, exc):
        p = self.p
        x = z3.Const('x', OBJ)
        empty = lambda s: SBool(z3.ForAll([x], z3.Not(z3.Select(members(s), x))))
        for label, g, s in (('plain', self.given[0], p.simple_symbols), ('chained', self.given[1], p.all_chained_symbols)):
            yield 'the %s names are those given' % label, empty(s) if g is None else false(s is g)
        yield 'nothing is recorded', P.and_(empty(p.visited_simple), empty(p.chained_symbols), empty(p.dict_literals))
        yield 'the mode is that given', false(p.mode is self.m)
        own = [p.visited_simple, p.chained_symbols, p.dict_literals, p.simple_symbols, p.all_chained_symbols]
        yield 'nothing is shared', false(len({id(s) for s in own}) == 5 and all(isinstance(s, (MSet, MDict)) for s in own))


# ---------------------------------------------------------------------------------------------- chained symbols
class AddChain(Glue):
    """a chain gets a new name, which no other chain of this or another symbol has"""
    name = 'ChainedSymbol.add_chain'
    module = 'cheval/parsing/expr_items.py'

    def build(self, c, w):
        self.cls = w.module(self.module)['ChainedSymbol']
        self.nm = SVal(c.fresh('name', OBJ), NAME)
        self.d = MDict(name='lookups', arbitrary=True)
        x = z3.Const('x', OBJ)
        num_ = c.fresh('number_of', z3.ArraySort(OBJ, I))
        k, e = z3.Select(num_, x), self.d._enum()
        dec(z3.IntVal(0))
        # the names so far: those this method made when there were fewer chains
        self.fn = z3.Function(c.fresh_name('name_of_chain'), I, OBJ)
        c.assume(z3.ForAll([x], z3.Implies(z3.Select(self.d.mem, x), z3.And(k >= 0, k < e.n, x == self.fn(k))), patterns=[z3.Select(self.d.mem, x)]))
        self.old, self.count = self.d.frozen(), e.n
        self.o = new(self.cls, _name=self.nm, _lookups=self.d)
        self.chain = MList(SSeq(SInt(c.fresh('length', I)), lambda j: SVal(z3.Select(z3.Const('attributes', z3.ArraySort(I, OBJ)), zint(j)), NAME)))
        self.with_func = c.choose('with a function')
        if self.with_func:
            self.f, self.a = SVal(c.fresh('func', OBJ), NAME), SVal(c.fresh('arg', OBJ), NAME)
            self.f.typ.attrs, self.a.typ.attrs
            return (self.o, self.chain, self.f, self.a), {}
        self.f = self.a = None
        return (self.o, self.chain), {}

    def modifies_objects(self): return (self.d,)

    def ensures(self, res, exc):
        c = ctx()
        yield 'the name is a text made from the symbol', false(isinstance(res, SVal) and res.typ is NAME and 'pieces' in res.__dict__)
        if not (isinstance(res, SVal) and 'pieces' in res.__dict__):
            return
        pieces = res.__dict__['pieces']
        nums = [p for p in pieces if isinstance(p, SVal) and 'decimal' in p.__dict__]
        yield 'numbered by the number of chains so far', false(len(nums) == 1 and z3.eq(z3.simplify(nums[0].__dict__['decimal']), z3.simplify(self.count)))
        if len(nums) == 1:
            num_ = nums[0].__dict__['decimal']
            # the name as a function of the number
            i = z3.Int('i')
            shape = z3.substitute(res.z, (num_, i))
            c.assume(z3.ForAll([i], self.fn(i) == shape, patterns=[self.fn(i)]))
        sel, x = z3.Select, z3.Const('x', OBJ)
        d, z = self.o._lookups, enc(res)
        yield 'a new name', SBool(z3.Not(sel(self.old.mem, z)))
        yield 'another symbol never makes the same name, and no two numbers do', SBool(z3.BoolVal(never_clash(pieces, self.nm.z)))
        yield 'only this name is added', SBool(z3.And(z3.ForAll([x], sel(d.mem, x) == z3.Or(sel(self.old.mem, x), x == z)), z3.ForAll([x], z3.Implies(x != z, sel(d.val, x) == sel(self.old.val, x)))))
        t = [v for k, v in d.pyvals.values()]
        yield 'for one chain', false(len(t) == 1 and isinstance(t[0], tuple) and len(t[0]) == 4)
        if len(t) == 1:
            t = t[0]
            yield 'which it stands for', SBool(sel(d.val, z) == enc_tuple(d, t))
            yield 'with the attributes, the function and the argument given', false(t.chain is self.chain and t.func is self.f and t.args is self.a and t.withfunc is self.with_func)


def enc_tuple(d, t):
    return [z for z, v in d.pyvals.values() if v is t][0]


def never_clash(pieces, name):
    """strings: no two different (symbol, number) give the same text (decided by cvc5; z3's strings do not decide it)"""
    import cvc5
    s = cvc5.Solver()
    s.setLogic('ALL')
    s.setOption('strings-exp', 'true')
    s.setOption('tlimit-per', '20000')
    S = s.getStringSort()
    sides, unknowns = [], []
    for side in 'ab':
        v = {}
        parts = []
        for p in pieces:
            if isinstance(p, str):
                parts.append(s.mkString(p))
                continue
            key = p.z.get_id()
            if key not in v:
                v[key] = s.mkConst(S, side + ('_number' if 'decimal' in p.__dict__ else '_name'))
                if 'decimal' in p.__dict__:       # decimal digits: in particular no underscore
                    s.assertFormula(s.mkTerm(cvc5.Kind.STRING_IN_REGEXP, v[key], s.mkTerm(cvc5.Kind.REGEXP_PLUS, s.mkTerm(cvc5.Kind.REGEXP_RANGE, s.mkString('0'), s.mkString('9')))))
                    s.assertFormula(s.mkTerm(cvc5.Kind.NOT, s.mkTerm(cvc5.Kind.STRING_CONTAINS, v[key], s.mkString('_'))))
                elif not z3.eq(p.z, name):
                    raise Unsupported('another text in the name')
            parts.append(v[key])
        sides.append(parts[0] if len(parts) == 1 else s.mkTerm(cvc5.Kind.STRING_CONCAT, *parts))
        unknowns.append([v[k] for k in v])
    if len(unknowns[0]) != 2:
        return False
    s.assertFormula(s.mkTerm(cvc5.Kind.EQUAL, *sides))
    s.assertFormula(s.mkTerm(cvc5.Kind.NOT, s.mkTerm(cvc5.Kind.AND, *[s.mkTerm(cvc5.Kind.EQUAL, a, b) for a, b in zip(*unknowns)])))
    return s.checkSat().isUnsat()
