"""Contracts of the containers of expressions (cheval/api.py): the names they report are those their expressions use"""
import z3
from . import engine, poly as P
from .engine import *
from .arrays import *
from .obj import *
from .glue import Glue
from .model_contracts import new
from .api_contracts import false

NAMESET = z3.ArraySort(OBJ, B)
PLAIN, CHAINS = z3.Function('plain_names_of', OBJ, NAMESET), z3.Function('chained_names_of', OBJ, NAMESET)
COUNTED = z3.Function('count_in_group', OBJ, OBJ, I)


def fixed(s, name):
    """a constant for the set"""
    c = ctx()
    d = c.ghost.setdefault('fixed sets', {})
    if s.get_id() not in d:
        m = c.fresh(name, NAMESET)
        c.assume(m == s)
        c.keep.append(s)
        d[s.get_id()] = m
    return d[s.get_id()]


def readonly_set(m):
    s = MSet(mem=m)
    s.readonly = True
    return s


def readonly_dict(m):
    d = MDict(name='chains', arbitrary=True)
    d.mem = m
    d.readonly = True
    return d


EXPRESSION = Typ('expression', {'symbols': lambda e: readonly_set(fixed(PLAIN(e.z), 'symbols')), 'chains': lambda e: readonly_dict(fixed(CHAINS(e.z), 'chains')), 'raw': lambda e: SVal(e.z, NAME)})


def expressions(name):
    l = MList([])
    l.etyp, l.esort = EXPRESSION, OBJ
    l.havoc()
    l.name = name
    return l


class Group(Glue):
    module = 'cheval/api.py'

    def sets_of(self, l, simple, chained, tag):
        """the names are those the expressions of the list use"""
        c = ctx()
        j, x = z3.Int('j'), z3.Const('x', OBJ)
        n = zint(l.n)
        at = lambda j: enc(l.at(SInt(j)))
        for fn, m, nme in ((PLAIN, simple, 'plain'), (CHAINS, chained, 'chained')):
            by = c.fresh('%s_%s_by' % (tag, nme), z3.ArraySort(OBJ, I))
            b = z3.Select(by, x)
            c.assume(z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < n, z3.Select(fn(at(j)), x)), z3.Select(m, x)), patterns=[z3.Select(fn(at(j)), x)]))
            c.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.And(b >= 0, b < n, z3.Select(fn(at(b)), x))), patterns=[z3.Select(m, x)]))

    def same_list(self, a, b):
        a, b = seq(a), seq(b)
        return P.and_(P.eq(a.n, b.n), P.forall(0, a.n, lambda j: SBool(enc(a.at(j)) == enc(b.at(j)))))


def same_set(a, b):
    x = z3.Const('x', OBJ)
    return SBool(z3.ForAll([x], z3.Select(a, x) == z3.Select(b, x)))


def is_union(r, *ms):
    x = z3.Const('x', OBJ)
    return SBool(z3.ForAll([x], z3.Select(r, x) == z3.Or([z3.Select(m, x) for m in ms])))


# ---------------------------------------------------------------------------------------------- one group
class SubContract(Group):
    def sub(self, c, w, tag='group'):
        l = expressions(tag + '_expressions')
        s, ch = MSet(name=tag + '_simple', arbitrary=True), MSet(name=tag + '_chained', arbitrary=True)
        self.sets_of(l, s.mem, ch.mem, tag)
        o = new(w.module(self.module)['ExpressionSubGroup'], name=SVal(c.fresh('name', OBJ)), expressions=l, simple_symbols=s, chained_symbols=ch)
        o.__dict__['was'] = (l.frozen(), s.mem, ch.mem, o.name)
        return o

    def unchanged(self, o):
        l, s, ch, n = o.was
        return P.and_(self.same_list(o.expressions, l), same_set(o.simple_symbols.mem, s), same_set(o.chained_symbols.mem, ch), false(o.name is n))


class SubAppend(SubContract):
    """the expression comes last; its names are names of the group"""
    name = 'ExpressionSubGroup.append'

    def build(self, c, w):
        self.o = self.sub(c, w)
        self.e = SVal(c.fresh('e', OBJ), EXPRESSION)
        return (self.o, self.e), {}

    def modifies_objects(self): return self.o.expressions, self.o.simple_symbols, self.o.chained_symbols

    def extra(self, info, loop, env0, names, kinds):
        x = z3.Const('x', OBJ)
        for nme, a, m0 in (('plain', lambda: self.o.simple_symbols.mem, self.o.was[1]), ('table', lambda: self.o.chained_symbols.mem, self.o.was[2])):
            def seen(st, S, a=a, m0=m0):
                m = members(st.it)
                e = enumeration(m) if not hasattr(st.it, 'd') else st.it.d._enum()
                return SBool(z3.ForAll([x], z3.Select(a(), x) == z3.Or(z3.Select(m0, x), z3.And(z3.Select(m, x), z3.Select(e.pos, x) < zint(st.k))), patterns=[z3.Select(a(), x)]))
            yield 'the names seen are added (%s)' % nme, seen

    def ensures(self, res, exc):
        l, s, ch, n = self.o.was
        yield 'it comes last', self.same_list(self.o.expressions, l + [self.e])
        yield 'its plain names are added', is_union(self.o.simple_symbols.mem, s, PLAIN(self.e.z))
        yield 'the names of its tables are added', is_union(self.o.chained_symbols.mem, ch, CHAINS(self.e.z))
        yield 'the name stays', false(self.o.name is n)


class SubAdd(SubContract):
    """a new group with the expressions of both, in order"""
    name = 'ExpressionSubGroup.__add__'

    def stubs(self, c, w):
        def append(s, e):
            s.expressions.append(e)
            s.simple_symbols.update(readonly_set(fixed(PLAIN(e.z), 'symbols')))
            s.chained_symbols.update(readonly_set(fixed(CHAINS(e.z), 'chains')))
        return {'ExpressionSubGroup.append': append}

    def build(self, c, w):
        self.a, self.b = self.sub(c, w, 'first'), self.sub(c, w, 'second')
        return (self.a, self.b), {}

    def extra(self, info, loop, env0, names, kinds):
        x, j = z3.Const('x', OBJ), z3.Int('j')
        for a in env0:
            if type(env0[a]).__name__ != 'ExpressionSubGroup' or env0[a] is self.a or env0[a] is self.b:
                continue
            for fn, slot, i in ((PLAIN, 'simple_symbols', 1), (CHAINS, 'chained_symbols', 2)):
                m = lambda st, a=a, slot=slot: getattr(st.env[a], slot).mem

                def all_seen(st, S, m=m, fn=fn):
                    e = enc(st.it.item(SInt(j)))
                    return SBool(z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < zint(st.k), z3.Select(fn(e), x)), z3.Select(m(st), x)), patterns=[z3.Select(fn(e), x)]))
                yield 'names of expressions seen (%s)' % slot, all_seen
                yield 'only names of both (%s)' % slot, lambda st, S, m=m, i=i: SBool(z3.ForAll([x], z3.Implies(z3.Select(m(st), x), z3.Or(z3.Select(self.a.was[i], x), z3.Select(self.b.was[i], x))), patterns=[z3.Select(m(st), x)]))
                yield 'names of the first (%s)' % slot, lambda st, S, m=m, i=i: SBool(z3.ForAll([x], z3.Implies(z3.Select(self.a.was[i], x), z3.Select(m(st), x)), patterns=[z3.Select(self.a.was[i], x)]))
            l = lambda st, a=a: seq(st.env[a].expressions)
            yield 'expressions seen', lambda st, S, l=l: P.and_(P.eq(l(st).n, st.k), P.forall(0, st.k, lambda j: SBool(enc(l(st).at(j)) == enc(st.it.item(j)))))
            yield 'the first, then expressions seen', lambda st, S, l=l: P.and_(P.eq(l(st).n, self.a.was[0].n + st.k), P.forall(0, l(st).n, lambda j: SBool(
                enc(l(st).at(j)) == z3.If(zint(j) < zint(self.a.was[0].n), enc(self.a.was[0].at(j)), enc(st.it.item(j - self.a.was[0].n))))))

    def ensures(self, res, exc):
        yield 'a group of its own', false(type(res).__name__ == 'ExpressionSubGroup' and not any(a is b for o in (self.a, self.b) for a, b in [
            (res, o), (res.expressions, o.expressions), (res.simple_symbols, o.simple_symbols), (res.chained_symbols, o.chained_symbols)]))
        yield 'the expressions of both, in order', self.same_list(res.expressions, self.a.was[0] + self.b.was[0])
        yield 'the plain names of both', is_union(res.simple_symbols.mem, self.a.was[1], self.b.was[1])
        yield 'the table names of both', is_union(res.chained_symbols.mem, self.a.was[2], self.b.was[2])
        yield 'both are unchanged', P.and_(self.unchanged(self.a), self.unchanged(self.b))


class SubIter(SubContract):
    name = 'ExpressionSubGroup.__iter__'

    def build(self, c, w):
        self.o = self.sub(c, w)
        return (self.o,), {}

    def ensures(self, res, exc):
        yield 'the expressions in order', self.same_list(res, self.o.was[0])
        yield 'the group is unchanged', self.unchanged(self.o)


class SubIterSimple(SubIter):
    name = 'ExpressionSubGroup.itersimple'
    slot = 1

    def ensures(self, res, exc):
        e = enumeration(self.o.was[self.slot])
        yield 'every name once', P.and_(P.eq(seq(res).n, SInt(e.n)), P.forall(0, SInt(e.n), lambda j: SBool(enc(seq(res).at(j)) == z3.Select(e.key, zint(j)))))
        yield 'the group is unchanged', self.unchanged(self.o)


class SubIterChained(SubIterSimple):
    name = 'ExpressionSubGroup.iterchained'
    slot = 2


# ---------------------------------------------------------------------------------------------- all groups
class SubHeap(Cell):
    """the state of all ExpressionSubGroups"""
    FIELDS = ('alive', 'simple', 'chained', 'count', 'list')
    SORTS = (NAMESET, z3.ArraySort(OBJ, NAMESET), z3.ArraySort(OBJ, NAMESET), z3.ArraySort(OBJ, I), z3.ArraySort(OBJ, z3.ArraySort(I, OBJ)))
    name = 'state of the groups'

    def __init__(self):
        self._register()
        self.havoc()

    def havoc(self):
        c = ctx()
        for f, s in zip(self.FIELDS, self.SORTS):
            setattr(self, f, c.fresh('groups_' + f, s))
        s = z3.Const('s', OBJ)
        c.assume(z3.ForAll([s], z3.Select(self.count, s) >= 0, patterns=[z3.Select(self.count, s)]))

    def frozen(self):
        o = object.__new__(SubHeap)
        o.__dict__.update(self.__dict__)
        return o

    def _put(self, f, s, v):
        c = ctx()
        old = getattr(self, f)
        m = c.fresh('groups_' + f, old.sort())
        c.assume(m == z3.Store(old, s, v))
        setattr(self, f, m)

    def union(self, f, s, m):
        c = ctx()
        r = c.fresh('names', NAMESET)
        x = z3.Const('x', OBJ)
        was = z3.Select(getattr(self, f), s)
        c.assume(z3.ForAll([x], z3.Select(r, x) == z3.Or(z3.Select(was, x), z3.Select(m, x)), patterns=[z3.Select(r, x)]))
        c.assume(z3.ForAll([x], z3.Implies(z3.Select(was, x), z3.Select(r, x)), patterns=[z3.Select(was, x)]))
        c.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.Select(r, x)), patterns=[z3.Select(m, x)]))
        self._put(f, s, r)

    def append(self, s, e):
        self._wrote()
        c = ctx()
        n = z3.Select(self.count, s)
        self._put('list', s, z3.Store(z3.Select(self.list, s), n, e))
        self._put('count', s, n + 1)
        self.union('simple', s, fixed(PLAIN(e), 'symbols'))
        self.union('chained', s, fixed(CHAINS(e), 'chains'))

    def create(self):
        self._wrote()
        c = ctx()
        s = c.fresh('new_group', OBJ)
        c.assume(z3.Not(z3.Select(self.alive, s)))
        self._put('alive', s, z3.BoolVal(True))
        self._put('count', s, z3.IntVal(0))
        for f in ('simple', 'chained'):
            self._put(f, s, z3.K(OBJ, z3.BoolVal(False)))
        self.at_create = self.frozen()
        return s

    def same(self, o, s):
        """the state of group s is that in o"""
        return z3.And([z3.Select(getattr(self, f), s) == z3.Select(getattr(o, f), s) for f in self.FIELDS])


class NameView:
    """the set of names of a group"""
    def __init__(self, heap, f, s): self.heap, self.f, self.s = heap, f, s
    members = property(lambda v: z3.Select(getattr(v.heap, v.f), v.s))


class GroupContract(Group):
    def group(self, c, w):
        self.heap = SubHeap()
        h = self.heap
        con = self

        def names(f):
            return lambda s: lambda: NameSeq(fixed(z3.Select(getattr(h, f), s.z), 'names'))
        self.SUB = Typ('group', {'append': lambda s: lambda e: h.append(s.z, enc(e)), 'itersimple': names('simple'), 'iterchained': names('chained'),
                                 'length': lambda s: lambda: SInt(z3.Select(h.count, s.z)),
                                 'item': lambda s: (lambda l: lambda k: SVal(z3.Select(l, zint(k)), EXPRESSION))(z3.Select(h.list, s.z))})
        self.l = expressions('expressions')
        self.simple, self.chained = MSet(name='simple', arbitrary=True), MSet(name='chained', arbitrary=True)
        self.subs = MDict(name='groups', vtyp=self.SUB, arbitrary=True)
        self.old = self.l.frozen(), self.simple.mem, self.chained.mem, self.subs.frozen(), self.heap.frozen()
        x, y, j = z3.Const('x', OBJ), z3.Const('y', OBJ), z3.Int('j')
        v = z3.Select(self.subs.val, x)
        has = z3.Select(self.subs.mem, x)
        vy = z3.Select(self.subs.val, y)
        c.assume(z3.ForAll([x], z3.Implies(has, z3.Select(h.alive, v)), patterns=[has]))
        c.assume(z3.ForAll([x, y], z3.Implies(z3.And(has, z3.Select(self.subs.mem, y), v == vy), x == y), patterns=[z3.MultiPattern(has, z3.Select(self.subs.mem, y))]))
        # every group: its names are those its expressions use
        s = z3.Const('s', OBJ)
        for fn, f in ((PLAIN, h.simple), (CHAINS, h.chained)):
            e = z3.Select(z3.Select(h.list, s), j)
            c.assume(z3.ForAll([s, j, x], z3.Implies(z3.And(z3.Select(h.alive, s), j >= 0, j < z3.Select(h.count, s), z3.Select(fn(e), x)), z3.Select(z3.Select(f, s), x)), patterns=[z3.MultiPattern(e, z3.Select(fn(e), x))]))
            by = c.fresh('group_by', z3.ArraySort(OBJ, z3.ArraySort(OBJ, I)))
            b = z3.Select(z3.Select(by, s), x)
            eb = z3.Select(z3.Select(h.list, s), b)
            c.assume(z3.ForAll([s, x], z3.Implies(z3.And(z3.Select(h.alive, s), z3.Select(z3.Select(f, s), x)), z3.And(b >= 0, b < z3.Select(h.count, s), z3.Select(fn(eb), x))), patterns=[z3.Select(z3.Select(f, s), x)]))
        self.inv_assumed(c)
        self.g = new(w.module(self.module)['ExpressionGroup'], _ungrouped_expressions=self.l, _simple_symbols=self.simple, _chained_symbols=self.chained, _subgroups=self.subs)
        ns = w.module(self.module)
        ns['ExpressionSubGroup'] = self.make
        return self.g

    def make(self, name):
        s = self.heap.create()
        self.made = getattr(self, 'made', []) + [(s, name)]
        return SVal(s, self.SUB)

    def inv_assumed(self, c):
        """the names of the container are those of the expressions without group and those of the groups"""
        x, j, k = z3.Const('x', OBJ), z3.Int('j'), z3.Const('k', OBJ)
        h = self.heap
        sv = z3.Select(self.subs.val, k)
        at = lambda j: enc(self.l.at(SInt(j)))
        n = zint(self.l.n)
        for fn, m, f, nme in ((PLAIN, self.simple.mem, h.simple, 'plain'), (CHAINS, self.chained.mem, h.chained, 'chained')):
            c.assume(z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < n, z3.Select(fn(at(j)), x)), z3.Select(m, x)), patterns=[z3.Select(fn(at(j)), x)]))
            insub = z3.Select(z3.Select(f, sv), x)
            c.assume(z3.ForAll([k, x], z3.Implies(z3.And(z3.Select(self.subs.mem, k), insub), z3.Select(m, x)), patterns=[insub]))
            by, wh = c.fresh('by_' + nme, z3.ArraySort(OBJ, I)), c.fresh('in_' + nme, z3.ArraySort(OBJ, OBJ))
            b, kw = z3.Select(by, x), z3.Select(wh, x)
            c.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.Or(z3.And(b >= 0, b < n, z3.Select(fn(at(b)), x)),
                                                                   z3.And(z3.Select(self.subs.mem, kw), z3.Select(z3.Select(f, z3.Select(self.subs.val, kw)), x)))), patterns=[z3.Select(m, x)]))
        c.assume(z3.ForAll([x], z3.Not(z3.And(z3.Select(self.simple.mem, x), z3.Select(self.chained.mem, x))), patterns=[z3.MultiPattern(z3.Select(self.simple.mem, x), z3.Select(self.chained.mem, x))]))

    # -- what must be so
    def parts(self, g): return g._ungrouped_expressions, g._simple_symbols, g._chained_symbols, g._subgroups

    def kept_subs(self, d, but=None):
        """the same groups (but one) with the same state"""
        o, h = self.old[3], self.old[4]
        x = z3.Const('x', OBJ)
        other = z3.BoolVal(True) if but is None else x != but
        return SBool(z3.ForAll([x], z3.Implies(other, z3.And(z3.Select(d.mem, x) == z3.Select(o.mem, x), z3.Implies(z3.Select(o.mem, x), z3.And(
            z3.Select(d.val, x) == z3.Select(o.val, x), self.heap.same(h, z3.Select(o.val, x))))))))

    def kept(self, g):
        l, s, ch, d = self.parts(g)
        return P.and_(self.same_list(l, self.old[0]), same_set(s.mem, self.old[1]), same_set(ch.mem, self.old[2]), self.kept_subs(d), false(l is self.l and d is self.subs))

    def own_subs(self, g):
        """distinct groups, all of them existing"""
        d, x, y = g._subgroups, z3.Const('x', OBJ), z3.Const('y', OBJ)
        hx, hy = z3.Select(d.mem, x), z3.Select(d.mem, y)
        return P.and_(SBool(z3.ForAll([x], z3.Implies(hx, z3.Select(self.heap.alive, z3.Select(d.val, x))))),
                      SBool(z3.ForAll([x, y], z3.Implies(z3.And(hx, hy, z3.Select(d.val, x) == z3.Select(d.val, y)), x == y))))

    def modifies_objects(self): return self.l, self.simple, self.chained, self.subs, self.heap


class NameSeq(SSeq):
    """the names of a set, in some order"""
    def __init__(self, mem): self.members = self.mem = mem
    n = property(lambda s: SInt(enumeration(s.members).n))
    def get(self, k): return decode(z3.Select(enumeration(self.members).key, zint(k)), NAME)
    def has(self, x): return SBool(z3.Select(self.members, enc(x)))
    def __contains__(self, x): return bool(self.has(x))


class GroupAppend(GroupContract):
    """the expression is added to its group (which is made if there is none), its names to those known; a refused one changes nothing"""
    name = 'ExpressionGroup.append'
    raises = ('SyntaxError',)

    def build(self, c, w):
        g = self.group(c, w)
        self.text = SVal(c.fresh('text', OBJ), NAME)
        self.e = c.fresh('e', OBJ)
        self.key = SVal(c.fresh('group', OBJ)) if c.choose('in a group') else None
        if self.key is not None:
            c.assume(self.key.z != pyconst(None))
        self.parsed = self.refused = False
        con = self

        class Parser:
            @staticmethod
            def parse(text, prior_simple=None, prior_chained=None, **k):
                c.prove('ensures the given expression is parsed', z3.BoolVal(text is con.text and not k and not con.parsed))
                con.parsed = True
                for p, m in ((prior_simple, con.old[1]), (prior_chained, con.old[2])):
                    c.prove('ensures all names in use are taken into account', same_set(p.mem, m).z)
                x = z3.Const('x', OBJ)
                if c.choose('it is refused'):
                    con.refused = True
                    for p in (prior_simple, prior_chained):       # (parsing may add names to these sets)
                        p._wrote()
                        p.havoc()
                    raise SyntaxError()
                s, ch = fixed(PLAIN(con.e), 'symbols'), fixed(CHAINS(con.e), 'chains')
                sx, cx = z3.Select(s, x), z3.Select(ch, x)
                for a, b in ((sx, z3.Select(con.old[2], x)), (cx, z3.Select(con.old[1], x)), (sx, cx)):
                    c.assume(z3.ForAll([x], z3.Not(z3.And(a, b)), patterns=[z3.MultiPattern(a, b)]))
                prior_simple.update(readonly_set(s))
                prior_chained.update(readonly_set(ch))
                return SVal(con.e, EXPRESSION)
        w.module(self.module)['Expression'] = Parser
        return (g, self.text), dict(group=self.key)

    def ensures(self, res, exc):
        g = self.g
        if exc is not None:
            yield 'refused only if it cannot be parsed', false(self.refused)
            yield 'a refused expression changes nothing', self.kept(g)
            return
        yield 'refused if it cannot be parsed', false(self.parsed and not self.refused)
        l, s, ch, d = self.parts(g)
        h, h0, d0 = self.heap, self.old[4], self.old[3]
        yield 'its plain names are added', is_union(s.mem, self.old[1], PLAIN(self.e))
        yield 'the names of its tables are added', is_union(ch.mem, self.old[2], CHAINS(self.e))
        x = z3.Const('x', OBJ)
        yield 'no name is both', SBool(z3.ForAll([x], z3.Not(z3.And(z3.Select(s.mem, x), z3.Select(ch.mem, x)))))
        yield 'groups are distinct', self.own_subs(g)
        if self.key is None:
            yield 'it comes last of those without group', self.same_list(l, self.old[0] + [SVal(self.e, EXPRESSION)])
            yield 'all groups are unchanged', self.kept_subs(d)
            return
        k = self.key.z
        sub = z3.Select(d.val, k)
        had = z3.Select(d0.mem, k)
        n0 = z3.If(had, z3.Select(h0.count, z3.Select(d0.val, k)), 0)
        yield 'those without group are unchanged', self.same_list(l, self.old[0])
        yield 'other groups are unchanged', self.kept_subs(d, k)
        yield 'its group is there', SBool(z3.And(z3.Select(d.mem, k), z3.Implies(had, sub == z3.Select(d0.val, k))))
        j = z3.Int('j')
        yield 'it comes last in its group', SBool(z3.And(z3.Select(h.count, sub) == n0 + 1, z3.Select(z3.Select(h.list, sub), n0) == self.e,
                                                        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n0), z3.Select(z3.Select(h.list, sub), j) == z3.Select(z3.Select(h0.list, sub), j)))))
        for f, fn in (('simple', PLAIN), ('chained', CHAINS)):
            before = z3.And(had, z3.Select(z3.Select(getattr(h0, f), sub), x))
            yield 'its names are added to the group (%s)' % f, SBool(z3.ForAll([x], z3.Select(z3.Select(getattr(h, f), sub), x) == z3.Or(before, z3.Select(fn(self.e), x))))


class GroupClear(GroupContract):
    name = 'ExpressionGroup.clear'

    def build(self, c, w): return (self.group(c, w),), {}

    def ensures(self, res, exc):
        l, s, ch, d = self.parts(self.g)
        x = z3.Const('x', OBJ)
        yield 'no expressions', P.eq(l.n, SInt(0))
        yield 'no names, no groups', SBool(z3.ForAll([x], z3.Not(z3.Or([z3.Select(m.mem, x) for m in (s, ch, d)]))))

    def modifies_objects(self): return self.l, self.simple, self.chained, self.subs


class GroupGet(GroupContract):
    name = 'ExpressionGroup.get_group'
    raises = ('KeyError',)

    def build(self, c, w):
        self.key = SVal(c.fresh('group', OBJ))
        return (self.group(c, w), self.key), {}

    def ensures(self, res, exc):
        there = z3.Select(self.old[3].mem, self.key.z)
        if exc is not None:
            yield 'refused only if there is none', SBool(z3.Not(there))
        else:
            yield 'the group of that name', SBool(z3.And(there, enc(res) == z3.Select(self.old[3].val, self.key.z)))
        yield 'nothing changes', self.kept(self.g)

    def modifies_objects(self): return ()


class GroupIterSimple(GroupContract):
    """all names that expressions use, and no other"""
    name = 'ExpressionGroup.itersimple'
    slot = 1

    def build(self, c, w):
        g = self.group(c, w)
        c.acc_factory = Bunch
        return (g,), dict(groups=SBool(c.fresh('groups', B)))

    def extra(self, info, loop, env0, names, kinds):
        x = z3.Const('x', OBJ)
        for a in env0:
            if isinstance(env0[a], Bunch):
                yield 'exactly the names known', lambda st, S, a=a: SBool(z3.ForAll([x], z3.Select(st.env[a].mem, x) == z3.Select(self.old[self.slot], x), patterns=[z3.Select(st.env[a].mem, x)]))

    def ensures(self, res, exc):
        yield 'exactly the names that expressions use', same_set(res.mem, self.old[self.slot])
        yield 'nothing changes', self.kept(self.g)

    def modifies_objects(self): return ()


class GroupIterChained(GroupIterSimple):
    name = 'ExpressionGroup.iterchained'
    slot = 2


class Bunch(Cell):
    """what a generator yields, without order and repetitions"""
    vkind = 'L'

    def __init__(self):
        self.name = 'yielded'
        self.mem = z3.K(OBJ, z3.BoolVal(False))
        self._register()

    def havoc(self): self.mem = ctx().fresh('yielded', NAMESET)

    def frozen(self):
        b = object.__new__(Bunch)
        b.__dict__.update(self.__dict__)
        return b

    def _with(self, m):
        c = ctx()
        r, x = c.fresh('yielded', NAMESET), z3.Const('x', OBJ)
        was, t = z3.Select(self.mem, x), z3.Select(m, x)
        c.assume(z3.ForAll([x], z3.Select(r, x) == z3.Or(was, t), patterns=[z3.Select(r, x)]))
        if z3.is_const(self.mem):
            c.assume(z3.ForAll([x], z3.Implies(was, z3.Select(r, x)), patterns=[was]))
        if z3.is_const(m):
            c.assume(z3.ForAll([x], z3.Implies(t, z3.Select(r, x)), patterns=[t]))
        self._wrote()
        self.mem = r

    def extend(self, o): self._with(members(o))
    def append(self, v): self._with(z3.Store(z3.K(OBJ, z3.BoolVal(False)), enc(v), z3.BoolVal(True)))


class Tally(Cell):
    """what a generator yields, without order: how often"""
    vkind = 'L'

    def __init__(self):
        self.name = 'yielded'
        self.count = z3.K(OBJ, z3.IntVal(0))
        self._register()

    def havoc(self): self.count = ctx().fresh('yielded', z3.ArraySort(OBJ, I))

    def frozen(self):
        b = object.__new__(Tally)
        b.__dict__.update(self.__dict__)
        return b

    def extend(self, o):
        c = ctx()
        cnt = c.tally(o)
        r, e = c.fresh('yielded', z3.ArraySort(OBJ, I)), z3.Const('e', OBJ)
        c.assume(z3.ForAll([e], z3.Select(r, e) == z3.Select(self.count, e) + cnt(e), patterns=[z3.Select(r, e)]))
        self._wrote()
        self.count = r

    def append(self, v):
        c = ctx()
        r = c.fresh('yielded', z3.ArraySort(OBJ, I))
        z = enc(v)
        c.assume(r == z3.Store(self.count, z, z3.Select(self.count, z) + 1))
        self._wrote()
        self.count = r


class GroupIter(GroupContract):
    """every expression as often as it was appended: those without group, and on demand those of every group"""
    name = 'ExpressionGroup.__iter__'

    def build(self, c, w):
        g = self.group(c, w)
        c.acc_factory = Tally
        self.own = c.fresh('own_count', z3.ArraySort(OBJ, I))
        self.sofar = z3.Function(c.fresh_name('count_so_far'), I, OBJ, I)
        e = z3.Const('e', OBJ)
        c.assume(z3.ForAll([e], self.sofar(0, e) == z3.Select(self.own, e), patterns=[self.sofar(0, e)]))
        self.enum = self.subs._enum()

        def tally(o):
            if o is self.l:
                return lambda e: z3.Select(self.own, e)
            if isinstance(o, SVal) and o.typ is self.SUB:
                return lambda e: COUNTED(o.z, e)
            raise Unsupported('yield from %r' % (o,))
        c.tally = tally
        self.groups = c.choose('with groups')
        return (g,), {} if self.groups and c.choose('by default') else dict(groups=self.groups)

    def instances(self, k):
        c, e = ctx(), z3.Const('e', OBJ)
        k = zint(k)
        sub = z3.Select(self.old[3].val, z3.Select(self.enum.key, k))
        c.assume(z3.ForAll([e], self.sofar(k + 1, e) == self.sofar(k, e) + COUNTED(sub, e), patterns=[self.sofar(k + 1, e), COUNTED(sub, e)]))

    def extra(self, info, loop, env0, names, kinds):
        e = z3.Const('e', OBJ)
        for a in env0:
            if isinstance(env0[a], Tally):
                yield 'those without group and of the groups so far', lambda st, S, a=a: SBool(z3.ForAll([e], z3.Select(st.env[a].count, e) == self.sofar(zint(st.k), e), patterns=[z3.Select(st.env[a].count, e)]))

    def ensures(self, res, exc):
        e = z3.Const('e', OBJ)
        want = (lambda e: self.sofar(self.enum.n, e)) if self.groups else lambda e: z3.Select(self.own, e)
        yield 'each expression as often as it was appended', SBool(z3.ForAll([e], z3.Select(res.count, e) == want(e)))
        yield 'nothing changes', self.kept(self.g)

    def modifies_objects(self): return ()


class GroupDrop(GroupContract):
    """the group goes; the names are those that other expressions use"""
    name = 'ExpressionGroup.drop_group'
    raises = ('KeyError',)

    def stubs(self, c, w):
        def it(g, *, groups=True):
            c = ctx()
            c.prove('ensures the names are gathered from the expressions that remain', z3.And(zbool(self.kept_subs(g._subgroups, self.key.z)), z3.Not(z3.Select(g._subgroups.mem, self.key.z)),
                                                                                       zbool(self.same_list(g._ungrouped_expressions, self.old[0])), zbool(groups)))
            return self.rest
        return {'ExpressionGroup.__iter__': it}

    def build(self, c, w):
        g = self.group(c, w)
        self.key = SVal(c.fresh('group', OBJ))
        n, a = c.fresh('n_remaining', I), c.fresh('remaining', z3.ArraySort(I, OBJ))
        c.assume(n >= 0)
        self.n, self.at = n, lambda j: z3.Select(a, j)

        class Rest(SSeq): pass
        self.rest = Rest(SInt(n), lambda j: SVal(z3.Select(a, zint(j)), EXPRESSION))
        self.first = {}
        j, x = z3.Int('j'), z3.Const('x', OBJ)
        for fn in (PLAIN, CHAINS):
            by = c.fresh('first_with', z3.ArraySort(OBJ, I))          # the first remaining expression that uses the name, if there is one
            self.first[fn] = lambda x, by=by: z3.Select(by, x)
            b = z3.Select(by, x)
            u = z3.Select(fn(self.at(j)), x)
            c.assume(z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < n, u), z3.And(b >= 0, b <= j, z3.Select(fn(self.at(b)), x))), patterns=[u]))
        return (g, self.key), {}

    def extra(self, info, loop, env0, names, kinds):
        x, j = z3.Const('x', OBJ), z3.Int('j')
        for nme, m, fn in (('plain', lambda: self.g._simple_symbols.mem, PLAIN), ('table', lambda: self.g._chained_symbols.mem, CHAINS)):
            u = z3.Select(fn(self.at(j)), x)
            yield 'names seen (%s)' % nme, lambda st, S, m=m, fn=fn, u=u: SBool(z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < zint(st.k), u), z3.Select(m(), x)), patterns=[u]))
            yield 'only names seen (%s)' % nme, lambda st, S, m=m, fn=fn: SBool(z3.ForAll([x], z3.Implies(z3.Select(m(), x), z3.And(self.first[fn](x) >= 0, self.first[fn](x) < zint(st.k), z3.Select(fn(self.at(self.first[fn](x))), x))), patterns=[z3.Select(m(), x)]))

    def ensures(self, res, exc):
        g = self.g
        l, s, ch, d = self.parts(g)
        k = self.key.z
        there = z3.Select(self.old[3].mem, k)
        if exc is not None:
            yield 'refused only if there is none', SBool(z3.Not(there))
            yield 'then nothing changes', self.kept(g)
            return
        x, j = z3.Const('x', OBJ), z3.Int('j')
        yield 'refused if there is none', SBool(there)
        yield 'the group is gone, others stay', P.and_(self.kept_subs(d, k), SBool(z3.Not(z3.Select(d.mem, k))))
        yield 'those without group stay', self.same_list(l, self.old[0])
        for nme, m, fn in (('plain', s.mem, PLAIN), ('table', ch.mem, CHAINS)):
            yield 'names of other expressions stay (%s)' % nme, SBool(z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < self.n, z3.Select(fn(self.at(j)), x)), z3.Select(m, x))))
            b = self.first[fn](x)
            yield 'no other names (%s)' % nme, SBool(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.And(b >= 0, b < self.n, z3.Select(fn(self.at(b)), x)))))


class GroupCopy(GroupContract):
    """the same expressions, names and groups; nothing that can change is shared"""
    name = 'ExpressionGroup.copy'

    def build(self, c, w): return (self.group(c, w),), {}
    def modifies_objects(self): return (self.heap,)

    def copied(self, d, x, upto=None):
        """group x of d is a copy of the old one"""
        o, h0, h = self.old[3], self.old[4], self.heap
        a, b = z3.Select(o.val, x), z3.Select(d.val, x)
        j, y = z3.Int('j'), z3.Const('y', OBJ)
        n = z3.Select(h0.count, a)
        return z3.And(z3.Not(z3.Select(h0.alive, b)), z3.Select(h.alive, b), z3.Select(h.count, b) == n,
                      z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(z3.Select(h.list, b), j) == z3.Select(z3.Select(h0.list, a), j)), patterns=[z3.Select(z3.Select(h.list, b), j)]),
                      *[z3.ForAll([y], z3.Select(z3.Select(getattr(h, f), b), y) == z3.Select(z3.Select(getattr(h0, f), a), y), patterns=[z3.Select(z3.Select(getattr(h, f), b), y)]) for f in ('simple', 'chained')])

    def extra(self, info, loop, env0, names, kinds):
        x, y, s, j = z3.Const('x', OBJ), z3.Const('y', OBJ), z3.Const('s', OBJ), z3.Int('j')
        sel = z3.Select

        def old_kept(st, S):
            h0, h = self.old[4], self.heap
            return SBool(z3.ForAll([s], z3.Implies(sel(h0.alive, s), h.same(h0, s)), patterns=[sel(h0.alive, s)]))
        yield 'old groups keep their state', old_kept
        ng = [a for a in env0 if type(env0[a]).__name__ == 'ExpressionGroup' and env0[a] is not self.g]
        if not ng:
            return
        ng = ng[0]
        if loop.it is not None and not isinstance(loop.it, SVal):
            def there(st, S):
                hd, o = sel(st.env[ng]._subgroups.mem, x), self.old[3]
                seen = z3.And(sel(o.mem, x), sel(self.subs._enum().pos, x) < zint(st.k))
                return SBool(z3.And(z3.ForAll([x], z3.Implies(hd, seen), patterns=[hd]), z3.ForAll([x], z3.Implies(seen, hd), patterns=[sel(o.mem, x)])))

            def copies(st, S):
                d = st.env[ng]._subgroups
                return SBool(z3.ForAll([x], z3.Implies(sel(d.mem, x), self.copied(d, x)), patterns=[sel(d.mem, x)]))

            def distinct(st, S):
                d = st.env[ng]._subgroups
                hx, hy = sel(d.mem, x), sel(d.mem, y)
                return SBool(z3.ForAll([x, y], z3.Implies(z3.And(hx, hy, sel(d.val, x) == sel(d.val, y)), x == y), patterns=[z3.MultiPattern(hx, hy)]))
            yield 'the groups seen are there', there
            yield 'the groups seen are copies', copies
            yield 'the groups seen are distinct', distinct
        elif isinstance(loop.it, SVal):
            def only_new(st, S):
                h, g0 = self.heap, self.heap.at_create
                b = self.made[-1][0]
                return SBool(z3.ForAll([s], z3.Implies(s != b, h.same(g0, s)), patterns=[sel(h.alive, s), sel(h.count, s), sel(h.simple, s), sel(h.chained, s), sel(h.list, s)]))

            def so_far(st, S):
                h, h0, b, a = self.heap, self.old[4], self.made[-1][0], st.it.z
                lj = sel(sel(h.list, b), j)
                return SBool(z3.And(sel(h.alive, b), sel(h.count, b) == zint(st.k), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(st.k)), lj == sel(sel(h0.list, a), j)), patterns=[lj])))
            yield 'only the new group changes', only_new
            yield 'the expressions so far', so_far
            for f, fn in (('simple', PLAIN), ('chained', CHAINS)):
                def names_seen(st, S, f=f, fn=fn):
                    ej = sel(sel(self.old[4].list, st.it.z), j)
                    return SBool(z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < zint(st.k), sel(fn(ej), x)), sel(sel(getattr(self.heap, f), self.made[-1][0]), x)), patterns=[sel(fn(ej), x)]))

                def only_names(st, S, f=f):
                    nb = sel(sel(getattr(self.heap, f), self.made[-1][0]), x)
                    return SBool(z3.ForAll([x], z3.Implies(nb, sel(sel(getattr(self.old[4], f), st.it.z), x)), patterns=[nb]))
                yield 'their names (%s)' % f, names_seen
                yield 'only names of the group (%s)' % f, only_names

    def ensures(self, res, exc):
        yield 'nothing changes', self.kept(self.g)
        yield 'another container', false(type(res).__name__ == 'ExpressionGroup' and res is not self.g)
        l, s, ch, d = self.parts(res)
        yield 'nothing is shared', false(not any(a is b for a, b in zip((l, s, ch, d), (self.l, self.simple, self.chained, self.subs))))
        yield 'the same expressions without group', self.same_list(l, self.old[0])
        yield 'the same names', P.and_(same_set(s.mem, self.old[1]), same_set(ch.mem, self.old[2]))
        x = z3.Const('x', OBJ)
        yield 'the same groups', same_set(d.mem, self.old[3].mem)
        yield 'every group is copied', SBool(z3.ForAll([x], z3.Implies(z3.Select(d.mem, x), self.copied(d, x))))
        yield 'distinct groups', self.own_subs(res)
