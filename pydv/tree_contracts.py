"""Contracts of the choice tree: cheval/api.py (ChoiceNode) and the tree operations of cheval/model.py.

Nodes are opaque objects. Their attributes are functions of the node (the contracts of the properties of ChoiceNode, which are
verified below): name, parent (None for a top-level choice), level, logsum scale, number of children."""
import z3
from . import engine, poly as P
from .engine import *
from .arrays import *
from .obj import *
from .pdshim import *
from .glue import Glue, World
from .shim import Mod
from .model_contracts import Model, new, NCHILD, FULL

NAMEF, PARENT = z3.Function('node_name', OBJ, OBJ), z3.Function('node_parent', OBJ, OBJ)
LEVELF, SCALE = z3.Function('node_level', OBJ, I), z3.Function('node_scale', OBJ, NUM)
IDF = z3.Function('nested_id', OBJ, I, OBJ)
ANC = z3.Function('ancestor', OBJ, I, OBJ)
JOIN = z3.Function('joined_names', OBJ, I, OBJ)
DESC = z3.Function('is_below', OBJ, OBJ, B)      # reflexive
CHILD = z3.Function('child', OBJ, I, OBJ)


LABELS = {}


def nested(z, m):
    """what nested_id returns (its contract): an opaque label"""
    m = z3.simplify(zint(m))
    if m.get_id() not in LABELS:
        LABELS[m.get_id()] = Typ('label', {'nlevels': lambda s: SInt(m)})
        ctx().keep.append(m)
    return SVal(IDF(z, m), LABELS[m.get_id()])


TREENODE = Typ('choice node', {
    'optional': True, 'name': lambda s: SVal(NAMEF(s.z), NAME), '_name': lambda s: SVal(NAMEF(s.z), NAME),
    'parent': lambda s: SVal(PARENT(s.z), TREENODE), '_parent': lambda s: SVal(PARENT(s.z), TREENODE),
    'level': lambda s: SInt(LEVELF(s.z)), '_level': lambda s: SInt(LEVELF(s.z)), 'logsum_scale': lambda s: ONum(SCALE(s.z)), '_logsum_scale': lambda s: ONum(SCALE(s.z)),
    'n_children': lambda s: SInt(NCHILD(s.z)), 'is_parent': lambda s: SBool(NCHILD(s.z) > 0), 'full_name': lambda s: SVal(FULL(s.z), NAME),
    'nested_id': lambda s: lambda max_level: nested(s.z, max_level),
    'children': lambda s: lambda: SSeq(SInt(NCHILD(s.z)), lambda k: SVal(CHILD(s.z, zint(k)), TREENODE))})


def none(): return pyconst(None)


def node(c, name='node'):
    n = SVal(c.fresh(name, OBJ), TREENODE)
    c.assume(n.z != none())
    return n


def ancestors(c, n):
    """ANC(n, k): the k-th ancestor of a node (as long as there is one); level counts them"""
    k, x = z3.Int(c.fresh_name('k')), z3.Const(c.fresh_name('x'), OBJ)
    c.assume(ANC(n.z, 0) == n.z)
    a = ANC(n.z, k)
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, a != none()), ANC(n.z, k + 1) == PARENT(a)), patterns=[a]))


class FullName(Glue):
    name, module = 'ChoiceNode.full_name', 'cheval/api.py'

    def build(self, c, w):
        self.n = node(c)
        ancestors(c, self.n)
        self.joined(c)
        return (self.n,), {}

    def joined(self, c):
        """JOIN(k): the names of the first k ancestors (the node itself is ancestor 0), last first, separated by dots"""
        k = z3.Int(c.fresh_name('k'))
        a = ANC(self.n.z, k)
        j = lambda k: JOIN(self.n.z, k)
        c.assume(j(1) == NAMEF(self.n.z), z3.ForAll([k], z3.Implies(k >= 1, j(k + 1) == text([SVal(NAMEF(a), NAME), '.', SVal(j(k), NAME)]).z), patterns=[a]))

    def extra(self, info, loop, env0, names, kinds):
        """candidates; those which do not hold are dropped. The first d ancestors might have been treated before the loop"""
        for d in (0, 1):
            for a in names:
                if kinds[a] == 'v':
                    yield '%s is the (k + %d)-th ancestor' % (a, d), lambda st, S, a=a, d=d: SBool(st[a].z == ANC(self.n.z, zint(st.k) + d))
                    if d and isinstance(env0.get(a), SVal) and env0[a].typ is NAME:
                        self.built = True
                        yield '%s is the names so far, last first' % a, lambda st, S, a=a: SBool(st[a].z == JOIN(self.n.z, zint(st.k) + 1))
            for a, v in env0.items():
                if isinstance(v, MList):
                    for last in (True, False):
                        yield '%s holds the names seen so far, %s first (%d)' % (a, 'last' if last else 'first', d), lambda st, S, a=a, d=d, last=last: self.held(st[a], st.k, d, last)
            yield 'the nodes seen so far are there (%d)' % d, lambda st, S, d=d: self.there(st.k + d)

    def there(self, n):
        k = z3.Int(ctx().fresh_name('k'))
        a = ANC(self.n.z, k)
        return SBool(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(n)), a != none()), patterns=[a]))

    def held(self, l, k, d, last):
        if isinstance(l.xs, list) and len(l.xs) != d:
            return SBool(z3.BoolVal(False))
        if isinstance(l.xs, list):
            return P.and_(P.eq(k, 0), *[x == SVal(NAMEF(ANC(self.n.z, j)), NAME) for j, x in enumerate(l.xs)])
        s = l.seq()
        return P.and_(P.eq(s.n, k + d), P.forall(0, k + d, lambda j: s.get(j) == SVal(NAMEF(ANC(self.n.z, zint(k) + d - 1 - zint(j) if last else zint(j))), NAME), pattern=lambda j: s.get(j)))

    def ensures(self, res, exc):
        sep, s = res.__dict__.get('joined', (None, None)) if isinstance(res, SVal) else (None, None)
        if s is None:
            return self.recursive(res)
        n = zint(s.n)
        return [('the separator is "."', SBool(z3.BoolVal(sep == '.'))),
                ('it begins at the top and ends at the node', SBool(z3.And(n >= 1, ANC(self.n.z, n) == none()))), ('all ancestors are there', self.there(SInt(n))),
                ('the parts are the names from the top to the node', P.forall(0, s.n, lambda j: s.get(j) == SVal(NAMEF(ANC(self.n.z, n - 1 - zint(j))), NAME), pattern=lambda j: s.get(j)))]


    def recursive(self, res):
        """made from the full name of the parent, which satisfies the same contract (levels decrease)"""
        p = PARENT(self.n.z)
        pieces = res.__dict__.get('pieces') if isinstance(res, SVal) and res.typ is NAME else ()
        if pieces is None and hasattr(self, 'built') and not z3.eq(res.z, NAMEF(self.n.z)):
            n = z3.Int(ctx().fresh_name('n'))
            return [('the names from the top to the node', SBool(z3.Exists([n], z3.And(n >= 1, res.z == JOIN(self.n.z, n), ANC(self.n.z, n) == none(), self.there(SInt(n)).z))))]
        if pieces is None:
            return [('the name alone is for a node without parent', SBool(p == none())), ('it is the name of the node', SBool(res.z == NAMEF(self.n.z)))]
        if len(pieces) != 3 or not isinstance(pieces[0], SVal) or not isinstance(pieces[2], SVal) or not isinstance(pieces[1], str):
            raise Unsupported('full_name returns %r' % (res,))
        return [('there is a parent', SBool(p != none())), ('it begins with the full name of the parent', SBool(pieces[0].z == FULL(p))), ('the separator is "."', SBool(z3.BoolVal(pieces[1] == '.'))),
                ('it ends with the name of the node', SBool(pieces[2].z == NAMEF(self.n.z)))]


class NestedId(Glue):
    """[names from the top to the node] padded with '.'; the recursive call satisfies the same contract (levels decrease)"""
    name, module = 'ChoiceNode.nested_id', 'cheval/api.py'

    def part(self, k, level, anc):
        return SVal(z3.If(zint(k) < zint(level), NAMEF(anc(zint(level) - 1 - zint(k))), pyconst('.')), NAME)

    def build(self, c, w):
        self.n = node(c)
        ancestors(c, self.n)
        n, p = self.n.z, PARENT(self.n.z)
        self.level = LEVELF(n)
        self.M = SInt(c.fresh('max_level', I))
        # the levels of a tree (the contract of ChoiceModel._create_node)
        c.assume(self.level >= 1, z3.Implies(p == none(), self.level == 1), z3.Implies(p != none(), z3.And(self.level == LEVELF(p) + 1, LEVELF(p) >= 1)), self.M >= SInt(self.level))
        con = self

        def of_parent(s):
            def f(max_level):
                ctx().prove('requires of nested_id: the levels fit', z3.And(LEVELF(s.z) >= 1, LEVELF(s.z) <= zint(max_level)))
                return STuple(max_level, lambda k: con.part(k, LEVELF(s.z), lambda a: ANC(n, a + 1)))
            return f
        typ = Typ('choice node', dict(TREENODE.attrs, nested_id=of_parent))
        me = Typ('choice node', dict(TREENODE.attrs, parent=lambda s: SVal(PARENT(s.z), typ), _parent=lambda s: SVal(PARENT(s.z), typ)))
        return (SVal(n, me), self.M), {}

    def ensures(self, res, exc):
        s = seq(res)
        return [('as long as the tree is deep', P.eq(s.n, self.M)),
                ('the path to the node, padded with "."', P.forall(0, self.M, lambda k: s.get(k) == self.part(k, self.level, lambda a: ANC(self.n.z, a))))]


# ---------------------------------------------------------------------------------------------- the model's tree
class Tree:
    """The nodes of a model by full name (in insertion order)"""
    def __init__(self, c, typ=TREENODE):
        self.d = MDict(name='nodes', vtyp=typ, arbitrary=True)
        x = z3.Const(c.fresh_name('x'), OBJ)
        h, v = z3.Select(self.d.mem, x), z3.Select(self.d.val, x)
        p = PARENT(v)
        f = z3.Implies(h, z3.And(FULL(v) == x, v != none(), LEVELF(v) >= 1, (p == none()) == (LEVELF(v) == 1),
                                 z3.Implies(p != none(), z3.And(z3.Select(self.d.mem, FULL(p)), z3.Select(self.d.val, FULL(p)) == p, LEVELF(v) == LEVELF(p) + 1))))
        c.assume(z3.ForAll([x], f, patterns=[h]), z3.ForAll([x], f, patterns=[v]))
        self.has, self.val = self.d.mem, self.d.val

    def node(self, k):
        e = self.d._enum()
        return z3.Select(self.val, z3.Select(e.key, zint(k)))

    def pos(self, n): return z3.Select(self.d._enum().pos, FULL(n))

    @property
    def n(self): return SInt(self.d._enum().n)


def at_least_one(c, t):
    k = c.fresh('some', OBJ)
    c.assume(z3.Select(t.has, k))
    c.assume(t.n >= 1)


class TreeGlue(Glue):
    stubs_extra = {}

    def stubs(self, c, w):
        return {':ChoiceModel.validate': lambda s, **k: None}

    def model(self, c, w):
        self.m = m = Model(c, w)
        self.t = Tree(c)
        m.obj._all_nodes = self.t.d
        at_least_one(c, self.t)
        return m


class Depth(TreeGlue):
    name = 'ChoiceModel.depth'

    def build(self, c, w):
        return (self.model(c, w).obj,), {}

    def extra(self, info, loop, env0, names, kinds):
        t = self.t
        for a in names:
            if kinds[a] in 'i':
                yield '%s is not less than the levels seen so far' % a, lambda st, S, a=a: P.forall(0, st.k, lambda k: SInt(LEVELF(t.node(k))) <= st[a], pattern=lambda k: SInt(LEVELF(t.node(k))))
                yield '%s is one of the levels seen so far, or as it was' % a, lambda st, S, a=a: P.or_(P.eq(st[a], st.entry[a]), exists(st.k, lambda k: SInt(LEVELF(t.node(k))) == st[a]))

    def ensures(self, res, exc):
        t = self.t
        return [('no level is deeper', P.forall(0, t.n, lambda k: SInt(LEVELF(t.node(k))) <= res, pattern=lambda k: SInt(LEVELF(t.node(k))))),
                ('some node has this level', exists(t.n, lambda k: SInt(LEVELF(t.node(k))) == res))]


class WithDepth(TreeGlue):
    def stubs(self, c, w):
        def depth(s):
            if not hasattr(self, 'D'):
                return None
            return self.D
        return {':ChoiceModel.validate': lambda s, **k: None, ':ChoiceModel.depth': depth}

    def model(self, c, w):
        m = super().model(c, w)
        self.D = SInt(c.fresh('depth', I))
        t = self.t
        c.assume(self.D >= 1)
        c.assume(P.forall(0, t.n, lambda k: SInt(LEVELF(t.node(k))) <= self.D, pattern=lambda k: SInt(LEVELF(t.node(k)))))
        return m


class Choices(WithDepth):
    name = 'ChoiceModel.choices'

    def build(self, c, w):
        m = self.model(c, w)
        self.cached = None
        if c.choose('choices are cached'):
            self.cached = SIndex.fresh('cached')
            m.obj._cached_cols = self.cached
        return (m.obj,), {}

    def ensures(self, res, exc):
        t = self.t
        if self.cached is not None:
            return [('the cached index', SBool(z3.BoolVal(res is self.cached)))]
        flat = bool(self.D == 1)
        want = lambda k: SVal(z3.Select(t.d._enum().key, zint(k))) if flat else SVal(IDF(t.node(k), zint(self.D)))
        return [('one label for each node', P.eq(res.n, t.n)), ('labelled by the paths, in insertion order', P.forall(0, t.n, lambda k: res.lab(k) == want(k), pattern=lambda k: res.lab(k))),
                ('as many levels as the tree', P.eq(SInt(zint(res.nlevels)), self.D))]


class ElementalChoices(WithDepth):
    name = 'ChoiceModel.elemental_choices'

    def stubs(self, c, w):
        return dict(super().stubs(c, w), **{':ChoiceModel.choices': lambda s: self.m.choices})

    def build(self, c, w):
        m = self.model(c, w)
        self.counting(c)
        return (m.obj,), {}

    def leaf(self, j): return z3.Not(NCHILD(self.t.node(j)) > 0)

    def counting(self, c):
        """RANK(k): number of leaves before position k; SEL(i): position of the i-th leaf (what counting defines)"""
        self.RANK, self.SEL = c.fresh('rank', z3.ArraySort(I, I)), c.fresh('select', z3.ArraySort(I, I))
        k = z3.Int(c.fresh_name('k'))
        n = zint(self.t.n)
        r = z3.Select(self.RANK, k)
        c.assume(z3.Select(self.RANK, 0) == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(z3.Select(self.RANK, k + 1) == r + z3.If(self.leaf(k), 1, 0), z3.Implies(self.leaf(k), z3.Select(self.SEL, r) == k))), patterns=[r]))

    def extra(self, info, loop, env0, names, kinds):
        for a, v in env0.items():
            if isinstance(v, MList):
                yield '%s holds the leaves seen so far' % a, lambda st, S, a=a: self.held(st[a], st.k)

    def held(self, l, k):
        r = SInt(z3.Select(self.RANK, zint(k)))
        if isinstance(l.xs, list) and not l.xs:
            return P.eq(r, 0)
        return P.and_(P.eq(l.n, r), P.forall(0, r, lambda i: l.at(i) == self.label(i), pattern=lambda i: l.at(i)))

    def label(self, i): return SVal(IDF(self.t.node(z3.Select(self.SEL, zint(i))), zint(self.D)))

    def ensures(self, res, exc):
        t = self.t
        if bool(self.D == 1):
            return [('all choices', SBool(z3.BoolVal(res is self.m.choices)))]
        r = SInt(z3.Select(self.RANK, zint(t.n)))
        return [('as many as leaves', P.eq(res.n, r)), ('the leaves, in order', P.forall(0, r, lambda i: res.lab(i) == self.label(i), pattern=lambda i: res.lab(i)))]


class Flatten(WithDepth):
    name = 'ChoiceModel._flatten'

    def build(self, c, w):
        m = self.model(c, w)
        c.assume(self.D > 1)
        return (m.obj,), {}

    def want(self, k):
        n = self.t.node(k)
        p = PARENT(n)
        return dict(hierarchy=SInt(z3.If(p == none(), -1, self.t.pos(p))), level=SInt(LEVELF(n) - 1), scale=ONum(z3.If(NCHILD(n) > 0, SCALE(n), num(1))), bottom=SBool(z3.Not(NCHILD(n) > 0)))

    def extra(self, info, loop, env0, names, kinds):
        for a, v in env0.items():
            if isinstance(v, SArr) and len(v.shape) == 1:
                for what in ({'i': ('hierarchy', 'level'), 'o': ('scale',), 'b': ('bottom',)}.get(v.kind, ())):
                    yield '%s is the %s of the nodes seen so far' % (a, what), lambda st, S, a=a, what=what: P.forall(0, st.k, lambda j: P.eq(st[a].at(j), self.want(j)[what]), pattern=lambda j: st[a].at(j))
                yield '%s is as it was beyond' % a, lambda st, S, a=a: P.forall(st.k, self.t.n, lambda j: P.eq(st[a].at(j), st.entry[a].at(j)), pattern=lambda j: st[a].at(j))

    def ensures(self, res, exc):
        out = [('four arrays', SBool(z3.BoolVal(isinstance(res, tuple) and len(res) == 4)))]
        for a, what in zip(res, ('hierarchy', 'level', 'scale', 'bottom')):
            out.append(('as many as nodes (%s)' % what, P.eq(a.shape[0], self.t.n)))
            out.append(('%s of the node at that position' % what, P.forall(0, self.t.n, lambda k, a=a, what=what: P.eq(a.at(k), self.want(k)[what]), pattern=lambda k, a=a: a.at(k))))
        n = self.t.n
        h = res[0]
        out.append(('the position of the parent is a position', P.forall(0, n, lambda k: P.and_(h.at(k) >= -1, h.at(k) < n), pattern=lambda k: h.at(k))))
        out.append(('the parent is one level above', P.forall(0, n, lambda k: P.implies(h.at(k) >= 0, lambda: P.eq(res[1].at(h.at(k)), res[1].at(k) - 1)), pattern=lambda k: h.at(k))))
        return out


# ---------------------------------------------------------------------------------------------- building the tree
WHICH = z3.Function('child_above', OBJ, OBJ, I)
DOTTED = z3.Function('contains_dot', OBJ, B)
MADE = z3.Function('made_at', OBJ, I)
PREFIX, LAST = z3.Function('prefix', OBJ, OBJ), z3.Function('last_part', OBJ, OBJ)


def below(c, n=None):
    """DESC(n, .) is the set of nodes at or below n; the subtrees of the children do not overlap"""
    b, j = z3.Const(c.fresh_name('b'), OBJ), z3.Int(c.fresh_name('j'))
    vs = [] if n is not None else [z3.Const(c.fresh_name('n'), OBJ)]
    a = n if n is not None else vs[0]
    d = DESC(a, b)
    w = WHICH(a, b)
    c.assume(z3.ForAll(vs + [b], z3.Implies(z3.And(d, b != a), z3.And(w >= 0, w < NCHILD(a), DESC(CHILD(a, w), b))), patterns=[d]))
    dj = DESC(CHILD(a, j), b)
    c.assume(z3.ForAll(vs + [b, j], z3.Implies(z3.And(j >= 0, j < NCHILD(a), dj), z3.And(d, w == j, b != a)), patterns=[dj]))
    if n is not None:
        c.assume(DESC(n, n))
    else:
        c.assume(z3.ForAll(vs, DESC(a, a), patterns=[NCHILD(a)]))


def registered(d, n):
    """every node at or below n is in the dictionary under its full name"""
    b = z3.Const(ctx().fresh_name('b'), OBJ)
    t = DESC(n, b)
    return SBool(z3.ForAll([b], z3.Implies(t, z3.And(z3.Select(d.mem, FULL(b)), z3.Select(d.val, FULL(b)) == b)), patterns=[t]))


def removed(new_, old, gone):
    """the dictionary lost exactly the nodes for which `gone` holds"""
    x = z3.Const(ctx().fresh_name('x'), OBJ)
    v = z3.Select(old.val, x)
    f = z3.And(z3.Select(new_.mem, x) == z3.And(z3.Select(old.mem, x), z3.Not(gone(v))))
    same = z3.And(z3.Select(new_.val, x) == v, z3.Select(new_.stamp, x) == z3.Select(old.stamp, x))
    return SBool(z3.And(z3.ForAll([x], f, patterns=[z3.Select(new_.mem, x)]), z3.ForAll([x], f, patterns=[z3.Select(old.mem, x)]) if z3.is_const(old.mem) else z3.BoolVal(True),
                        z3.ForAll([x], same, patterns=[z3.Select(new_.val, x)]), z3.ForAll([x], same, patterns=[z3.Select(new_.stamp, x)])))


def remove_contract(d, n):
    """the contract of _remove_node at a call"""
    c = ctx()
    c.prove('requires of _remove_node: the nodes below are registered', registered(d, n.z))
    old = d.frozen()
    d._wrote()
    d.havoc()
    c.assume(removed(d, old, lambda v: DESC(n.z, v)), d.clock == old.clock)


class RemoveNode(TreeGlue):
    name = 'ChoiceModel._remove_node'

    def stubs(self, c, w):
        return {':ChoiceModel._remove_node': lambda s, n: remove_contract(self.t.d, n)}

    def build(self, c, w):
        m = Model(c, w)
        self.t = Tree(c)
        m.obj._all_nodes = self.t.d
        self.n = node(c)
        below(c, self.n.z)
        c.assume(registered(self.t.d, self.n.z))
        self.old = self.t.d.frozen()
        return (m.obj, self.n), {}

    def modifies_objects(self): return [self.t.d]

    def extra(self, info, loop, env0, names, kinds):
        n = self.n.z
        yield 'the subtrees of the children seen so far are gone', lambda st, S: removed(self.t.d, self.old, lambda v: z3.And(DESC(n, v), v != n, WHICH(n, v) < zint(st.k)))

    def ensures(self, res, exc):
        return [('exactly the node and everything below it is gone', removed(self.t.d, self.old, lambda v: DESC(self.n.z, v)))]


def sub(parent, name):
    """the full name below a parent (the contract of full_name)"""
    return text([SVal(FULL(parent), NAME), '.', SVal(name, NAME)]).z


def strings(c):
    """what is known about names"""
    p, q, u, v = z3.Strings('p q u v')
    dot = z3.StringVal('.')
    c.lemma('lemma: a full name has one last part', z3.Implies(z3.And(z3.Not(z3.Contains(u, dot)), z3.Not(z3.Contains(v, dot)), z3.Concat(p, dot, u) == z3.Concat(q, dot, v)), z3.And(p == q, u == v)))
    c.lemma('lemma: a nested full name contains a dot', z3.Contains(z3.Concat(p, dot, u), dot))
    a, x = z3.Const(c.fresh_name('a'), OBJ), z3.Const(c.fresh_name('x'), OBJ)
    t = CONCAT(CONCAT(a, pyconst('.')), x)
    c.assume(z3.ForAll([a, x], z3.And(DOTTED(t), z3.Implies(z3.Not(DOTTED(x)), z3.And(PREFIX(t) == a, LAST(t) == x))), patterns=[t]))


class CreateNode(TreeGlue):
    name = 'ChoiceModel._create_node'
    raises = ('AssertionError', 'ValueError')

    def make(self, root, name, parent=None, logsum_scale=1.0, level=0):
        """the contract of ChoiceNode(...)"""
        c = ctx()
        if not bool(self.acceptable):
            raise AssertionError('refused')
        n = node(c, 'new')
        p = none() if parent is None else parent.z
        x = z3.Const(c.fresh_name('x'), OBJ)
        c.assume(NAMEF(n.z) == enc(name), PARENT(n.z) == p, SCALE(n.z) == num(logsum_scale), LEVELF(n.z) == zint(level), NCHILD(n.z) == 0,
                 FULL(n.z) == (enc(name) if parent is None else sub(p, enc(name))))
        old = self.old
        c.assume(z3.ForAll([x], z3.Implies(z3.Select(old.mem, x), z3.Select(old.val, x) != n.z), patterns=[z3.Select(old.val, x)]))
        self.made.append(n)
        c.prove('the node belongs to this model', SBool(z3.BoolVal(root is self.m.obj)))
        return n

    def stubs(self, c, w):
        def remove(s, n): remove_contract(self.t.d, n)
        return {':ChoiceModel._remove_node': remove, ':ChoiceNode': self.make}

    def build(self, c, w):
        self.m = m = Model(c, w)
        self.t = t = Tree(c)
        m.obj._all_nodes = t.d
        self.made = []
        strings(c)
        d = t.d
        self.acceptable = SBool(c.fresh('acceptable', B))
        self.nm = SVal(c.fresh('name', OBJ), NAME)
        c.assume(z3.Implies(self.acceptable.z, z3.Not(DOTTED(self.nm.z))))
        x, b = z3.Const(c.fresh_name('x'), OBJ), z3.Const(c.fresh_name('b'), OBJ)
        h, v = z3.Select(d.mem, x), z3.Select(d.val, x)
        # the tree as built so far: names without dots, full names, subtrees are closed, registered and lie below
        p = PARENT(v)
        f = z3.Implies(h, z3.And(z3.Not(DOTTED(NAMEF(v))), FULL(v) == z3.If(p == none(), NAMEF(v), sub(p, NAMEF(v)))))
        c.assume(z3.ForAll([x], f, patterns=[v]), z3.ForAll([x], f, patterns=[h]))
        dv = DESC(v, b)
        c.assume(z3.ForAll([x, b], z3.Implies(z3.And(h, dv), z3.And(z3.Select(d.mem, FULL(b)), z3.Select(d.val, FULL(b)) == b, LEVELF(b) >= LEVELF(v))), patterns=[dv]))
        c.assume(z3.ForAll([x], z3.Implies(h, DESC(v, v)), patterns=[v]))
        y = z3.Const(c.fresh_name('y'), OBJ)
        q = PARENT(z3.Select(d.val, y))
        c.assume(z3.ForAll([x, y], z3.Implies(z3.And(h, z3.Select(d.mem, y), q != none(), DESC(v, q)), DESC(v, z3.Select(d.val, y))), patterns=[DESC(v, q)]))
        self.top = MSet(name='top', typ=TREENODE, arbitrary=True)
        c.assume(z3.ForAll([x], z3.Implies(z3.And(h, p == none()), z3.Select(self.top.mem, v)), patterns=[v]))
        m.obj._top_nodes = self.top
        self.parent = None
        if c.choose('below a parent'):
            self.parent = node(c, 'parent')
            c.assume(z3.Select(d.mem, FULL(self.parent.z)), z3.Select(d.val, FULL(self.parent.z)) == self.parent.z)
        self.old, self.oldtop = d.frozen(), self.top.frozen()
        self.scale = ONum(c.fresh('scale', NUM))
        self.key = self.nm.z if self.parent is None else sub(self.parent.z, self.nm.z)
        return (m.obj, self.nm, self.scale), dict(parent=self.parent)

    def modifies_objects(self): return [self.t.d, self.top]

    def ensures(self, res, exc):
        d, o, key = self.t.d, self.old, self.key
        x = z3.Const('x', OBJ)
        if exc:
            return [('a refused choice changes nothing', SBool(z3.BoolVal(z3.eq(d.mem, o.mem) and z3.eq(d.val, o.val) and z3.eq(self.top.mem, self.oldtop.mem)))),
                    ('only unacceptable choices are refused', P.not_(self.acceptable))]
        was, oldnode = z3.Select(o.mem, key), z3.Select(o.val, key)
        h, v, s = z3.Select(d.mem, x), z3.Select(d.val, x), z3.Select(d.stamp, x)
        stay = z3.And(z3.Select(o.mem, x), z3.Not(z3.And(was, DESC(oldnode, z3.Select(o.val, x)))), x != key)
        p = PARENT(v)
        level = z3.IntVal(1) if self.parent is None else LEVELF(self.parent.z) + 1
        top = z3.Select(self.top.mem, x)
        out = [('one new node', SBool(z3.BoolVal(len(self.made) == 1 and res is self.made[0]))),
               ('name, scale and parent are as given, one level below the parent', SBool(z3.And(NAMEF(res.z) == self.nm.z, SCALE(res.z) == self.scale.z, PARENT(res.z) == (none() if self.parent is None else self.parent.z), LEVELF(res.z) == level))),
               ('it is registered by its full name', SBool(z3.And(z3.Select(d.mem, key), z3.Select(d.val, key) == res.z))),
               ('what was there under this name is gone with everything below it, the rest stays', SBool(z3.ForAll([x], h == z3.Or(x == key, stay), patterns=[h]))),
               ('the others keep their nodes and their order', SBool(z3.ForAll([x], z3.Implies(stay, z3.And(v == z3.Select(o.val, x), s == z3.Select(o.stamp, x))), patterns=[v]))),
               ('it comes last', SBool(z3.ForAll([x], z3.Implies(z3.And(h, x != key), s < z3.Select(d.stamp, key)), patterns=[h]))),
               ('nodes are registered by their full names with their parents', SBool(z3.ForAll([x], z3.Implies(h, z3.And(FULL(v) == x, z3.Implies(p != none(), z3.And(z3.Select(d.mem, FULL(p)), z3.Select(d.val, FULL(p)) == p, LEVELF(v) == LEVELF(p) + 1)))), patterns=[v]))),
               ('a replaced top-level choice is no longer one, the others are', SBool(z3.ForAll([x], top == z3.And(z3.Select(self.oldtop.mem, x), z3.Not(z3.And(z3.BoolVal(self.parent is None), was, x == oldnode))), patterns=[top])))]
        return out


class AddChoice(Glue):
    name = 'ChoiceModel.add_choice'

    def stubs(self, c, w):
        def create(s, name, logsum_scale, parent=None):
            self.calls.append((name, logsum_scale, parent))
            return self.n
        return {':ChoiceModel._create_node': create}

    def build(self, c, w):
        self.m, self.calls = Model(c, w), []
        self.top = MSet(name='top', typ=TREENODE, arbitrary=True)
        self.m.obj._top_nodes = self.top
        self.oldtop = self.top.frozen()
        self.n = node(c, 'new')
        self.nm, self.scale = SVal(c.fresh('name', OBJ), NAME), ONum(c.fresh('scale', NUM))
        if c.choose('choices are cached'):
            self.m.obj._cached_cols = SIndex.fresh('cached')
        return (self.m.obj, self.nm, self.scale), {}

    def modifies_objects(self): return [self.top]

    def ensures(self, res, exc):
        x = z3.Const('x', OBJ)
        t = z3.Select(self.top.mem, x)
        m = self.m.obj
        return [('the choice is created at the top', SBool(z3.BoolVal(len(self.calls) == 1 and self.calls[0][0] is self.nm and self.calls[0][1] is self.scale and self.calls[0][2] is None))),
                ('the new node is returned', SBool(z3.BoolVal(res is self.n))), ('it is a top-level choice, the others stay', SBool(z3.ForAll([x], t == z3.Or(x == self.n.z, z3.Select(self.oldtop.mem, x)), patterns=[t]))),
                ('what belongs to the previous choices is discarded', SBool(z3.BoolVal(m._cached_cols is None and m._cached_utils is None)))]


class AddNested(Glue):
    name, module = 'ChoiceNode.add_choice', 'cheval/api.py'

    def build(self, c, w):
        self.m, self.calls = Model(c, w), []
        con = self

        def create(s, name, logsum_scale, parent=None):
            con.calls.append((name, logsum_scale, parent))
            return con.n
        w.cls('ChoiceModel')._create_node = create
        if c.choose('choices are cached'):
            self.m.obj._cached_cols = SIndex.fresh('cached')
        self.ch = MDict(name='children', vtyp=TREENODE, arbitrary=True)
        self.old = self.ch.frozen()
        self.me = new(w.cls('ChoiceNode', 'cheval/api.py'), _root=self.m.obj, _children=self.ch, _name='nest', _parent=None, _level=1, _logsum_scale=1.0)
        self.n = node(c, 'new')
        self.nm, self.scale = SVal(c.fresh('name', OBJ), NAME), ONum(c.fresh('scale', NUM))
        return (self.me, self.nm, self.scale), {}

    def modifies_objects(self): return [self.ch]

    def ensures(self, res, exc):
        x = z3.Const('x', OBJ)
        d, o, m = self.ch, self.old, self.m.obj
        h, v = z3.Select(d.mem, x), z3.Select(d.val, x)
        f = z3.Implies(x != self.nm.z, z3.And(h == z3.Select(o.mem, x), v == z3.Select(o.val, x)))
        return [('the choice is created below this node', SBool(z3.BoolVal(len(self.calls) == 1 and self.calls[0][0] is self.nm and self.calls[0][1] is self.scale and self.calls[0][2] is self.me))),
                ('the new node is returned', SBool(z3.BoolVal(res is self.n))),
                ('it is the child of that name', SBool(z3.And(z3.Select(d.mem, self.nm.z), z3.Select(d.val, self.nm.z) == self.n.z))),
                ('the other children stay', SBool(z3.And(z3.ForAll([x], f, patterns=[h]), z3.ForAll([x], f, patterns=[v])))),
                ('what belongs to the previous choices is discarded', SBool(z3.BoolVal(m._cached_cols is None and m._cached_utils is None)))]


class AddChoices(Glue):
    """(the names of one call are different; a list and a one-shot iterable are both sequences here)"""
    name = 'ChoiceModel.add_choices'

    def stubs(self, c, w):
        def create(s, name, logsum_scale, parent=None):
            cc = ctx()
            cc.prove('the choice is created at the top', SBool(z3.BoolVal(parent is None)))
            n = node(cc, 'new')
            cc.assume(MADE(n.z) == zint(self.lnode.n))         # ghost: the number of the call (the node is new)
            self.lname.append(name), self.lscale.append(logsum_scale), self.lnode.append(n)
            return n
        return {':ChoiceModel._create_node': create}

    def build(self, c, w):
        self.m = Model(c, w)
        self.top = MSet(name='top', typ=TREENODE, arbitrary=True)
        self.m.obj._top_nodes = self.top
        self.oldtop = self.top.frozen()
        self.lname, self.lscale, self.lnode = MList(), MList(), MList()
        n = SInt(c.fresh('n', I))
        c.assume(n >= 0)
        a, b = c.fresh('names', z3.ArraySort(I, OBJ)), c.fresh('scales', z3.ArraySort(I, OBJ))
        where = c.fresh('where', z3.ArraySort(OBJ, I))
        k = z3.Int(c.fresh_name('k'))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zint(n)), z3.Select(where, z3.Select(a, k)) == k), patterns=[z3.Select(a, k)]))
        self.n, self.names = n, SSeq(n, lambda j: SVal(z3.Select(a, zint(j)), NAME))
        self.scales = None if c.choose('no scales') else SSeq(n, lambda j: SVal(z3.Select(b, zint(j))))
        if c.choose('choices are cached'):
            self.m.obj._cached_cols = SIndex.fresh('cached')
        return (self.m.obj, self.names), ({} if self.scales is None else dict(logsum_scales=self.scales))

    def modifies_objects(self): return [self.top, self.lname, self.lscale, self.lnode]

    def scale(self, j): return pyconst(1.0) if self.scales is None else self.scales.get(j).z

    def logged(self, l, k, want):
        if isinstance(l.xs, list):
            return P.and_(P.eq(len(l.xs), k), *[SBool(enc(x) == want(SInt(z3.IntVal(i)))) for i, x in enumerate(l.xs)])
        return P.and_(P.eq(l.n, k), P.forall(0, k, lambda j: SBool(enc(l.at(j)) == want(j)), pattern=lambda j: l.at(j)))

    def extra(self, info, loop, env0, names, kinds):
        yield 'the names so far', lambda st, S: self.logged(self.lname, st.k, lambda j: self.names.get(j).z)
        yield 'the scales so far', lambda st, S: self.logged(self.lscale, st.k, self.scale)
        yield 'the nodes so far', lambda st, S: P.eq(self.lnode.n, st.k)
        yield 'the nodes so far are top-level choices', lambda st, S: self.tops(st.k)
        for a, v in env0.items():
            if isinstance(v, MDict):
                yield '%s maps the names so far to the nodes' % a, lambda st, S, a=a: self.mapped(st[a], st.k)

    def tops(self, k):
        x = z3.Const(ctx().fresh_name('x'), OBJ)
        t = z3.Select(self.top.mem, x)
        new_ = z3.And(MADE(x) >= 0, MADE(x) < zint(k), enc(self.lnode.at(SInt(MADE(x)))) == x) if not isinstance(self.lnode.xs, list) else z3.Or([enc(y) == x for y in self.lnode.xs])
        f = t == z3.Or(z3.Select(self.oldtop.mem, x), new_)
        return SBool(z3.And(z3.ForAll([x], f, patterns=[t]), z3.ForAll([x], z3.Implies(z3.Select(self.oldtop.mem, x), t), patterns=[z3.Select(self.oldtop.mem, x)])))

    def mapped(self, d, k):
        if isinstance(self.lnode.xs, list):
            return P.eq(k, len(self.lnode.xs))
        return P.forall(0, k, lambda j: SBool(z3.And(z3.Select(d.mem, self.names.get(j).z), z3.Select(d.val, self.names.get(j).z) == enc(self.lnode.at(j)))), pattern=lambda j: self.names.get(j))

    def ensures(self, res, exc):
        m = self.m.obj
        return [('a choice for each name, in order', self.logged(self.lname, self.n, lambda j: self.names.get(j).z)), ('with its scale', self.logged(self.lscale, self.n, self.scale)),
                ('they are top-level choices, the others stay', self.tops(self.n)), ('the result maps names to their nodes', self.mapped(res, self.n)),
                ('what belongs to the previous choices is discarded', SBool(z3.BoolVal(m._cached_cols is None and m._cached_utils is None)))]


# ---------------------------------------------------------------------------------------------- a node
TOKEN = Typ('str', {'has': lambda v: lambda x: SBool(DOTTED(v.z)) if x == '.' else (_ for _ in ()).throw(Unsupported('%r in a name' % (x,))), 'isinstance': lambda v, t: True})


class NodeInit(Glue):
    name, module = 'ChoiceNode.__init__', 'cheval/api.py'
    raises = ('AssertionError', 'ValueError')

    def build(self, c, w):
        self.nm = SVal(c.fresh('name', OBJ), TOKEN)
        self.scale = SReal(c.fresh('scale', R))
        self.root, self.parent, self.level = SVal(c.fresh('root', OBJ)), None if c.choose('top') else node(c, 'parent'), SInt(c.fresh('level', I))
        self.me = new(w.cls('ChoiceNode', 'cheval/api.py'))
        return (self.me, self.root, self.nm), dict(parent=self.parent, logsum_scale=self.scale, level=self.level)

    def ensures(self, res, exc):
        good = SBool(z3.And(z3.Not(DOTTED(self.nm.z)), self.nm.z != pyconst('_'), self.scale.z > 0, self.scale.z <= 1))
        if exc:
            return [('only names with "." or "_" and scales outside of (0, 1] are refused', P.not_(good))]
        me = self.me
        return [('refused names and scales do not get through', good), ('the name is kept', me.name == self.nm), ('the scale is kept', P.eq(me.logsum_scale, self.scale)),
                ('parent, level and model are kept', P.and_(SBool(z3.BoolVal(me.parent is self.parent and me._root is self.root)), P.eq(me.level, self.level))),
                ('no children', P.eq(me.n_children, 0)), ('not a nest', SBool(zbool(P.not_(me.is_parent))))]


class ScaleSetter(Glue):
    name, module, setter = 'ChoiceNode.logsum_scale', 'cheval/api.py', True
    raises = ('AssertionError', 'ValueError')

    def build(self, c, w):
        self.old, self.v = SReal(c.fresh('old', R)), SReal(c.fresh('value', R))
        self.me = new(w.cls('ChoiceNode', 'cheval/api.py'), _logsum_scale=self.old)
        return (self.me, self.v), {}

    def ensures(self, res, exc):
        good = SBool(z3.And(self.v.z > 0, self.v.z <= 1))
        if exc:
            return [('only scales outside of (0, 1] are refused', P.not_(good)), ('the scale stays', P.eq(self.me.logsum_scale, self.old))]
        return [('scales outside of (0, 1] do not get through', good), ('the scale is set', P.eq(self.me.logsum_scale, self.v))]


class NodeViews(Glue):
    """name, parent, level, is_parent, n_children, children are the fields"""
    name, module = 'ChoiceNode.children', 'cheval/api.py'

    def build(self, c, w):
        self.ch = MDict(name='children', vtyp=TREENODE, arbitrary=True)
        self.parent, self.level, self.nm = node(c), SInt(c.fresh('level', I)), SVal(c.fresh('name', OBJ), NAME)
        self.me = new(w.cls('ChoiceNode', 'cheval/api.py'), _children=self.ch, _name=self.nm, _parent=self.parent, _level=self.level)
        return (self.me,), {}

    def ensures(self, res, exc):
        me, ch = self.me, self.ch
        s, v = seq(res), ch.values()
        return [('all children, in order', P.and_(P.eq(s.n, ch.sym_len()), P.forall(0, s.n, lambda k: s.get(k) == v.get(k), pattern=lambda k: s.get(k)))),
                ('their number', P.eq(me.n_children, ch.sym_len())), ('a nest has children', SBool(zbool(me.is_parent) == (zint(ch.sym_len()) > 0))),
                ('name, parent and level', SBool(z3.And(z3.BoolVal(me.name is self.nm and me.parent is self.parent), zint(me.level) == self.level.z)))]
