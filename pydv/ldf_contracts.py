"""Contracts of linked data frames (cheval/ldf/api.py)"""
import z3
from . import engine, poly as P
from .engine import *
from .arrays import *
from .obj import *
from .pdshim import FArr, farr, mask_of
from .glue import Glue
from .model_contracts import new
from .api_contracts import false
from .shim import Mod, Missing
from . import ldf_shim
from .ldf_shim import JIndex, INC, VArr, Positions, SeriesVal, ISNA, KEYS, q

true = lambda: SBool(z3.BoolVal(True))


class LDF(Glue):
    module = 'cheval/ldf/api.py'
    preload = ('cheval/ldf/constants.py', 'cheval/ldf/missing_data.py')

    def imports(self):
        d = ldf_shim.numpy()
        d.update(ldf_shim.pandas())
        return d

    def cls(self, name):
        ns = self.w.module(self.module)
        parts = name.split('.')
        x = ns[parts[0]]
        for p in parts[1:]:
            x = x.__dict__[p]
        return x


class MFrame(Proxy):
    """A frame of which only the identity and the index matter"""
    def __init__(self, name, index=None): self.name_, self.index = name, index
    def __repr__(self): return self.name_


LABELS = Typ('labels')


def link_keys(c, multi):
    return JIndex.fresh('self', multi), JIndex.fresh('other', multi)


def join_is_right(flat, mine, other, n=None):
    """flat[i] is the position of the entry of `other` whose key is that of row i, or -1"""
    c = ctx()
    i, j = q(c), q(c)
    f = zint(flat.at(SInt(i)))
    ini = z3.And(i >= 0, i < mine.n.z)
    sound = z3.ForAll([i], z3.Implies(ini, z3.And(f >= -1, f < other.n.z, z3.Implies(f >= 0, other.key(f) == mine.key(i)))))
    full = z3.ForAll([i, j], z3.Implies(z3.And(ini, j >= 0, j < other.n.z, other.key(j) == mine.key(i), z3.Not(INC(mine.key(i)))), f == j))
    return [('one entry for each row of the frame', P.eq(flat.shape[0], mine.n)),
            ('linked rows have equal keys, others are -1', SBool(sound)),
            ('rows whose complete keys are there are linked', SBool(full))]


def groups_are_right(flat, grouper, mine, other):
    c = ctx()
    i, j = q(c), q(c)
    f, g = zint(flat.at(SInt(i))), zint(grouper.at(SInt(j)))
    ini, inj = z3.And(i >= 0, i < mine.n.z), z3.And(j >= 0, j < other.n.z)
    return [('one entry for each row of the frame', P.eq(flat.shape[0], mine.n)),
            ('one group for each row of the target', P.eq(grouper.shape[0], other.n)),
            ('incomplete keys belong to no group', SBool(z3.ForAll([j], z3.Implies(z3.And(inj, INC(other.key(j))), g == -1)))),
            ('rows with complete keys belong to a group', SBool(z3.ForAll([j], z3.Implies(z3.And(inj, z3.Not(INC(other.key(j)))), g >= 0)))),
            ('a row is linked to the group of the rows with its key', SBool(z3.ForAll([i, j], z3.Implies(z3.And(ini, inj, other.key(j) == mine.key(i), z3.Not(INC(mine.key(i)))), f == g)))),
            ('the rows of the group have the key of the row', SBool(z3.ForAll([i, j], z3.Implies(z3.And(ini, inj, f >= 0, f == g), other.key(j) == mine.key(i))))),
            ('unlinked rows are -1, others are linked to a group with rows', SBool(z3.ForAll([i], z3.Implies(ini, z3.And(f >= -1, z3.Implies(f >= 0, z3.Not(INC(mine.key(i)))))))))]


class MakeIndexer(LDF):
    """_LinkMeta._make_indexer: the join. Without aggregation the keys of the target are unique."""
    name = '_LinkMeta._make_indexer'

    def build(self, c, w):
        self.mine, self.other = link_keys(c, c.choose('keys of several levels'))
        self.agg = c.choose('aggregation')
        if not self.agg:
            c.assume(zbool(self.other.is_unique))
        self.link = new(w.module(self.module)['_LinkMeta'], aggregation_required=self.agg, flat_indexer=None, other_grouper=None, _missing_indices=SVal(c.fresh('old', OBJ)),
                        owner=MFrame('owner'), other=MFrame('other'), _index_replaced=False)
        return (self.link, self.mine, self.other), {}

    def ensures(self, res, exc):
        s = self.link
        yield 'the missing rows are to be found again', false(s._missing_indices is None)
        if self.agg:
            yield from groups_are_right(s.flat_indexer, s.other_grouper, self.mine, self.other)
        else:
            yield from join_is_right(s.flat_indexer, self.mine, self.other)
        yield 'the rest of the link is kept', false(s.aggregation_required is self.agg and s.owner.name_ == 'owner' and s.other.name_ == 'other')


class DetermineAggregation(LDF):
    """aggregation is required exactly if several rows of the target have the same key; many-to-many links are refused"""
    name = '_LinkMeta._determine_aggregation'
    raises = ('RuntimeError',)

    def stubs(self, c, w):
        def get(meta, frame):
            if meta is self.m1 and frame is self.owner:
                return self.mine
            if meta is self.m2 and frame is self.target:
                return self.other
            raise Unsupported('keys of the wrong frame')

        def make(link, a, b):
            self.made.append((a, b, link.aggregation_required))
        return {'_IndexMeta.get_indexer': get, '_LinkMeta._make_indexer': make}

    def build(self, c, w):
        self.made = []
        self.mine, self.other = link_keys(c, False)
        ns = w.module(self.module)
        self.m1, self.m2 = new(ns['_IndexMeta']), new(ns['_IndexMeta'])
        self.owner, self.target = MFrame('owner'), MFrame('other')
        self.pre = SBool(c.fresh('precompute', B))
        self.link = new(ns['_LinkMeta'], owner=self.owner, other=self.target, self_meta=self.m1, other_meta=self.m2, aggregation_required=False, flat_indexer=None,
                        other_grouper=None, _missing_indices=None, _index_replaced=False, _other_has_links=False)
        return (self.link, self.pre), {}

    def ensures(self, res, exc):
        u, v = self.mine.is_unique, self.other.is_unique
        if exc is not None:
            yield 'only many-to-many links are refused', ~u & ~v
            return
        yield 'many-to-many links are refused', u | v
        flag = self.link.aggregation_required
        yield 'aggregation is required exactly if keys of the target repeat', SBool((zbool(flag) if isinstance(flag, Proxy) else z3.BoolVal(bool(flag))) == z3.Not(zbool(v)))
        if self.made:
            a, b, f = self.made[0]
            yield 'the join is made of the keys of both sides', false(len(self.made) == 1 and a is self.mine and b is self.other)
            yield 'the join knows whether to aggregate', false(f is self.link.aggregation_required)
        yield 'the join is made exactly on demand', SBool(zbool(self.pre) == z3.BoolVal(bool(self.made)))


class IndexerAndMissing(LDF):
    name = '_LinkMeta.indexer_and_missing'

    def stubs(self, c, w):
        def precompute(link):
            self.computed += 1
            link.flat_indexer = self.later
            link._missing_indices = None
        return {'_LinkMeta.precompute': precompute}

    def build(self, c, w):
        self.computed = 0
        n = SInt(c.fresh('rows', I))
        c.assume(n >= 0)
        self.flat, self.later = arr('flat', 'i', n), arr('later', 'i', n)
        self.made = c.choose('computed before')
        known = self.made and c.choose('missing rows are known')
        # invariant of the class: what is remembered about missing rows belongs to the indexer
        self.link = new(w.module(self.module)['_LinkMeta'], flat_indexer=self.flat if self.made else None, _missing_indices=Positions(farr(self.flat) == -1) if known else None,
                        owner=MFrame('owner'), other=MFrame('other'), aggregation_required=False, _index_replaced=False, other_grouper=None)
        return (self.link,), {}

    def ensures(self, res, exc):
        flat, missing = res
        yield 'computed exactly if it was not', false(self.computed == (0 if self.made else 1))
        yield 'the indexer', false(flat is (self.flat if self.made else self.later))
        yield 'the indexer is remembered', false(self.link.flat_indexer is flat)
        i, c = q(ctx()), ctx()
        f = zint(flat.at(SInt(i)))
        if not isinstance(missing, FArr):
            yield 'positions of the missing rows', false(False)
            return
        j = q(c)
        x = zint(missing.at(SInt(j)))
        yield 'missing rows are those that are not linked', SBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(flat.shape[0])), (missing.chosen(i) if hasattr(missing, 'chosen') else
                                                                  z3.Exists([j], z3.And(j >= 0, j < zint(missing.shape[0]), x == i))) == (f == -1))))
        yield 'they are remembered', false(self.link._missing_indices is missing)


class Precompute(LDF):
    name = '_LinkMeta.precompute'

    def stubs(self, c, w):
        return DetermineAggregation.stubs(self, c, w)

    def build(self, c, w):
        self.made = []
        self.mine, self.other = link_keys(c, False)
        ns = w.module(self.module)
        self.m1, self.m2 = new(ns['_IndexMeta']), new(ns['_IndexMeta'])
        self.index = JIndex.fresh('index', False)
        self.owner, self.target = MFrame('owner', self.index), MFrame('other')
        self.flag = SBool(c.fresh('aggregation', B))
        self.link = new(ns['_LinkMeta'], owner=self.owner, other=self.target, self_meta=self.m1, other_meta=self.m2, aggregation_required=self.flag, flat_indexer=arr('flat', 'i', self.mine.n),
                        other_grouper=None, _missing_indices=None, _index_replaced=True, _self_index=None, _other_has_links=False)
        return (self.link,), {}

    def ensures(self, res, exc):
        yield 'the join is made once, of the keys of both sides', false(len(self.made) == 1 and self.made[0][0] is self.mine and self.made[0][1] is self.other)
        yield 'it belongs to the row labels of the frame', false(self.link._self_index is self.index and self.link._index_replaced is False)
        yield 'whether to aggregate stays', false(self.link.aggregation_required is self.flag)


class LinkCopy(LDF):
    """_LinkMeta.copy(positions, owner): the link of a frame that consists of the rows at these positions"""
    name = '_LinkMeta.copy'

    def stubs(self, c, w):
        def precompute(link):
            self.computed += 1
            link.flat_indexer = self.later
            link._missing_indices = None
        return {'_LinkMeta.precompute': precompute, '_LinkMeta.index_replaced': lambda link: self.replaced}

    def build(self, c, w):
        self.computed = 0
        n = SInt(c.fresh('rows', I))
        m = SInt(c.fresh('selected', I))
        c.assume(n >= 0, m >= 0)
        self.n, self.m = n, m
        self.flat, self.later = arr('flat', 'i', n), arr('later', 'i', n)
        self.made = c.choose('computed before')
        self.missing = Positions(farr(self.flat) == -1) if self.made and c.choose('missing rows are known') else None
        self.grouper = arr('groups', 'i', SInt(c.fresh('other_rows', I))) if c.choose('groups') else None
        self.replaced = SBool(c.fresh('replaced', B))
        ns = w.module(self.module)
        self.m1, self.m2 = new(ns['_IndexMeta']), new(ns['_IndexMeta'])
        self.owner, self.target = MFrame('owner', JIndex.fresh('index', False)), MFrame('other')
        self.new_owner = MFrame('copy', JIndex.fresh('new_index', False)) if c.choose('owner given') else None
        self.agg, self.chained = SBool(c.fresh('aggregation', B)), SBool(c.fresh('chained', B))
        self.link = new(ns['_LinkMeta'], owner=self.owner, other=self.target, self_meta=self.m1, other_meta=self.m2, aggregation_required=self.agg, flat_indexer=self.flat if self.made else None,
                        other_grouper=self.grouper, _missing_indices=self.missing, _index_replaced=False, _self_index=self.owner.index, _other_has_links=self.chained)
        self.idx = None
        if c.choose('positions given'):
            self.idx = arr('positions', 'i', m)
            a = q(c)
            x = zint(self.idx.at(SInt(a)))
            c.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < m.z), z3.And(x >= 0, x < n.z)), patterns=[x]))
            self.at = self.idx.at
        elif c.choose('slice given'):
            self.idx = OpaqueSlice(n)
            self.m, self.at = self.idx.m, self.idx.src
        return (self.link,), dict(indices=self.idx, owner=self.new_owner)

    def ensures(self, res, exc):
        src = self.flat if self.made else self.later
        yield 'computed exactly if it was not', false(self.computed == (0 if self.made else 1))
        yield 'a new link', false(res is not self.link and type(res) is type(self.link))
        yield 'of the new owner to the same target by the same keys', false(res.owner is (self.owner if self.new_owner is None else self.new_owner) and res.other is self.target
                                                                           and res.self_meta is self.m1 and res.other_meta is self.m2)
        yield 'that aggregates like the original', false(res.aggregation_required is self.agg and res._other_has_links is self.chained)
        yield 'the groups of the target', false(res.other_grouper is self.grouper)
        yield 'whether the row labels were replaced', false(res._index_replaced is self.replaced)
        i = q(ctx())
        got = res.flat_indexer
        if self.idx is None:
            yield 'the same rows', P.and_(P.eq(got.shape[0], self.n), P.forall(0, self.n, lambda i: P.eq(got.at(i), src.at(i))))
        else:
            yield 'the rows at the positions', P.and_(P.eq(got.shape[0], self.m), P.forall(0, self.m, lambda i: P.eq(got.at(i), src.at(self.at(i)))))
        miss = res._missing_indices
        if miss is None:
            yield 'missing rows are found later', true()
        else:
            i = q(ctx())
            yield 'missing rows are those that are not linked', SBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(got.shape[0])), miss.chosen(i) == (zint(got.at(SInt(i))) == -1))))
        yield 'the original is kept', false(self.link.owner is self.owner and self.link.flat_indexer is src and self.link.other_grouper is self.grouper)


# ---------------------------------------------------------------------------------------------- lookups
FLAT = z3.Function('indexer_of', OBJ, z3.ArraySort(I, I))
ROWS = z3.Function('rows_of', OBJ, I)
TARGET = z3.Function('target_rows_of', OBJ, I)


def meta_typ(con):
    def both(x):
        z = x.z
        f = FArr((SInt(ROWS(z)),), lambda i: SInt(z3.Select(FLAT(z), zint(i))), 'i')
        return f, Positions(f == -1)
    return Typ('link', {'indexer_and_missing': both})


class ResolveHistory(LDF):
    """_BaseNode._resolve_history: row i of the result is the value at the position to which the links of the chain lead, one after
    the other, or the fill value if one of them leads nowhere"""
    name = 'LinkedDataFrame._BaseNode._resolve_history'
    helper = True

    def build(self, c, w):
        meta = meta_typ(self)
        h = c.fresh('history', KEYS)
        self.h = h
        K = c.fresh('links', I)
        self.K = K
        c.assume(K >= 1)
        self.cat = c.choose('Categorical')
        n = c.fresh('len', I)
        c.assume(n >= 0)
        a = c.fresh('column', KEYS)
        self.col = VArr(n, lambda i: z3.Select(a, i), 'categorical' if self.cat else 'ndarray')
        self.fill = SVal(c.fresh('fill', OBJ), Typ('fill', {'isinstance': lambda x, t: c.choose('the fill value is a number')}))
        self.index = JIndex.fresh('root', False)
        # the links fit to each other: each leads to the rows of the one before it, the first to the column
        k, i = q(c), q(c)
        hk = z3.Select(h, k)
        f = z3.Select(FLAT(hk), i)
        self.RR = c.fresh('R', z3.ArraySort(I, I))
        rk = z3.Select(self.RR, k)
        c.assume(z3.Select(self.RR, 0) == n, z3.Select(self.RR, K) == self.index.n.z)
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < K), z3.And(rk >= 0, TARGET(hk) == rk, ROWS(hk) == z3.Select(self.RR, k + 1))), patterns=[hk]))
        c.assume(z3.ForAll([k, i], z3.Implies(z3.And(k >= 0, k < K, i >= 0, i < ROWS(hk)), z3.And(f >= -1, f < TARGET(hk))), patterns=[f]))
        # ghost: V(k, i): value at row i of the frame that owns the k-th link
        self.V = c.fresh('V', z3.ArraySort(I, KEYS))
        c.assume(z3.ForAll([i], z3.Select(z3.Select(self.V, 0), i) == z3.Select(a, i), patterns=[z3.Select(z3.Select(self.V, 0), i)]))
        self.node = new(self.cls('LinkedDataFrame._BaseNode'), _root_index=self.index, _history=MList(SSeq(SInt(K), lambda j: SVal(z3.Select(h, zint(j)), meta))))
        self.node._history.readonly = True
        return (self.node, self.col, self.fill), {}

    def instances(self, k):
        """definition of V at k -> k + 1"""
        c = ctx()
        k, i = zint(k), q(c)
        hk = z3.Select(self.h, k)
        v, v1 = z3.Select(self.V, k), z3.Select(self.V, k + 1)
        f = z3.Select(FLAT(hk), i)
        c.assume(z3.Implies(k < self.K, z3.ForAll([i], z3.Select(v1, i) == z3.If(f == -1, self.fill.z, z3.Select(v, f)), patterns=[z3.Select(v1, i)])))

    def extra(self, info, loop, env0, names, kinds):
        for a in names:
            if kinds[a] == 'V':
                yield '%s holds the values at the rows of the owner of the k-th link' % a, lambda st, S, a=a: self.values(st[a], st.k)

    def values(self, v, k):
        return P.and_(SBool(v.n.z == z3.Select(self.RR, zint(k))), P.forall(0, v.n, lambda i: SBool(v.f(zint(i)) == z3.Select(z3.Select(self.V, zint(k)), zint(i)))))

    def ensures(self, res, exc):
        v = res.data
        yield 'a Series with the row labels of the frame', false(isinstance(res, SeriesVal) and res.index is self.index)
        yield 'the values to which the chain leads', self.values(v, self.K)
        yield 'one value for each row', P.eq(v.n, self.index.n)


# ---------------------------------------------------------------------------------------------- nodes
class Rec:
    """a call that is recorded"""
    def __init__(self, *a): self.args = a


CHAINED, AGGREGATED = z3.Function('leads_to_linked_frame', OBJ, B), z3.Function('needs_aggregation', OBJ, B)
FILL_OF, CLASS_FILL, COLUMN_OF = z3.Function('fill_of', OBJ, OBJ, OBJ), z3.Function('class_fill', OBJ, OBJ), z3.Function('column', OBJ, OBJ)
LINKED = Typ('link', {'aggregation_required': lambda x: SBool(AGGREGATED(x.z)), 'chained': lambda x: SBool(CHAINED(x.z))})
SERIES = Typ('series')


class Target(Proxy):
    """the frame that a chain leads to"""
    def __init__(self, c, linked):
        self.links = MDict(name='links', vtyp=LINKED, arbitrary=True)
        self.links.readonly = True
        self.linked = linked

    def _has_link(self, x): return self.links.has(x)
    def _get_link(self, x): return self.links[x]
    def __getitem__(self, x): return SVal(COLUMN_OF(enc(x)), SERIES)
    def _get_fill(self, s, name): return SVal(FILL_OF(s.z, enc(name)))
    columns = property(lambda self: Unsupported('columns'))


class NodeContract(LDF):
    node = None
    linked = False

    def stubs(self, c, w):
        def resolve(node, values, fill):
            return Rec(node, values, fill)
        return {'LinkedDataFrame._get_class_fill': lambda s: SVal(CLASS_FILL(s.z)), ':to_numpy': lambda s: ('values', s),
                'LinkedDataFrame._BaseNode._resolve_history': resolve}

    def build(self, c, w):
        self.target = Target(c, self.linked)
        self.item = SVal(c.fresh('item', OBJ), NAME)
        top = new(w.module(self.module)['_LinkMeta'], other=self.target, _other_has_links=self.linked, aggregation_required=False)
        self.top = top
        rest = MList([top] + [new(w.module(self.module)['_LinkMeta']) for _ in range(1 if c.choose('longer history') else 0)])
        rest.readonly = True
        self.history, self.before = rest, list(rest.xs)
        self.index = JIndex.fresh('root', False)
        self.obj = new(self.cls('LinkedDataFrame.' + self.node), _root_index=self.index, _history=rest)
        return (self.obj, self.item), {}

    def column(self, res, fill):
        col = SVal(COLUMN_OF(self.item.z), SERIES)
        if not isinstance(res, Rec):
            return false(False)
        node, values, f = res.args
        return P.and_(false(node is self.obj and isinstance(values, tuple) and values[0] == 'values'), SBool(values[1].z == col.z), SBool(f.z == fill(col)))


class LeafGetitem(NodeContract):
    """a column of a plain frame, with the fill value of the class, along the links of the chain"""
    name, node = 'LinkedDataFrame._LinkLeaf.__getitem__', '_LinkLeaf'

    def ensures(self, res, exc):
        yield 'the column along the chain, with the fill value of the class for its type', self.column(res, lambda col: CLASS_FILL(col.z))


class NodeGetitem(NodeContract):
    """a link of the target extends the chain at its far end; otherwise the column with the fill value of the target"""
    name, node, linked = 'LinkedDataFrame._LinkNode.__getitem__', '_LinkNode', True

    def ensures(self, res, exc):
        is_link = zbool(self.target.links.has(self.item))
        if isinstance(res, Rec):
            yield 'only columns are resolved', SBool(z3.Not(is_link))
            yield 'the column along the chain, with the fill value of the target', self.column(res, lambda col: FILL_OF(col.z, self.item.z))
            return
        yield 'links come first', SBool(is_link)
        link = self.target.links.get_z(self.item)
        want = {'_LeafAggregation': AGGREGATED(link), '_LinkNode': z3.And(z3.Not(AGGREGATED(link)), CHAINED(link)), '_LinkLeaf': z3.And(z3.Not(AGGREGATED(link)), z3.Not(CHAINED(link)))}
        yield 'the kind of node that the link asks for', SBool(want.get(type(res).__name__, z3.BoolVal(False)))
        h = res._history
        xs = list(h.xs) if isinstance(h.xs, list) else []
        yield 'a history of its own', false(h is not self.history and res is not self.obj)
        yield 'the link, then the links of the chain so far', P.and_(false(len(xs) == 1 + len(self.before) and all(a is b for a, b in zip(xs[1:], self.before))), SBool(enc(xs[0]) == link) if xs else false(False))
        yield 'for the rows of the same frame', false(res._root_index is self.index)


class InitLink(NodeContract):
    """frame[name of a link]"""
    name = 'LinkedDataFrame._init_link'
    helper = True

    def build(self, c, w):
        self.links = MDict(name='links', vtyp=LINKED, arbitrary=True)
        self.links.readonly = True
        self.item = SVal(c.fresh('item', OBJ), NAME)
        c.assume(zbool(self.links.has(self.item)))
        self.index = JIndex.fresh('root', False)
        self.frame = new(self.cls('LinkedDataFrame'), _links=self.links, index=self.index)
        return (self.frame, self.item), {}

    def ensures(self, res, exc):
        link = self.links.get_z(self.item)
        want = {'_LeafAggregation': AGGREGATED(link), '_LinkNode': z3.And(z3.Not(AGGREGATED(link)), CHAINED(link)), '_LinkLeaf': z3.And(z3.Not(AGGREGATED(link)), z3.Not(CHAINED(link)))}
        yield 'the kind of node that the link asks for', SBool(want.get(type(res).__name__, z3.BoolVal(False)))
        xs = list(res._history.xs) if isinstance(res._history.xs, list) else []
        yield 'a chain of this link', P.and_(false(len(xs) == 1), SBool(enc(xs[0]) == link) if xs else false(False))
        yield 'for the rows of the frame', false(res._root_index is self.index)


# ---------------------------------------------------------------------------------------------- aggregation
AGG = z3.Function('aggregate_of_group', OBJ, OBJ, OBJ, I, OBJ)     # rows' values, function, groups of the rows, group
EVALUATED, EVAL_FAILS = z3.Function('evaluated', OBJ, OBJ), z3.Function('attribute_error', OBJ, B)


class Grouped:
    def __init__(self, series, grouper): self.series, self.grouper = series, grouper


class Aggregate(LDF):
    """_Aggregator.__call__: element g of what is resolved along the chain is the aggregate of the rows of group g"""
    name = 'LinkedDataFrame._LeafAggregation._Aggregator.__call__'
    raises = ('RuntimeError', 'NotImplementedError')

    def stubs(self, c, w):
        md = w.module('cheval/ldf/missing_data.py')
        self.types = list(md['PandasDtype'])

        def infer(s):
            for t in self.types:
                if c.choose('the values are of type %s' % t.name):
                    self.dtype = t
                    return t
            raise PathEnd
        return {':infer_dtype': infer, ':to_numpy': self.numpy, 'LinkedDataFrame._BaseNode._resolve_history': lambda node, values, fill: Rec(node, values, fill), '_LinkMeta.precompute': lambda link: self.precompute(link)}

    def numpy(self, r):
        if not isinstance(r, tuple) or r[0] != 'reindexed':
            raise Unsupported('to_numpy(%r)' % (r,))
        return r

    def precompute(self, link):
        self.computed += 1
        link.flat_indexer, link.other_grouper = self.flat, self.groups

    def build(self, c, w):
        self.computed, self.dtype = 0, None
        n = SInt(c.fresh('rows', I))
        c.assume(n >= 0)
        self.rows = n
        self.flat, self.groups = arr('flat', 'i', SInt(c.fresh('own_rows', I))), arr('groups', 'i', n)
        j = q(c)
        g = zint(self.groups.at(SInt(j)))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n.z), g >= -1), patterns=[g]))
        self.made = c.choose('computed before')
        con = self

        def getattr_(grouped, name):
            return lambda **kw: con.apply(grouped, name, kw)
        self.GROUPED = Typ('grouped', {'getattr': getattr_})
        self.SERIES = Typ('series', {'isinstance': lambda x, t: True, 'groupby': lambda x: lambda by: con.groupby(x, by)})
        self.RAW = Typ('array', {'isinstance': lambda x, t: False})
        self.target = new(type('Frame', (), {}))
        T = type(self.target)
        self.columns = MSet(name='columns', arbitrary=True)
        T.columns = property(lambda f: self.columns)
        T.index = property(lambda f: 'the index of the target')
        T.__getitem__ = lambda f, x: SVal(COLUMN_OF(enc(x)), self.SERIES)

        def evaluate(f, e):
            if bool(SBool(EVAL_FAILS(enc(e)))):
                raise AttributeError
            return SVal(EVALUATED(enc(e)), self.SERIES if c.choose('evaluates to a Series') else self.RAW)
        T.evaluate = evaluate
        T.eval = lambda f, e: SVal(EVALUATED(enc(e)), self.SERIES if c.choose('evaluates to a Series') else self.RAW)
        self.link = new(w.module(self.module)['_LinkMeta'], other=self.target, flat_indexer=self.flat if self.made else None, other_grouper=self.groups if self.made else None, aggregation_required=True)
        self.owner = new(self.cls('LinkedDataFrame._LeafAggregation'), _root_index=JIndex.fresh('root', False), _history=MList([self.link]))
        self.func = SVal(c.fresh('function', OBJ), NAME)
        self.nonnumeric = SBool(c.fresh('allowed_for_any_type', B))
        self.agg = new(self.cls('LinkedDataFrame._LeafAggregation._Aggregator'), _func_name=self.func, _owner=self.owner, _allow_nonnumeric=self.nonnumeric)
        self.expr = SVal(c.fresh('expression', OBJ), NAME)
        self.fill = SVal(c.fresh('int_fill', OBJ))
        ns = w.module(self.module)
        ns['pd'].Series = lambda v, index=None: SVal(enc(v), self.SERIES) if index == 'the index of the target' else Unsupported('Series')
        return (self.agg, self.expr), dict(int_fill=self.fill)

    def groupby(self, s, by):
        if not (isinstance(by, SArr) and by is self.groups):
            raise Unsupported('grouped by %r' % (by,))
        self.grouped = s
        return SVal(s.z, self.GROUPED)

    def apply(self, grouped, name, kw):
        if kw:
            raise Unsupported('arguments')
        con = self

        class Result(Proxy):
            def reindex(self, to):
                to = farr(to)
                return ('reindexed', grouped, name, to)
        return Result()

    def ensures(self, res, exc):
        e = self.expr.z
        numeric = self.dtype is not None and self.dtype.name in ('INT_NAME', 'UINT_NAME', 'FLOAT_NAME', 'BOOL_NAME')
        time = self.dtype is not None and self.dtype.name == 'TIME_NAME'
        refused = z3.And(z3.BoolVal(not numeric), z3.Not(self.nonnumeric.z))
        if exc == 'RuntimeError':
            yield 'only refused where the function is not defined', SBool(refused)
            return
        yield 'refused where the function is not defined', SBool(z3.Or(z3.Not(refused), z3.BoolVal(exc == 'NotImplementedError' and time)))
        if exc == 'NotImplementedError':
            yield 'dates are not aggregated', false(time)
            return
        yield 'dates are refused', false(not time)
        yield 'joined first, if that is to be done', false(self.computed == (0 if self.made else 1))
        if not isinstance(res, Rec):
            yield 'the result along the chain', false(False)
            return
        node, (_, grouped, name, to), fill = res.args
        yield 'along the chain of the node', false(node is self.owner)
        yield 'of the column, or of the evaluated expression', SBool(grouped.z == z3.If(z3.Select(self.columns.mem, e), COLUMN_OF(e), EVALUATED(e)))
        yield 'by the function', SBool(name.z == self.func.z)
        i, j = q(ctx()), q(ctx())
        g = zint(self.groups.at(SInt(j)))
        yield 'element g belongs to group g', SBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(to.shape[0])), zint(to.at(SInt(i))) == i)))
        yield 'there is an element for each group', SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.rows.z), g < zint(to.shape[0]))))
        if self.dtype.name in ('INT_NAME', 'UINT_NAME', 'BOOL_NAME'):
            yield 'rows without partner have int_fill', false(fill is self.fill)
        else:
            yield 'rows without partner have NaN', false(isinstance(fill, float) and fill != fill)


# ---------------------------------------------------------------------------------------------- making links
LNAME = Typ('str', {'isidentifier': lambda x: lambda: SBool(IDENT(x.z))})
IDENT = z3.Function('is_identifier', OBJ, B)


class LinkTo(LDF):
    """which keys the link is made of, where it is put, and what it answers"""
    name = 'LinkedDataFrame.link_to'
    raises = ('LinkageSpecificationError', 'NotImplementedError')

    def stubs(self, c, w):
        def create(*a, **k):
            names = ('owner', 'other', 'self_labels', 'self_from_row_labels', 'other_labels', 'other_from_row_labels', 'precompute')
            self.created.append(dict(zip(names, a), **k))
            return self.link
        return {'_LinkMeta.create': create, 'LinkedDataFrame.__getattr__': no_attribute}

    def build(self, c, w):
        self.created = []
        self.links = MDict(name='links', vtyp=LINKED, arbitrary=True)
        self.ident = MSet(name='identified', arbitrary=True)
        self.old, self.old_ident = self.links.frozen(), self.ident.frozen()
        self.frame = new(self.cls('LinkedDataFrame'), _links=self.links, _identified_links=self.ident)
        self.nlevels = SInt(c.fresh('nlevels', I))
        self.other = new(type('F', (), {}), columns=new(type('C', (), {}), nlevels=self.nlevels))
        self.given = {k: SVal(c.fresh(k, OBJ)) if c.choose(k) else None for k in ('on', 'levels', 'on_self', 'on_other', 'self_levels', 'other_levels')}
        self.nme = SVal(c.fresh('name', OBJ), LNAME)
        self.pre = SBool(c.fresh('precompute', B))
        self.link = SVal(c.fresh('link', OBJ), LINKED)
        return (self.frame, self.other, self.nme), dict(self.given, precompute=self.pre)

    def modifies_objects(self): return self.links, self.ident

    def sides(self):
        g = self.given
        on_self, on_other = (g['on'], g['on']) if g['on'] is not None else (g['on_self'], g['on_other'])
        lv_self, lv_other = (g['levels'], g['levels']) if g['levels'] is not None else (g['self_levels'], g['other_levels'])
        bad = g['on'] is not None and g['levels'] is not None or on_self is not None and lv_self is not None or on_other is not None and lv_other is not None
        return bad, (on_self, lv_self), (on_other, lv_other)

    def ensures(self, res, exc):
        bad, mine, theirs = self.sides()
        deep = self.nlevels != 1
        if exc == 'NotImplementedError':
            yield 'only frames with columns of several levels are refused', deep
        elif exc == 'LinkageSpecificationError':
            yield 'only contradictory specifications are refused', false(bad)
        if exc is not None:
            x = z3.Const('x', OBJ)
            yield 'nothing changes', SBool(z3.ForAll([x], z3.And(z3.Select(self.links.mem, x) == z3.Select(self.old.mem, x), z3.Select(self.links.val, x) == z3.Select(self.old.val, x), z3.Select(self.ident.mem, x) == z3.Select(self.old_ident.mem, x))))
            return
        yield 'contradictory specifications are refused', P.and_(false(not bad), ~deep)
        if bad:
            return
        yield 'one link is made', false(len(self.created) == 1)
        a = self.created[0]
        yield 'from the frame to the other one', false(a['owner'] is self.frame and a['other'] is self.other and a.get('precompute', True) is self.pre)
        for side, (col, lev) in (('self', mine), ('other', theirs)):
            labels, rows = a[side + '_labels'], a[side + '_from_row_labels']
            want = lev if lev is not None else col
            yield 'by the keys given for %s' % side, false(labels is want and (want is None or bool(rows) == (lev is not None)))
        x = z3.Const('x', OBJ)
        is_new = x == self.nme.z
        yield 'the link has the name, other links are kept', SBool(z3.ForAll([x], z3.And(z3.Select(self.links.mem, x) == z3.Or(is_new, z3.Select(self.old.mem, x)),
                                                                           z3.Select(self.links.val, x) == z3.If(is_new, self.link.z, z3.Select(self.old.val, x)))))
        yield 'names that are identifiers become attributes', SBool(z3.ForAll([x], z3.Select(self.ident.mem, x) == z3.Or(z3.And(is_new, IDENT(self.nme.z)), z3.Select(self.old_ident.mem, x))))
        flags = self.w.module('cheval/ldf/constants.py')['LinkAggregationRequired']
        yield 'it answers whether to aggregate', SBool(z3.BoolVal(res is flags.YES) == AGGREGATED(self.link.z)) if res in (flags.YES, flags.NO) else false(False)


def no_attribute(frame, item):
    raise AttributeError(item)


class LinkCreate(LDF):
    name = '_LinkMeta.create'
    raises = ('AssertionError',)

    def stubs(self, c, w):
        return {'_LinkMeta._determine_aggregation': lambda link, pre: self.calls.append((link, pre))}

    def side(self, c, w, name):
        index = new(type('Ix', (), {}), nlevels=SInt(c.fresh(name + '_levels', I)))
        kind = 'none' if c.choose(name + ': the index') else 'one' if c.choose(name + ': one label') else 'list'
        labels = None if kind == 'none' else SVal(c.fresh(name + '_label', OBJ), NAME) if kind == 'one' else MList(self.seq(c, name))
        rows = SBool(c.fresh(name + '_from_rows', B))
        n = index.nlevels if kind == 'none' else SInt(1) if kind == 'one' else labels.n
        return kind, labels, rows, n, index

    def seq(self, c, name):
        n, a = c.fresh('n_' + name, I), c.fresh(name + '_labels', KEYS)
        c.assume(n >= 0)
        return SSeq(SInt(n), lambda j: SVal(z3.Select(a, zint(j)), NAME))

    def build(self, c, w):
        self.calls = []
        LDF_ = self.cls('LinkedDataFrame')
        self.mine, self.theirs = self.side(c, w, 'self'), self.side(c, w, 'other')
        self.linked = c.choose('the other frame has links')
        w.module(self.module)['LinkedDataFrame'].__getattr__ = no_attribute
        self.owner = new(LDF_, index=self.mine[4])
        self.other = new(LDF_ if self.linked else type('F', (), {}), index=self.theirs[4])
        self.pre = SBool(c.fresh('precompute', B))
        return (self.owner, self.other, self.mine[1], self.mine[2], self.theirs[1], self.theirs[2]), dict(precompute=self.pre)

    def ensures(self, res, exc):
        same = P.eq(self.mine[3], self.theirs[3])
        if exc is not None:
            yield 'only keys of different lengths are refused', ~same
            return
        yield 'keys of different lengths are refused', same
        yield 'a link between the frames', false(res.owner is self.owner and res.other is self.other and res._other_has_links == self.linked)
        yield 'with nothing known yet', false(res.flat_indexer is None and res.other_grouper is None and res._missing_indices is None and res._index_replaced is False and res._self_index is self.owner.index)
        yield 'that finds out whether to aggregate', false(len(self.calls) == 1 and self.calls[0][0] is res and self.calls[0][1] is self.pre)
        for meta, (kind, labels, rows, n, index) in ((res.self_meta, self.mine), (res.other_meta, self.theirs)):
            if kind == 'none':
                yield 'the row labels', false(meta.labels is None and meta.from_row_labels is True)
            else:
                yield 'labels of rows or columns', false(meta.from_row_labels is rows)
                if kind == 'one':
                    got = meta.labels
                    yield 'one label', false(isinstance(got, MList) and isinstance(got.xs, list) and len(got.xs) == 1 and got.xs[0] is labels)
                else:
                    yield 'the labels in order', P.and_(P.eq(meta.labels.n, labels.n), P.forall(0, labels.n, lambda j: SBool(meta.labels.at(j).z == labels.at(j).z)))


KEYVALUES = z3.Function('values_of_key', OBJ, OBJ)


class GetIndexer(LinkCreate):
    """the keys of one side, in the order of the labels"""
    name = '_IndexMeta.get_indexer'
    raises = ('LinkageSpecificationError',)

    def stubs(self, c, w): return {':to_numpy': lambda s: s}

    def build(self, c, w):
        self.there = MSet(name='there', arbitrary=True)
        self.there.readonly = True
        con = self

        class Ix:
            nlevels = SInt(c.fresh('nlevels', I))

            def get_level_values(self, x):
                if not con.rows:
                    raise Unsupported('labels of rows instead of columns')
                if not bool(con.there.has(x)):
                    raise KeyError(x)
                return SVal(KEYVALUES(x.z))

        class F(Proxy):
            index = Ix()

            def __getitem__(self, x):
                if con.rows:
                    raise Unsupported('columns instead of labels of rows')
                if not bool(con.there.has(x)):
                    raise KeyError(x)
                return SVal(KEYVALUES(x.z))

            def has(self, x): return con.there.has(x)
            def __contains__(self, x): return bool(con.there.has(x))
        self.frame = F()
        self.kind, self.labels = 'none', None
        self.rows = c.choose('labels of rows')
        if not c.choose('the index itself'):
            self.labels = MList(self.seq(c, 'self'))
            self.labels.readonly = True
            c.assume(self.labels.n >= 1)
        elif not self.rows:
            raise PathEnd
        ns = w.module(self.module)
        ns['Index'] = lambda a, name=None: ('one', a, name)
        ns['MultiIndex'] = new(type('M', (), {}), from_arrays=lambda a, names=None: ('several', a, names))
        self.meta = new(ns['_IndexMeta'], labels=self.labels, from_row_labels=self.rows)
        return (self.meta, self.frame), {}

    def val(self, j): return KEYVALUES(self.labels.at(j).z)

    def extra(self, info, loop, env0, names, kinds):
        for a in names:
            if kinds[a] == 'L':
                yield 'len(%s) == k' % a, lambda st, S, a=a: P.eq(st[a].n, st.k)
                yield '%s holds the keys seen so far' % a, lambda st, S, a=a: P.forall(0, st.k, lambda j: SBool(enc(st[a].at(j)) == self.val(j))) if not isinstance(st[a].xs, list) or st[a].xs else P.eq(st.k, 0)
        yield 'the labels seen so far are there', lambda st, S: P.forall(0, st.k, lambda j: self.there.has(self.labels.at(j)))

    def ensures(self, res, exc):
        if self.labels is None:
            yield 'the index', false(exc is None and res is self.frame.index)
            return
        n = self.labels.n
        ok = P.forall(0, n, lambda j: self.there.has(self.labels.at(j)))
        if self.rows:
            ok = P.and_(ok, n <= self.frame.index.nlevels)
        if exc is not None:
            yield 'only refused if a label is not there', ~ok
            return
        yield 'refused if a label is not there', ok
        kind, arrays, names = res
        if kind == 'one':
            yield 'one key', P.and_(P.eq(n, 1), SBool(enc(arrays) == self.val(SInt(0))), SBool(enc(names) == self.labels.at(SInt(0)).z))
        else:
            yield 'the keys in the order of the labels', P.and_(~P.eq(n, 1), P.eq(arrays.n, n), P.forall(0, n, lambda j: SBool(enc(arrays.at(j)) == self.val(j))))
            yield 'named by the labels', P.and_(P.eq(names.n, n), P.forall(0, n, lambda j: SBool(names.at(j).z == self.labels.at(j).z)))


class IndexReplaced(LDF):
    name = '_LinkMeta.index_replaced'

    def build(self, c, w):
        self.flag = SBool(c.fresh('replaced', B))
        self.a = JIndex.fresh('index', False)
        self.b = self.a if c.choose('same index') else JIndex.fresh('own', False)
        self.link = new(w.module(self.module)['_LinkMeta'], owner=MFrame('owner', self.b), _self_index=self.a, _index_replaced=self.flag)
        return (self.link,), {}

    def ensures(self, res, exc):
        r = zbool(res) if isinstance(res, Proxy) else z3.BoolVal(bool(res))
        i = q(ctx())
        same = z3.And(self.a.n.z == self.b.n.z, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.a.n.z), self.a.key(i) == self.b.key(i))))
        yield 'replaced before, or other row labels now', SBool(r == z3.Or(self.flag.z, z3.Not(same)))


# ---------------------------------------------------------------------------------------------- rows of linked frames
COPYL, METAL = z3.Function('link_copied', OBJ, OBJ), z3.Function('link_made_anew', OBJ, OBJ)
FROMROWS, AVAILABLE, REPLACED = (z3.Function(n, OBJ, B) for n in ('from_row_labels', 'keys_available', 'row_labels_replaced'))
LABELS = z3.Function('labels', OBJ, OBJ)


def NOLABELS(x): return LABELS(x) == pyconst(None)
def label_of(x): return SVal(LABELS(x.z), Typ('labels', {'optional': True}))


class Links:
    """an LinkedDataFrame of which the links matter"""
    def __init__(self, con, c, cls, name, index=None, empty=False):
        link = Typ('link', {'copy': lambda x: lambda indices=None, owner=None: con.copied_link(x, indices, owner), 'copy_meta': lambda x: lambda owner=None: con.copied_meta(x, owner),
                            'index_replaced': lambda x: SBool(REPLACED(x.z)),
                            'self_meta': lambda x: SVal(x.z, Typ('meta', {'labels': label_of, 'from_row_labels': lambda y: SBool(FROMROWS(y.z)), 'available_in': lambda y: lambda f: con.available(y, f)}))})
        self.links = MDict(name=name + '_links', vtyp=link, arbitrary=not empty)
        self.ident = MSet(name=name + '_identified', arbitrary=not empty)
        self.frame = new(cls, _links=self.links, _identified_links=self.ident, index=index, con=con, sym_len=lambda: index.n)
        self.old, self.old_ident = self.links.frozen(), self.ident.frozen()


class Rows(LDF):
    empty = False

    def stubs(self, c, w): return {'LinkedDataFrame.__getattr__': no_attribute}

    def two(self, c, w, same=False):
        cls = self.cls('LinkedDataFrame')
        a = JIndex.fresh('index', False)
        b = a if same else JIndex.fresh('own', False)
        b.range_type = False if same else c.choose('the row labels count the rows')
        self.parent = Links(self, c, cls, 'parent', a)
        self.target = Links(self, c, cls, 'own', b, self.empty)
        self.parent.links.readonly = self.parent.ident.readonly = True

    def copied_link(self, x, indices, owner):
        if owner is not self.target.frame or indices is not self.idx:
            ctx().fail('ensures the copies are those of the given rows for the new frame', 'other rows or another owner')
        return SVal(COPYL(x.z), LINKED)

    def copied_meta(self, x, owner):
        if owner is not self.target.frame:
            ctx().fail('ensures the new links belong to the new frame', 'another owner')
        return SVal(METAL(x.z), LINKED)

    def available(self, x, f):
        if f is not self.target.frame:
            ctx().fail('ensures the keys are looked for in the new frame', 'another frame')
        return SBool(AVAILABLE(x.z))

    def modifies_objects(self): return self.target.links, self.target.ident


class InheritLinks(Rows):
    """all links of the parent, restricted to the rows at the given positions"""
    name = 'LinkedDataFrame._LinkedDataFrame__inherit_links'
    helper = True

    def build(self, c, w):
        self.two(c, w)
        self.idx = None if c.choose('all rows') else arr('positions', 'i', SInt(c.fresh('n', I)))
        return (self.target.frame, self.parent.frame) + (() if self.idx is None else (self.idx,)), {}

    def extra(self, info, loop, env0, names, kinds):
        t = lambda: self.target.frame._links
        yield 'the links seen so far are copied', lambda st, S: P.forall(0, st.k, lambda j: self.copied(st.it.item(j)[0].z))
        x = z3.Const('x', OBJ)
        pos = lambda st: self.parent.links._enum().pos
        yield 'links are copies or were there before', lambda st, S: SBool(z3.ForAll([x], z3.If(z3.And(z3.Select(self.parent.links.mem, x), z3.Select(pos(st), x) < zint(st.k)), self.is_copy(x), self.is_kept(x)), patterns=[z3.Select(t().mem, x)]))
        yield 'links are copies or were there before (values)', lambda st, S: SBool(z3.ForAll([x], z3.If(z3.And(z3.Select(self.parent.links.mem, x), z3.Select(pos(st), x) < zint(st.k)), self.is_copy(x), self.is_kept(x)), patterns=[z3.Select(t().val, x)]))

    def is_copy(self, x):
        t = self.target.frame._links
        return z3.And(z3.Select(t.mem, x), z3.Select(t.val, x) == COPYL(z3.Select(self.parent.links.val, x)))

    def is_kept(self, x):
        t = self.target.frame._links
        return z3.And(z3.Select(t.mem, x) == z3.Select(self.target.old.mem, x), z3.Select(t.val, x) == z3.Select(self.target.old.val, x))

    def copied(self, x): return SBool(self.is_copy(x))

    def ensures(self, res, exc):
        x = z3.Const('x', OBJ)
        yield 'every link of the parent is copied', SBool(z3.ForAll([x], z3.Implies(z3.Select(self.parent.links.mem, x), self.is_copy(x))))
        yield 'no other link appears', SBool(z3.ForAll([x], z3.Implies(z3.Not(z3.Select(self.parent.links.mem, x)), self.is_kept(x))))
        yield 'the same names are attributes', SBool(z3.ForAll([x], z3.Select(self.target.frame._identified_links.mem, x) == z3.Select(self.parent.ident.mem, x)))
        yield 'a set of its own', false(self.target.frame._identified_links is not self.parent.ident)


class Finalize(Rows):
    """frames made of others: with the same rows, all links; otherwise those that can be made again from the own keys"""
    name = 'LinkedDataFrame.__finalize__'

    def stubs(self, c, w):
        def inherit(frame, parent, indexer=None):
            self.inherited.append((frame, parent, indexer))
        return {'LinkedDataFrame.__getattr__': no_attribute, 'LinkedDataFrame._LinkedDataFrame__inherit_links': inherit}

    def build(self, c, w):
        self.inherited = []
        self.same = c.choose('the same row labels')
        self.two(c, w, self.same)
        ldf_shim.FrameBase.con = self
        self.method = 'transpose' if c.choose('transposed') else None
        self.linked = c.choose('made of a linked frame')
        self.source = self.parent.frame if self.linked else new(type('Concatenator', (), {}), index=self.parent.frame.index)
        return (self.target.frame, self.source), dict(method=self.method)

    def again(self, x):
        """the link x of the parent is to be made again"""
        v = z3.Select(self.parent.links.val, x)
        ix = self.target.frame.index
        counted = z3.And(z3.BoolVal(bool(ix.range_type)), ix.is_range)
        rows = z3.Or(NOLABELS(v), FROMROWS(v))
        return z3.And(z3.Select(self.parent.links.mem, x), z3.Not(z3.Select(self.target.old.mem, x)), AVAILABLE(v), z3.Not(z3.And(rows, z3.Or(counted, REPLACED(v)))))

    def right(self, x, seen):
        t, old = self.target.links, self.target.old
        a = z3.And(self.again(x), seen)
        return z3.And(z3.Select(t.mem, x) == z3.Or(a, z3.Select(old.mem, x)), z3.Select(t.val, x) == z3.If(a, METAL(z3.Select(self.parent.links.val, x)), z3.Select(old.val, x)),
                      z3.Select(self.target.ident.mem, x) == z3.Or(z3.Select(self.target.old_ident.mem, x), z3.And(a, z3.Select(self.parent.ident.mem, x))))

    def extra(self, info, loop, env0, names, kinds):
        x = z3.Const('x', OBJ)
        for nme, pat in (('links', lambda: self.target.links.mem), ('values', lambda: self.target.links.val), ('names', lambda: self.target.ident.mem)):
            yield '%s seen so far are right' % nme, lambda st, S, pat=pat: SBool(z3.ForAll([x], self.right(x, z3.Select(self.parent.links._enum().pos, x) < zint(st.k)), patterns=[z3.Select(pat(), x)]))

    def ensures(self, res, exc):
        x = z3.Const('x', OBJ)
        yield 'it answers the frame', false(res is self.target.frame)
        copied = self.linked and self.same
        yield 'the same rows keep all links', false([(a is self.target.frame and b is self.parent.frame and i is None) for a, b, i in self.inherited] == ([True] if copied else []))
        made = self.linked and not self.same and self.method != 'transpose'
        yield 'links with keys of its own are made again, others are dropped', SBool(z3.ForAll([x], self.right(x, z3.BoolVal(made))))


class RowMethod(Rows):
    """the links of the rows that pandas selects are those at the same positions"""
    empty = True

    def stubs(self, c, w):
        def inherit(frame, parent, indexer=None):
            self.inherited.append((frame, parent, indexer))
        return {'LinkedDataFrame.__getattr__': no_attribute, 'LinkedDataFrame._LinkedDataFrame__inherit_links': inherit}

    def build(self, c, w):
        self.inherited, self.asked = [], []
        self.two(c, w)
        ldf_shim.FrameBase.con = self
        self.axis = SInt(c.fresh('axis', I))
        self.idx = arr('positions', 'i', SInt(c.fresh('n', I)))
        return self.call(c)

    def rows(self, frame, idx, axis):
        self.asked.append((frame, idx, axis))
        return self.target.frame

    def call(self, c): return (self.parent.frame, self.idx), dict(axis=self.axis)

    def ensures(self, res, exc):
        yield 'what pandas selects', false(res is self.target.frame and len(self.asked) == 1 and self.asked[0][0] is self.parent.frame and self.asked[0][1] is self.idx) & P.eq(self.asked[0][2], self.axis)
        got = self.inherited
        yield 'links are restricted exactly if rows are selected', SBool(z3.BoolVal(len(got) == 1) == (zint(self.axis) == 0))
        yield 'to the same positions', false(all(a is self.target.frame and b is self.parent.frame and i is self.idx for a, b, i in got))


class TakeCopy(RowMethod):
    name = 'LinkedDataFrame._take_with_is_copy'


class SliceRows(RowMethod):
    name = 'LinkedDataFrame._slice'


class Reindexed(RowMethod):
    """reindexing: no new rows"""
    name = 'LinkedDataFrame._reindex_with_indexers'

    def call(self, c):
        self.has = c.choose('rows are reindexed')
        self.unchanged = self.has and c.choose('to the same rows')
        self.ix = None if self.unchanged else self.idx
        self.reindexers = {0: ('labels', self.ix)} if self.has else {1: ('labels', self.idx)}
        return (self.parent.frame, self.reindexers), {}

    def reindexed(self, frame, r):
        self.asked.append((frame, r))
        return self.target.frame

    def ensures(self, res, exc):
        yield 'what pandas makes', false(res is self.target.frame and len(self.asked) == 1 and self.asked[0][0] is self.parent.frame and self.asked[0][1] is self.reindexers)
        got = self.inherited
        j = q(ctx())
        old = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(self.idx.shape[0])), zint(self.idx.at(SInt(j))) >= 0))
        want = z3.BoolVal(False) if not self.has else z3.BoolVal(True) if self.unchanged else old
        yield 'links are restricted exactly if all rows are old ones', SBool(z3.BoolVal(len(got) == 1) == want)
        yield 'to the same positions', false(all(a is self.target.frame and b is self.parent.frame and (i is self.idx if self.ix is not None else i is None or i == slice(None)) for a, b, i in got))


class FrameCopy(RowMethod):
    name = 'LinkedDataFrame.copy'

    def call(self, c):
        self.deep = SBool(c.fresh('deep', B))
        return (self.parent.frame,), dict(deep=self.deep)

    def copied(self, frame, deep):
        self.asked.append((frame, deep))
        return self.target.frame

    def ensures(self, res, exc):
        yield 'the copy that pandas makes', false(res is self.target.frame and len(self.asked) == 1 and self.asked[0][0] is self.parent.frame and self.asked[0][1] is self.deep)
        yield 'with copies of all links', false(len(self.inherited) == 1 and self.inherited[0][0] is self.target.frame and self.inherited[0][1] is self.parent.frame and self.inherited[0][2] is None)


class ComputeIndexers(LDF):
    """all links are joined (again), or those that were not"""
    name = 'LinkedDataFrame.compute_indexers'

    def stubs(self, c, w): return {'LinkedDataFrame.__getattr__': no_attribute}

    def build(self, c, w):
        self.done = MSet(name='joined', arbitrary=False)
        con = self

        def precompute(x):
            con.done.add(x)
        typ = Typ('link', {'flat_indexer': lambda x: SVal(FLATIX(x.z), Typ('indexer', {'optional': True})), 'precompute': lambda x: lambda: precompute(x), 'aggregation_required': lambda x: SBool(AGGREGATED(x.z)), 'chained': lambda x: SBool(CHAINED(x.z))})
        self.links = MDict(name='links', vtyp=typ, arbitrary=True)
        self.links.readonly = True
        self.refresh = SBool(c.fresh('refresh', B))
        self.frame = new(self.cls('LinkedDataFrame'), _links=self.links)
        return (self.frame, self.refresh), {}

    def modifies_objects(self): return (self.done,)

    def wanted(self, v): return z3.Or(self.refresh.z, z3.Not(KNOWN(v)))

    def extra(self, info, loop, env0, names, kinds):
        yield 'the links seen so far are joined', lambda st, S: P.forall(0, st.k, lambda j: SBool(z3.Implies(self.wanted(enc(st.it.item(j))), z3.Select(self.done.mem, enc(st.it.item(j))))), pattern=lambda j: st.it.item(j))
        x = z3.Const('x', OBJ)
        yield 'only links that are to be joined', lambda st, S: SBool(z3.ForAll([x], z3.Implies(z3.Select(self.done.mem, x), self.wanted(x)), patterns=[z3.Select(self.done.mem, x)]))

    def ensures(self, res, exc):
        x = z3.Const('x', OBJ)
        v = z3.Select(self.links.val, x)
        yield 'every link is joined if it is to be', SBool(z3.ForAll([x], z3.Implies(z3.And(z3.Select(self.links.mem, x), self.wanted(v)), z3.Select(self.done.mem, v))))
        yield 'no other is', SBool(z3.ForAll([x], z3.Implies(z3.Select(self.done.mem, x), self.wanted(x))))


FLATIX = z3.Function('flat_indexer', OBJ, OBJ)
def KNOWN(x): return FLATIX(x) != pyconst(None)


# ---------------------------------------------------------------------------------------------- fill values
class GetFill(LDF):
    """the fill value of the column if there is one, else that of the frame for its type"""
    name = 'LinkedDataFrame._get_fill'
    helper = True

    def stubs(self, c, w): return {'LinkedDataFrame.__getattr__': no_attribute}

    def build(self, c, w):
        self.fills = MDict(name='fills', arbitrary=True)
        self.fills.readonly = True
        self.filler = new(type('Filler', (), {'get_fill': lambda f, s: SVal(CLASS_FILL(s.z))}))
        self.frame = new(self.cls('LinkedDataFrame'), _column_fills=self.fills, _instance_filler=self.filler)
        self.s, self.nme = SVal(c.fresh('series', OBJ), SERIES), SVal(c.fresh('name', OBJ), NAME)
        return (self.frame, self.s, self.nme), {}

    def ensures(self, res, exc):
        yield 'the fill value of the column if there is one, else that for its type', SBool(enc(res) == z3.If(zbool(self.fills.has(self.nme)), self.fills.get_z(self.nme), CLASS_FILL(self.s.z)))


class SetColumnFill(LDF):
    name = 'LinkedDataFrame.set_column_fill'
    raises = ('KeyError',)

    def stubs(self, c, w): return {'LinkedDataFrame.__getattr__': no_attribute}

    def build(self, c, w):
        self.fills = MDict(name='fills', arbitrary=True)
        self.old = self.fills.frozen()
        self.columns = MSet(name='columns', arbitrary=True)
        self.frame = new(self.cls('LinkedDataFrame'), _column_fills=self.fills, columns=self.columns)
        self.nme, self.value = SVal(c.fresh('name', OBJ), NAME), SVal(c.fresh('value', OBJ))
        return (self.frame, self.nme, self.value), {}

    def modifies_objects(self): return (self.fills,)

    def ensures(self, res, exc):
        there = zbool(self.columns.has(self.nme))
        x = z3.Const('x', OBJ)
        f, o, isnew = self.fills, self.old, x == self.nme.z
        if exc is not None:
            yield 'only columns that are not there are refused', SBool(z3.Not(there))
            yield 'nothing changes', SBool(z3.ForAll([x], z3.And(z3.Select(f.mem, x) == z3.Select(o.mem, x), z3.Select(f.val, x) == z3.Select(o.val, x))))
            return
        yield 'columns that are not there are refused', SBool(there)
        yield 'the fill value of the column, others are kept', SBool(z3.ForAll([x], z3.And(z3.Select(f.mem, x) == z3.Or(isnew, z3.Select(o.mem, x)), z3.Select(f.val, x) == z3.If(isnew, self.value.z, z3.Select(o.val, x)))))


class FillContract(LDF):
    module = 'cheval/ldf/missing_data.py'
    preload = ('cheval/ldf/constants.py',)

    def filler(self, c, w):
        c.plain_dicts = True            # keys are members of an enumeration of known size
        ns = w.module(self.module)
        self.types = list(ns['PandasDtype'])
        self.values = {t: SVal(c.fresh(t.name, OBJ)) for t in self.types}
        self.defaults = ns['_default_fills'] = {t: SVal(c.fresh('default_' + t.name, OBJ)) for t in self.types}
        self.defaults0 = dict(self.defaults)
        return new(ns['SeriesFillManager'], _fill_values=dict(self.values))

    def chosen(self, c):
        return {t.name: SVal(c.fresh('new_' + t.name, OBJ)) for t in self.types if c.choose('%s is given' % t.name)}

    def are(self, fills, want):
        return P.and_(false(set(fills) == set(want)), *[SBool(enc(fills[t]) == enc(want[t])) for t in want if t in fills])

    def kept(self):
        return P.and_(false(self.w.module(self.module)['_default_fills'] is self.defaults), self.are(self.defaults, self.defaults0))


class FillInit(FillContract):
    name = 'SeriesFillManager.__init__'

    def build(self, c, w):
        self.filler(c, w)
        self.obj = new(w.module(self.module)['SeriesFillManager'])
        self.given = self.chosen(c)
        return (self.obj,), self.given

    def ensures(self, res, exc):
        yield 'the documented defaults, except those given', self.are(self.obj._fill_values, {t: self.given.get(t.name, self.defaults0[t]) for t in self.types})
        yield 'the documented defaults stay', self.kept()
        yield 'not shared', false(self.obj._fill_values is not self.defaults)


class FillSet(FillContract):
    name = 'SeriesFillManager.set_fill_defaults'
    raises = ('KeyError',)

    def build(self, c, w):
        self.obj = self.filler(c, w)
        self.given = self.chosen(c)
        self.bad = c.choose('an unknown type is given')
        return (self.obj,), dict(self.given, **({'NO_NAME': SVal(c.fresh('x', OBJ))} if self.bad else {}))

    def ensures(self, res, exc):
        yield 'unknown types are refused', false((exc is not None) == self.bad)
        if exc is None:
            yield 'the given fill values, others are kept', self.are(self.obj._fill_values, {t: self.given.get(t.name, self.values[t]) for t in self.types})
        yield 'the documented defaults stay', self.kept()


class FillReset(FillContract):
    name = 'SeriesFillManager.reset_fill_defaults'

    def build(self, c, w):
        self.obj = self.filler(c, w)
        return (self.obj,), {}

    def ensures(self, res, exc):
        yield 'the documented defaults', self.are(self.obj._fill_values, self.defaults0)
        yield 'not shared', false(self.obj._fill_values is not self.defaults)
        yield 'the documented defaults stay', self.kept()


class FillGet(FillContract):
    name = 'SeriesFillManager.get_fill'

    def stubs(self, c, w):
        def infer(s):
            for t in w.module(self.module)['PandasDtype']:
                if c.choose('of type ' + t.name):
                    self.t = t
                    return t
            raise PathEnd
        return {':infer_dtype': infer}

    def build(self, c, w):
        self.obj = self.filler(c, w)
        return (self.obj, SVal(c.fresh('series', OBJ), SERIES)), {}

    def ensures(self, res, exc):
        yield 'the fill value for the type of the values', SBool(enc(res) == self.values[self.t].z)
        yield 'nothing changes', self.are(self.obj._fill_values, self.values)


class FillTemporary(FillContract):
    """inside: the given fill values. Afterwards, also after an error, the values before, whatever was set inside"""
    name = 'SeriesFillManager.temporary_fill_defaults'
    raises = ('KeyError',)

    def build(self, c, w):
        self.obj = self.filler(c, w)
        self.bad = c.choose('an unknown type is given')
        self.fails = not self.bad and c.choose('an error inside')
        self.reset = not self.bad and c.choose('all values are reset inside')       # (and then set, possibly to what they were)
        self.given = self.chosen(c)
        return (self.obj,), dict(self.given, **({'NO_NAME': SVal(c.fresh('x', OBJ))} if self.bad else {}))

    def ensures(self, cm, exc):
        c = ctx()
        before = dict(self.values)
        try:
            cm.__enter__()
        except KeyError:
            yield 'only unknown types are refused', false(self.bad)
            yield 'refused: nothing changes', self.are(self.obj._fill_values, before)
            return
        yield 'unknown types are refused', false(not self.bad)
        inside = {t: self.given.get(t.name, self.values[t]) for t in self.types}
        yield 'inside: the given fill values, others are kept', self.are(self.obj._fill_values, inside)
        later = {}
        if self.reset:
            self.obj._fill_values = dict(self.defaults0)
        for t in self.types:
            self.obj._fill_values[t] = SVal(c.fresh('set_' + t.name, OBJ))
        later = dict(self.obj._fill_values)
        try:
            if self.fails:
                e = ValueError()
                swallowed = cm.__exit__(ValueError, e, None)
            else:
                swallowed = cm.__exit__(None, None, None)
        except ValueError:
            swallowed = False
        yield 'errors are passed on', false(not swallowed)
        yield 'afterwards: the values before', self.are(self.obj._fill_values, {t: self.values[t] if t.name in self.given else later[t] for t in self.types})
        yield 'the documented defaults stay', self.kept()


class InferDtype(FillContract):
    """by accessors first, then by the dtype"""
    name = 'infer_dtype'

    def build(self, c, w):
        self.acc = None
        for a in ('cat', 'str', 'dt'):
            if c.choose('has .' + a):
                self.acc = a
                break
        names = ('bool', 'object') + ldf_shim.DTYPES
        self.dt = 'complex128'
        if self.acc is None:
            for n in names:
                if c.choose('dtype ' + n):
                    self.dt = n
                    break
        s = new(type('S', (), {}), dtype=ldf_shim.DType(self.dt))
        if self.acc:
            setattr(s, self.acc, 1)
        return (s,), {}

    def ensures(self, res, exc):
        want = {'cat': 'CAT_NAME', 'str': 'TEXT_NAME', 'dt': 'TIME_NAME'}.get(self.acc) or ('BOOL_NAME' if self.dt == 'bool' else 'INT_NAME' if self.dt[0] == 'i' else 'UINT_NAME' if self.dt[0] == 'u' else 'FLOAT_NAME' if self.dt[0] == 'f' else 'OBJ_NAME')
        yield 'the type of the values', false(res.name == want)
