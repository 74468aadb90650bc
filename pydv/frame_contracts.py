"""Contracts of the remaining parts of LinkedDataFrame: looking up links, fill values of classes and instances, the sides of a join,
aggregators; and of the scope of a model."""
import typing
import z3
from . import ldf_shim, poly as P
from .engine import *
from .arrays import *
from .obj import *
from .pdshim import *
from .glue import Glue
from .model_contracts import new
from .ldf_contracts import LDF, Rec, LINKED, NodeContract, no_attribute, SERIES, CLASS_FILL, IDENT
from .ldf_shim import *


def false(b): return SBool(z3.BoolVal(bool(b)))


KEY = Typ('str', {'isinstance': lambda x, t: t is str or t is typing.Hashable or getattr(t, '__name__', '') in ('str', 'Hashable') or t.__class__.__name__ == 'Missing' or 'str' in repr(t)})


class FrameLookup(LDF):
    """the name of a link gives the link, everything else is what pandas answers"""
    base = 'column'

    def stubs(self, c, w): return {'LinkedDataFrame._init_link': lambda frame, item: Rec('link', frame, item)}

    def build(self, c, w):
        ldf_shim.FrameBase.con = self
        self.asked = []
        self.links = MDict(name='links', vtyp=LINKED, arbitrary=True)
        self.links.readonly = True
        self.frame = new(self.cls('LinkedDataFrame'), _links=self.links)
        self.name_given = self.only_names or c.choose('a name')
        self.item = SVal(c.fresh('item', OBJ), KEY) if self.name_given else new(type('Mask', (), {'__hash__': None}))
        return (self.frame, self.item), {}

    only_names = False

    def column(self, frame, item):
        self.asked.append((frame, item))
        return self

    attribute = column

    def ensures(self, res, exc):
        linked = self.links.has(self.item) if self.name_given else false(False)
        if isinstance(res, Rec):
            yield 'only names of links give links', linked
            yield 'the link of that name', false(res.args[1] is self.frame and res.args[2] is self.item and not self.asked)
            return
        yield 'names of links give links', ~linked
        yield 'what pandas answers', false(res is self and len(self.asked) == 1 and self.asked[0][0] is self.frame and self.asked[0][1] is self.item)


class FrameGetitem(FrameLookup):
    name = 'LinkedDataFrame.__getitem__'


class FrameGetattr(FrameLookup):
    name = 'LinkedDataFrame.__getattr__'
    only_names = True


class FrameInit(LDF):
    """a new frame has no links, no fill values of its own, and shares nothing of this with other frames"""
    name = 'LinkedDataFrame.__init__'

    def build(self, c, w):
        ldf_shim.FrameBase.con = self
        self.made_, self.fillers = [], []
        con = self

        class Filler:
            def __init__(self, *a, **k): con.fillers.append((self, a, k))
        w.module(self.module)['SeriesFillManager'] = Filler
        self.frame = new(self.cls('LinkedDataFrame'))
        self.data, self.kw = SVal(c.fresh('data', OBJ)), SVal(c.fresh('columns', OBJ))
        return (self.frame, self.data), dict(columns=self.kw)

    def made(self, frame, a, k): self.made_.append((frame, a, k))

    def ensures(self, res, exc):
        d = self.frame.__dict__
        yield 'pandas gets what was given', false(len(self.made_) == 1 and self.made_[0][0] is self.frame and len(self.made_[0][1]) == 1 and self.made_[0][1][0] is self.data and set(self.made_[0][2]) == {'columns'} and self.made_[0][2]['columns'] is self.kw)
        x = z3.Const('x', OBJ)
        for a in ('_links', '_column_fills'):
            yield '%s is empty' % a, false(isinstance(d.get(a), (dict, MDict))) & (SBool(z3.Not(z3.Exists([x], z3.Select(d[a].mem, x)))) if isinstance(d.get(a), MDict) else false(not d.get(a)))
        s = d.get('_identified_links')
        yield 'no names of links', false(isinstance(s, (set, MSet))) & (SBool(z3.Not(z3.Exists([x], z3.Select(s.mem, x)))) if isinstance(s, MSet) else false(not s))
        yield 'the two are not the same', false(d.get('_links') is not d.get('_column_fills'))
        yield 'fill values are the documented ones, and its own', false(len(self.fillers) == 1 and self.fillers[0][0] is d.get('_instance_filler') and not self.fillers[0][1] and not self.fillers[0][2])


class ClassOrInstance(LDF):
    """called on a frame: the fill values of that frame; on the class: those of the class"""
    method, answers = '', False

    def stubs(self, c, w): return {'LinkedDataFrame.__getattr__': no_attribute}

    def build(self, c, w):
        con, self.calls = self, []
        self.answer = SVal(c.fresh('answer', OBJ))

        class Filler:
            def __init__(self, who): self.who = who

            def __getattr__(self, a):
                if a.startswith('__'):
                    raise AttributeError(a)

                def f(*args, **kw):
                    con.calls.append((self.who, a, args, kw))
                    return con.answer
                return f
        cls = self.cls('LinkedDataFrame')
        cls._class_filler = Filler('class')
        self.of_class = c.choose('called on the class')
        frame = new(cls, _instance_filler=Filler('frame'))
        self.given = {n: SVal(c.fresh(n, OBJ)) for n in ('INT_NAME', 'TEXT_NAME') if c.choose('%s is given' % n)} if self.takes else {}
        return (() if self.of_class else (frame,)), self.given

    takes = True

    def ensures(self, res, exc):
        ok = len(self.calls) == 1
        yield 'one of the two fillers is told', false(ok)
        if not ok:
            return
        who, a, args, kw = self.calls[0]
        yield 'the fill values of the one it is called on', false(who == ('class' if self.of_class else 'frame'))
        yield 'the same request', false(a == self.method and not args and set(kw) == set(self.given) and all(kw[n] is self.given[n] for n in kw))
        if self.answers:
            yield 'the context manager is handed on', false(res is self.answer)


class FrameFillSet(ClassOrInstance):
    name, method = 'LinkedDataFrame.set_fill_defaults', 'set_fill_defaults'


class FrameFillTemporary(ClassOrInstance):
    name, method, answers = 'LinkedDataFrame.temporary_fill_defaults', 'temporary_fill_defaults', True


class FrameFillReset(ClassOrInstance):
    name, method, takes = 'LinkedDataFrame.reset_fill_defaults', 'reset_fill_defaults', False


class ClassFill(LDF):
    """what nodes that lead to plain frames ask: the fill value of the class for the type"""
    name = 'LinkedDataFrame._get_class_fill'
    helper = True

    def build(self, c, w):
        cls = self.cls('LinkedDataFrame')
        cls._class_filler = new(type('Filler', (), {'get_fill': lambda f, s: SVal(CLASS_FILL(s.z))}))
        self.s = SVal(c.fresh('series', OBJ), SERIES)
        return (cls, self.s), {}

    def ensures(self, res, exc):
        yield 'the fill value of the class for the type of the values', SBool(enc(res) == CLASS_FILL(self.s.z))


class LinkLookup(LDF):
    """names of links, and what they lead to"""
    kind = ''

    def stubs(self, c, w): return {'LinkedDataFrame.__getattr__': no_attribute}

    def build(self, c, w):
        typ = Typ('link', dict(LINKED.attrs, other=lambda x: SVal(OTHER(x.z))))
        self.links = MDict(name='links', vtyp=typ, arbitrary=True)
        self.links.readonly = True
        self.item = SVal(c.fresh('item', OBJ), NAME)
        return (new(self.cls('LinkedDataFrame'), _links=self.links), self.item), {}

    def ensures(self, res, exc):
        there = self.links.has(self.item)
        if exc is not None:
            yield 'only names without link are refused', ~there
            return
        yield from self.answer(res, there)


OTHER = z3.Function('frame_of_link', OBJ, OBJ)


class HasLink(LinkLookup):
    name, helper = 'LinkedDataFrame._has_link', True
    def answer(self, res, there): yield 'whether there is a link of this name', SBool(zbool(res) == zbool(there))


class GetLink(LinkLookup):
    name, helper, raises = 'LinkedDataFrame._get_link', True, ('KeyError',)

    def answer(self, res, there):
        yield 'there is a link of this name', there
        yield 'that link', SBool(enc(res) == self.links.get_z(self.item))


class LinkTarget(LinkLookup):
    name, raises = 'LinkedDataFrame.get_link_target', ('KeyError',)

    def answer(self, res, there):
        yield 'there is a link of this name', there
        yield 'the frame it leads to', SBool(enc(res) == OTHER(self.links.get_z(self.item)))


class NodeAttribute(LDF):
    """node.name is node[name]; names that are not there are no attributes"""
    name = 'LinkedDataFrame._BaseNode.__getattr__'
    raises = ('AttributeError',)

    def build(self, c, w):
        self.missing = c.choose('not there')
        con = self

        class Node(self.cls('LinkedDataFrame._BaseNode')):
            def __getitem__(self, item):
                if con.missing:
                    raise KeyError(item)
                return Rec(self, item)
        self.node, self.item = new(Node), SVal(c.fresh('item', OBJ), NAME)
        return (self.node, self.item), {}

    def ensures(self, res, exc):
        yield 'missing names are no attributes', false((exc is not None) == self.missing)
        if exc is None:
            yield 'the item of that name', false(isinstance(res, Rec) and res.args[0] is self.node and res.args[1] is self.item)


AGGREGATIONS = {n: False for n in ('max', 'min', 'mean', 'median', 'prod', 'std', 'sum', 'var', 'quantile')}
AGGREGATIONS.update({n: True for n in ('count', 'first', 'last', 'nth')})


class AggregatorOf(LDF):
    """link.function: an aggregator for each of the documented functions"""
    name = 'LinkedDataFrame._LeafAggregation.__getattr__'
    raises = ('AttributeError',)

    def build(self, c, w):
        self.func = next((n for n in sorted(AGGREGATIONS) if c.choose(n)), 'no_such_function')
        self.node = new(self.cls('LinkedDataFrame._LeafAggregation'))
        return (self.node, self.func), {}

    def ensures(self, res, exc):
        yield 'the documented functions', false((exc is None) == (self.func in AGGREGATIONS))
        if exc is None:
            yield 'an aggregator of this link and function', false(res._owner is self.node and res._func_name == self.func)
            yield 'only functions that keep values accept values that are no numbers', false(bool(res._allow_nonnumeric) == AGGREGATIONS.get(self.func))


# ---------------------------------------------------------------------------------------------- the sides of a join
class Side(LDF):
    KINDS = ('none', 'one', 'list')

    def side(self, c, w, kinds=KINDS):
        self.kind = next((k for k in kinds[:-1] if c.choose('labels: ' + k)), kinds[-1])
        if self.kind == 'list':
            n, a = c.fresh('n_labels', I), c.fresh('labels', z3.ArraySort(I, OBJ))
            c.assume(n >= 0)
            return MList(SSeq(SInt(n), lambda j: SVal(z3.Select(a, zint(j)), NAME)))
        return None if self.kind == 'none' else SVal(c.fresh('label', OBJ), NAME)


class SideInit(Side):
    name = '_IndexMeta.__init__'

    def build(self, c, w):
        self.labels = self.side(c, w)
        self.rows = SBool(c.fresh('from_rows', B))
        self.obj = new(w.module(self.module)['_IndexMeta'])
        return (self.obj, self.labels, self.rows), {}

    def ensures(self, res, exc):
        o = self.obj
        if self.kind == 'none':
            yield 'the row labels', false(o.labels is None and o.from_row_labels is True)
            return
        yield 'of rows or of columns, as given', false(o.from_row_labels is self.rows)
        if self.kind == 'one':
            yield 'a single label is a list of one', false(isinstance(o.labels, MList) and isinstance(o.labels.xs, list) and len(o.labels.xs) == 1 and o.labels.xs[0] is self.labels)
        else:
            yield 'the labels in order', P.and_(P.eq(o.labels.n, self.labels.n), P.forall(0, self.labels.n, lambda j: SBool(o.labels.at(j).z == self.labels.at(j).z)))


class SideLevels(Side):
    name = '_IndexMeta.nlevels'

    def build(self, c, w):
        self.labels = self.side(c, w, ('none', 'list'))
        self.levels = SInt(c.fresh('levels', I))
        self.frame = new(type('F', (), {}), index=new(type('Ix', (), {}), nlevels=self.levels))
        return (new(w.module(self.module)['_IndexMeta'], labels=self.labels, from_row_labels=SBool(c.fresh('from_rows', B))), self.frame), {}

    def ensures(self, res, exc):
        yield 'as many as labels, or as the row labels have', P.eq(res, self.levels if self.kind == 'none' else self.labels.n)


class SideAvailable(Side):
    """the keys can be taken from the frame: all labels are columns (or levels of the rows, by name or by position)"""
    name = '_IndexMeta.available_in'

    def build(self, c, w):
        self.labels = self.side(c, w, ('none', 'list'))
        self.rows = self.kind == 'none' or c.choose('of the rows')
        self.columns = MSet(name='columns', arbitrary=True)
        self.columns.readonly = True
        n, a = c.fresh('n_levels', I), c.fresh('level_names', z3.ArraySort(I, OBJ))
        c.assume(n >= 1)
        self.names, self.n = (lambda j: z3.Select(a, j)), n
        con = self

        class Frame(Proxy):
            index = new(type('Ix', (), {}), nlevels=SInt(n), names=SSeq(SInt(n), lambda j: SVal(z3.Select(a, zint(j)), NAME)))
            columns = con.columns
            def has(self, x): return con.columns.has(x)
            def __contains__(self, x): return bool(self.has(x))
        return (new(w.module(self.module)['_IndexMeta'], labels=self.labels, from_row_labels=self.rows), Frame()), {}

    def extra(self, info, loop, env0, names, kinds):
        if self.kind == 'list':
            yield 'the labels seen so far are there', lambda st, S: P.forall(0, st.k, lambda j: SBool(self.there(self.labels.at(j).z)), pattern=lambda j: self.labels.at(j))

    def there(self, x):
        if not self.rows:
            return zbool(self.columns.has(SVal(x, NAME)))
        j = z3.Int(ctx().fresh_name('j'))
        return z3.Exists([j], z3.Or(z3.And(j >= 0, j < self.n, self.names(j) == x), z3.And(BOXI(UNBOXI(x)) == x, UNBOXI(x) >= -self.n, UNBOXI(x) < self.n)))

    def ensures(self, res, exc):
        if self.kind == 'none':
            yield 'row labels are always there', res if isinstance(res, SBool) else false(res is True)
            return
        j = z3.Int(ctx().fresh_name('j'))
        yield 'exactly if all labels are there', SBool(zbool(res) == z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(self.labels.n)), self.there(self.labels.at(SInt(j)).z))))


class UpdateInplace(LDF):
    """the rows of the frame are replaced by those of the result, and its links by those of these rows"""
    name = 'LinkedDataFrame._update_inplace'

    def stubs(self, c, w): return {'LinkedDataFrame.__getattr__': no_attribute, 'LinkedDataFrame.__finalize__': lambda frame, other: self.finalize(frame, other)}

    def finalize(self, frame, other):
        self.made.append((frame, other))
        frame._links, frame._identified_links = self.again, self.again_names
        return frame

    def build(self, c, w):
        ldf_shim.FrameBase.con = self
        self.made, self.updates = [], []
        cls = self.cls('LinkedDataFrame')
        self.owned = c.fresh('owner', z3.ArraySort(OBJ, B))      # which links belong to the frame
        con = self
        owned = MSet(name='links of the frame', arbitrary=False)
        self.owned = owned

        def own(x, v):
            if v is not con.frame:
                ctx().fail('ensures links belong to the frame', 'another owner')
            owned.add(x)
        typ = Typ('link', dict(LINKED.attrs, **{'=owner': own}))
        self.own, self.names = MDict(name='links', vtyp=typ, arbitrary=True), MSet(name='names', arbitrary=True)
        self.again, self.again_names = MDict(name='made again', vtyp=typ, arbitrary=True), MSet(name='names made again', arbitrary=True)
        theirs, their_names = MDict(name='links of the result', vtyp=typ, arbitrary=True), MSet(name='names of the result', arbitrary=True)
        self.theirs, self.their_names = theirs, their_names
        index, other = new(type('Ix', (), {})), new(type('Ix', (), {}))
        self.frame = new(cls, _links=self.own, _identified_links=self.names, index=index)
        self.linked = c.choose('a linked frame')
        self.same = c.choose('the same row labels')
        ix = index if self.same else other
        self.result = new(cls, _links=theirs, _identified_links=their_names, index=ix) if self.linked else new(type('F', (), {}), index=ix)
        self.verify = SBool(c.fresh('verify_is_copy', B))
        return (self.frame, self.result), dict(verify_is_copy=self.verify)

    def updated(self, frame, result): self.updates.append((frame, result))

    def modifies_objects(self): return (self.owned,)

    def extra(self, info, loop, env0, names, kinds):
        x = z3.Const('x', OBJ)
        yield 'the links seen so far belong to the frame', lambda st, S: P.forall(0, st.k, lambda j: SBool(z3.Select(self.owned.mem, enc(st.it.item(j)))), pattern=lambda j: st.it.item(j))

    def ensures(self, res, exc):
        yield 'pandas replaces the rows', false(len(self.updates) == 1 and self.updates[0][0] is self.frame and self.updates[0][1] is self.result)
        f = self.frame
        if not self.linked or self.same:
            yield 'the links stay', false(f._links is self.own and f._identified_links is self.names and not self.made)
            return
        x = z3.Const('x', OBJ)
        none = SBool(z3.Not(z3.Exists([x], z3.Select(self.theirs.mem, x))))
        yield 'links are made again exactly if the result has none', SBool(z3.BoolVal(len(self.made) == 1) == none.z)
        if self.made:
            yield 'from those of the frame', false(self.made[0][0] is self.result and self.made[0][1] is self.frame)
        links, names = (self.again, self.again_names) if self.made else (self.theirs, self.their_names)
        yield 'the links of the new rows', false(f._links is links and f._identified_links is names)
        yield 'they belong to the frame', SBool(z3.ForAll([x], z3.Implies(z3.Select(links.mem, x), z3.Select(self.owned.mem, z3.Select(links.val, x)))))


# ---------------------------------------------------------------------------------------------- the scope of a model
class ScopeGetitem(Glue):
    name, raises = 'ChoiceModel.__getitem__', ('KeyError',)

    def build(self, c, w):
        self.scope = MDict(name='scope', arbitrary=True)
        self.scope.readonly = True
        self.item = SVal(c.fresh('item', OBJ), NAME)
        return (new(w.cls('ChoiceModel'), _scope=self.scope), self.item), {}

    def ensures(self, res, exc):
        there = self.scope.has(self.item)
        if exc is not None:
            return [('only names that are not declared are refused', ~there)]
        return [('it is declared', there), ('the symbol of that name', SBool(enc(res) == self.scope.get_z(self.item)))]


class ClearScope(Glue):
    name = 'ChoiceModel.clear_scope'

    def build(self, c, w):
        self.scope = MDict(name='scope', arbitrary=True)
        self.model = new(w.cls('ChoiceModel'), _scope=self.scope)
        return (self.model,), {}

    def modifies_objects(self): return (self.scope,)

    def ensures(self, res, exc):
        x = z3.Const('x', OBJ)
        s = self.model._scope
        return [('no symbol is declared', SBool(z3.Not(z3.Exists([x], z3.Select(s.mem, x)))) if isinstance(s, MDict) and not isinstance(s, dict) else false(not s))]


class ExpressionsGet(Glue):
    name = 'ChoiceModel.expressions'

    def build(self, c, w):
        self.group = new(type('Group', (), {}))
        return (new(w.cls('ChoiceModel'), _expressions=self.group),), {}

    def ensures(self, res, exc):
        return [('the expressions of the model', false(res is self.group))]


class ExpressionsSet(Glue):
    """model.expressions = [...] adds the expressions, in order, to those that are there"""
    name, setter = 'ChoiceModel.expressions', True

    def build(self, c, w):
        n, a = c.fresh('n_expressions', I), c.fresh('texts', z3.ArraySort(I, OBJ))
        c.assume(n >= 0)
        self.items = SSeq(SInt(n), lambda j: SVal(z3.Select(a, zint(j)), NAME))
        self.added = MList([], )
        con = self

        class Group:
            def append(self, e, group=None):
                if group is not None:
                    ctx().fail('ensures they belong to no group', 'a group')
                con.added.append(e)
        self.group = new(Group)
        self.model = new(w.cls('ChoiceModel'), _expressions=self.group)
        return (self.model, self.items), {}

    def modifies_objects(self): return (self.added,)

    def held(self, k):
        l = self.added
        if isinstance(l.xs, list):
            return P.and_(P.eq(k, len(l.xs)), *[x == self.items.get(SInt(z3.IntVal(j))) for j, x in enumerate(l.xs)])
        s = l.seq()
        return P.and_(P.eq(s.n, k), P.forall(0, k, lambda j: s.get(j) == self.items.get(j), pattern=lambda j: s.get(j)))

    def extra(self, info, loop, env0, names, kinds):
        yield 'the expressions seen so far are added', lambda st, S: self.held(st.k)

    def ensures(self, res, exc):
        return [('the same container', false(self.model._expressions is self.group)), ('the expressions are added in order', self.held(self.items.n))]
