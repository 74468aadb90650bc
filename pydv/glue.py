"""Verification of methods and functions over symbolic objects"""
import collections as _collections, itertools as _itertools, os, traceback
import z3
from . import engine, loops, shim, load, contract, poly as P
from .engine import *
from .arrays import *
from .obj import *
from .pdshim import *
from . import pdshim
from .shim import Mod, Missing


def decimal(i):
    """str() of an integer"""
    z = z3.simplify(i.z)
    if z3.is_int_value(z):
        return str(z.as_long())
    v = SVal(DECIMAL(z), NAME)
    ctx().assume(NUMERAL(v.z) == z)
    v.__dict__['decimal'] = z
    return v


DECIMAL, NUMERAL = z3.Function('decimal', I, OBJ), z3.Function('value_of_decimal', OBJ, I)


class GlueRuntime(loops.Runtime):
    def acc(self): return getattr(engine._ctx, 'acc_factory', MList)()
    def mklist(self, xs): return MList(xs) if engine._ctx is not None else xs
    def mkdict(self, pairs): return MDict(pairs) if engine._ctx is not None and not getattr(engine._ctx, 'plain_dicts', False) else dict(pairs)

    def mkset(self, xs):
        return CSet(xs)

    def fstr(self, xs):
        if any(isinstance(x, SVal) and x.typ is NAME for x in xs) or engine._ctx is not None and any(isinstance(x, SInt) for x in xs):
            return text([x if isinstance(x, SVal) and x.typ is NAME else decimal(x) if isinstance(x, SInt) else format(x) for x in xs])
        return ''.join(format(x) for x in xs)

    def strjoin(self, sep, xs):
        if isinstance(xs, MList) and isinstance(xs.xs, list):
            xs = xs.xs
        if isinstance(xs, (list, tuple)):
            if not any(isinstance(x, Proxy) for x in xs):
                return sep.join(xs)
            parts = []
            for i, x in enumerate(xs):
                parts.extend([sep, x] if i else [x])
            return text(parts)
        if loops.is_symiter(xs):
            v = SVal(ctx().fresh('joined', OBJ), NAME)
            v.__dict__['joined'] = (sep, seq(xs))
            return v
        return sep.join(xs)

    def is_(self, a, b):
        if isinstance(a, Proxy) and isinstance(b, Proxy) and a is not b:
            if isinstance(a, (SVal,)) or isinstance(b, (SVal,)):
                return SBool(enc(a) == enc(b))
            if isinstance(a, Cell) or isinstance(b, Cell):
                return False
            if hasattr(a, 'obj') and hasattr(b, 'obj'):
                return False
            raise Unsupported('identity of %r and %r' % (a, b))
        if isinstance(a, SVal) and b is None and a.typ.attrs.get('optional'):
            return SBool(a.z == pyconst(None))
        return a is b

    def not_(self, x):
        return ~x if isinstance(x, SBool) else not x

    def strmod(self, fmt, args):
        xs = args if isinstance(args, tuple) else (args,)
        if engine._ctx is None or not any(isinstance(x, Proxy) for x in xs) or not all(isinstance(x, (SInt, str, int)) or isinstance(x, SVal) and x.typ is NAME for x in xs):
            return fmt % args
        parts = fmt.split('%s')
        if len(parts) != len(xs) + 1 or any('%' in p for p in parts):
            raise Unsupported('format %r' % fmt)
        return text([y for p, x in zip(parts, xs + ('',)) for y in (p, decimal(x) if isinstance(x, SInt) else str(x) if isinstance(x, int) else x)])

    def isnot_(self, a, b):
        r = self.is_(a, b)
        return ~r if isinstance(r, SBool) else not r

    def in_(self, x, xs):
        if hasattr(xs, 'has'):
            return xs.has(x)
        if isinstance(xs, (set, frozenset, dict)) and isinstance(x, Proxy):
            return x in CSet(list(xs))
        return x in xs

    def comp(self, kind, it, elt, conds):
        if engine._ctx is None:
            return super().comp(kind, it, elt, conds)
        rule = getattr(engine._ctx, 'comp_rule', None)
        if rule is not None and loops.is_symiter(it):
            r = rule(kind, it, elt, conds)
            if r is not None:
                return r
        if loops.is_symiter(it) and not isinstance(it, (list, tuple)):
            if hasattr(it, 'comp') and not (isinstance(it, MDict)):
                return it.comp(kind, elt, conds)
            if kind == 'dict' and not conds:
                return MapDict(seq(it), elt)
            if kind == 'set' and not conds:
                s = seq(it)
                return MSet(mem=members(SSeq(s.n, lambda k: elt(s.get(k)))))
            return seq(it).comp(kind, elt, conds)
        gen = [elt(x) for x in it if all(bool(c(x)) for c in conds)]
        return {'list': MList, 'set': MSet, 'dict': MDict, 'gen': lambda g: g}[kind](gen)


def is_symseq_comp(self, kind, elt, conds):
    if kind == 'dict' and not conds:
        return MapDict(self, elt)
    return SEQCOMP(self, kind, elt, conds)


SEQCOMP = SSeq.comp
SSeq.comp = is_symseq_comp


class MapDict(Proxy):
    """{key(x): value(x) for x in sequence}, keys pairwise different (obligation)"""
    def __init__(self, s, elt):
        c = ctx()
        self.s = s
        self.pairs = SEQCOMP(s, 'gen', elt, [])
        self.pos = c.fresh('dictpos', z3.ArraySort(OBJ, I))
        k = z3.Int(c.fresh_name('k'))
        x = z3.Const(c.fresh_name('x'), OBJ)
        n = zint(s.n)
        a, b = c.fresh('a', I), c.fresh('b', I)
        key = lambda t: enc(self.pairs.get(SInt(t))[0])
        c.prove('the keys are pairwise different', z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n, key(a) == key(b)), a == b))
        p = z3.Select(self.pos, x)
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(self.pos, key(k)) == k), patterns=[key(k)]))
        c.assume(z3.ForAll([x], z3.And(p >= -1, p < n, z3.Implies(p >= 0, key(p) == x)), patterns=[p]))

    def has(self, x): return SBool(z3.Select(self.pos, enc(x)) >= 0)

    def __getitem__(self, x):
        if not bool(self.has(x)):
            raise KeyError(x)
        return self.pairs.get(SInt(z3.Select(self.pos, enc(x))))[1]

    def __contains__(self, x): return bool(self.has(x))
    def sym_len(self): return self.s.n


# ---- builtins
def g_set(x=()):
    if engine._ctx is None:
        return set(x)
    return MSet(mem=members(x)) if not isinstance(x, (tuple, list)) or x else MSet()


class g_list:
    def __new__(cls, x=()):
        return MList(seq(x) if loops.is_symiter(x) else list(x))


def g_tuple(x=()):
    if loops.is_symiter(x):
        s = seq(x)
        n = z3.simplify(zint(s.n))
        if not z3.is_int_value(n):
            return STuple(s.n, s.get)
        return tuple(s)
    return tuple(x)


class g_dict:
    def __new__(cls, *a, **k):
        if a and isinstance(a[0], MDict):
            return a[0].copy()
        return MDict(list(a[0]) if a else [(x, y) for x, y in k.items()])


def g_any(x):
    if isinstance(x, FArr):
        return x.any()
    if loops.is_symiter(x):
        s = seq(x)
        return exists(s.n, lambda k: s.get(k))
    r = None
    for v in x:
        if bool(v):
            return True
    return False


def g_all(x):
    if loops.is_symiter(x):
        s = seq(x)
        return ~exists(s.n, lambda k: ~SBool(zbool(s.get(k))))
    for v in x:
        if not bool(v):
            return False
    return True


def g_max(*xs, **k):
    if len(xs) == 1 and loops.is_symiter(xs[0]) and not k:
        s = seq(xs[0])
        c = ctx()
        if not bool(s.n > 0):
            raise ValueError('max() of an empty sequence')
        m, w = c.fresh('max', I), c.fresh('arg', I)
        j = z3.Int(c.fresh_name('j'))
        c.assume(z3.And(w >= 0, w < zint(s.n), zint(s.get(SInt(w))) == m))
        t = zint(s.get(SInt(j)))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(s.n)), t <= m), patterns=[t]))
        return SInt(m)
    return shim.s_max(*xs, **k)


def g_getattr(x, name, *default):
    if isinstance(name, SVal):
        h = getattr(x, 'typ', ANY).attrs.get('getattr')
        if h is None:
            raise Unsupported('getattr(%r, ...)' % (x,))
        return h(x, name)
    return getattr(x, name, *default)


def g_str(x=''):
    return x if isinstance(x, SVal) else decimal(x) if isinstance(x, SInt) and engine._ctx is not None else str(x)


def chain(*xs):
    out = MList()
    for x in xs:
        out.extend(x)
    return out


def g_isinstance(x, t):
    if isinstance(x, SVal):
        h = x.typ.attrs.get('isinstance')
        if h is not None:
            return h(x, t)
        if t in (g_str, str):
            return x.typ is NAME
        raise Unsupported('isinstance of a %s' % x.typ.name)
    return isinstance(x, g_types(t))


def g_types(t):
    if isinstance(t, tuple):
        return tuple(g_types(x) for x in t)
    return {g_str: str, g_set: MSet, g_list: MList, g_tuple: (tuple, STuple), g_dict: MDict}.get(t, t) if not isinstance(t, Missing) else type(None)


class SliceMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (slice, OpaqueSlice))
    def __call__(cls, *a): return slice(*a)


class g_slice(metaclass=SliceMeta): pass


GLUE_BUILTINS = dict(shim.BUILTINS, slice=g_slice, isinstance=g_isinstance, str=g_str, set=g_set, list=g_list, tuple=g_tuple, dict=g_dict, any=g_any, all=g_all, max=g_max, getattr=g_getattr)


# ---- modules
class _AttrIb:
    def __init__(self, default=None, has=False): self.default, self.has = default, has


class _Factory:
    def __init__(self, f): self.f = f


def attr_mod():
    NO = object()

    def ib(default=NO, **k): return _AttrIb(default, default is not NO)

    def s(cls=None, **k):
        def deco(cls):
            fields = [(n, v) for n, v in cls.__dict__.items() if isinstance(v, _AttrIb)]

            def __init__(self, *a, **kw):
                vals = dict(zip([n for n, _ in fields], a))
                vals.update(kw)
                for n, v in fields:
                    if n in vals:
                        setattr(self, n, vals[n])
                    elif v.has:
                        setattr(self, n, v.default.f() if isinstance(v.default, _Factory) else v.default)
                    else:
                        raise TypeError('missing argument %s' % n)
            cls.__init__ = __init__
            return cls
        return deco(cls) if cls is not None else deco
    return Mod('attr', s=s, ib=ib, Factory=lambda f: _Factory({set: MSet, list: MList, g_set: MSet, g_list: MList}.get(f, f)))


def to_kind(dtype):
    s = str(getattr(dtype, '__name__', dtype))
    s = s[2:] if s[:2] in ('s_', 'g_') else s
    return {'f': 'o', 'i': 'i', 'b': 'b', '?': 'b', 'u': 'i', 'd': 'o'}.get(s[0], 'o')


class RandomState:
    """np.random.RandomState: some integers"""
    def __init__(self, seed=None): self.drawn = []

    def randint(self, low, high=None):
        c = ctx()
        v = SInt(c.fresh('seed', I))
        c.assume(v >= low, v < high)
        self.drawn.append(v)
        return v


class OpaqueNumpy:
    """numpy for glue code: numbers of floating-point arrays are opaque"""
    def __init__(self):
        self.nan = float('nan')


def glue_numpy():
    base = shim.numpy_mod()
    np_ = base['numpy']

    def filled(shape, v, kind, name):
        if not isinstance(shape, (tuple, list)):
            shape = tuple(shape) if isinstance(shape, MList) else (shape,)
        shape = tuple(s if isinstance(s, SInt) else SInt(zint(s)) for s in shape)
        t = num(v) if kind == 'o' else z3.IntVal(int(v)) if kind == 'i' else z3.BoolVal(bool(v)) if isinstance(v, (bool, int)) else zbool(v)
        for _ in shape:
            t = z3.K(I, t)
        return newarr(kind, shape, [t], name)

    class DT:
        def __init__(self, s): self.name = self.__name__ = str(s)
        def __str__(self): return self.name
        kind = property(lambda self: self.name[0])
    FLOAT = DT('f8')

    def isnan(a):
        f = farr(a)
        return FArr(f.shape, lambda *i: SBool(ISNAN(zterm(f.at(*i)))), 'b')

    def any_(a):
        return farr(a).any()
    def kind(dtype): return to_kind(FLOAT if dtype is None else dtype)
    np_.zeros = lambda shape, dtype=None: filled(shape, 0, kind(dtype), 'zeros')
    np_.ones = lambda shape, dtype=None: filled(shape, 1, kind(dtype), 'ones')
    np_.full = lambda shape, v, dtype=None: filled(shape, v, kind(dtype) if dtype is not None else ('b' if isinstance(v, bool) else 'i' if isinstance(v, int) else 'o'), 'full')
    np_.dtype = DT
    np_.isnan, np_.any = isnan, any_
    np_.all = lambda a: ~farr(~farr(a)).any() if isinstance(a, Proxy) else all(a)
    np_.ix_ = Ix
    np_.ndarray = Meta('ndarray', (), {'inst': (SArr, NArr, FArr)})
    np_.shares_memory = lambda a, b: getattr(a, 'data', a) is getattr(b, 'data', b)
    base['numpy.random'] = Mod('numpy.random', RandomState=RandomState)
    np_.random = base['numpy.random']
    return base


import z3 as _z3
from . import arrays as _arrays
_wrap0, _unwrap0 = _arrays.wrap, _arrays.unwrap


def _wrap(kind, vals):
    if kind == 'o':
        return ONum(vals[0])
    if kind == 'O':
        return SVal(vals[0])
    return _wrap0(kind, vals)


def _unwrap(kind, v, what='stored value'):
    if kind == 'o':
        return [num(v)]
    if kind == 'O':
        return [enc(v)]
    return _unwrap0(kind, v, what)


_arrays.wrap, _arrays.unwrap = _wrap, _unwrap


class World:
    """The modules of /repo/cheval as they are now, over the shims"""
    def __init__(self, rt, extra=None):
        self.rt = rt
        imports = dict(shim.numba_mod())
        imports.update(glue_numpy())
        imports.update(pandas_mod())
        imports['attr'] = attr_mod()
        imports['numba'].set_num_threads = lambda n: None
        imports['numexpr'] = Mod('numexpr', set_num_threads=lambda n: None, set_vml_num_threads=lambda n: None)
        imports['astor'] = Mod('astor')
        imports['collections'] = Mod('collections', deque=MList, namedtuple=_collections.namedtuple, OrderedDict=g_dict)
        imports['itertools'] = Mod('itertools', chain=chain)
        imports['cheval'] = Mod('cheval')
        imports['cheval.ldf'] = Mod('cheval.ldf', LinkedDataFrame=type('LinkedDataFrame', (), {}))
        imports['cheval.core'] = Mod('cheval.core', UtilityBoundsError=type('UtilityBoundsError', (ValueError,), {}))
        imports['cheval.parsing'] = Mod('cheval.parsing')
        imports['cheval.parsing.expressions'] = Mod('cheval.parsing.expressions', Expression=Missing('Expression'))
        imports.update(extra or {})
        self.imports = imports
        for path in ('cheval/exceptions.py', 'cheval/parsing/exceptions.py', 'cheval/parsing/constants.py', 'cheval/parsing/expr_items.py', 'cheval/utils.py', 'cheval/api.py', 'cheval/model.py'):
            self.load(path)

    def load(self, path, replace=True):
        name = path[:-3].replace('/', '.')
        if name in self.imports and not replace:
            return
        ns = load.load(path, self.rt, self.imports, overrides=GLUE_BUILTINS, glue=True)
        m = Mod(name)
        m.__dict__.update(ns)
        m.__dict__['_ns'] = ns
        self.imports[name] = m
        pkg, _, leaf = name.rpartition('.')
        if pkg in self.imports:
            self.imports[pkg].__dict__[leaf] = m

    def module(self, path):
        return self.imports[path[:-3].replace('/', '.')]._ns

    def cls(self, name, path='cheval/model.py'):
        return self.module(path)[name]


def method(world, con):
    obj = world.module(con.module)
    parts = con.name.split('.')
    for p in parts[:-1]:
        obj = obj[p] if isinstance(obj, dict) else obj.__dict__[p]
    try:
        f = obj[parts[-1]] if isinstance(obj, dict) else obj.__dict__[parts[-1]]
    except KeyError:
        return None
    if isinstance(f, property):
        return f.fset if con.setter else f.fget
    if isinstance(f, (staticmethod, classmethod)):
        return f.__func__
    return f


def install(world, con, c):
    """callees are replaced by their contracts"""
    for name, stub in con.stubs(c, world).items():
        path, _, rest = name.rpartition(':')
        ns = world.module(path or con.module)
        parts = rest.split('.')
        if len(parts) == 1:
            if parts[0] not in ns:
                raise Unsupported('%s is not there' % name)
            ns[parts[0]] = stub
            continue
        cls = ns[parts[0]]
        for p in parts[1:-1]:
            cls = cls.__dict__[p]
        parts = parts[-2:]
        old = cls.__dict__.get(parts[1])
        if old is None:
            continue                       # nothing can call it
        if isinstance(old, property):
            setattr(cls, parts[1], stub if isinstance(stub, property) else property(stub))
        elif isinstance(old, staticmethod):
            setattr(cls, parts[1], staticmethod(stub))
        else:
            setattr(cls, parts[1], stub)


class Glue(contract.Contract):
    module = 'cheval/model.py'
    setter = False
    helper = False
    glue = True
    preload = ()           # modules to load before
    modifies = ()          # names of what may be written, see `frame`

    def stubs(self, c, w): return {}

    def build(self, c, w):
        """-> (args, kwargs); self.X holds what the postconditions speak about"""
        raise NotImplementedError

    def ensures(self, result, exc):
        raise NotImplementedError

    def imports(self): return {}

    def keepers(self, info): return ()

    def extra(self, info, loop, env0, names, kinds):
        return ()

    def verify_with(self, stats):
        verify(self, stats, type(self).__name__)


class SpecOf:
    """what the loop rule asks the specification for"""
    def __init__(self, con): self.con = con

    def instances(self, k):
        if hasattr(self.con, 'instances'):
            self.con.instances(k)

    def extra(self, info, loop, env0, names, kinds):
        return self.con.extra(info, loop, env0, names, kinds)


def verify(con, stats, label):
    rt = GlueRuntime()
    c = engine.Ctx(stats)
    rt.c = c
    c.harness = label
    c.loopelems = {}
    cur = {}
    ended = [0, 0]
    missing = []

    def harness(c):
        rt.restarting = False
        c.rng = None
        c.ghost['spec'] = None
        engine._ctx = None
        try:
            w = World(rt, con.imports())
        finally:
            engine._ctx = c
        con.w = w
        if '_ns' not in getattr(w.imports.get(con.module[:-3].replace('/', '.')), '__dict__', ()):
            engine._ctx = None
            try:
                for path in con.preload:
                    w.load(path)
                w.load(con.module)
            finally:
                engine._ctx = c
        f = method(w, con)
        if f is None:
            missing.append(1)
            return
        install(w, con, c)
        con.facts = []
        args, kw = con.build(c, w)
        rt.spec = SpecOf(con)
        con.bufs0, con.mark = c.bufs, len(c.writes)
        if c.mode == 'verify' and not ended[1]:
            ended[1] = 1
            r, _ = c._query(list(c.pc), 4000)
            stats.vacuity += 1
            if r == 'unsat':
                c.fail('vacuity', 'the preconditions are contradictory')
        try:
            res, exc = f(*args, **kw), None
        except (Unsupported, z3.Z3Exception, PathEnd):
            raise
        except Exception as e:
            res, exc = None, type(e).__name__
            try:
                con.exc_text = traceback.format_exc()
            except Exception:
                con.exc_text = exc
            if exc not in con.raises:
                if isinstance(e, AssertionError):
                    c.fail('no exception', '%s: %s\n%s' % (exc, e, con.exc_text[-600:]))
                    return
                raise Unsupported('%s: %s\n%s' % (exc, e, con.exc_text[-900:]))
        ended[0] += 1
        for nme, fm in con.ensures(res, exc):
            c.prove('ensures ' + nme, fm)
        allowed = con.may_write()
        bad = sorted({b for kind, b, _ in c.writes[con.mark:] if kind == 'w' and b < con.bufs0 and b not in allowed})
        if bad:
            c.fail('frame', 'writes to %s' % [getattr(c.ghost['bufs'][b], 'name', None) or repr(c.ghost['bufs'][b]) for b in bad])
        elif c.mode == 'verify':
            stats.obligations.append((label + '/frame', 'proved', 'engine'))
            stats.by_back_end['engine'] = stats.by_back_end.get('engine', 0) + 1

    try:
        c.mode = 'infer'
        for rnd in range(60):
            rt.changed = False
            try:
                explore(c, harness)
            except loops.Restart:
                pass
            if not rt.changed:
                break
        else:
            raise Unsupported('invariant inference did not converge')
        if missing:
            if con.helper:
                stats.skipped = True
            else:
                stats.failed.append(dict(name='%s/exists' % label, reason='%s not found in %s' % (con.name, con.module)))
            return
        c.mode = 'verify'
        ended[:] = [0, 0]
        explore(c, harness)
        if not ended[0]:
            c.fail('vacuity', 'no path reaches the end of the function')
        if os.environ.get('LOG'):
            for info in c.loopstate.values():
                print('%s: %s' % (info.id, [d for d, _ in info.cands or []]))
    except Unsupported as e:
        engine._ctx = None
        c.mode = 'verify'
        c.fail('supported', 'the verifier cannot interpret the code: %s %s' % (e, traceback.format_exc()[-1200:]))
    except (Exception, loops.Restart) as e:
        engine._ctx = None
        c.mode = 'verify'
        c.fail('supported', 'the verifier cannot interpret the code: %r\n%s' % (e, traceback.format_exc()[-1800:]))
    finally:
        engine._ctx = None


def _may_write(self):
    out = set()
    for x in self.modifies_objects():
        if isinstance(x, SArr):
            out.add(x.buf.id)
        elif hasattr(x, 'id'):
            out.add(x.id)
    return out


Glue.may_write = _may_write
Glue.modifies_objects = lambda self: ()
