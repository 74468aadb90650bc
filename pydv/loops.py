"""The loop rule. Loops over symbolic ranges are replaced by: invariants hold on entry; an arbitrary iteration preserves
them; afterwards they hold and the range is used up. Invariants are inferred from the candidates of the contract: those that
hold on concrete runs of the same source, on entry and after an arbitrary iteration (Houdini)."""
import copy, itertools
import numpy as np
import z3
from . import engine, poly
from .engine import *
from .arrays import SArr, SORT, Buf, I, R, B


import os
DEBUG = os.environ.get('PYDV_DEBUG')
ONLY = None         # debugging: candidates to consider


class Restart(BaseException):
    """What is known about the loops was extended: infer the invariants again"""


class Undef(Proxy):
    """Value of a variable that the loop cut forgets"""
    def __init__(self, name): self.name = name
    def _no(self, *a, **k): raise Unsupported('variable %s carries a value across iterations which the loop cut forgets' % self.name)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __call__ = _no
    __getitem__ = __iter__ = __index__ = __len__ = __int__ = __float__ = __neg__ = __floordiv__ = __mod__ = __or__ = __and__ = _no
    def __eq__(self, o): self._no()
    def __ne__(self, o): self._no()
    __hash__ = object.__hash__


# ---- symbolic iterables: length() and item(k)
class SRange:
    parallel = False

    def __init__(self, *a):
        self.lo, self.hi, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if not isinstance(self.step, int) or self.step == 0:
            raise Unsupported('range with a symbolic step')

    def length(self):
        lo, hi, s = zint(self.lo), zint(self.hi), self.step
        n = (hi - lo + (s - 1)) / s if s > 0 else (lo - hi + (-s - 1)) / (-s)
        if s == 1: n = hi - lo
        if s == -1: n = lo - hi
        n = z3.simplify(n)
        if z3.is_int_value(n):
            return SInt(z3.IntVal(max(0, n.as_long())))
        if ctx().valid(n >= 0, 500)[0] == 'proved':
            return SInt(n)
        m = ctx().fresh('len', I)
        ctx().assume(m >= 0, z3.Implies(n >= 0, m == n), z3.Implies(n < 0, m == 0))
        return SInt(m)

    def item(self, k): return SInt(z3.simplify(zint(self.lo) + zint(k) * self.step))
    sym_len = length


class SEnum:
    def __init__(self, it, start=0): self.it, self.start = it, start
    def length(self): return self.it.length()
    def item(self, k): return (self.start + k if self.start else k), self.it.item(k)


class SZip:
    def __init__(self, its): self.its = its

    def length(self):
        ls = [x.length() if hasattr(x, 'item') else SInt(len(x)) for x in self.its]
        m = ls[0]
        for x in ls[1:]:
            if not (z3.is_true(z3.simplify(zint(x) == zint(m)))):
                m = SInt(z3.If(zint(x) < zint(m), zint(x), zint(m)))
        return m

    def item(self, k): return tuple(x.item(k) for x in self.its)


class SRev:
    def __init__(self, it): self.it = it
    def length(self): return self.it.length()
    def item(self, k): return self.it.item(self.it.length() - 1 - k)


def is_symiter(x):
    return hasattr(x, 'item') and hasattr(x, 'length') and not isinstance(x, np.ndarray)


def is_repo_iterable(x):
    """an instance of a class of the verified modules that can be iterated over"""
    return str(getattr(type(x), '__module__', '')).startswith('cheval') and hasattr(type(x), '__iter__')


class State:
    """What candidates see at a loop head"""
    def __init__(self, k, env, entry, it=None):
        self.k, self.env, self.entry = k, env, entry
        self.it = it
        self.rng = engine._ctx.rng if engine._ctx is not None else None
        self.rng0 = None

    @property
    def item(self):
        """The value of the k-th item of a range (extrapolated at its end)"""
        it = self.it
        if isinstance(it, range):
            return it.start + it.step * self.k
        if isinstance(it, SRange):
            return it.item(self.k)
        raise KeyError

    def __getitem__(self, name): return self.env[name]


def value_kind(v):
    if isinstance(v, (SBool, bool, np.bool_)): return 'b'
    if isinstance(v, (SInt, int, np.integer)): return 'i'
    if isinstance(v, SReal): return 'f' if v.inf is False else 'x'
    if isinstance(v, (float, np.floating)): return 'x' if float(v) == float('-inf') else 'f'
    if hasattr(type(v), 'vkind'): return v.vkind
    if isinstance(v, Proxy) and type(v).__name__ in ('SVal', 'ONum'): return 'v' if type(v).__name__ == 'SVal' else 'n'
    if isinstance(v, (SArr, np.ndarray)): return 'a%d%s' % (len(v.shape), v.kind if isinstance(v, SArr) else {'f': 'f', 'i': 'i', 'b': 'b', 'u': 'i'}.get(v.dtype.kind, '?'))
    return 'o'


def join(a, b):
    if a == b: return a
    s = {a, b}
    if s == {'i', 'f'}: return 'f'
    if 'x' in s and s <= {'i', 'f', 'x'}: return 'x'
    if s == {'i', 'b'}: return 'i'
    return 'o'


class LoopInfo:
    def __init__(self, lid):
        self.id = lid
        self.kinds, self.mod, self.modtypes = {}, set(), {}
        self.cands = None
        self.paths = 0
        self.accesses = []
        self.parallel = False
        self.rebound = set()        # variables of containers that other objects are assigned to


def snapshot(getters):
    env = {}
    for n, g in getters.items():
        try:
            env[n] = g()
        except NameError:
            pass
    return env


def freeze(env):
    out = {}
    for n, v in env.items():
        if isinstance(v, SArr):
            out[n] = v.frozen()
        elif isinstance(v, np.ndarray):
            out[n] = v.copy()
        elif hasattr(type(v), 'vkind'):
            out[n] = v.frozen()
        else:
            out[n] = v
    return out


class SymLoop:
    sym = True

    def __init__(self, rt, lid, it, getters, names, targets, test=None):
        self.rt, self.lid, self.it, self.getters, self.names, self.targets = rt, lid, it, getters, names, targets
        self.c = ctx()
        self.info = rt.c.loopstate.setdefault(lid, LoopInfo(lid))
        self.parallel = bool(getattr(it, 'parallel', False))
        self.info.parallel = self.info.parallel or self.parallel
        self.entered = False

    def havoc(self):
        c, info = self.c, self.info
        env0 = snapshot(self.getters)
        self.entry = freeze(env0)
        self.bufs0 = c.bufs
        self.n0 = c.n
        info.paths += 1
        self.n = self.it.length() if self.it is not None else None
        if self.n is not None:
            c.assume(zint(self.n) >= 0)
        # kinds of the modified scalars
        for n in self.names:
            if n in env0:
                k = value_kind(env0[n])
                if info.kinds.setdefault(n, k) != k:
                    j = join(info.kinds[n], k)
                    if j != info.kinds[n]:
                        info.kinds[n] = j
                        self.rt.restart(info)
                        raise Restart
        if info.cands is None:
            info.cands = self.rt.candidates(info, self, env0)
        # entry
        self.rng0 = c.rng
        if self.n is not None:
            self.rt.instances(SInt(z3.IntVal(0)))
        self._check(State(SInt(z3.IntVal(0)), env0, self.entry, self.it), 'on entry')
        # havoc
        for i in sorted(info.mod):
            b = c.ghost['bufs'].get(i)
            if b is not None and i < self.bufs0 and type(b).__name__ in info.modtypes[i]:
                b.havoc()
                c.writes.append(('w', i, (None,)))
        out, self.hav = [], {}
        for n in self.names:
            if n not in env0 or self.parallel:
                v = Undef(n)
            else:
                kind = info.kinds[n]
                if kind in ('i', 'f', 'b'):
                    v = {'i': SInt, 'f': SReal, 'b': SBool}[kind](c.fresh(n, SORT[kind]))
                elif kind == 'x':
                    v = SReal(c.fresh(n, R), c.fresh(n + '_inf', B))
                elif kind.startswith('a'):
                    v = env0[n]
                    # rebinding of an array variable within a loop is not supported
                    v = Undef(n)
                elif kind == 'v':
                    v = type(env0[n])(c.fresh(n, env0[n].z.sort()), env0[n].typ)
                elif kind == 'n':
                    v = type(env0[n])(c.fresh(n, env0[n].z.sort()))
                elif n in self.rt.keepers(info):
                    v = env0[n]
                elif kind in ('L', 'D', 'S') and n not in info.rebound:
                    v = env0[n]         # its contents are forgotten where they are written to; that it stays this object is checked at the end of every iteration
                elif hasattr(type(env0[n]), 'fresh_like'):
                    v = env0[n].fresh_like()
                else:
                    v = Undef(n)
            self.hav[n] = v
            out.append(v)
        self.mark = len(c.writes)
        if self.parallel:
            c.rng = None
        elif c.rng is not None:
            c.rng = (c.fresh('rngseed', I), c.fresh('rngpos', I))
        return tuple(out)

    def _env(self):
        env = snapshot(self.getters)
        return env

    def _assume(self, st):
        st.rng0 = self.rng0
        for desc, f in list(self.info.cands):
            self.c.assume(f(st))

    def _check(self, st, when):
        c, info = self.c, self.info
        st.rng0 = self.rng0
        if c.mode == 'infer':
            goals = []
            for cand in list(info.cands):
                try:
                    goals.append((cand, zbool(cand[1](st))))
                except Exception as err:
                    if DEBUG and DEBUG in cand[0]:
                        print('  not expressible: %s %s %s: %r' % (info.id, cand[0], when, err))
                    info.cands.remove(cand)
                    self.rt.changed = True
            if not goals:
                return
            if c.valid(z3.And([g for _, g in goals]), 3000)[0] == 'proved':
                return
            for cand, g in goals:
                if c.valid(g, 1500)[0] != 'proved':
                    if DEBUG and DEBUG in cand[0]:
                        print('  not inductive: %s %s %s: %s' % (info.id, cand[0], when, g), c.valid(g, 1500)[:2], c.trace)
                    if cand in info.cands:
                        info.cands.remove(cand)
                        self.rt.changed = True
        else:
            for desc, f in info.cands:
                c.prove('%s invariant {%s} %s' % (self.lid, desc, when), f(st))

    def __iter__(self):
        return self

    def __next__(self):
        c = self.c
        if not self.entered:
            self.entered = True
            if self.it is not None and c.choose(self.lid):
                k = SInt(c.fresh('k', I))
                c.assume(z3.And(k.z >= 0, k.z < zint(self.n)))
                self.k = k
                self.rt.instances(k)
                self._assume(State(k, self._env(), self.entry, self.it))
                mark = len(c.writes)
                item = self.it.item(k)
                del c.writes[mark:]
                self.pcmark = len(c.pc)
                return item
            st = State(self.n, self._env(), self.entry, self.it)
            self.rt.instances(self.n)
            self._assume(st)
            raise StopIteration
        self._back(State(self.k + 1, self._env(), self.entry, self.it))
        raise PathEnd

    def _back(self, st):
        c, info = self.c, self.info
        for n in self.names:
            if n in self.entry and n in st.env:
                j = join(info.kinds[n], value_kind(st.env[n]))
                if j != info.kinds[n]:
                    info.kinds[n] = j
                    self.rt.restart(info)
                if info.kinds[n] in ('L', 'D', 'S') and n not in info.rebound and st.env[n] is not self.hav.get(n):
                    info.rebound.add(n)
                    self.rt.restart(info)
        for kind, b, idx in c.writes[self.mark:]:
            t = type(c.ghost['bufs'].get(b)).__name__
            if kind == 'w' and b < self.bufs0 and (b not in info.mod or t not in info.modtypes[b]):
                info.mod.add(b)          # (numbers of buffers differ between paths, hence the type as well)
                info.modtypes.setdefault(b, set()).add(t)
                self.rt.restart(info)
        if hasattr(c, 'loopelems'):
            for i, e in c.ghost.get('elements', {}).items():
                if i < self.bufs0 and c.loopelems.get(i) != e:
                    c.loopelems[i] = e
                    self.rt.restart(info)
        if self.rt.restarting:
            raise Restart
        self._check(st, 'preserved')
        if self.parallel and c.mode == 'verify':
            info.accesses.append((list(c.pc[self.pcmark:]), self.k.z, self.n0, [a for a in c.writes[self.mark:] if a[1] < self.bufs0],
                                  list(c.pc[:self.pcmark])))

    # ---- while loops
    def head(self):
        c = self.c
        if not self.entered:
            self.entered = True
            self.k = SInt(c.fresh('k', I))
            c.assume(self.k.z >= 0)
            self._assume(State(self.k, self._env(), self.entry, self.it))
            return True
        self._back(State(self.k + 1, self._env(), self.entry, self.it))
        raise PathEnd


class ConcreteLoop:
    """A loop that is simply executed (recording the states at its head in concrete runs)"""
    sym = False

    def __init__(self, rt, lid, it, getters):
        self.rt, self.lid, self.it, self.getters = rt, lid, it, getters
        self.k = 0
        self.record = rt.record is not None
        if self.record:
            self.entry = freeze(snapshot(getters))

    def havoc(self):
        raise AssertionError

    def _rec(self):
        if self.record and len(self.rt.record.setdefault(self.lid, [])) < 400:
            self.rt.record[self.lid].append((self.rt.concrete_spec, State(self.k, freeze(snapshot(self.getters)), self.entry, self.it)))
        self.k += 1

    def __iter__(self):
        for x in self.it:
            if self.record:
                self._rec()
            yield x
        if self.record:
            self._rec()

    def head(self):
        if self.record:
            self._rec()
        return True


class Runtime:
    """The object `_rt_` in the namespace of the transformed modules"""
    def __init__(self, c=None):
        self.c = c
        self.record = None
        self.concrete_spec = None
        self.changed = False
        self.restarting = False
        self.spec = None
        self.contract = None
        self.states = {}
        self.filtered = {}

    def restart(self, info):
        """kinds or modified arrays of a loop were extended: infer its invariants again"""
        for i in self.c.loopstate.values():
            i.cands = None
        self.changed = True
        self.restarting = True

    def keepers(self, info):
        return ()

    def instances(self, k):
        if self.spec is not None and hasattr(self.spec, 'instances'):
            self.spec.instances(k)

    def for_begin(self, lid, it, getters, names, targets):
        if engine._ctx is not None and is_symiter(it):
            return SymLoop(self, lid, it, getters, names, targets)
        if engine._ctx is not None and not isinstance(it, Proxy) and is_repo_iterable(it):
            it = it.__iter__()
            if is_symiter(it):
                return SymLoop(self, lid, it, getters, names, targets)
        if engine._ctx is not None and isinstance(it, Proxy) and not hasattr(it, '__iter__'):
            raise Unsupported('iteration over %r' % (it,))
        return ConcreteLoop(self, lid, it, getters)

    def while_begin(self, lid, test, getters, names):
        if engine._ctx is not None:
            c = ctx()
            t = test()
            if isinstance(t, SBool) and not (z3.is_true(z3.simplify(t.z)) or z3.is_false(z3.simplify(t.z))):
                return SymLoop(self, lid, None, getters, names, ())
        return ConcreteLoop(self, lid, (), getters)

    def comp(self, kind, it, elt, conds):
        if engine._ctx is not None and is_symiter(it) and not isinstance(it, (list, tuple)):
            if hasattr(it, 'comp'):
                return it.comp(kind, elt, conds)
            raise Unsupported('comprehension over a symbolic iterable')
        gen = (elt(x) for x in it if all(c(x) for c in conds))
        return {'list': list, 'set': set, 'dict': dict, 'gen': lambda g: g}[kind](gen)

    def varies(self, lid, v):
        """the variable takes several values within one concrete run"""
        seen = {}
        for spec, st in self.states.get(lid, []):
            x = st.env.get(v)
            if seen.setdefault(id(spec), x) != x:
                return True
        return False

    # ---- candidates
    def candidates(self, info, loop, env0):
        spec = self.spec
        out = []
        names = [n for n in env0 if n not in loop.targets]
        seen = set()
        for desc, f in templates(spec, info, loop, env0, names):
            if desc in seen or (ONLY is not None and desc not in ONLY.get(info.id, ())):
                continue
            seen.add(desc)
            out.append((desc, f))
        # Drop what concrete runs refute
        states = self.states.get(info.id, [])
        keep = []
        for desc, f in out:
            ok = self.filtered.get((info.id, desc, len(states)))
            if ok is not None:
                if ok:
                    keep.append((desc, lambda st, f=f: f(st, self.spec)))
                continue
            ok = True
            poly.STAT.update(forall=0, hit=0)
            for cspec, st in states:
                err = ''
                try:
                    saved, engine._ctx = engine._ctx, None
                    Runtime.current_spec = cspec
                    try:
                        good = bool(f(st, cspec))
                    finally:
                        engine._ctx = saved
                except Exception as e:
                    good, err = False, repr(e)
                if not good:
                    if DEBUG and DEBUG in desc:
                        print('  refuted by a run: %s: %s k=%s env=%s %s' % (info.id, desc, st.k, st.env, err))
                    ok = False
                    break
            if ok and states and poly.STAT['forall'] and not poly.STAT['hit']:
                ok = False          # vacuous in all runs
            self.filtered[(info.id, desc, len(states))] = ok
            if ok:
                keep.append((desc, lambda st, f=f: f(st, self.spec)))
        return keep


def templates(spec, info, loop, env0, names):
    """(description, f(state, spec)) for a loop"""
    P = poly
    kinds = {}
    for n in names:
        kinds[n] = info.kinds.get(n, value_kind(env0[n])) if n in loop.names else value_kind(env0[n])
    mod = [n for n in loop.names if n in env0]
    ints = [n for n in names if kinds[n] == 'i']
    reals = [n for n in names if kinds[n] in 'fx']
    arrays = [n for n in names if kinds[n].startswith('a')]

    def buf(n):
        return env0[n].buf.id if isinstance(env0[n], SArr) else None
    modarr = [n for n in arrays if buf(n) in info.mod]
    for n in mod:
        k = kinds[n]
        if k == 'i':
            yield '%s == k' % n, lambda s, S, n=n: P.eq(s[n], s.k)
            yield '%s == entry' % n, lambda s, S, n=n: P.eq(s[n], s.entry[n])
            yield '%s == entry + k' % n, lambda s, S, n=n: P.eq(s[n], s.entry[n] + s.k)
            yield '%s == entry - k' % n, lambda s, S, n=n: P.eq(s[n], s.entry[n] - s.k)
            yield '%s >= 0' % n, lambda s, S, n=n: s[n] >= 0
            for a in arrays[:6]:
                yield '%s < len(%s)' % (n, a), lambda s, S, n=n, a=a: s[n] < P.size(s[a])
            for m in ints:
                if m != n:
                    yield '%s <= %s' % (n, m), lambda s, S, n=n, m=m: s[n] <= s[m]
                    yield '%s < %s' % (n, m), lambda s, S, n=n, m=m: s[n] < s[m]
                    if m in mod:
                        yield '%s > %s' % (n, m), lambda s, S, n=n, m=m: s[n] > s[m]
        if k in 'fx':
            yield '%s == entry' % n, lambda s, S, n=n: P.eq(s[n], s.entry[n])
            yield '%s >= 0' % n, lambda s, S, n=n: s[n] >= 0
            if k == 'x':
                yield '%s is finite' % n, lambda s, S, n=n: s[n].finite() if hasattr(s[n], 'finite') else s[n] > float('-inf')
            for m in reals:
                if m != n:
                    yield '%s < %s' % (n, m), lambda s, S, n=n, m=m: s[n] < s[m]
                    yield '%s <= %s' % (n, m), lambda s, S, n=n, m=m: s[n] <= s[m]
        for tn, t in getattr(spec, 'scalars', {}).items():
            if k in 'fx' or k == 'i':
                yield '%s == %s' % (n, tn), lambda s, S, n=n, tn=tn: P.eq(s[n], S.scalars[tn](s.k))
        if hasattr(spec, 'scalar_rel'):
            for tn in spec.scalar_rel:
                yield '%s: %s' % (n, tn), lambda s, S, n=n, tn=tn: S.scalar_rel[tn](s[n], s)
    if hasattr(spec, 'pair_rel'):
        for n in mod:
            for m in ints + reals:
                if n != m:
                    for tn in spec.pair_rel:
                        yield '%s,%s: %s' % (n, m, tn), lambda s, S, n=n, m=m, tn=tn: S.pair_rel[tn](s[n], s[m], s)
    guards = {
        'all': lambda j, s, S: True,
        'j < k': lambda j, s, S: j < s.k,
        'j >= k': lambda j, s, S: j >= s.k,
    }
    if hasattr(spec, 'guards'):
        for gn in spec.guards:
            guards[gn] = lambda j, s, S, gn=gn: S.guards[gn](j, s)
    if hasattr(spec, 'var_guards'):
        vs = {v: (lambda s, v=v: s[v]) for v in ints if v in mod or loop.rt.varies(info.id, v)}
        if isinstance(loop.it, SRange) and not loop.it.parallel:
            vs['item'] = lambda s: s.item
        for v, get in vs.items():
            for gn in spec.var_guards:
                guards['%s[v=%s]' % (gn, v)] = lambda j, s, S, gn=gn, get=get: S.var_guards[gn](j, get(s), s)
        for n in mod:
            for v, get in vs.items():
                if n != v:
                    for tn in getattr(spec, 'scalar_var_rel', {}):
                        yield '%s: %s[v=%s]' % (n, tn, v), lambda s, S, n=n, get=get, tn=tn: S.scalar_var_rel[tn](s[n], get(s), s)
    for a in modarr:
        nd = len(env0[a].shape)
        if nd == 1:
            terms = {'entry': lambda j, s, S, a=a: P.at(s.entry[a], j), '0': lambda j, s, S: 0}
            for tn in getattr(spec, 'terms', {}):
                terms[tn] = lambda j, s, S, tn=tn: S.terms[tn](j, s)
            for gn, g in guards.items():
                for tn, t in terms.items():
                    def f(s, S, g=g, t=t, a=a):
                        n = P.size(s[a])
                        return P.forall(0, n, lambda j: P.implies(g(j, s, S), lambda: P.eq(P.at(s[a], j), t(j, s, S))),
                                        pattern=lambda j: P.at(s[a], j))
                    yield '%s: %s[j] == %s' % (gn, a, tn), f
            if hasattr(spec, 'array_rel'):
                for gn, g in guards.items():
                    for tn in spec.array_rel:
                        def f(s, S, g=g, a=a, tn=tn):
                            n = P.size(s[a])
                            return P.forall(0, n, lambda j: P.implies(g(j, s, S), lambda: S.array_rel[tn](P.at(s[a], j), j, s)),
                                            pattern=lambda j: P.at(s[a], j))
                        yield '%s: %s(%s[j])' % (gn, tn, a), f
        else:
            terms = {'entry': lambda i, j, s, S, a=a: P.at(s.entry[a], i, j), '0': lambda i, j, s, S: 0}
            for tn in getattr(spec, 'terms2', {}):
                terms[tn] = lambda i, j, s, S, tn=tn: S.terms2[tn](i, j, s)
            for gn, g in guards.items():
                for tn, t in terms.items():
                    def f(s, S, g=g, t=t, a=a):
                        n, m = s[a].shape
                        return P.forall2(n, m, lambda i, j: P.implies(g(i, s, S), lambda: P.eq(P.at(s[a], i, j), t(i, j, s, S))), pattern=lambda i, j: P.at(s[a], i, j))
                    yield '%s: %s[i,j] == %s' % (gn, a, tn), f
            if hasattr(spec, 'array_rel2'):
                for gn, g in guards.items():
                    for tn in spec.array_rel2:
                        def f(s, S, g=g, a=a, tn=tn):
                            n, m = s[a].shape
                            return P.forall2(n, m, lambda i, j: P.implies(g(i, s, S), lambda: S.array_rel2[tn](P.at(s[a], i, j), i, j, s)), pattern=lambda i, j: P.at(s[a], i, j))
                        yield '%s: %s(%s[i,j])' % (gn, tn, a), f
    def rng(f):
        return lambda s, S: True if engine._ctx is None or s.rng0 is None else (False if s.rng is None else SBool(f(s)))
    if engine._ctx is not None and engine._ctx.rng is not None and not loop.parallel:
        yield 'seed of the random numbers == entry', rng(lambda s: s.rng[0] == s.rng0[0])
        yield 'position in the random numbers == entry', rng(lambda s: s.rng[1] == s.rng0[1])
        yield 'position in the random numbers == entry + k', rng(lambda s: s.rng[1] == s.rng0[1] + zint(s.k))
    if hasattr(spec, 'extra'):
        yield from spec.extra(info, loop, env0, names, kinds)
