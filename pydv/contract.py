"""Contracts and the verification of a function against its contract"""
import random, traceback
import numpy as np
import z3
from . import engine, poly, loops, shim, load
from .engine import *
from .arrays import SArr


class Contract:
    module = 'cheval/core.py'
    name = None
    uses = ()            # names of functions that are replaced by their contracts (all others are inlined)
    raises = ()          # exception type names the contract speaks about
    helper = False       # not called from outside: if it does not exist, its code is part of the callers
    defaults = {}

    def args(self, c):
        """Arbitrary arguments"""
        raise NotImplementedError

    def requires(self, a):
        return []

    def ensures(self, a, old, result, exc):
        """[(name, formula)]; exc: name of the exception raised, or None"""
        raise NotImplementedError

    def spec(self, a, c=None):
        return None

    def examples(self, rng):
        return []

    def lemmas(self, c, a, S):
        pass


def freeze_args(a):
    return loops.freeze(a)


class UtilityBoundsErrorStub(ValueError):
    pass


def verify(con, contracts, stats, label=None, log=None):
    """Verifies one function against its contract"""
    rt = loops.Runtime()
    # -- concrete runs: states at loop heads, and a sanity check of the contract itself
    conc = loops.Runtime()
    cimports = load.concrete_imports()
    ns = load.load(con.module, conc, cimports, symbolic=False)
    if con.name not in ns and con.helper:
        stats.skipped = True
        return
    if con.name not in ns:
        stats.failed.append(dict(name='%s/exists' % con.name, reason='function %s not found in %s' % (con.name, con.module)))
        return
    rng = random.Random(7)
    n = 0
    for ex in con.examples(rng):
        a = dict(ex)
        old = freeze_args(a)
        conc.record = conc.record if conc.record is not None else {}
        conc.concrete_spec = con.spec(old)
        try:
            with np.errstate(all='ignore'):
                res, exc = ns[con.name](**actual(con, ns[con.name], a)), None
        except Exception as e:
            res, exc = None, type(e).__name__
            if exc not in con.raises:
                stats.failed.append(dict(name='%s/example' % con.name, reason='%s: %s' % (exc, e), output=traceback.format_exc()[-1500:], input=repr(ex)))
                stats.obligations.append(('%s/example' % con.name, 'failed', 'run'))
                return
        try:
            post = con.ensures(a, old, res, exc)
        except Exception as e:
            stats.failed.append(dict(name='%s/example' % con.name, reason='the result does not have the shape the contract speaks about (%r)' % e, input=repr(ex)[:1500], output=repr(res)[:500]))
            stats.obligations.append(('%s/example' % con.name, 'failed', 'run'))
            return
        for name, f in post:
            if not bool(f):
                stats.failed.append(dict(name='%s/example: %s' % (con.name, name), reason='postcondition is false for a concrete input', replayed=True, input=repr(ex)[:1500], output=repr(res)[:500]))
                stats.obligations.append(('%s/example: %s' % (con.name, name), 'failed', 'run'))
                return
        n += 1
    stats.vacuity += n
    rt.states = conc.record or {}
    # -- symbolic
    c = engine.Ctx(stats)
    rt.c = c
    c.harness = label or con.name
    imports = dict(shim.numba_mod())
    imports.update(shim.numpy_mod())
    engine._ctx = c
    ns = load.load(con.module, rt, imports)
    engine._ctx = None
    fn0 = ns[con.name]
    real = dict(ns)
    for other in contracts:
        if other.name in con.uses and other.name in ns and other.module == con.module:
            ns[other.name] = make_stub(other, rt, real[other.name])
    rt.ns = ns
    fn = lambda **a: fn0(**actual(con, fn0, a))
    ended = [0, 0]

    def harness(c):
        rt.restarting = False
        c.rng = None
        a = con.args(c)
        c.ghost['spec'] = None
        for nme, f in con.requires(a):
            c.assume(f)
        old = freeze_args(a)
        S = rt.spec = con.spec(old, c)
        con.lemmas(c, old, S)
        if c.mode == 'verify' and not ended[1]:
            ended[1] = 1
            r, _ = c._query(list(c.pc), 4000)
            stats.vacuity += 1
            if r == 'unsat':
                c.fail('vacuity', 'the preconditions are contradictory')
        try:
            res, exc = fn(**a), None
        except (Unsupported, z3.Z3Exception, PathEnd):
            raise
        except Exception as e:
            res, exc = None, type(e).__name__
            if exc not in con.raises:
                if isinstance(e, AssertionError) or type(e).__name__ in ('UtilityBoundsError',):
                    c.fail('no exception', '%s: %s' % (exc, e))
                    return
                raise Unsupported('%s: %s\n%s' % (exc, e, traceback.format_exc()[-800:]))
        ended[0] += 1
        for nme, f in con.ensures(a, old, res, exc):
            c.prove('ensures ' + nme, f)

    try:
        c.mode = 'infer'
        for rnd in range(60):
            rt.changed = False
            try:
                explore(c, harness)
            except loops.Restart:
                pass
            if not rt.changed:
                break
        else:
            raise Unsupported('invariant inference did not converge')
        c.mode = 'verify'
        for info in c.loopstate.values():
            info.accesses = []
        ended[:] = [0, 0]
        explore(c, harness)
        if not ended[0]:
            c.fail('vacuity', 'no path reaches the end of the function')
        for info in c.loopstate.values():
            if info.parallel:
                independence(c, info)
        if log:
            for info in c.loopstate.values():
                log('%s: %s' % (info.id, [d for d, _ in info.cands or []]))
    except Unsupported as e:
        engine._ctx = None
        c.mode = 'verify'
        c.fail('supported', 'the verifier cannot interpret the code: %s' % e)
    except (Exception, loops.Restart) as e:
        engine._ctx = None
        c.mode = 'verify'
        c.fail('supported', 'the verifier cannot interpret the code: %r\n%s' % (e, traceback.format_exc()[-1500:]))
    finally:
        engine._ctx = None


def consts(t, acc, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        acc[t.decl().name()] = t
    for ch in t.children():
        consts(ch, acc, seen)
    if z3.is_quantifier(t):
        consts(t.body(), acc, seen)


def independence(c, info):
    """No iteration of a parallel loop accesses an element that another iteration writes"""
    engine._ctx = c
    try:
        for pc1, k1, n0, acc1, base in info.accesses:
            for kind1, b1, i1 in acc1:
                if kind1 != 'w':
                    continue
                for pc2, k2, n02, acc2, base2 in info.accesses:
                    for kind2, b2, i2 in acc2:
                        if b2 != b1:
                            continue
                        # rename what the second iteration introduced
                        terms = list(pc2) + [x for x in i2 if x is not None] + [k2]
                        found = {}
                        for t in terms:
                            consts(t, found, set())
                        sub = []
                        for nm, t in found.items():
                            if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) > n02:
                                sub.append((t, z3.Const(nm + "'", t.sort())))
                        ren = lambda t: z3.substitute(t, sub)
                        c.pc = list(base) + list(pc1) + [ren(t) for t in base2] + [ren(t) for t in pc2]
                        same = [x == ren(y) for x, y in zip(i1, i2) if x is not None and y is not None]
                        c.prove('%s iterations are independent' % info.id, z3.Or(k1 == ren(k2), z3.Not(z3.And(same)) if same else z3.BoolVal(False)))
    finally:
        engine._ctx = None


def mapping(con, fn):
    """actual parameter name -> name in the contract (by position if parameters were renamed)"""
    import inspect
    names = [p.name for p in inspect.signature(fn).parameters.values()]
    if set(names) >= set(con.params) or len(names) != len(con.params):
        return {n: n for n in names}
    return dict(zip(names, con.params))


def actual(con, fn, a):
    m = mapping(con, fn)
    return {n: a[m[n]] for n in m if m[n] in a} if set(a) <= set(m.values()) else a


def make_stub(con, rt, fn):
    import inspect
    sig = inspect.signature(fn)
    m = mapping(con, fn)

    def stub(*args, **kw):
        c = ctx()
        b = sig.bind(*args, **kw)
        b.apply_defaults()
        a = {m[k]: v for k, v in b.arguments.items()}
        if set(a) != set(con.params):
            raise Unsupported('%s does not have the parameters of its contract' % con.name)
        for nme, f in con.requires(a):
            c.prove('%s requires %s' % (con.name, nme), f)
        return con.apply(c, a, rt)
    stub.__name__ = con.name
    return stub
