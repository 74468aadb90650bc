"""Specification operators that work on concrete values and on proxies alike"""
import math
import z3
from . import engine
from .engine import SBool, SInt, SReal, SNum, Proxy, zint, zreal, zbool, zb, ctx, Unsupported


def issym(*xs):
    return any(isinstance(x, Proxy) or isinstance(x, z3.ExprRef) for x in xs)


def symbolic():
    return engine._ctx is not None


def eq(a, b):
    if issym(a, b):
        r = a == b if isinstance(a, Proxy) else b == a
        return r
    if isinstance(a, float) or isinstance(b, float) or hasattr(a, 'dtype') or hasattr(b, 'dtype'):
        a, b = float(a), float(b)
        return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    return a == b


def and_(*xs):
    xs = flat(xs)
    if any(issym(x) for x in xs):
        return SBool(z3.And([zbool(x) for x in xs]))
    return all(bool(x) for x in xs)


def or_(*xs):
    xs = flat(xs)
    if any(issym(x) for x in xs):
        return SBool(z3.Or([zbool(x) for x in xs]))
    return any(bool(x) for x in xs)


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out.extend(x)
        else:
            out.append(x)
    return out


def not_(x):
    return SBool(z3.Not(zbool(x))) if issym(x) else not x


def implies(a, b):
    """b may be a function (not evaluated when a is concretely false)"""
    STAT['impl'] += 1
    if a is False or (not issym(a) and not a):
        return True
    STAT['hit'] += 1
    if callable(b) and not isinstance(b, Proxy):
        b = b()
    if issym(a, b):
        return SBool(z3.Implies(zbool(a), zbool(b)))
    return (not a) or bool(b)


def ite(c, a, b):
    """a, b may be functions"""
    if not issym(c):
        r = a if c else b
        return r() if callable(r) and not isinstance(r, Proxy) else r
    a = a() if callable(a) and not isinstance(a, Proxy) else a
    b = b() if callable(b) and not isinstance(b, Proxy) else b
    if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
        (x, i), (y, j) = zreal(a), zreal(b)
        inf = False if i is False and j is False else z3.If(zbool(c), zb(i), zb(j))
        return SReal(z3.If(zbool(c), x, y), inf)
    if isinstance(a, (SBool, bool)):
        return SBool(z3.If(zbool(c), zbool(a), zbool(b)))
    return SInt(z3.If(zbool(c), zint(a), zint(b)))


STAT = dict(forall=0, impl=0, hit=0)       # concrete evaluations: quantifiers, implications that are not vacuous


def forall(lo, hi, f, pattern=None):
    """for all integers j with lo <= j < hi: f(j)"""
    if not symbolic():
        STAT['forall'] += 1
        seen = STAT['impl']
        r = all(bool(f(j)) for j in range(int(lo), int(hi)))
        if STAT['impl'] == seen and hi > lo:
            STAT['hit'] += 1
        return r
    c = ctx()
    j = z3.Int(c.fresh_name('q'))
    c.nofork += 1
    mark = len(c.pc)
    mode, c.mode = c.mode, 'infer'
    try:
        body = zbool(f(SInt(j)))
    finally:
        c.nofork -= 1
        side = c.pc[mark:]
        del c.pc[mark:]
        c.mode = mode
    rng = []
    if lo is not None:
        rng.append(j >= zint(lo))
    if hi is not None:
        rng.append(j < zint(hi))
    g = z3.Implies(z3.And(rng), body) if rng else body
    if pattern is not None:
        pats = pattern(SInt(j))
        terms = []
        for p in (pats if isinstance(pats, (list, tuple)) else [pats]):
            terms.append(getattr(p, 'z', p))
            if isinstance(p, SReal) and isinstance(p.inf, z3.ExprRef) and not z3.is_true(p.inf) and not z3.is_false(p.inf):
                terms.append(p.inf)
        pats = terms
        return SBool(z3.ForAll([j], g, patterns=pats))
    return SBool(z3.ForAll([j], g))


def forall2(n, m, f, pattern=None):
    """for all integers 0 <= i < n, 0 <= j < m: f(i, j)"""
    if not symbolic():
        return forall(0, n, lambda i: forall(0, m, lambda j: f(i, j)))
    c = ctx()
    i, j = z3.Int(c.fresh_name('q')), z3.Int(c.fresh_name('q'))
    c.nofork += 1
    mark = len(c.pc)
    mode, c.mode = c.mode, 'infer'
    try:
        body = zbool(f(SInt(i), SInt(j)))
    finally:
        c.nofork -= 1
        del c.pc[mark:]
        c.mode = mode
    g = z3.Implies(z3.And(i >= 0, i < zint(n), j >= 0, j < zint(m)), body)
    if pattern is None:
        return SBool(z3.ForAll([i, j], g))
    p = pattern(SInt(i), SInt(j))
    pats = [getattr(p, 'z', p)]
    if isinstance(p, SReal) and isinstance(p.inf, z3.ExprRef) and not z3.is_true(p.inf) and not z3.is_false(p.inf):
        pats.append(p.inf)
    return SBool(z3.ForAll([i, j], g, patterns=pats))


def at(a, *idx):
    if hasattr(a, 'at') and not hasattr(a, 'iloc'):
        return a.at(*idx)
    for i in idx:
        a = a[int(i)]
    return a


def size(a):
    return a.shape[0]


def ite_(c, a, b):
    """choice between opaque values"""
    from .obj import choose
    return choose(c if issym(c) else SBool(z3.BoolVal(bool(c))), lambda: a, lambda: b)
