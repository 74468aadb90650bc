"""Lemma: the probabilities of a nested logit model are a distribution (not negative, sum 1 if any alternative is available).

By induction on the levels of the tree: the mass M(l) of the bottom nodes of level <= l and the nests of level l does not change
from l to l + 1, because the shares of the members of a nest sum to 1 (exchange of the two sums by induction on the nodes)."""
import z3
from . import engine
from .engine import zint, zbool
from .arrays import I, R, B

ARR = z3.ArraySort(I, R)
S = z3.Select
_m = engine._mul


class scope:
    """Facts assumed within the block are forgotten at its end"""
    def __init__(self, c, only=None):
        self.c, self.only = c, only

    def __enter__(self):
        self.saved = list(self.c.pc)
        if self.only is not None:
            self.c.pc = list(self.only)

    def __exit__(self, *a):
        self.c.pc = self.saved


def arith(c, name, n, f, pattern=None):
    """A fact about multiplication and division: proved for the real operations, then known of the uninterpreted ones"""
    xs = [z3.Real('x%d' % i) for i in range(n)]
    with scope(c, []):
        c.prove('arithmetic: ' + name, f(lambda a, b: a * b, lambda a, b: a / b, *xs))
    if pattern:
        c.assume(z3.ForAll(xs, f(engine._mul, engine._div, *xs), patterns=[pattern(engine._mul, engine._div, *xs)]))


def all_j(n, f, pat):
    j = z3.Int('j')
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), f(j)), patterns=[pat(j)])


# instances of facts that `arith` proves
def distributive(a, b, e):
    return _m(a, b + e) == _m(a, b) + _m(a, e)


def lemma_update(c, PS, ax):
    """If y equals x except that y[q] = x[q] + d, the sums differ by d"""
    x, y = c.fresh('x', ARR), c.fresh('y', ARR)
    q, d, k, n = c.fresh('q', I), c.fresh('d', R), c.fresh('k', I), c.fresh('n', I)
    j = z3.Int('j')
    upd = lambda k: PS(y, k) == PS(x, k) + z3.If(z3.And(q >= 0, q < k), d, z3.RealVal(0))
    with scope(c, []):
        c.assume(z3.And(k >= 0, k < n))
        c.assume(all_j(n, lambda j: S(y, j) == S(x, j) + z3.If(j == q, d, z3.RealVal(0)), lambda j: S(y, j)))
        ax(c, x, z3.IntVal(0)), ax(c, y, z3.IntVal(0))
        c.prove('lemma sums of arrays that differ at one place (base)', upd(z3.IntVal(0)))
        ax(c, x, k), ax(c, y, k)
        c.assume(upd(k))
        c.prove('lemma sums of arrays that differ at one place (step)', upd(k + 1))

    def use(x, y, q, d, n, name, hints=lambda j: ()):
        """proves the premise and gives the conclusion"""
        jj = c.fresh('j', I)
        c.assume(*hints(jj))
        c.prove(name, z3.Implies(z3.And(jj >= 0, jj < n), S(y, jj) == S(x, jj) + z3.If(jj == q, d, z3.RealVal(0))))
        c.assume(PS(y, n) == PS(x, n) + z3.If(z3.And(q >= 0, q < n), d, z3.RealVal(0)))
    return use


def lemma_linear(c, PS, ax):
    a, b, x, y = (c.fresh(v, ARR) for v in 'abxy')
    k, n = c.fresh('k', I), c.fresh('n', I)
    f = lambda k: PS(a, k) == PS(b, k) + PS(x, k) - PS(y, k)
    with scope(c, []):
        c.assume(z3.And(k >= 0, k < n))
        c.assume(all_j(n, lambda j: S(a, j) == S(b, j) + S(x, j) - S(y, j), lambda j: S(a, j)))
        for v in (a, b, x, y):
            ax(c, v, z3.IntVal(0)), ax(c, v, k)
        c.prove('lemma sums are linear (base)', f(z3.IntVal(0)))
        c.assume(f(k))
        c.prove('lemma sums are linear (step)', f(k + 1))

    def use(a, b, x, y, n, name):
        jj = c.fresh('j', I)
        c.prove(name, z3.Implies(z3.And(jj >= 0, jj < n), S(a, jj) == S(b, jj) + S(x, jj) - S(y, jj)))
        c.assume(PS(a, n) == PS(b, n) + PS(x, n) - PS(y, n))
    return use


def prove_nested_distribution(c, N, PS, ax):
    """N: the ghost state of nested_probabilities (its defining equations are assumed already)"""
    with scope(c):
        _prove(c, N, PS, ax)


def _prove(c, N, PS, ax):
    n = zint(N.n)
    par, lev, bot = (x.terms()[0] for x in (N.par, N.lev, N.bot))
    E, G, C, A, PR = N.e, N.g, N.cnd, N.abs, N.pr
    top = S(S(G, z3.IntVal(-1)), n)
    j = z3.Int('j')
    zero = z3.RealVal(0)
    arith(c, 'product of non-negative numbers', 2, lambda m, d, a, b: z3.Implies(z3.And(a >= 0, b >= 0), m(a, b) >= 0), lambda m, d, a, b: m(a, b))
    arith(c, 'product with a sum', 3, lambda m, d, a, b, e: m(a, b + e) == m(a, b) + m(a, e))
    arith(c, 'product with 0', 1, lambda m, d, a: z3.And(m(a, zero) == 0, m(zero, a) == 0))
    arith(c, 'product with 1', 1, lambda m, d, a: m(a, z3.RealVal(1)) == a)
    arith(c, 'quotient of 0', 1, lambda m, d, b: z3.Implies(b > 0, d(zero, b) == 0))
    arith(c, 'quotient of a non-negative number', 2, lambda m, d, a, b: z3.Implies(z3.And(a >= 0, b > 0), d(a, b) >= 0), lambda m, d, a, b: d(a, b))
    update, linear = lemma_update(c, PS, ax), lemma_linear(c, PS, ax)

    # shares and products of shares are not negative
    jj = c.fresh('j', I)
    inr = lambda x: z3.And(x >= 0, x < n)
    c.prove('lemma shares are not negative', z3.Implies(inr(jj), S(C, jj) >= 0))
    c.assume(all_j(n, lambda j: S(C, j) >= 0, lambda j: S(C, j)))
    l = c.fresh('l', I)
    claim = lambda l: all_j(n, lambda j: z3.Implies(S(lev, j) <= l, S(A, j) >= 0), lambda j: S(A, j))
    with scope(c):
        c.prove('lemma probabilities are not negative (base)', z3.Implies(z3.And(inr(jj), S(lev, jj) <= 0), S(A, jj) >= 0))
        c.assume(l >= 0, claim(l))
        c.assume(inr(jj), S(lev, jj) <= l + 1)
        p = S(par, jj)
        c.prove('parents are one level up', z3.Or(S(lev, jj) == 0, z3.And(inr(p), S(lev, p) == S(lev, jj) - 1)))
        c.prove('lemma probabilities are not negative (step)', S(A, jj) >= 0)
    c.assume(all_j(n, lambda j: S(A, j) >= 0, lambda j: S(A, j)))
    c.prove('lemma probabilities are not negative', z3.Implies(inr(jj), S(PR, jj) >= 0))

    # GC(p, k): sum of the shares of the members i < k of p
    gc = z3.Const(c.fresh_name('GC'), z3.ArraySort(I, ARR))
    GC = lambda p, k: S(S(gc, p), k)

    def gc_axioms(k):
        c.assume(z3.ForAll([j], GC(j, z3.IntVal(0)) == 0, patterns=[GC(j, z3.IntVal(0))]))
        k1 = z3.simplify(k + 1)
        c.assume(z3.ForAll([j], z3.Implies(inr(k), GC(j, k1) == GC(j, k) + z3.If(S(par, k) == j, S(C, k), zero)), patterns=[GC(j, k1)]))
    p, k = c.fresh('p', I), c.fresh('k', I)
    gp = S(S(G, p), n)
    with scope(c):
        c.assume(gp > 0)
        gc_axioms(k)
        N.g_step(c, k)
        inv = lambda k: GC(p, k) * gp == S(S(G, p), k)
        c.assume(z3.Implies(z3.And(inr(k), S(par, k) == p), z3.And(S(C, k) == engine._div(S(E, k), gp), engine._div(S(E, k), gp) * gp == S(E, k))))
        with scope(c, [gp > 0]):
            g0 = S(S(G, p), z3.IntVal(0))
            c.assume(GC(p, z3.IntVal(0)) == 0, g0 == 0)
            c.prove('lemma shares of the members of a nest sum to 1 (base)', inv(z3.IntVal(0)))
        c.assume(inr(k))
        c.prove('share of a member', z3.Implies(S(par, k) == p, S(C, k) * gp == S(E, k)))
        g1, c1 = S(S(G, p), z3.simplify(k + 1)), GC(p, z3.simplify(k + 1))
        c.prove('sum over the next member', z3.And(g1 == S(S(G, p), k) + z3.If(S(par, k) == p, S(E, k), zero), c1 == GC(p, k) + z3.If(S(par, k) == p, S(C, k), zero)))
        facts = c.pc[-2:]
        with scope(c, facts + [gp > 0]):
            c.assume(inv(k))
            c.prove('lemma shares of the members of a nest sum to 1 (step)', c1 * gp == g1)
        with scope(c, [gp > 0, GC(p, n) * gp == gp]):
            c.prove('lemma shares of the members of a nest sum to 1', GC(p, n) == 1)
    with scope(c):
        c.assume(gp <= 0)
        gc_axioms(k)
        c.prove('lemma shares of the members of an unavailable nest are 0 (base)', GC(p, z3.IntVal(0)) == 0)
        c.assume(inr(k), GC(p, k) == 0)
        c.prove('lemma shares of the members of an unavailable nest are 0 (step)', z3.And(GC(p, z3.simplify(k + 1)) == 0))
    c.assume(z3.ForAll([j], GC(j, n) == z3.If(S(S(G, j), n) > 0, z3.RealVal(1), zero), patterns=[GC(j, n)]))

    # exchange of sums, for the members of the nests of a level
    w, v = c.fresh('w', ARR), c.fresh('v', ARR)
    xk = z3.Const(c.fresh_name('X'), z3.ArraySort(I, ARR))
    nest = lambda x, l: z3.And(S(lev, x) == l, z3.Not(S(bot, x)))

    def define(l):
        c.assume(z3.ForAll([j], S(w, j) == z3.If(S(lev, j) == l + 1, S(A, j), zero), patterns=[S(w, j)]))
        c.assume(z3.ForAll([j], S(v, j) == z3.If(nest(j, l), S(A, j), zero), patterns=[S(v, j)]))
        i = z3.Int('i')
        c.assume(z3.ForAll([i, j], S(S(xk, i), j) == z3.If(nest(j, l), _m(S(A, j), GC(j, i)), zero), patterns=[S(S(xk, i), j)]))
    with scope(c):
        c.assume(l >= 0)
        define(l)
        gc_axioms(k)
        z = z3.IntVal(0)
        zero_arr = z3.K(I, zero)
        with scope(c):
            # base: all sums are empty
            kk = c.fresh('k', I)
            zf = lambda a, k: PS(a, k) == 0
            ax(c, S(xk, z), z), ax(c, S(xk, z), kk), ax(c, w, z)
            c.prove('exchange of sums (base 0)', z3.And(PS(S(xk, z), z) == 0, PS(w, z) == 0))
            c.assume(z3.And(kk >= 0, kk < n), PS(S(xk, z), kk) == 0)
            c.assume(_m(S(A, kk), zero) == 0)
            c.prove('exchange of sums (base, element)', S(S(xk, z), kk) == 0)
            c.prove('exchange of sums (base)', PS(S(xk, z), kk + 1) == 0)
        with scope(c):
            c.assume(inr(k), PS(S(xk, k), n) == PS(w, k))
            k1 = z3.simplify(k + 1)
            pk = S(par, k)
            d = z3.If(S(lev, k) == l + 1, S(A, k), zero)
            c.prove('the parent of a node of the next level is a nest', z3.Implies(S(lev, k) == l + 1, z3.And(inr(pk), nest(pk, l))))
            c.prove('the parent of another node is not', z3.Implies(z3.And(S(lev, k) != l + 1, pk >= 0), S(lev, pk) != l))
            c.prove('probability of a member', z3.Implies(S(lev, k) == l + 1, S(A, k) == _m(S(A, pk), S(C, k))))
            update(S(xk, k), S(xk, k1), pk, d, n, 'exchange of sums: effect of one member',
                   lambda j: [distributive(S(A, j), GC(j, k), S(C, k))])
            ax(c, w, k)
            c.prove('exchange of sums (step)', PS(S(xk, k1), n) == PS(w, k1))
        c.assume(PS(S(xk, n), n) == PS(w, n))
        # an unavailable nest has probability 0
        q = c.fresh('p', I)
        gpar = S(S(G, S(par, q)), n)
        c.assume(z3.Implies(gpar > 0, engine._div(zero, gpar) == 0), _m(zero, S(A, S(par, q))) == 0)
        c.prove('an unavailable nest has probability 0', z3.Implies(z3.And(inr(q), z3.Not(S(bot, q)), S(S(G, q), n) <= 0), z3.And(S(E, q) == 0, S(C, q) == 0, S(A, q) == 0)))
        c.assume(all_j(n, lambda j: z3.Implies(z3.And(z3.Not(S(bot, j)), S(S(G, j), n) <= 0), S(A, j) == 0), lambda j: S(A, j)))
        update(v, S(xk, n), z3.IntVal(-1), zero, n, 'the members of a nest have its probability',
               lambda j: [_m(S(A, j), z3.RealVal(1)) == S(A, j), _m(S(A, j), zero) == 0])
        c.prove('lemma the members of the nests of a level have the probability of the nests', PS(w, n) == PS(v, n))
    # mass by level
    m0, m1 = c.fresh('m', ARR), c.fresh('m', ARR)
    mass = lambda j, l: z3.If(z3.Or(z3.And(S(bot, j), S(lev, j) <= l), nest(j, l)), S(A, j), zero)
    with scope(c):
        c.assume(l >= 0)
        define(l)
        c.assume(PS(w, n) == PS(v, n))
        c.assume(z3.ForAll([j], S(m0, j) == mass(j, l), patterns=[S(m0, j)]), z3.ForAll([j], S(m1, j) == mass(j, l + 1), patterns=[S(m1, j)]))
        linear(m1, m0, w, v, n, 'mass of the next level')
        c.prove('lemma the mass does not change from level to level', PS(m1, n) == PS(m0, n))
    with scope(c):
        c.assume(z3.ForAll([j], S(m0, j) == mass(j, z3.IntVal(0)), patterns=[S(m0, j)]))
        gc_axioms(k)
        mone = z3.IntVal(-1)
        ax(c, m0, z3.IntVal(0))
        c.prove('lemma mass of the top level (base)', PS(m0, z3.IntVal(0)) == GC(mone, z3.IntVal(0)))
        c.assume(inr(k), PS(m0, k) == GC(mone, k))
        ax(c, m0, k)
        c.prove('mass of a node', S(m0, k) == z3.If(S(par, k) == -1, S(C, k), zero))
        c.prove('lemma mass of the top level (step)', PS(m0, z3.simplify(k + 1)) == GC(mone, z3.simplify(k + 1)))
    with scope(c):
        # at the deepest level there are only bottom nodes
        c.assume(all_j(n, lambda j: S(lev, j) <= l, lambda j: S(lev, j)))
        c.assume(z3.ForAll([j], S(m0, j) == mass(j, l), patterns=[S(m0, j)]))
        q = c.fresh('p', I)
        ch = S(N.child, q)
        c.prove('the nests of the deepest level have no members', z3.Implies(inr(q), z3.Or(S(bot, q), z3.And(inr(ch), S(lev, ch) == S(lev, q) + 1))))
        c.assume(all_j(n, lambda j: z3.Implies(z3.Not(S(bot, j)), S(lev, j) < l), lambda j: S(bot, j)))
        update(m0, PR, z3.IntVal(-1), zero, n, 'the mass of the deepest level is that of the alternatives')
        c.assume(PS(m0, n) == GC(z3.IntVal(-1), n))       # by induction on the levels
        c.prove('lemma nested probabilities sum to 1 (0 if nothing is available)', PS(PR, n) == z3.If(top > 0, z3.RealVal(1), zero))
    r, _ = c._query(list(c.pc), 4000)
    c.stats.vacuity += 1
    if r == 'unsat':
        c.fail('vacuity', 'the assumptions of the lemma are contradictory')
