"""Contracts of cheval/core.py"""
import math
import numpy as np
import z3
from . import engine, poly as P, shim, nested_lemma
from .engine import *
from .arrays import *
from .contract import Contract

ARR = z3.ArraySort(I, R)
PS = z3.Function('prefix_sum', ARR, I, R)         # PS(a, k) = a[0] + ... + a[k-1]
TINYF = float(np.finfo(np.float64).tiny)


def ps_axioms(c, a, k):
    """defining equations of PS at 0 and k"""
    c.assume(PS(a, z3.IntVal(0)) == 0)
    c.assume(z3.Implies(k >= 0, PS(a, k + 1) == PS(a, k) + z3.Select(a, k)))
    c.assume(z3.Implies(k >= 1, PS(a, k) == PS(a, k - 1) + z3.Select(a, k - 1)))


def tiny():
    return SReal(shim.TINY) if engine._ctx is not None else TINYF


class Distribution:
    """Ghost: cumulative sums of a vector"""
    def __init__(self, p):
        self.p = p
        self.n = P.size(p)
        if engine._ctx is None:
            self.cs = np.concatenate([[0.0], np.cumsum(np.asarray(p, float))])
        else:
            self.a = p.terms()[0]

    def CS(self, k):
        """sum of the first k elements"""
        if engine._ctx is None:
            return float(self.cs[int(k)])
        return SReal(PS(self.a, zint(k)))

    def instances(self, k):
        if engine._ctx is not None:
            ps_axioms(ctx(), self.a, zint(k))

    def nonneg(self):
        return P.forall(0, self.n, lambda j: P.at(self.p, j) >= 0, pattern=lambda j: P.at(self.p, j))

    def monotone(self, c):
        """Lemma, by induction on k: CS(i) <= CS(k) for i <= k (the elements are not negative)"""
        a, n = self.a, zint(self.n)
        i, k = z3.Ints('i k')
        claim = lambda hi: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= hi), PS(a, i) <= PS(a, hi)), patterns=[PS(a, i)])
        ps_axioms(c, a, z3.IntVal(0))
        mark = len(c.pc)
        c.prove('lemma cumulative sums are monotone (base)', claim(z3.IntVal(0)))
        kk = c.fresh('k', I)
        c.assume(z3.And(kk >= 0, kk < n))
        ps_axioms(c, a, kk)
        c.assume(claim(kk))
        c.prove('lemma cumulative sums are monotone (step)', claim(kk + 1))
        del c.pc[mark:]
        c.assume(z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i <= k, k <= n), PS(a, i) <= PS(a, k)),
                           patterns=[z3.MultiPattern(PS(a, i), PS(a, k))]))
        j = z3.Int('j')
        # defining equation, usable at the elements that occur in the obligations
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), PS(a, j + 1) == PS(a, j) + z3.Select(a, j)), patterns=[z3.Select(a, j)]))
        c.assume(PS(a, z3.IntVal(0)) == 0)


def reaches(c, r):
    """a cumulative probability reaches the draw (and is not 0)"""
    return P.and_(c > 0, c >= r)


def normal(r, a):
    """A draw below the smallest normal number is only told from 0 if there are no subnormal (cumulative) probabilities"""
    return P.or_(r >= tiny(), P.forall(0, P.size(a), lambda j: P.or_(P.at(a, j) <= 0, P.at(a, j) >= tiny()), pattern=lambda j: P.at(a, j)))


def chosen(D, r, k):
    """k is the alternative that the draw r selects from the distribution D: the first whose cumulative probability reaches
    r, or the last one with non-zero probability if none does (rounding). It never has zero probability."""
    n = D.n
    some = D.CS(n) > 0
    out = [('selects an alternative', P.and_(k >= 0, k < n))]
    return out + [(nme, P.implies(some, f)) for nme, f in [
        ('never an alternative of zero probability', P.implies(P.and_(k >= 0, k < n), lambda: P.at(D.p, k) > 0)),
        ('no earlier alternative reaches the draw', P.forall(0, n, lambda j: P.implies(j < k, lambda: P.not_(reaches(D.CS(j + 1), r))), pattern=lambda j: P.at(D.p, j))),
        ('its cumulative probability reaches the draw, or none does and it is the last of non-zero probability',
         P.or_(reaches(D.CS(k + 1), r), P.and_(D.CS(n) < r, P.forall(0, n, lambda j: P.implies(j > k, lambda: P.at(D.p, j) <= 0), pattern=lambda j: P.at(D.p, j))))),
    ]]


CHOICE = z3.Function('choice', ARR, I, R, I)      # choice(p, n, r): the alternative that r selects


class SampleOnceSpec(Distribution):
    def __init__(self, a):
        super().__init__(a['p_array'])
        self.r = a['r']
        self.scalars = {'CS(k)': lambda k: self.CS(k)}
        self.scalar_rel = {
            'last of non-zero probability so far, if any': lambda x, s: P.or_(
                P.and_(self.CS(s.k) <= 0, P.eq(x, self.n - 1)), P.and_(x >= 0, x < s.k, P.at(self.p, x) > 0, P.forall(0, self.n, lambda j: P.implies(
                    P.and_(j > x, j < s.k), lambda: P.at(self.p, j) <= 0), pattern=lambda j: P.at(self.p, j)))) if is_int(x) else False,
        }

    def extra(self, info, loop, env0, names, kinds):
        yield 'no alternative reached the draw so far', lambda s, S: P.not_(reaches(S.CS(s.k), S.r))
        yield 'CS(k) >= 0', lambda s, S: S.CS(s.k) >= 0
        yield 'no earlier reached', lambda s, S: P.forall(0, S.n, lambda j: P.implies(j < s.k, lambda: P.not_(reaches(S.CS(j + 1), S.r))), pattern=lambda j: P.at(S.p, j))


def is_int(x):
    return isinstance(x, (int, np.integer, SInt)) and not isinstance(x, bool)


class SampleOnce(Contract):
    name = 'sample_once'
    params = ('p_array', 'r')

    def args(self, c):
        n = SInt(c.fresh('n', I))
        return dict(p_array=arr('p', 'f', n), r=SReal(c.fresh('r', R)))

    def requires(self, a):
        D = Distribution(a['p_array'])
        return [('a draw in [0, 1]', P.and_(a['r'] >= 0, a['r'] <= 1)), ('at least one alternative', D.n >= 1), ('probabilities are not negative', D.nonneg()),
                ('no subnormal numbers', normal(a['r'], a['p_array']))] + (
                    [('tiny', z3.And(shim.TINY > 0, shim.TINY < 1))] if engine._ctx else [])

    def spec(self, a, c=None):
        return SampleOnceSpec(a)

    def lemmas(self, c, a, S):
        S.monotone(c)

    def ensures(self, a, old, result, exc):
        return chosen(Distribution(old['p_array']), old['r'], result)

    def examples(self, rng):
        for p in ([1.0], [0.0, 0.5, 0.0, 0.5], [0.25, 0.0, 0.25, 0.25, 0.0], [0, 0, .5, .25, .25, 0], [0.5, 0.25]):
            for r in (0.0, 0.3, 0.5, 0.75, 0.9, 1.0):
                yield dict(p_array=np.array(p, float), r=r)


def same_array(a, b):
    """equal up to the length"""
    return P.forall(0, P.size(a), lambda j: P.eq(P.at(a, j), P.at(b, j)), pattern=lambda j: P.at(a, j))


def fnconst(f, *args):
    return f(*args)


def _sample_once_apply(self, c, a, rt):
    D = Distribution(a['p_array'])
    k = SInt(CHOICE(D.a, zint(D.n), zreal(a['r'])[0]))
    for nme, f in chosen(D, a['r'], k):
        c.assume(f)
    return k


SampleOnce.apply = _sample_once_apply


# ---------------------------------------------------------------------------------------------- binary search, cumulative sums
CUMSUM = z3.Function('cumsum', ARR, I, ARR)


def cumsum_term(c, t, n):
    """the array of the cumulative sums of t"""
    n = zint(n)
    j = z3.Int('j')
    new = CUMSUM(t, n)
    c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(new, j) == PS(t, j + 1)), patterns=[z3.Select(new, j)]))
    return new


class SearchSpec:
    def __init__(self, a):
        self.cps, self.n = a['cps'], P.size(a['cps'])
        self.r = a['r']
        f = {
            'no interval before reaches the draw': lambda x, s: P.or_(P.eq(x, 0), P.and_(x >= 0, x < self.n, P.not_(self.reached(P.at(self.cps, x))))) if is_int(x) else False,
            'reaches the draw': lambda x, s: P.and_(x >= 0, x < self.n, self.reached(P.at(self.cps, x))) if is_int(x) else False,
        }
        self.scalar_rel = f

    def reached(self, c):
        """reaches the draw, or the total if no cumulative probability reaches the draw (rounding)"""
        return P.or_(reaches(c, self.r), c >= P.at(self.cps, self.n - 1))


class LogarithmicSearch(Contract):
    name = 'logarithmic_search'
    params = ('r', 'cps')

    def args(self, c):
        n = SInt(c.fresh('n', I))
        return dict(r=SReal(c.fresh('r', R)), cps=arr('cps', 'f', n))

    def requires(self, a):
        cps, n = a['cps'], P.size(a['cps'])
        out = [('a draw in [0, 1]', P.and_(a['r'] >= 0, a['r'] <= 1)), ('at least one alternative', P.and_(n >= 1, n <= 2 ** 31)),
               ('cumulative probabilities do not decrease', nondecreasing(cps, n)), ('they start at 0 or more', P.at(cps, 0) >= 0), ('no subnormal numbers', normal(a['r'], cps))]
        if engine._ctx:
            out.append(('tiny', z3.And(shim.TINY > 0, shim.TINY < 1)))
        return out

    def spec(self, a, c=None):
        return SearchSpec(a)

    def ensures(self, a, old, result, exc):
        S = SearchSpec(old)
        some = P.at(S.cps, S.n - 1) > 0
        return [('finds an alternative', P.and_(result >= 0, result < S.n))] + [(nme, P.implies(some, f)) for nme, f in [
                ('its cumulative probability reaches the draw', P.implies(P.and_(result >= 0, result < S.n), lambda: S.reached(P.at(S.cps, result)))),
                ('no earlier one does', P.forall(0, S.n, lambda j: P.implies(j < result, lambda: P.not_(S.reached(P.at(S.cps, j)))), pattern=lambda j: P.at(S.cps, j)))]]

    def apply(self, c, a, rt):
        k = SInt(SEARCH(a['cps'].terms()[0], zint(P.size(a['cps'])), zreal(a['r'])[0]))
        old = a
        for nme, f in self.ensures(a, old, k, None):
            c.assume(f)
        return k

    def examples(self, rng):
        for p in ([1.0], [0.0, 0.5, 0.0, 0.5], [0.25, 0.0, 0.25, 0.25, 0.0], [0, 0, .5, .25, .25, 0], [0.5, 0.25], [.125] * 7):
            for r in (0.0, 0.3, 0.5, 0.75, 0.9, 1.0):
                yield dict(r=r, cps=np.cumsum(np.array(p, float)))


SEARCH = z3.Function('search', ARR, I, R, I)


def nondecreasing(a, n):
    if engine._ctx is None:
        return all(a[i] <= a[i + 1] for i in range(int(n) - 1))
    t = a.terms()[0]
    i, j = z3.Ints('i j')
    return SBool(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < zint(n)), z3.Select(t, i) <= z3.Select(t, j)),
                           patterns=[z3.MultiPattern(z3.Select(t, i), z3.Select(t, j))]))


class CumsumSpec(Distribution):
    def __init__(self, a):
        super().__init__(a['array'])
        self.scalars = {'CS(k)': lambda k: self.CS(k)}
        self.terms = {'CS(j+1)': lambda j, s: self.CS(j + 1)}


class NbfCumsum(Contract):
    name = 'nbf_cumsum'
    params = ('array',)

    def args(self, c):
        return dict(array=arr('a', 'f', SInt(c.fresh('n', I))))

    def requires(self, a):
        return [('size', P.size(a['array']) >= 0)]

    def spec(self, a, c=None):
        return CumsumSpec(a)

    def ensures(self, a, old, result, exc):
        D = Distribution(old['array'])
        if engine._ctx is not None:
            D.instances(P.size(old['array']))
        return [('every element becomes the sum of the elements up to it', P.forall(0, D.n, lambda j: P.eq(P.at(a['array'], j), D.CS(j + 1)), pattern=lambda j: P.at(a['array'], j)))]

    def apply(self, c, a, rt):
        A = a['array']
        old = A.frozen()
        c.writes.append(('w', A.buf.id, tuple([] if A.row is None else [A.row]) + (None,)))
        new = cumsum_term(c, old.terms()[0], A.shape[0])
        if A.row is None:
            A.buf.comps = [new]
        else:
            A.buf.comps = [z3.Store(A.buf.comps[0], A.row, new)]

    def examples(self, rng):
        for p in ([], [1.0], [0.0, 0.5, 0.0, 0.5], [3, -1, 2.5]):
            yield dict(array=np.array(p, float))


# ---------------------------------------------------------------------------------------------- many draws
def uniform_draw(seed, pos):
    """number `pos` of the stream of uniform numbers in [TINY, 1] that the seed starts"""
    return shim.UNI(shim.TINY, z3.RealVal(1), seed, pos)


class SampleMultiSpec(Distribution):
    def __init__(self, a):
        super().__init__(a['p_array'])
        self.seed = a['random_seed']
        self.array_rel = {'choice': lambda x, j, s: P.implies(self.CS(self.n) > 0, lambda: P.eq(x, self.choice(j))) if is_int(x) else False,
                          'alternative': lambda x, j, s: P.and_(x >= 0, x < self.n)}

    def choice(self, j):
        if engine._ctx is None:
            rs = np.random.RandomState(int(self.seed))
            r = rs.uniform(TINYF, 1.0, int(j) + 1)[int(j)]
            cs = self.cs[1:]
            x = min(max(r, TINYF), cs[-1])
            return next(i for i, v in enumerate(cs) if v >= x)
        return SInt(CHOICE(self.a, zint(self.n), uniform_draw(zint(self.seed), zint(j))))

    def lemma_search_is_choice(self, c, n):
        """The alternative that the binary search finds in the cumulative probabilities is the one that a single draw selects"""
        a, nn = self.a, zint(n)
        r, k, q = z3.Real('r'), z3.Int('k'), z3.Int('q')
        rr, cps = c.fresh('r', R), cumsum_term(c, a, n)
        kk, qq = c.fresh('k', I), c.fresh('q', I)
        mark = len(c.pc)
        j = z3.Int('j')
        c.assume(z3.And(rr >= shim.TINY, rr <= 1, PS(a, nn) > 0))
        args = dict(r=SReal(rr), cps=SArr(Buf('f', 1, [cps]), (n,)))
        for nme, f in LogarithmicSearch().requires(args):
            c.prove('search is applicable to the cumulative probabilities: ' + nme, f)
        for nme, f in LogarithmicSearch().ensures(args, args, SInt(kk), None):
            c.assume(f)
        for t in (kk, kk - 1, nn - 1, nn):
            ps_axioms(c, a, t)
        for nme, f in chosen(self, SReal(rr), SInt(kk)):
            c.prove('lemma binary search = single draw: ' + nme, f)
        # the selected alternative is unique
        c.assume(*[f for _, f in chosen(self, SReal(rr), SInt(qq))])
        for t in (kk, qq, kk - 1, qq - 1):
            ps_axioms(c, a, t)
        c.prove('lemma a draw selects exactly one alternative', kk == qq)
        del c.pc[mark:]


class SampleMulti(Contract):
    name = 'sample_multi'
    params = ('p_array', 'n', 'random_seed', 'out_array')
    defaults = dict(out_array=None)
    uses = ('nbf_cumsum', 'logarithmic_search')
    with_out = False

    def args(self, c):
        m, n = SInt(c.fresh('m', I)), SInt(c.fresh('n', I))
        a = dict(p_array=arr('p', 'f', m), n=n, random_seed=SInt(c.fresh('seed', I)))
        a['out_array'] = arr('out', 'i', SInt(c.fresh('len', I))) if self.with_out else None
        return a

    def requires(self, a):
        D = Distribution(a['p_array'])
        out = [('number of draws', a['n'] >= 0), ('at least one alternative', P.and_(D.n >= 1, D.n <= 2 ** 31)), ('probabilities are not negative', D.nonneg())]
        if a['out_array'] is not None:
            out.append(('length of the output', P.eq(P.size(a['out_array']), a['n'])))
        return out + ([('tiny', z3.And(shim.TINY > 0, shim.TINY < 1))] if engine._ctx else [])

    def spec(self, a, c=None):
        return SampleMultiSpec(a)

    def lemmas(self, c, a, S):
        S.monotone(c)
        S.lemma_search_is_choice(c, S.n)
        nn, a_ = zint(S.n), S.a
        # the search of the cumulative sums of p is the choice from p (proved by the two lemmas above)
        r = z3.Real('r')
        t = SEARCH(CUMSUM(a_, nn), nn, r)
        c.assume(z3.ForAll([r], z3.Implies(z3.And(r >= shim.TINY, r <= 1, PS(a_, nn) > 0), t == CHOICE(a_, nn, r)), patterns=[t]))
        ps_axioms(c, a_, nn - 1)
        ps_axioms(c, a_, nn)
        ps_axioms(c, a_, z3.IntVal(0))

    def ensures(self, a, old, result, exc):
        S = SampleMultiSpec(old)
        out = [('number of draws', P.eq(P.size(result), old['n'])),
               ('each draw is an alternative', P.forall(0, old['n'], lambda j: P.and_(P.at(result, j) >= 0, P.at(result, j) < S.n), pattern=lambda j: P.at(result, j))),
               ('each draw is the choice for the next number of the stream of the seed', P.implies(S.CS(S.n) > 0, lambda: P.forall(0, old['n'], lambda j: P.eq(P.at(result, j), S.choice(j)), pattern=lambda j: P.at(result, j))))]
        if old['out_array'] is not None:
            out.append(('the output array is filled', same_array(result, a['out_array'])))
        return out

    def apply(self, c, a, rt):
        D = Distribution(a['p_array'])
        p = D.a
        n, seed = zint(a['n']), zint(a['random_seed'])
        A = a['p_array']
        new = c.fresh('cumsum', ARR)
        c.writes.append(('w', A.buf.id, tuple([] if A.row is None else [A.row]) + (None,)))
        A.buf.comps = [new] if A.row is None else [z3.Store(A.buf.comps[0], A.row, new)]
        out = a['out_array']
        res = c.fresh('draws', z3.ArraySort(I, I))
        j = z3.Int('j')
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(res, j) >= 0, z3.Select(res, j) < zint(D.n),
                                                                                       z3.Implies(PS(p, zint(D.n)) > 0, z3.Select(res, j) == CHOICE(p, zint(D.n), uniform_draw(seed, j))))), patterns=[z3.Select(res, j)]))
        c.rng = None
        if out is None:
            return newarr('i', (a['n'],), [res], 'draws')
        c.writes.append(('w', out.buf.id, tuple([] if out.row is None else [out.row]) + (None,)))
        out.buf.comps = [res] if out.row is None else [z3.Store(out.buf.comps[0], out.row, res)]
        return out

    def examples(self, rng):
        for p in ([1.0], [0.0, 0.5, 0.0, 0.5], [0.25, 0.0, 0.25, 0.25, 0.0], [.125] * 7):
            for n in (0, 1, 5):
                d = dict(p_array=np.array(p, float), n=n, random_seed=17)
                d['out_array'] = np.zeros(n, 'i8') if self.with_out else None
                yield d


class SampleMultiOut(SampleMulti):
    with_out = True


# ---------------------------------------------------------------------------------------------- weights
class SimpleProbabilities(Contract):
    name = 'simple_probabilities'
    params = ('weights',)

    def args(self, c):
        c.ghost['sum'] = array_sum
        return dict(weights=arr('w', 'f', SInt(c.fresh('n', I))))

    def requires(self, a):
        D = Distribution(a['weights'])
        return [('at least one alternative', D.n >= 1), ('weights are not negative', D.nonneg()), ('some weight is not zero', D.CS(D.n) > 0)]

    def spec(self, a, c=None):
        return Distribution(a['weights'])

    def lemmas(self, c, a, S):
        weight_probabilities(c, S.a, S.n)
        prove_distribution(c, S.a, WPROB(S.a, zint(S.n)), S.n, 'lemma')

    def ensures(self, a, old, result, exc):
        D = Distribution(old['weights'])
        return [('length', P.eq(P.size(result), D.n)), ('weights divided by their sum', P.forall(0, D.n, lambda j: P.eq(P.at(result, j), P.at(old['weights'], j) / D.CS(D.n)), pattern=lambda j: P.at(result, j))),
                ('the weights are not modified', same_array(a['weights'], old['weights']))]

    def apply(self, c, a, rt):
        w = a['weights']
        t = weight_probabilities(c, w.terms()[0], P.size(w))
        assume_distribution(c, t, P.size(w))
        c.writes.append(('r', w.buf.id, tuple([] if w.row is None else [w.row]) + (None,)))
        return newarr('f', (P.size(w),), [t], 'p')

    def examples(self, rng):
        for p in ([2.0], [0.0, 0.5, 0.0, 3], [0.25, 0.0, 0.25, 0.25, 0.0]):
            yield dict(weights=np.array(p, float))


WPROB = z3.Function('weight_probabilities', ARR, I, ARR)


def array_sum(a):
    """np.sum: assumed contract (real arithmetic)"""
    return SReal(PS(a.terms()[0], zint(a.shape[0])))


def weight_probabilities(c, w, n):
    """w / sum(w), with the lemmas that they are a distribution"""
    n = zint(n)
    t = WPROB(w, n)
    j = z3.Int('j')
    s = PS(w, n)
    c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(t, j) == engine.div(z3.Select(w, j), s)), patterns=[z3.Select(t, j)]))
    return t


# ---------------------------------------------------------------------------------------------- multinomial logit
ARRB = z3.ArraySort(I, B)
TERMS = z3.Function('mnl_terms', ARR, ARRB, ARR)      # exp of extended reals, elementwise
MNLP = z3.Function('mnl_probabilities', ARR, ARRB, I, ARR)


def expx(v, inf):
    return z3.If(inf, z3.RealVal(0), EXP(v))


class Mnl:
    """Ghost: multinomial logit of a vector of extended reals"""
    def __init__(self, u):
        self.u, self.n = u, P.size(u)
        if engine._ctx is None:
            self.e = [math.exp(x) if x > float('-inf') else 0.0 for x in np.asarray(u, float)]
            self.cs = np.concatenate([[0.0], np.cumsum(self.e)])
        else:
            self.v, self.i = u.terms()
            self.t = TERMS(self.v, self.i)
            self.pt = MNLP(self.v, self.i, zint(self.n))
        self.scalars = {'S(k)': lambda k: self.S(k)}
        self.terms = {'exp(u)': lambda j, s: self.term(j), 'p': lambda j, s: self.prob(j)}

    def term(self, j):
        return self.e[int(j)] if engine._ctx is None else SReal(z3.Select(self.t, zint(j)))

    def S(self, k):
        return float(self.cs[int(k)]) if engine._ctx is None else SReal(PS(self.t, zint(k)))

    def prob(self, j):
        L = self.S(self.n)
        if engine._ctx is None:
            return self.term(j) / L if L > 0 else 0.0
        return SReal(z3.Select(self.pt, zint(j)))

    def define(self, c):
        j = z3.Int('j')
        t = z3.Select(self.t, j)
        # defining equations of the ghost functions; exp is positive
        c.assume(z3.ForAll([j], z3.And(t == expx(z3.Select(self.v, j), z3.Select(self.i, j)), EXP(z3.Select(self.v, j)) > 0, t >= 0), patterns=[t, EXP(z3.Select(self.v, j))]))
        L = PS(self.t, zint(self.n))
        p = z3.Select(self.pt, j)
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(self.n)), p == z3.If(L <= 0, z3.RealVal(0), engine.div(t, L))), patterns=[p]))
        self.instances(SInt(zint(self.n)))

    def instances(self, k):
        if engine._ctx is not None:
            ps_axioms(ctx(), self.t, zint(k))


def prove_distribution(c, e, p, n, name, zero=False):
    """Lemmas, for arrays e >= 0 and p = e / sum(e) (or 0 if that is 0): p is not negative, at most 1 and sums to 1."""
    n = zint(n)
    j = z3.Int('j')
    mark = len(c.pc)
    L = PS(e, n)
    # the sum of e is not negative
    D = Distribution(SArr(Buf('f', 1, [e]), (SInt(n),)))
    D.monotone(c)
    ps_axioms(c, e, z3.IntVal(0))
    kk = c.fresh('k', I)
    c.prove(name + ': the sum of the terms is not negative', L >= 0)
    mark2 = len(c.pc)
    if zero:
        # all probabilities are 0 if no alternative is available
        c.assume(L <= 0)
        ps_axioms(c, p, z3.IntVal(0))
        c.prove(name + ': sum of probabilities if nothing is available (base)', PS(p, z3.IntVal(0)) == 0)
        c.assume(z3.And(kk >= 0, kk < n), PS(p, kk) == 0)
        ps_axioms(c, p, kk)
        c.prove(name + ': sum of probabilities if nothing is available (step)', z3.And(PS(p, kk + 1) == 0, z3.Select(p, kk) == 0))
        del c.pc[mark2:]
    # sum of the first k probabilities = (sum of the first k terms) / L
    ps_axioms(c, p, z3.IntVal(0))
    c.assume(L > 0)
    with nonlinear(c, [(z3.RealVal(0), L)]):
        c.prove(name + ': sum of probabilities (base)', PS(p, z3.IntVal(0)) * L == PS(e, z3.IntVal(0)))
    c.assume(z3.And(kk >= 0, kk < n), PS(p, kk) * L == PS(e, kk))
    ps_axioms(c, p, kk)
    ps_axioms(c, e, kk)
    with nonlinear(c, [(z3.Select(e, kk), L)]):
        c.prove(name + ': sum of probabilities (step)', PS(p, kk + 1) * L == PS(e, kk + 1))
    del c.pc[mark2:]
    # hence at n
    c.assume(L > 0, PS(p, n) * L == L)
    c.prove(name + ': probabilities sum to 1', PS(p, n) == 1)
    del c.pc[mark2:]
    i = c.fresh('j', I)
    c.assume(z3.And(i >= 0, i < n), L > 0)
    ps_axioms(c, e, i)
    with nonlinear(c, [(z3.Select(e, i), L)]):
        c.prove(name + ': probabilities are in [0, 1], and 0 exactly for unavailable alternatives',
                z3.And(z3.Select(p, i) >= 0, z3.Select(p, i) <= 1, (z3.Select(p, i) == 0) == (z3.Select(e, i) == 0)))
    del c.pc[mark:]


def assume_distribution(c, p, n, if_=None):
    """What prove_distribution proves"""
    j, n = z3.Int('j'), zint(n)
    c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(p, j) >= 0, z3.Select(p, j) <= 1)), patterns=[z3.Select(p, j)]))
    c.assume(PS(p, n) == 1 if if_ is None else z3.If(if_, PS(p, n) == 1, PS(p, n) == 0))


class nonlinear:
    """Within this block, quotient terms that stay uninterpreted elsewhere are related to real division: div(a, b) * b = a"""
    def __init__(self, c, pairs):
        self.c, self.pairs = c, pairs

    def __enter__(self):
        self.mark = len(self.c.pc)
        for a, b in self.pairs:
            self.c.assume(z3.Implies(b != 0, engine.div(a, b) * b == a))

    def __exit__(self, *a):
        pass


class MultinomialProbabilities(Contract):
    name = 'multinomial_probabilities'
    params = ('utilities', 'check_infeasible')
    raises = ('UtilityBoundsError',)

    def args(self, c):
        return dict(utilities=arr('u', 'x', SInt(c.fresh('n', I))), check_infeasible=SBool(c.fresh('check', B)))

    def requires(self, a):
        return [('at least one alternative', P.size(a['utilities']) >= 1)]

    def spec(self, a, c=None):
        return Mnl(a['utilities'])

    def lemmas(self, c, a, S):
        S.define(c)
        prove_distribution(c, S.t, S.pt, S.n, 'lemma', True)
        # an unavailable alternative is one of minus-infinite utility
        i = c.fresh('j', I)
        c.prove('lemma: exponentiated utilities are 0 exactly for minus-infinite utilities', (z3.Select(S.t, i) == 0) == z3.Select(S.i, i))

    def ensures(self, a, old, result, exc):
        S = Mnl(old['utilities'])
        L = S.S(S.n)
        if exc is not None:
            return [('raised only if the check is on and every alternative is unavailable', P.and_(old['check_infeasible'], L <= 0))]
        p, ls, terms = result
        return [('raised if the check is on and every alternative is unavailable', P.not_(P.and_(old['check_infeasible'], L <= 0))),
                ('lengths', P.and_(P.eq(P.size(p), S.n), P.eq(P.size(terms), S.n))),
                ('probabilities are exp(u) / logsum (0 if infeasible)', P.forall(0, S.n, lambda j: P.eq(P.at(p, j), S.prob(j)), pattern=lambda j: P.at(p, j))),
                ('the logsum is the sum of exp(u)', P.eq(ls, L)),
                ('the terms are exp(u)', P.forall(0, S.n, lambda j: P.eq(P.at(terms, j), S.term(j)), pattern=lambda j: P.at(terms, j))),
                ('the utilities are not modified', same_array(a['utilities'], old['utilities']))]

    def apply(self, c, a, rt):
        S = Mnl(a['utilities'])
        L = S.S(S.n)
        if P.and_(a['check_infeasible'], L <= 0):
            raise rt.ns['UtilityBoundsError']('infeasible')
        c.writes.append(('r', a['utilities'].buf.id, tuple([] if a['utilities'].row is None else [a['utilities'].row]) + (None,)))
        assume_distribution(c, S.pt, S.n, zbool(L > 0))
        c.assume(L >= 0)
        return (newarr('f', (S.n,), [S.pt], 'p'), L, newarr('f', (S.n,), [S.t], 'terms'))

    def examples(self, rng):
        inf = float('-inf')
        for u in ([0.0], [1.0, -2.0, 0.5], [inf, 1.0, inf, 0.25], [inf, inf], [0, 1, 2, 3, inf]):
            for chk in (True, False):
                yield dict(utilities=np.array(u, float), check_infeasible=chk)


# ---------------------------------------------------------------------------------------------- nested logit
class Nested:
    """Ghost: nested logit of a vector of extended reals over a tree given by the parents of the nodes.
       E(j) exponentiated utility; G(j, k) sum of E over the children i < k of j (j = -1: the top level);
       C(j) share of j among its siblings; A(j) product of the shares on the path to j; PR(j) probability."""
    def __init__(self, a):
        self.u, self.par, self.lev, self.sc, self.bot, self.scale = (a[x] for x in ('utilities', 'hierarchy', 'levels', 'logsum_scales', 'bottom_flags', 'scale_utilities'))
        self.n = P.size(self.u)
        if engine._ctx is None:
            self._e, self._a = {}, {}
        else:
            sig = self.u.terms() + self.par.terms() + self.lev.terms() + self.sc.terms() + self.bot.terms() + [zbool(self.scale), zint(self.n)]
            mk = lambda name, *rest: z3.Function('nested_' + name, *([x.sort() for x in sig] + list(rest)))
            # one ghost array per input (functions of the inputs, so that the contract is a function of the row)
            self.e = mk('E', ARR)(*sig)
            self.g = mk('G', z3.ArraySort(I, ARR))(*sig)
            self.cnd = mk('C', ARR)(*sig)
            self.abs = mk('A', ARR)(*sig)
            self.pr = mk('P', ARR)(*sig)
            self.child = z3.Function('nested_child', z3.ArraySort(I, I), I, z3.ArraySort(I, I))(self.par.terms()[0], zint(self.n))      # a member of each nest
        self.terms = {'E': lambda j, s: self.E(j), 'G(k)': lambda j, s: self.G(j, s.k), 'C': lambda j, s: self.C(j), 'A': lambda j, s: self.A(j)}
        self.array_rel = {'G(n) at nests': lambda x, j, s: P.or_(P.at(self.bot, j), P.eq(x, self.G(j, self.n)))}
        L = lambda j: P.at(self.lev, j)
        self.var_guards = {
            'lev > v': lambda j, v, s: L(j) > v, 'lev >= v': lambda j, v, s: L(j) >= v, 'lev < v': lambda j, v, s: L(j) < v, 'lev <= v': lambda j, v, s: L(j) <= v,
            'lev == v-1': lambda j, v, s: P.eq(L(j), v - 1), 'lev < v-1': lambda j, v, s: L(j) < v - 1,
            'lev > v or lev == v and j < k': lambda j, v, s: P.or_(L(j) > v, P.and_(P.eq(L(j), v), j < s.k)),
            'lev < v or lev == v and j >= k': lambda j, v, s: P.or_(L(j) < v, P.and_(P.eq(L(j), v), j >= s.k)),
            'lev < v or lev == v and j < k': lambda j, v, s: P.or_(L(j) < v, P.and_(P.eq(L(j), v), j < s.k)),
            'lev > v or lev == v and j >= k': lambda j, v, s: P.or_(L(j) > v, P.and_(P.eq(L(j), v), j >= s.k)),
        }
        isnum = lambda x: not isinstance(x, (bool, SBool))
        self.scalar_var_rel = {
            'sum of the top level': lambda x, v, s: P.and_(P.implies(v >= 0, lambda: P.eq(x, 0)), P.implies(v < 0, lambda: P.eq(x, self.G(-1, self.n)))),
            'sum of the top level so far': lambda x, v, s: P.and_(P.implies(v > 0, lambda: P.eq(x, 0)), P.implies(P.eq(v, 0), lambda: P.eq(x, self.G(-1, s.k)))),
        }

    # -- ghost functions
    def own(self, j):
        return P.at(self.bot, j)

    def E(self, j):
        if engine._ctx is not None:
            return SReal(z3.Select(self.e, zint(j)))
        j = int(j)
        if j not in self._e:
            p = int(self.par[j])
            s = float(self.sc[p]) if self.scale and p >= 0 else 1.0
            if self.bot[j]:
                x = float(self.u[j]) / s
            else:
                g = self.G(j, self.n)
                x = (float(self.u[j]) + float(self.sc[j]) * (math.log(g) if g > 0 else float('-inf'))) / s
            self._e[j] = math.exp(x) if x > float('-inf') else 0.0
        return self._e[j]

    def G(self, j, k):
        if engine._ctx is not None:
            return SReal(z3.Select(z3.Select(self.g, zint(j)), zint(k)))
        return sum(self.E(i) for i in range(int(k)) if self.par[i] == j)

    def C(self, j):
        if engine._ctx is not None:
            return SReal(z3.Select(self.cnd, zint(j)))
        g = self.G(int(self.par[int(j)]), self.n)
        return self.E(j) / g if g > 0 else 0.0

    def A(self, j):
        if engine._ctx is not None:
            return SReal(z3.Select(self.abs, zint(j)))
        p = int(self.par[int(j)])
        return self.C(j) * (self.A(p) if p >= 0 else 1.0)

    def PR(self, j):
        if engine._ctx is not None:
            return SReal(z3.Select(self.pr, zint(j)))
        return self.A(j) if self.bot[int(j)] else 0.0

    def top(self):
        return self.G(-1, self.n)

    # -- validity of the tree
    def valid(self):
        n, par, lev, sc, bot = self.n, self.par, self.lev, self.sc, self.bot
        if engine._ctx is None:
            has = lambda j: any(par[i] == j for i in range(n))
        else:
            has = lambda j: P.and_(SInt(z3.Select(self.child, zint(j))) >= 0, SInt(z3.Select(self.child, zint(j))) < n, P.eq(P.at(par, SInt(z3.Select(self.child, zint(j)))), j))
        at = P.at
        return [('nodes', n >= 1), ('lengths', P.and_(*[P.eq(P.size(x), n) for x in (par, lev, sc, bot)])),
                ('parents', P.forall(0, n, lambda j: P.and_(at(lev, j) >= 0, at(par, j) >= -1, at(par, j) < n, P.eq(at(par, j), -1) == P.eq(at(lev, j), 0)),
                                     pattern=lambda j: at(par, j))),
                ('levels', P.forall(0, n, lambda j: at(lev, j) >= 0, pattern=lambda j: at(lev, j))),
                ('levels of parents', P.forall(0, n, lambda j: P.implies(at(par, j) >= 0, lambda: P.and_(P.eq(at(lev, at(par, j)), at(lev, j) - 1), P.not_(at(bot, at(par, j))))),
                                               pattern=lambda j: at(par, j))),
                ('nests have members', P.forall(0, n, lambda j: P.or_(at(bot, j), has(j)), pattern=lambda j: at(bot, j))),
                ('logsum scales of nests are positive', P.forall(0, n, lambda j: P.or_(at(bot, j), at(sc, j) > 0), pattern=lambda j: at(sc, j)))]

    # -- defining equations
    def define(self, c):
        n = zint(self.n)
        j, k = z3.Ints('j k')
        u, ui = self.u.terms()
        par, lev, sc, bot = (x.terms()[0] for x in (self.par, self.lev, self.sc, self.bot))
        S = z3.Select
        inr = z3.And(j >= 0, j < n)
        gn = S(S(self.g, j), n)
        num_inf = z3.Or(S(ui, j), z3.And(z3.Not(S(bot, j)), gn == 0))
        num = z3.If(S(bot, j), S(u, j), S(u, j) + engine.mul(S(sc, j), LOG(gn)))
        scaled = z3.And(zbool(self.scale), S(par, j) >= 0)
        e = S(self.e, j)
        val = lambda x: z3.If(scaled, EXP(engine.div(x, S(sc, S(par, j)))), EXP(x))
        x1, x2 = S(u, j), S(u, j) + engine.mul(S(sc, j), LOG(gn))
        body = z3.If(num_inf, e == 0, z3.If(S(bot, j), e == val(x1), e == val(x2)))
        c.assume(z3.ForAll([j], z3.Implies(inr, z3.And(body, e >= 0)), patterns=[e]))
        x = z3.Real('x')
        c.assume(z3.ForAll([x], EXP(x) > 0, patterns=[EXP(x)]))
        cj = S(self.cnd, j)
        gp = S(S(self.g, S(par, j)), n)
        c.assume(z3.ForAll([j], z3.Implies(inr, cj == z3.If(gp <= 0, z3.RealVal(0), engine.div(e, gp))), patterns=[cj]))
        aj = S(self.abs, j)
        c.assume(z3.ForAll([j], z3.Implies(z3.And(inr, S(lev, j) == 0), aj == cj), patterns=[z3.MultiPattern(aj, S(lev, j))]))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(inr, S(par, j) >= 0), aj == engine.mul(cj, S(self.abs, S(par, j)))), patterns=[z3.MultiPattern(aj, S(par, j))]))
        pj = S(self.pr, j)
        c.assume(z3.ForAll([j], z3.Implies(inr, pj == z3.If(S(bot, j), aj, z3.RealVal(0))), patterns=[pj]))
        c.assume(z3.ForAll([j], S(S(self.g, j), z3.IntVal(0)) == 0, patterns=[S(S(self.g, j), z3.IntVal(0))]))
        a, b = z3.Reals('a b')
        c.assume(z3.ForAll([a, b], engine._mul(a, b) == engine._mul(b, a), patterns=[engine._mul(a, b)]))

    def g_step(self, c, k):
        """defining equation of G at k"""
        j = z3.Int('j')
        S = z3.Select
        par = self.par.terms()[0]
        k = z3.simplify(zint(k))
        for kk in (k, k - 1):
            kk, k1 = z3.simplify(kk), z3.simplify(kk + 1)
            g1 = S(S(self.g, j), k1)
            c.assume(z3.ForAll([j], z3.Implies(z3.And(kk >= 0, kk < zint(self.n)), g1 == S(S(self.g, j), kk) + z3.If(S(par, kk) == j, S(self.e, kk), z3.RealVal(0))),
                               patterns=[g1]))

    def instances(self, k):
        if engine._ctx is not None:
            self.g_step(ctx(), k)

    def lemma_g(self, c):
        """G is not negative (induction on k)"""
        j = z3.Int('j')
        claim = lambda k: z3.ForAll([j], z3.Select(z3.Select(self.g, j), k) >= 0, patterns=[z3.Select(z3.Select(self.g, j), k)])
        mark = len(c.pc)
        c.prove('lemma sums of exponentials are not negative (base)', claim(z3.IntVal(0)))
        k = c.fresh('k', I)
        c.assume(z3.And(k >= 0, k < zint(self.n)))
        self.g_step(c, SInt(k))
        c.assume(claim(k))
        c.prove('lemma sums of exponentials are not negative (step)', claim(k + 1))
        del c.pc[mark:]
        c.assume(claim(zint(self.n)))

    def prove_at_most_1(self, c):
        with nested_lemma.scope(c, []):
            n, j = zint(self.n), z3.Int('j')
            D = Distribution(SArr(Buf('f', 1, [self.pr]), (SInt(n),)))
            c.assume(n >= 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(self.pr, j) >= 0), patterns=[z3.Select(self.pr, j)]))
            c.assume(PS(self.pr, n) <= 1)
            D.monotone(c)
            i = c.fresh('j', I)
            ps_axioms(c, self.pr, i)
            c.prove('lemma no probability exceeds 1', z3.Implies(z3.And(i >= 0, i < n), z3.And(PS(self.pr, i) >= 0, PS(self.pr, i + 1) <= PS(self.pr, n), z3.Select(self.pr, i) <= 1)))

    def extra(self, info, loop, env0, names, kinds):
        for a in names:
            if kinds[a] in ('a1f', 'a1x') and env0[a].buf.id in info.mod:
                yield 'all: %s is A or 0' % a, lambda s, S, a=a: P.forall(0, S.n, lambda j: P.or_(P.eq(P.at(s[a], j), 0), P.eq(P.at(s[a], j), S.A(j))), pattern=lambda j: P.at(s[a], j))
                yield 'bottom: %s is A' % a, lambda s, S, a=a: P.forall(0, S.n, lambda j: P.or_(P.not_(P.at(S.bot, j)), P.eq(P.at(s[a], j), S.A(j))), pattern=lambda j: P.at(s[a], j))
                yield 'j < k: %s[par[j]] is 0' % a, lambda s, S, a=a: P.forall(0, S.n, lambda j: P.implies(P.and_(j < s.k, P.at(S.par, j) >= 0), lambda: P.eq(P.at(s[a], P.at(S.par, j)), 0)),
                                                                             pattern=lambda j: P.at(S.par, j))


TREES = [([-1, -1], [True, True]), ([-1, 0, 0, -1], [0, 1, 1, 1]), ([-1, 0, 0, 2, 2, -1, 5, 5], [0, 1, 0, 1, 1, 0, 1, 1]), ([-1, 0, 1, 1], [0, 0, 1, 1])]


def tree_examples(rng):
    inf = float('-inf')
    for par, bot in TREES:
        par = np.array(par)
        lev = np.array([0] * len(par))
        for i in range(len(par)):
            p = par[i]
            while p >= 0:
                lev[i] += 1
                p = par[p]
        for rep in range(2):
            u = np.array([round(rng.uniform(-2, 2), 2) for _ in par])
            if rep:
                for i in range(len(par)):
                    if bot[i] and rng.random() < .4: u[i] = inf
            for scale in (True, False):
                yield dict(utilities=u.copy(), hierarchy=par, levels=lev, logsum_scales=np.array([rng.choice([.25, .5, 1.]) for _ in par]), bottom_flags=np.array(bot, bool), scale_utilities=scale)


def tree_args(c):
    n = SInt(c.fresh('n', I))
    return dict(hierarchy=arr('par', 'i', n), levels=arr('lev', 'i', n), logsum_scales=arr('sc', 'f', n), bottom_flags=arr('bot', 'b', n)), n


class NestedProbabilities(Contract):
    name = 'nested_probabilities'
    params = ('utilities', 'hierarchy', 'levels', 'logsum_scales', 'bottom_flags', 'scale_utilities', 'check_infeasible')
    raises = ('UtilityBoundsError',)

    def args(self, c):
        t, n = tree_args(c)
        return dict(t, utilities=arr('u', 'x', n), scale_utilities=SBool(c.fresh('scale', B)), check_infeasible=SBool(c.fresh('check', B)))

    def requires(self, a):
        return Nested(a).valid()

    def spec(self, a, c=None):
        return Nested(a)

    def lemmas(self, c, a, S):
        S.define(c)
        S.instances(S.n)
        S.lemma_g(c)
        nested_lemma.prove_nested_distribution(c, S, PS, ps_axioms)
        S.prove_at_most_1(c)

    def ensures(self, a, old, result, exc):
        S = Nested(old)
        if exc is not None:
            return [('raised only if the check is on and every alternative is unavailable', P.and_(old['check_infeasible'], S.top() <= 0))]
        p, ls, terms = result
        return [('raised if the check is on and every alternative is unavailable', P.not_(P.and_(old['check_infeasible'], S.top() <= 0))),
                ('lengths', P.and_(P.eq(P.size(p), S.n), P.eq(P.size(terms), S.n))),
                ('probabilities follow the nest formula', P.forall(0, S.n, lambda j: P.eq(P.at(p, j), S.PR(j)), pattern=lambda j: P.at(p, j))),
                ('the logsum is the sum of the top level', P.eq(ls, S.top())),
                ('the terms are the exponentiated utilities', P.forall(0, S.n, lambda j: P.eq(P.at(terms, j), S.E(j)), pattern=lambda j: P.at(terms, j))),
                ] + [('%s is not modified' % x, same_array(a[x], old[x])) for x in ('utilities', 'hierarchy', 'levels', 'logsum_scales', 'bottom_flags')]

    def apply(self, c, a, rt):
        S = Nested(a)
        if P.and_(a['check_infeasible'], S.top() <= 0):
            raise rt.ns['UtilityBoundsError']('infeasible')
        for x in ('utilities', 'hierarchy', 'levels', 'logsum_scales', 'bottom_flags'):
            c.writes.append(('r', a[x].buf.id, tuple([] if a[x].row is None else [a[x].row]) + (None,)))
        assume_distribution(c, S.pr, S.n, zbool(S.top() > 0))
        c.assume(S.top() >= 0)
        return (newarr('f', (S.n,), [S.pr], 'p'), S.top(), newarr('f', (S.n,), [S.e], 'terms'))

    def examples(self, rng):
        for ex in tree_examples(rng):
            for chk in (True, False):
                yield dict(ex, check_infeasible=chk)
