"""Contracts of the functions that sample for many rows (cheval/core.py), in terms of those for one row"""
import math
import numpy as np
import z3
from . import engine, poly as P, shim
from .engine import *
from .arrays import *
from .contract import Contract
from .core_contracts import *
from .core_contracts import CHOICE, PS, TINYF, WPROB

MAXR = int(np.iinfo(np.int32).max)
TREE = ('hierarchy', 'levels', 'logsum_scales', 'bottom_flags', 'scale_utilities')


def tiny_facts():
    return [('tiny', z3.And(shim.TINY > 0, shim.TINY < 1))] if engine._ctx else []


def ghost_array(t, n, kind='f'):
    b = Buf.__new__(Buf)
    b.kind, b.ndim, b.comps, b.name, b.id, b.readonly = kind, 1, list(t), 'ghost', -1, True
    return SArr(b, (n,))


class Row:
    """Ghost: probabilities, logsum and terms of one row of weights or utilities"""
    def __init__(self, kind, row, tree=None):
        self.kind, self.row, self.n = kind, row, P.size(row)
        conc = engine._ctx is None
        if kind == 'weights':
            if conc:
                w = np.asarray(row, float)
                self.p = w / w.sum() if w.sum() > 0 else w * 0
                self.S, self.term, self.prob = (lambda: float(w.sum())), (lambda j: float(w[int(j)])), (lambda j: float(self.p[int(j)]))
            else:
                w = row.terms()[0]
                self.p = ghost_array([WPROB(w, zint(self.n))], self.n)
                self.S, self.term = (lambda: SReal(PS(w, zint(self.n)))), (lambda j: SReal(z3.Select(w, zint(j))))
                self.prob = lambda j: self.p.at(j)
        else:
            if kind == 'mnl':
                m = Mnl(row)
                self.S, self.term, self.prob = (lambda: m.S(m.n)), m.term, m.prob
                if not conc: self.p = ghost_array([m.pt], self.n)
            else:
                m = Nested(dict(tree, utilities=row))
                self.S, self.term, self.prob = m.top, m.E, m.PR
                if not conc: self.p = ghost_array([m.pr], self.n)
            if conc:
                self.p = np.array([m.prob(j) if kind == 'mnl' else m.PR(j) for j in range(int(self.n))])

    def choice(self, r):
        if engine._ctx is None:
            cs = np.cumsum(self.p)
            x = min(max(float(r), TINYF), cs[-1])
            return next(i for i, v in enumerate(cs) if v >= x)
        return SInt(CHOICE(self.p.terms()[0], zint(self.n), zreal(r)[0]))

    def chosen(self, r, k):
        return chosen(Distribution(self.p), r, k)


def draw_uniform(seed, pos):
    if engine._ctx is None:
        return np.random.RandomState(int(seed)).uniform(TINYF, 1.0, int(pos) + 1)[int(pos)]
    return SReal(uniform_draw(zint(seed), zint(pos)))


def draw_int(seed, pos):
    if engine._ctx is None:
        return int(np.random.RandomState(int(seed)).randint(0, MAXR, int(pos) + 1)[int(pos)])
    return SInt(shim.RINT(z3.IntVal(0), z3.IntVal(MAXR), zint(seed), zint(pos)))


# ---------------------------------------------------------------------------------------------- one row
class RowSample(Contract):
    """simple_sample, multinomial_sample, nested_sample (one draw)"""
    kind = None
    uses = ('sample_once', 'simple_probabilities', 'multinomial_probabilities', 'nested_probabilities')
    rename = dict(hierarchy='parents', logsum_scales='ls_scales')
    raises = ('UtilityBoundsError',)

    def tree(self, a):
        return {x: a[self.rename.get(x, x)] for x in TREE} if self.kind == 'nested' else None

    def rowname(self):
        return 'weights' if self.kind == 'weights' else 'utilities'

    def row_args(self, c):
        if self.kind == 'weights':
            return dict(weights=arr('w', 'f', SInt(c.fresh('n', I))))
        if self.kind == 'mnl':
            return dict(utilities=arr('u', 'x', SInt(c.fresh('n', I))))
        t, n = tree_args(c)
        a = dict(t, utilities=arr('u', 'x', n), scale_utilities=SBool(c.fresh('scale', B)))
        return {self.rename.get(k, k): v for k, v in a.items()}

    def row_requires(self, a):
        row = a[self.rowname()]
        if self.kind == 'weights':
            return SimpleProbabilities().requires(dict(weights=row))
        if self.kind == 'mnl':
            return [('at least one alternative', P.size(row) >= 1)]
        return Nested(dict(self.tree(a), utilities=row)).valid()

    def ghost(self, a):
        return Row(self.kind, a[self.rowname()], self.tree(a))

    def args(self, c):
        return dict(self.row_args(c), r=SReal(c.fresh('r', R)))

    def requires(self, a):
        G = self.ghost(a)
        return [('a draw in [0, 1]', P.and_(a['r'] >= tiny(), a['r'] <= 1))] + self.row_requires(a) + tiny_facts()

    def unmodified(self, a, old):
        names = [self.rowname()] + ([self.rename.get(x, x) for x in TREE[:-1]] if self.kind == 'nested' else [])
        return [('%s not modified' % x, same_array(a[x], old[x])) for x in names]

    def ensures(self, a, old, result, exc):
        G = self.ghost(old)
        if self.kind == 'weights':
            return G.chosen(old['r'], result) + self.unmodified(a, old)
        if exc is not None:
            return [('raised only if every alternative is unavailable', G.S() <= 0)]
        k, ls = result
        return [('raised if every alternative is unavailable', G.S() > 0), ('the logsum', P.eq(ls, G.S()))] + G.chosen(old['r'], k) + self.unmodified(a, old)

    def apply(self, c, a, rt):
        G = self.ghost(a)
        if self.kind != 'weights' and G.S() <= 0:
            raise rt.ns['UtilityBoundsError']('infeasible')
        t, n = G.p.terms()[0], zint(G.n)
        row = a[self.rowname()]
        c.writes.append(('r', row.buf.id, tuple([] if row.row is None else [row.row]) + (None,)))
        k = G.choice(a['r'])
        c.assume(k >= 0, k < G.n)
        return k if self.kind == 'weights' else (k, G.S())

    def row_examples(self, rng):
        inf = float('-inf')
        if self.kind == 'weights':
            for p in ([2.0], [0.0, 0.5, 0.0, 3], [0.25, 0.0, 0.25, 0.25, 0.0]):
                yield dict(weights=np.array(p, float))
        elif self.kind == 'mnl':
            for u in ([0.0], [1.0, -2.0, 0.5], [inf, 1.0, inf, 0.25], [inf, inf], [0, 1, 2, 3, inf]):
                yield dict(utilities=np.array(u, float))
        else:
            for ex in tree_examples(rng):
                yield {self.rename.get(k, k): v for k, v in ex.items()}

    def examples(self, rng):
        for ex in self.row_examples(rng):
            for r in (TINYF, .25, .7, 1.0):
                yield dict({k: (v.copy() if hasattr(v, 'copy') else v) for k, v in ex.items()}, r=r)


class SimpleSample(RowSample):
    name, kind, params = 'simple_sample', 'weights', ('weights', 'r')


class MultinomialSample(RowSample):
    name, kind, params = 'multinomial_sample', 'mnl', ('utilities', 'r')


class NestedSample(RowSample):
    name, kind, params = 'nested_sample', 'nested', ('utilities', 'r', 'parents', 'levels', 'ls_scales', 'bottom_flags', 'scale_utilities')


class RowMultisample(RowSample):
    """simple_multisample, multinomial_multisample, nested_multisample (several draws)"""
    uses = ('sample_multi', 'simple_probabilities', 'multinomial_probabilities', 'nested_probabilities')
    defaults = dict(out=None)
    with_out = False

    def args(self, c):
        n = SInt(c.fresh('draws', I))
        return dict(self.row_args(c), n=n, seed=SInt(c.fresh('seed', I)), out=arr('out', 'i', SInt(c.fresh('len', I))) if self.with_out else None)

    def requires(self, a):
        out = [('number of draws', a['n'] >= 0), ('number of alternatives', P.size(a[self.rowname()]) <= 2 ** 31)] + self.row_requires(a) + tiny_facts()
        if a['out'] is not None:
            out.append(('length of the output', P.eq(P.size(a['out']), a['n'])))
        return out

    def ensures(self, a, old, result, exc):
        G = self.ghost(old)
        out = []
        if self.kind != 'weights':
            if exc is not None:
                return [('raised only if every alternative is unavailable', G.S() <= 0)]
            result, ls = result
            out = [('raised if every alternative is unavailable', G.S() > 0), ('the logsum', P.eq(ls, G.S()))]
        out.append(('number of draws', P.eq(P.size(result), old['n'])))
        out.append(('each draw is the choice for the next number of the stream of the seed',
                    P.forall(0, old['n'], lambda j: P.eq(P.at(result, j), G.choice(draw_uniform(old['seed'], j))), pattern=lambda j: P.at(result, j))))
        if old['out'] is not None:
            out.append(('the output array is filled', same_array(result, a['out'])))
        return out + self.unmodified(a, old)

    def apply(self, c, a, rt):
        G = self.ghost(a)
        if self.kind != 'weights' and G.S() <= 0:
            raise rt.ns['UtilityBoundsError']('infeasible')
        row = a[self.rowname()]
        c.writes.append(('r', row.buf.id, tuple([] if row.row is None else [row.row]) + (None,)))
        n, seed, out = zint(a['n']), zint(a['seed']), a['out']
        res = c.fresh('draws', z3.ArraySort(I, I))
        j = z3.Int('j')
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(res, j) == CHOICE(G.p.terms()[0], zint(G.n), uniform_draw(seed, j))), patterns=[z3.Select(res, j)]))
        c.rng = None
        if out is None:
            r = newarr('i', (a['n'],), [res], 'draws')
        else:
            c.writes.append(('w', out.buf.id, tuple([] if out.row is None else [out.row]) + (None,)))
            out.buf.comps = [res] if out.row is None else [z3.Store(out.buf.comps[0], out.row, res)]
            r = out
        return r if self.kind == 'weights' else (r, G.S())

    def examples(self, rng):
        for ex in self.row_examples(rng):
            for n in (0, 3):
                yield dict({k: (v.copy() if hasattr(v, 'copy') else v) for k, v in ex.items()}, n=n, seed=17, out=np.zeros(n, 'i8') if self.with_out else None)


class SimpleMultisample(RowMultisample):
    name, kind, params = 'simple_multisample', 'weights', ('weights', 'n', 'seed', 'out')


class SimpleMultisampleOut(SimpleMultisample):
    with_out = True


class MultinomialMultisample(RowMultisample):
    name, kind, params = 'multinomial_multisample', 'mnl', ('utilities', 'n', 'seed', 'out')


class MultinomialMultisampleOut(MultinomialMultisample):
    with_out = True


class NestedMultisample(RowMultisample):
    name, kind, params = 'nested_multisample', 'nested', ('utilities', 'parents', 'levels', 'ls_scales', 'bottom_flags', 'n', 'seed', 'scale_utilities', 'out')


class NestedMultisampleOut(NestedMultisample):
    with_out = True


# ---------------------------------------------------------------------------------------------- random numbers for the rows
class RandFloats(Contract):
    name = 'generate_rand_floats_for_parallel'
    params = ('seed', 'n')
    kind = 'f'

    def args(self, c):
        return dict(seed=SInt(c.fresh('seed', I)), n=SInt(c.fresh('n', I)))

    def requires(self, a):
        return [('number of draws', a['n'] >= 0)] + tiny_facts()

    def draw(self, seed, j):
        return draw_uniform(seed, j)

    def within(self, x):
        return P.and_(x >= tiny(), x <= 1)

    def ensures(self, a, old, result, exc):
        return [('number of draws', P.eq(P.size(result), a['n'])),
                ('the stream of the seed', P.forall(0, a['n'], lambda j: P.and_(P.eq(P.at(result, j), self.draw(a['seed'], j)), self.within(P.at(result, j))), pattern=lambda j: P.at(result, j)))]

    def apply(self, c, a, rt):
        res = arr('draws', self.kind, a['n'])
        for n, f in self.ensures(a, a, res, None):
            c.assume(f)
        c.rng = None
        return res

    def examples(self, rng):
        for n in (0, 1, 4):
            for s in (0, 1, 99):
                yield dict(seed=s, n=n)


class RandInts(RandFloats):
    name = 'generate_rand_ints_for_parallel'
    kind = 'i'

    def draw(self, seed, j):
        return draw_int(seed, j)

    def within(self, x):
        return P.and_(x >= 0, x < MAXR)


class FeasibleSpec:
    def __init__(self, a):
        self.a = a['ls_array']

    def extra(self, info, loop, env0, names, kinds):
        yield 'all logsums so far are positive', lambda s, S: P.forall(0, P.size(S.a), lambda j: P.implies(j < s.k, lambda: P.at(S.a, j) > 0), pattern=lambda j: P.at(S.a, j))


class AssertFeasible(Contract):
    name = 'assert_feasible'
    params = ('ls_array',)
    raises = ('UtilityBoundsError',)

    def args(self, c):
        return dict(ls_array=arr('ls', 'f', SInt(c.fresh('n', I))))

    def requires(self, a):
        return [('size', P.size(a['ls_array']) >= 0)]

    def spec(self, a, c=None):
        return FeasibleSpec(a)

    def feasible(self, a):
        return P.forall(0, P.size(a['ls_array']), lambda j: P.at(a['ls_array'], j) > 0, pattern=lambda j: P.at(a['ls_array'], j))

    def ensures(self, a, old, result, exc):
        f = self.feasible(old)
        if exc is not None:
            return [('raised only if some logsum is 0', P.not_(f))]
        return [('raised if some logsum is 0', f), ('the logsums are not modified', same_array(a['ls_array'], old['ls_array']))]

    def apply(self, c, a, rt):
        if P.not_(self.feasible(a)):
            raise rt.ns['UtilityBoundsError']('infeasible')

    def examples(self, rng):
        for x in ([], [1.0], [0.0], [1, 2, 0, 3], [.5, .25, .125]):
            yield dict(ls_array=np.array(x, float))


# ---------------------------------------------------------------------------------------------- many rows, in parallel
class WorkerSpec:
    def __init__(self, con, a):
        self.con, self.a = con, a
        self.U = a[con.rowname()]
        self.tree = con.tree(a)
        self.rows, self.cols = self.U.shape
        self.cache = {}
        self.terms = {'logsum of the row': lambda i, s: self.row(i).S()}
        self.terms2 = {}
        self.array_rel2 = {}
        if con.sampling:
            self.array_rel2 = {'draw': lambda x, i, j, s: self.is_draw(x, i, j)}
        else:
            self.terms2 = {'probability': lambda i, j, s: self.row(i).prob(j), 'term': lambda i, j, s: self.row(i).term(j)}

    def row(self, i):
        if engine._ctx is None:
            i = int(i)
            if i not in self.cache:
                self.cache[i] = Row(self.con.kind, self.U[i], self.tree)
            return self.cache[i]
        return Row(self.con.kind, ghost_array([z3.Select(t, zint(i)) for t in self.U.terms()], self.cols, self.U.kind), self.tree)

    def draw(self, i, j):
        """the number that decides draw j of row i"""
        a = self.a
        if engine._ctx is None:
            return draw_uniform(a['seed'], i) if a['n'] <= 1 else draw_uniform(draw_int(a['seed'], i), j)
        one = zint(a['n']) <= 1
        return SReal(z3.If(one, uniform_draw(zint(a['seed']), zint(i)), uniform_draw(zint(draw_int(a['seed'], i)), zint(j))))

    def is_draw(self, x, i, j):
        r = self.row(i)
        if engine._ctx is None and r.S() <= 0:
            return True
        f = lambda: P.eq(x, r.choice(self.draw(i, j)))
        return f() if self.con.kind == 'weights' else P.implies(r.S() > 0, f)


class Worker(RowSample):
    sampling = True
    parallel = True

    def tree(self, a):
        return {x: a[self.rename.get(x, x)] for x in TREE} if self.kind == 'nested' else None

    def args(self, c):
        n, m = SInt(c.fresh('rows', I)), SInt(c.fresh('cols', I))
        out = {}
        if self.kind == 'nested':
            t, m = tree_args(c)
            out = {self.rename.get(k, k): v for k, v in dict(t, scale_utilities=SBool(c.fresh('scale', B))).items()}
        out[self.rowname()] = arr('u', 'f' if self.kind == 'weights' else 'x', n, m)
        if self.sampling:
            out.update(n=SInt(c.fresh('draws', I)), seed=SInt(c.fresh('seed', I)))
        else:
            out['check_infeasible'] = SBool(c.fresh('check', B))
        return out

    def requires(self, a):
        U = a[self.rowname()]
        rows, cols = U.shape
        out = [('rows', rows >= 0), ('columns', P.and_(cols >= 1, cols <= 2 ** 31))]
        if self.sampling:
            out.append(('number of draws', a['n'] >= 1))
        if self.kind == 'nested':
            out += Nested(dict(self.tree(a), utilities=P_row(U))).valid()
        if self.kind == 'weights':
            out.append(('weights are not negative', P.forall2(rows, cols, lambda i, j: P.at(U, i, j) >= 0, pattern=lambda i, j: P.at(U, i, j))))
            out.append(('each row has a weight that is not zero', P.forall(0, rows, lambda i: Row('weights', row_of(U, i)).S() > 0, pattern=lambda i: Row('weights', row_of(U, i)).S())))
        return out + tiny_facts()

    def spec(self, a, c=None):
        return WorkerSpec(self, a)

    def unmodified(self, a, old):
        names = [self.rename.get(x, x) for x in TREE[:-1]] if self.kind == 'nested' else []
        U, V = a[self.rowname()], old[self.rowname()]
        return [('%s not modified' % x, same_array(a[x], old[x])) for x in names] + [
            ('%s not modified' % self.rowname(), P.forall2(U.shape[0], U.shape[1], lambda i, j: P.eq(P.at(U, i, j), P.at(V, i, j)), pattern=lambda i, j: P.at(U, i, j)))]

    def ensures(self, a, old, result, exc):
        S = WorkerSpec(self, old)
        feasible = P.forall(0, S.rows, lambda i: S.row(i).S() > 0, pattern=lambda i: S.row(i).S()) if self.kind != 'weights' else True
        check = True if self.sampling else old['check_infeasible']
        if exc is not None:
            return [('raised only if some row has no available alternative', P.and_(check, P.not_(feasible)))]
        out = []
        if self.kind == 'weights':
            res, ls = result, None
        else:
            res, ls = result[:2]
            out.append(('raised if some row has no available alternative', P.implies(check, feasible)))
            out.append(('number of logsums', P.eq(P.size(ls), S.rows)))
            out.append(('logsums, in the order of the rows', P.forall(0, S.rows, lambda i: P.eq(P.at(ls, i), S.row(i).S()), pattern=lambda i: P.at(ls, i))))
        if self.sampling:
            out.append(('shape', P.and_(P.eq(res.shape[0], S.rows), P.eq(res.shape[1], old['n']))))
            out.append(('draw j of row i is the choice of row i for its own random number',
                        P.forall2(S.rows, old['n'], lambda i, j: S.is_draw(P.at(res, i, j), i, j), pattern=lambda i, j: P.at(res, i, j))))
        else:
            for nm, arr_, f in (('probabilities', result[0], 'prob'), ('terms', result[2], 'term')):
                out.append(('shape of ' + nm, P.and_(P.eq(arr_.shape[0], S.rows), P.eq(arr_.shape[1], S.cols))))
                out.append(('%s of row i' % nm, P.forall2(S.rows, S.cols, lambda i, j, f=f, arr_=arr_: P.eq(P.at(arr_, i, j), getattr(S.row(i), f)(j)), pattern=lambda i, j, arr_=arr_: P.at(arr_, i, j))))
        return out + self.unmodified(a, old)

    def examples(self, rng):
        inf = float('-inf')
        rest = [dict()]
        if self.kind == 'nested':
            seen, rest = set(), []
            for ex in tree_examples(rng):
                key = (len(ex['hierarchy']), ex['scale_utilities'])
                if key not in seen:
                    seen.add(key)
                    rest.append({self.rename.get(k, k): v for k, v in ex.items() if k != 'utilities'})
        for t in rest:
            m = len(t['parents']) if t else 4
            for rows in (0, 1, 3):
                for bad in (False, True):
                    U = np.array([[round(rng.uniform(-2, 2), 2) for _ in range(m)] for _ in range(rows)]).reshape(rows, m)
                    if self.kind == 'weights':
                        U = np.abs(U)
                    elif bad and rows:
                        U[0, t['bottom_flags'] if t else slice(None)] = inf
                    elif rows:
                        U[0, np.nonzero(t['bottom_flags'])[0][0] if t else 1] = inf
                    if self.sampling:
                        for n in (1, 3):
                            yield dict(t, **{self.rowname(): U.copy(), 'n': n, 'seed': 5})
                    else:
                        for chk in (True, False):
                            yield dict(t, **{self.rowname(): U.copy(), 'check_infeasible': chk})


def row_of(U, i):
    if engine._ctx is None:
        return U[int(i)]
    return ghost_array([z3.Select(t, zint(i)) for t in U.terms()], U.shape[1], U.kind)


def P_row(U):
    """some row (only the length matters)"""
    if engine._ctx is None:
        return np.zeros(U.shape[1])
    return row_of(U, SInt(z3.IntVal(0)))


class WorkerWeightedSample(Worker):
    name, kind, params = 'worker_weighted_sample', 'weights', ('weights', 'n', 'seed')
    uses = ('simple_sample', 'simple_multisample', 'generate_rand_floats_for_parallel', 'generate_rand_ints_for_parallel')


class WorkerMultinomialSample(Worker):
    name, kind, params = 'worker_multinomial_sample', 'mnl', ('utilities', 'n', 'seed')
    uses = ('multinomial_probabilities', 'multinomial_sample', 'multinomial_multisample', 'sample_once', 'sample_multi', 'generate_rand_floats_for_parallel',
            'generate_rand_ints_for_parallel', 'assert_feasible')


class WorkerMultinomialProbabilities(Worker):
    name, kind, params, sampling = 'worker_multinomial_probabilities', 'mnl', ('utilities', 'check_infeasible'), False
    uses = ('multinomial_probabilities', 'assert_feasible')


class WorkerNestedSample(Worker):
    name, kind, params = 'worker_nested_sample', 'nested', ('utilities', 'parents', 'levels', 'ls_scales', 'bottom_flags', 'n', 'seed', 'scale_utilities')
    uses = ('nested_probabilities', 'nested_sample', 'nested_multisample', 'sample_once', 'sample_multi', 'generate_rand_floats_for_parallel', 'generate_rand_ints_for_parallel',
            'assert_feasible')


class WorkerNestedProbabilities(Worker):
    name, kind, params, sampling = 'worker_nested_probabilities', 'nested', ('utilities', 'parents', 'levels', 'ls_scales', 'bottom_flags', 'scale_utilities', 'check_infeasible'), False
    uses = ('nested_probabilities', 'assert_feasible')
