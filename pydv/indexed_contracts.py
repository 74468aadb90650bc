"""Contracts of the parallel "a[index] += b" (cheval/core.py)"""
import numpy as np
import z3
from . import engine, poly as P, shim
from .engine import *
from .arrays import *
from .contract import Contract
from .core_contracts import same_array
from .nested_lemma import scope

IARR = z3.ArraySort(I, I)
INV = z3.Function('position_in_index', IARR, I, IARR)       # the position of a value in an index without duplicates, -1 if none


def copy_of(a):
    return a.frozen() if engine._ctx is not None else a.copy()


class Axis:
    """Ghost: target(k) of position k of the addition, source(i) of position i of the target or -1"""
    def __init__(self, index, n_add, n_out):
        self.index, self.n, self.n_out = index, n_add, n_out

    def source(self, i):
        if self.index is None:
            return i
        if engine._ctx is None:
            w = [k for k in range(int(self.n)) if self.index[k] == i]
            return w[0] if w else -1
        return SInt(z3.Select(INV(self.index.terms()[0], zint(self.n)), zint(i)))

    def define(self, c):
        if self.index is None:
            return
        t, n = self.index.terms()[0], zint(self.n)
        inv = INV(t, n)
        i, k = z3.Ints('i k')
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(inv, z3.Select(t, k)) == k), patterns=[z3.Select(t, k)]))
        s = z3.Select(inv, i)
        c.assume(z3.ForAll([i], z3.And(s >= -1, s < n, z3.Implies(s >= 0, z3.Select(t, s) == i)), patterns=[s]))

    def valid(self):
        """fits: length and range (no duplicates is a precondition that only the definition of the inverse expresses)"""
        if self.index is None:
            return P.eq(self.n, self.n_out)
        n = P.size(self.index)
        return P.and_(P.eq(n, self.n), P.forall(0, n, lambda k: P.and_(P.at(self.index, k) >= 0, P.at(self.index, k) < self.n_out), pattern=lambda k: P.at(self.index, k)))


class AddSpec:
    def __init__(self, a):
        self.out, self.add = a['out'], a['addition']
        (self.r, self.c), (self.R, self.C) = self.add.shape, self.out.shape
        self.rows = Axis(a.get('row_index'), self.r, self.R)
        self.cols = Axis(a.get('col_index'), self.c, self.C)
        self.terms2 = {'old + added so far': lambda i, j, s: self.value(i, j, s.k), 'old + added': lambda i, j, s: self.value(i, j)}

    def labelled(self, i, j):
        p, q = self.rows.source(i), self.cols.source(j)
        return p, q, P.and_(p >= 0, q >= 0)

    def value(self, i, j, k=None):
        p, q, hit = self.labelled(i, j)
        if k is not None:
            hit = P.and_(hit, p * self.c + q < k)
        old = P.at(self.out, i, j)
        return P.ite(hit, lambda: old + P.at(self.add, p, q), old)

    def define(self, c):
        self.rows.define(c), self.cols.define(c)
        cc, rr = zint(self.c), zint(self.r)
        # facts about the enumeration of the cells, proved with real multiplication
        q, m, q2, m2, n = z3.Ints('q m q2 m2 n')
        for name, f in INT_FACTS:
            with scope(c, []):
                c.prove('arithmetic: ' + name, f(lambda a, b: a * b, q, m, q2, m2, n, cc))
        mul = engine.imul
        end = mul(rr, cc)
        # a cell within the table has a number below rows * columns
        t = mul(q, cc)
        pats = lambda x: [x]
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < rr, cc >= 0), z3.And(t >= 0, t + cc <= end)), patterns=pats(t)))
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= rr, cc >= 0), t >= end), patterns=pats(t)))
        t2 = mul(q2, cc)
        c.assume(z3.ForAll([q, q2], z3.Implies(z3.And(cc >= 0, q < q2), t + cc <= t2), patterns=[z3.MultiPattern(t, t2)]))
        c.assume(z3.Implies(cc == 0, end == 0))
        c.assume(z3.ForAll([q, m], engine._imul(q, m) == engine._imul(m, q), patterns=[engine._imul(q, m)]))


INT_FACTS = [
    ('cells of an earlier row have smaller numbers', lambda mul, q, m, q2, m2, n, c: z3.Implies(z3.And(c >= 0, q < q2), mul(q, c) + c <= mul(q2, c))),
    ('rows within the table', lambda mul, q, m, q2, m2, n, c: z3.Implies(z3.And(c >= 0, q >= 0), mul(q, c) >= 0)),
    ('later rows', lambda mul, q, m, q2, m2, n, c: z3.Implies(z3.And(c >= 0, q >= n), mul(q, c) >= mul(n, c))),
    ('no columns', lambda mul, q, m, q2, m2, n, c: z3.Implies(c == 0, mul(n, c) == 0)),
]


class IndexedAdd(Contract):
    has_row = has_col = False
    checks = False

    def args(self, c):
        R, C, r, cc = (SInt(c.fresh(x, I)) for x in ('rows_out', 'cols_out', 'rows', 'cols'))
        a = dict(out=arr('out', 'x', R, C), addition=arr('add', 'x', r, cc))
        a['row_index'] = arr('ri', 'i', SInt(c.fresh('ri_len', I))) if self.has_row else None
        a['col_index'] = arr('ci', 'i', SInt(c.fresh('ci_len', I))) if self.has_col else None
        return {k: v for k, v in a.items() if self.checks or v is not None}

    def requires(self, a):
        S = AddSpec(a)
        out = [('sizes', P.and_(*[x >= 0 for x in (S.R, S.C, S.r, S.c)]))]
        for ax, nm in ((S.rows, 'row'), (S.cols, 'column')):
            if not self.checks:
                out.append(('%ss of the table fit' % nm, ax.valid()))
            elif ax.index is not None:
                out.append(('%s index is not empty' % nm, P.size(ax.index) >= 1))
        return out

    def spec(self, a, c=None):
        return AddSpec(a)

    def lemmas(self, c, a, S):
        S.define(c)

    def ensures(self, a, old, result, exc):
        S = AddSpec(old)
        out = a['out']
        if exc is not None:
            return [('refused only if the table does not fit', P.not_(P.and_(S.rows.valid(), S.cols.valid()))),
                    ('nothing is changed if the table is refused', P.forall2(S.R, S.C, lambda i, j: P.eq(P.at(out, i, j), P.at(S.out, i, j)), pattern=lambda i, j: P.at(out, i, j)))]
        res = [('a table that does not fit is refused', P.and_(S.rows.valid(), S.cols.valid()))] if self.checks else []
        res.append(('each labelled cell is increased by exactly its value, once, and all others are unchanged',
                    P.forall2(S.R, S.C, lambda i, j: P.eq(P.at(out, i, j), S.value(i, j)), pattern=lambda i, j: P.at(out, i, j))))
        add = a['addition']
        res.append(('the addition is not modified', P.forall2(S.r, S.c, lambda i, j: P.eq(P.at(add, i, j), P.at(S.add, i, j)), pattern=lambda i, j: P.at(add, i, j))))
        for x in ('row_index', 'col_index'):
            if a.get(x) is not None:
                res.append(('the %s is not modified' % x.replace('_', ' '), same_array(a[x], old[x])))
        return res

    def apply(self, c, a, rt):
        old = dict(a, out=a['out'].frozen())
        S = AddSpec(old)
        a['out'].buf.havoc()
        c.writes.append(('w', a['out'].buf.id, (None,)))
        for n, f in self.ensures(a, old, None, None):
            c.assume(f)

    def examples(self, rng):
        def table(n, m, salt):
            return np.array([[float(salt + 10 * i + j) for j in range(m)] for i in range(n)]).reshape(n, m)
        for R, C in ((0, 3), (1, 1), (3, 2), (4, 3)):
            for rep in range(2):
                r = rng.randint(1 if self.checks else 0, R) if self.has_row and R else R
                cc = rng.randint(1 if self.checks else 0, C) if self.has_col else C
                if self.checks and self.has_row and not R:
                    continue
                ex = dict(out=table(R, C, 100), addition=table(r, cc, 1) / 7)
                if self.has_row: ex['row_index'] = np.array(rng.sample(range(R), r), dtype='i8')
                if self.has_col: ex['col_index'] = np.array(rng.sample(range(C), cc), dtype='i8')
                yield ex
        if self.checks:
            ex = dict(out=table(3, 3, 100), addition=table(2, 2, 1))
            if self.has_row: ex['row_index'] = np.array([0, 3])
            if self.has_col: ex['col_index'] = np.array([-1, 2])
            yield ex


class AddNN(IndexedAdd):
    name, params = '_fast_indexed_add_n_n', ('out', 'addition')


class AddNI(IndexedAdd):
    name, params, has_col = '_fast_indexed_add_n_i', ('out', 'addition', 'col_index'), True


class AddIN(IndexedAdd):
    name, params, has_row = '_fast_indexed_add_i_n', ('out', 'addition', 'row_index'), True


class AddII(IndexedAdd):
    name, params, has_row, has_col = '_fast_indexed_add_i_i', ('out', 'addition', 'row_index', 'col_index'), True, True


class Add(IndexedAdd):
    name, params, checks = 'fast_indexed_add', ('out', 'addition', 'row_index', 'col_index'), True
    defaults = dict(row_index=None, col_index=None)
    raises = ('AssertionError',)
    uses = ('_fast_indexed_add_n_n', '_fast_indexed_add_n_i', '_fast_indexed_add_i_n', '_fast_indexed_add_i_i')


class AddRow(Add):
    has_row = True


class AddCol(Add):
    has_col = True


class AddRowCol(Add):
    has_row = has_col = True
