from .util import *
from .base import interleave


def _mk(q):
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    from .c03 import build
    if 'threads' in q:
        import numba as nb
        nb.set_num_threads(min(q['threads'], nb.config.NUMBA_NUM_THREADS))
    cm = ChoiceModel(precision=q.get('prec', 8))
    build(cm, q['tree'])
    idx = pd.MultiIndex.from_tuples([tuple(x) for x in q['rows']]) if isinstance(q['rows'][0], list) else pd.Index(q['rows'])
    cm.decision_units = idx
    return np, pd, cm


def snapshot(cm):
    """Utilities by (decision unit, choice), as observed by evaluating no expressions"""
    t = cm._evaluate_utilities(cm.expressions, n_threads=1)
    return {(r, c): float(t.values[i, j]) for i, r in enumerate(t.index) for j, c in enumerate(t.columns)}


def add(q):
    """A sequence of add_partial_utilities calls against a dictionary of cells"""
    np, pd, cm = _mk(q)
    rows, cols = list(cm.decision_units), list(cm.choices)
    want = {(r, c): 0.0 for r in rows for c in cols}
    assert snapshot(cm) == want
    tol = 1e-5 if q.get('prec') == 4 else 1e-9
    nontrivial = False
    for step in q['steps']:
        ri, ci = step['ri'], step['ci']      # positions, or -1 for an unknown label
        rl = [rows[i] if i >= 0 else (('zz', 99) if isinstance(rows[0], tuple) else 'unknown%d' % k) for k, i in enumerate(ri)]
        cl = [cols[j] if j >= 0 else (tuple(['zz'] * len(cols[0])) if isinstance(cols[0], tuple) else 'unknown%d' % k) for k, j in enumerate(ci)]
        mk = lambda ls, like: pd.MultiIndex.from_tuples(ls, names=like.names) if isinstance(like, pd.MultiIndex) else pd.Index(ls)
        vals = np.array(step['vals'], dtype=step.get('dtype', 'f8')).reshape(len(rl), len(cl))
        if step.get('order') == 'F':
            vals = np.asfortranarray(vals)
        tab = pd.DataFrame(vals, index=mk(rl, cm.decision_units), columns=mk(cl, cm.choices))
        keep = tab.copy()
        refuse = -1 in ri or -1 in ci
        if not step['reindex_rows'] and rl != rows:
            refuse = True
        if not step['reindex_cols'] and cl != cols:
            refuse = True
        try:
            cm.add_partial_utilities(tab, reindex_rows=step['reindex_rows'], reindex_columns=step['reindex_cols'])
            done = True
        except Exception as e:
            assert refuse, 'an acceptable table was refused: %s: %s' % (type(e).__name__, e)
            done = False
        assert tab.equals(keep), "the caller's table was modified"
        if not refuse:
            for i, r in enumerate(rl):
                for j, c in enumerate(cl):
                    want[r, c] += float(vals[i, j])
        else:
            assert not done, 'a table with unknown or mismatched labels was not refused'
        got = snapshot(cm)
        assert got.keys() == want.keys()
        for k in want:
            assert close(got[k], want[k], tol), 'utility of %s is %r, expected %r%s' % (k, got[k], want[k], ' (the table was refused)' if refuse else '')
        nontrivial = nontrivial or rl != rows or cl != cols
    return nontrivial


def raw(q):
    """core.fast_indexed_add against the definition"""
    import numpy as np
    from cheval import core
    if 'threads' in q:
        import numba as nb
        nb.set_num_threads(min(q['threads'], nb.config.NUMBA_NUM_THREADS))
    rs = np.random.RandomState(q['seed'])
    R, C, r, c = q['R'], q['C'], q['r'], q['c']
    out = rs.randint(-9, 9, (R, C)).astype('f8')
    ri = rs.permutation(R)[:r] if q['use_r'] else None
    ci = rs.permutation(C)[:c] if q['use_c'] else None
    add = rs.randint(-9, 9, (r if q['use_r'] else R, c if q['use_c'] else C)).astype('f8')
    want = out.copy()
    for i in range(add.shape[0]):
        for j in range(add.shape[1]):
            want[ri[i] if ri is not None else i, ci[j] if ci is not None else j] += add[i, j]
    keep = add.copy()
    core.fast_indexed_add(out, add, ri, ci)
    bad = np.nonzero(out != want)
    assert len(bad[0]) == 0, 'cell %s is %r, expected %r' % ((int(bad[0][0]), int(bad[1][0])), out[bad][0], want[bad][0])
    assert np.array_equal(add, keep)
    return True


CASES = dict(add=add, raw=raw)


def g_add(rng, tier, threads=None, big=0):
    from .c03 import rand_named_tree, big_tree
    while True:
        if big:
            tree = big_tree(rng)
        elif rng.random() < .4:
            tree = rand_named_tree(rng, max_nodes=6, max_depth=3)
        else:
            tree = [[-1, 'c%d' % i, 1.0] for i in rng.sample(range(9), rng.randint(2, 5))]
        n = rng.randint(1, 6) if not big else rng.choice([3, 150])
        kind = rng.choice(['str', 'int', 'multi'])
        rows = {'str': ['r%d' % i for i in range(n)], 'int': [7 * i % (11 if n < 11 else 151) for i in range(n)], 'multi': [[i // 2, 'p%d' % (i % 2)] for i in range(n)]}[kind]
        q = dict(tree=tree, rows=rows, steps=[], prec=rng.choice([8, 8, 4]))
        if threads:
            q['threads'] = rng.choice(threads)
        for _ in range(rng.randint(1, 3)):
            def pick(n, how):
                if how == 'same':
                    return list(range(n))
                if how == 'perm':
                    return rng.sample(range(n), n)
                if how == 'swap':
                    x = list(range(n))
                    if n > 1:
                        i = rng.randrange(n - 1)
                        x[i], x[i + 1] = x[i + 1], x[i]
                    return x
                k = rng.sample(range(n), rng.randint(1, n))
                if how == 'unknown':
                    k[rng.randrange(len(k))] = -1
                return k
            how = lambda: rng.choice(['same', 'same', 'perm', 'swap', 'subset', 'subset', rng.choice(['unknown', 'same'])])
            ri, ci = pick(n, how()), pick(len(tree), how())
            q['steps'].append(dict(ri=ri, ci=ci, vals=[rng.randint(-50, 50) / 4 for _ in range(len(ri) * len(ci))],
                                   reindex_rows=rng.random() < .7, reindex_cols=rng.random() < .8,
                                   dtype=rng.choice(['f8', 'f8', 'f4']), order=rng.choice(['C', 'F'])))
        yield 'add', q
        if big:
            big -= 1
            if not big:
                return


def g_raw(rng, tier, threads=None, sizes=(1, 2, 3, 5)):
    while True:
        R, C = rng.choice(sizes), rng.choice(sizes)
        q = dict(R=R, C=C, r=rng.randint(1, R), c=rng.randint(1, C), use_r=rng.random() < .6, use_c=rng.random() < .6, seed=rng.randint(0, 9999))
        if threads:
            q['threads'] = rng.choice(threads)
        yield 'raw', q


def gen(rng, tier):
    return interleave(g_add(rng, tier), g_add(rng, tier), g_add(rng, tier, big=4 if tier == 'quick' else 40), g_raw(rng, tier))


def gen_jit(rng, tier):
    return g_raw(rng, tier, [1, 2, 3, 8], (1, 2, 3, 8, 17, 64))
