from .util import *
from .base import interleave
from .c03 import tree_args, rand_scales


def _core():
    import numpy as np
    from cheval import core
    return np, core


def _call(f):
    from cheval.core import UtilityBoundsError
    try:
        return f()
    except UtilityBoundsError:
        return 'infeasible'


def _eq(np, a, b, what):
    assert a.shape == b.shape and a.dtype == b.dtype, '%s: shape %s %s' % (what, a.shape, b.shape)
    bad = np.nonzero(~((a == b) | (np.isnan(a.astype(float)) & np.isnan(b.astype(float)))))
    assert len(bad[0]) == 0, '%s differs at %s: together %r, alone %r' % (what, [int(x[0]) for x in bad], a[bad][0], b[bad][0])


def table(q):
    """Every worker on a table = the same worker on each record alone; permuting the records permutes the results"""
    np, core = _core()
    if 'threads' in q:
        import numba as nb
        nb.set_num_threads(min(q['threads'], nb.config.NUMBA_NUM_THREADS))
    if 'rows' in q:
        U = np.array(q['rows'], dtype='f%d' % q['prec'])
    else:
        rs = np.random.RandomState(q['seed'])
        U = rs.uniform(-4, 4, (q['n'], q['m']))
        U[rs.uniform(size=U.shape) < q['ninf']] = -np.inf
        U = U.astype('f%d' % q['prec'])
    keep = U.copy()
    N = len(U)
    perm = np.random.RandomState(5).permutation(N)
    chk = q['check']
    if 'parents' in q:
        args = tree_args(np, q['parents'], q['scales']) + (q['flag'],)
        probs = lambda x, c: core.worker_nested_probabilities(x, *args, c)
        samp = lambda x, n, s: core.worker_nested_sample(x, *args[:4], n, s, q['flag'])
    else:
        probs = lambda x, c: core.worker_multinomial_probabilities(x, c)
        samp = lambda x, n, s: core.worker_multinomial_sample(x, n, s)
    singles = [probs(U[i:i + 1], False) for i in range(N)]
    bad = [i for i in range(N) if not singles[i][1][0] > 0]
    full = probs(U, False)
    for k, what in enumerate(['probabilities', 'logsums', 'nested terms']):
        _eq(np, full[k], np.concatenate([s[k] for s in singles]) if N else full[k], what)
    moved = probs(np.ascontiguousarray(U[perm]), False)
    for k in range(3):
        _eq(np, moved[k], full[k][perm], 'permuted result %d' % k)
    checked = _call(lambda: probs(U, True))
    assert (checked == 'infeasible') == bool(bad) if isinstance(checked, str) else not bad, 'feasibility check: %s infeasible records' % len(bad)
    if bad:
        assert _call(lambda: samp(U, 1, 3)) == 'infeasible', 'sampling an infeasible record in a table is not reported'
        assert _call(lambda: samp(U, 2, 3)) == 'infeasible', 'sampling an infeasible record in a table is not reported'
    else:
        for n in (1, q.get('draws', 3)):
            got, ls = samp(U, n, q['sseed'])
            _eq(np, ls, full[1], 'logsums when sampling')
            assert got.shape == (N, n)
            # records alone: same alternative for the same random numbers
            if n == 1:
                r = draw_floats(q['sseed'], N)
                for i in range(N):
                    want = int(core.sample_once(full[0][i].copy(), float(r[i])))
                    assert int(got[i, 0]) == want, 'record %d: %d sampled, alone %d' % (i, got[i, 0], want)
            else:
                s = draw_ints(q['sseed'], N)
                for i in range(N):
                    want = core.sample_multi(full[0][i].copy(), n, int(s[i]), None)
                    assert got[i].tolist() == want.tolist(), 'record %d: %s sampled, alone %s' % (i, got[i], want)
    assert np.array_equal(U, keep), 'utilities modified'
    return N > 1


def weighted(q):
    np, core = _core()
    if 'threads' in q:
        import numba as nb
        nb.set_num_threads(min(q['threads'], nb.config.NUMBA_NUM_THREADS))
    rs = np.random.RandomState(q['seed'])
    W = rs.randint(0, 5, (q['n'], q['m'])).astype('f8')
    W[:, -1] += 1
    keep = W.copy()
    for n in (1, q.get('draws', 3)):
        got = core.worker_weighted_sample(W, n, q['sseed'])
        rnd = draw_floats(q['sseed'], q['n']) if n == 1 else draw_ints(q['sseed'], q['n'])
        for i in range(q['n']):
            want = [int(core.simple_sample(W[i].copy(), float(rnd[i])))] if n == 1 else core.simple_multisample(W[i].copy(), n, int(rnd[i]), None).tolist()
            assert got[i].tolist() == want, 'record %d: %s sampled, alone %s' % (i, got[i], want)
    assert np.array_equal(W, keep), 'weights modified'
    return q['n'] > 1


def model(q):
    """ChoiceModel on all decision units = ChoiceModel on each of them"""
    np, core = _core()
    import pandas as pd
    from cheval import ChoiceModel
    from .c03 import build
    rows, tree = q['rows'], q['tree']

    def run(sub, idx):
        cm = ChoiceModel()
        build(cm, tree)
        cm.decision_units = pd.Index(idx)
        tab = pd.DataFrame(np.array(sub, dtype='f8'), index=cm.decision_units, columns=cm.choices)
        keep = tab.copy()
        cm.add_partial_utilities(tab)
        r = cm.run_stochastic(check_infeasible=False, scale_utilities=q['flag'])
        assert tab.equals(keep)
        return r
    idx = q['idx']
    full = run(rows, idx)
    for i in range(len(rows)):
        one = run([rows[i]], [idx[i]])
        for f, o in zip(full, one):
            _eq(np, np.asarray(f.iloc[i:i + 1]), np.asarray(o), 'record %d' % i)
            assert f.index[i] == o.index[0]
    return len(rows) > 1


CASES = dict(table=table, weighted=weighted, model=model)


def g_small(rng, tier):
    while True:
        n, prec = rng.randint(1, 7), rng.choice([8, 8, 4])
        ninf = rng.choice([0, .1, .5, .8])
        q = dict(prec=prec, check=rng.random() < .5, sseed=rng.randint(0, 9999))
        if rng.random() < .5:
            par = rand_tree(rng)
            q.update(parents=par, scales=rand_scales(rng, par), flag=rng.random() < .5)
            m = len(par)
        else:
            m = rng.randint(1, 6)
        q['rows'] = [rand_util(rng, m, ninf, -4, 4) for _ in range(n)]
        yield 'table', q


def g_weighted(rng, tier):
    while True:
        yield 'weighted', dict(n=rng.randint(1, 6), m=rng.randint(1, 5), seed=rng.randint(0, 9999), sseed=rng.randint(0, 9999))


def g_model(rng, tier):
    from .c03 import rand_named_tree
    while True:
        if rng.random() < .5:
            tree = rand_named_tree(rng, max_nodes=6, max_depth=3)
        else:
            tree = [[-1, 'c%d' % i, 1.0] for i in range(rng.randint(2, 4))]
        n = rng.randint(2, 4)
        yield 'model', dict(tree=tree, rows=[rand_util(rng, len(tree), rng.choice([0, .5])) for _ in range(n)], flag=rng.random() < .5,
                            idx=rng.sample(range(100), n))


def g_big(rng, tier):
    for _ in range(4 if tier == 'quick' else 40):
        q = dict(prec=8, check=False, sseed=rng.randint(0, 9999))
        if rng.random() < .5:
            par = rand_tree(rng)
            q.update(parents=par, scales=rand_scales(rng, par), flag=True)
            m = len(par)
        else:
            m = 3
        q['rows'] = [rand_util(rng, m, .1, -4, 4) for _ in range(300)]
        yield 'table', q


def gen(rng, tier):
    return interleave(g_big(rng, tier), g_small(rng, tier), g_small(rng, tier), g_weighted(rng, tier), g_model(rng, tier))


def gen_jit(rng, tier):
    """Compiled, with threads: sizes around multiples of the number of threads; repeated, as schedules differ"""
    def g(nest):
        while True:
            n = rng.choice([1, 2, 7, 8, 9, 31, 64, 257, 3000])
            q = dict(draws=rng.choice([2, 3, 40]), prec=8, check=True, sseed=rng.randint(0, 9999), threads=rng.choice([1, 2, 3, 8]), seed=rng.randint(0, 9999), n=n,
                     ninf=rng.choice([0, 0, .2]))
            if nest:
                par = rand_tree(rng)
                q.update(parents=par, scales=rand_scales(rng, par), flag=True, m=len(par))
            else:
                q['m'] = rng.choice([2, 5, 9])
            yield 'table', q

    def g2():
        while True:
            yield 'weighted', dict(draws=rng.choice([2, 40]), n=rng.choice([1, 8, 65, 3000]), m=rng.randint(1, 5), seed=rng.randint(0, 9999), sseed=rng.randint(0, 9999),
                                   threads=rng.choice([1, 2, 8]))
    return interleave(g(False), g(True), g2())
