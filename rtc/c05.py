from .util import *
from .base import interleave
from .c03 import tree_args, rand_scales


def _core():
    import numpy as np
    from cheval import core
    return np, core


def setup(q, np, core):
    """Returns (table, sampler(table, n, seed) -> choices, list of probabilities by record)"""
    rs = np.random.RandomState(q['dseed'])
    N, kind = q['n'], q['kind']
    if kind == 'weights':
        U = rs.randint(0, 5, (N, q['m'])).astype('f8')
        U[:, 0] += 1
        return U, core.worker_weighted_sample, lambda i: [x / math.fsum(U[i]) for x in U[i]]
    m = len(q['parents']) if kind == 'nested' else q['m']
    U = rs.uniform(-3, 3, (N, m))
    if kind == 'nested':
        args = tree_args(np, q['parents'], q['scales'])
        return U, lambda x, n, s: core.worker_nested_sample(x, *args, n, s, True)[0], \
            lambda i: nested(list(U[i]), q['parents'], q['scales'], True)[0]
    return U, lambda x, n, s: core.worker_multinomial_sample(x, n, s)[0], lambda i: mnl(list(U[i]))[0]


def disturb(q, np, k):
    """Any previous use of the random generators"""
    from cheval import core
    np.random.seed(k * 7919 + 1)
    np.random.uniform(size=k)
    core.sample_multi(np.array([.5, .5]), 3 + k, 17 * k, None)


def draws(q):
    np, core = _core()
    N, n, seed = q['n'], q['draws'], q['seed']
    if 'threads' in q:
        import numba as nb
        setn = lambda k: nb.set_num_threads(min(k, nb.config.NUMBA_NUM_THREADS))
        setn(q['threads'][0])
    else:
        setn = lambda k: None
    U, f, p = setup(q, np, core)
    first = np.array(f(U, n, seed))
    assert first.shape == (N, n)
    # which random numbers
    R = draw_floats(seed, N).reshape(-1, 1) if n == 1 else [draw_floats(int(s), n) for s in draw_ints(seed, N)]
    for i in range(N):
        P = p(i)
        for k in range(n):
            ok = acceptable(P, float(R[i][k]), 1e-9)
            assert int(first[i, k]) in ok, 'record %d draw %d: %d, but the %s uniform number %r of the stream selects %s' % (
                i, k, first[i, k], 'record\'s' if n == 1 else 'draw\'s', float(R[i][k]), sorted(ok))
    # same again, whatever happened to the generators, on other numbers of threads
    for j, t in enumerate(q.get('threads', [1, 1])):
        disturb(q, np, j + 1)
        setn(t)
        again = np.array(f(U, n, seed))
        bad = np.nonzero(again != first)
        assert len(bad[0]) == 0, 'repeated call (%s threads) differs for record %d: %s, then %s' % (t, bad[0][0], first[bad[0][0]], again[bad[0][0]])
    # prefix stability
    for m in sorted({1, N // 2, N - 1} - {0, N}):
        part = np.array(f(np.ascontiguousarray(U[:m]), n, seed))
        bad = np.nonzero(part != first[:m])
        assert len(bad[0]) == 0, 'choices of the first %d records change when records are appended' % m
    return N > 1


def model(q):
    """ChoiceModel.run_discrete is reproducible for ints and RandomState seeds"""
    np, core = _core()
    import pandas as pd
    from cheval import ChoiceModel
    from .c03 import build
    from numpy.random import RandomState
    rs = RandomState(q['dseed'])
    N, tree, n = q['n'], q['tree'], q['draws']
    U = rs.uniform(-2, 2, (N, len(tree)))

    def run(seed, threads=1, rows=N):
        cm = ChoiceModel()
        build(cm, tree)
        cm.decision_units = pd.RangeIndex(rows)
        cm.add_partial_utilities(pd.DataFrame(U[:rows], index=cm.decision_units, columns=cm.choices))
        res, ls = cm.run_discrete(random_seed=seed, n_draws=n, astype='index', squeeze=False, n_threads=threads)
        return res.values
    a = run(q['seed'])
    disturb(q, np, 3)
    assert np.array_equal(a, run(q['seed'])), 'run_discrete differs with the same seed'
    assert np.array_equal(a, run(np.int32(q['seed']))), 'run_discrete differs with the same seed as a NumPy integer'
    assert np.array_equal(a[:N - 1], run(q['seed'], rows=N - 1)), 'choices change when a record is appended'
    assert np.array_equal(run(RandomState(q['seed'])), run(RandomState(q['seed']))), 'run_discrete differs with equal RandomStates'
    par, sc = [t[0] for t in tree], [t[2] for t in tree]
    R = draw_floats(q['seed'], N).reshape(-1, 1) if n == 1 else [draw_floats(int(s), n) for s in draw_ints(q['seed'], N)]
    for i in range(N):
        P = nested(list(U[i]), par, sc, True)[0]
        for k in range(n):
            assert int(a[i, k]) in acceptable(P, float(R[i][k]), 1e-9), 'record %d draw %d: %d' % (i, k, a[i, k])
    return True


CASES = dict(draws=draws, model=model)


def rand_case(rng, sizes):
    kind = rng.choice(['mnl', 'mnl', 'nested', 'weights'])
    q = dict(kind=kind, n=rng.choice(sizes), draws=rng.choice([1, 1, 2, 5]), seed=rng.choice([0, 1, 42, rng.randint(0, 2**31 - 1)]),
             dseed=rng.randint(0, 9999))
    if kind == 'nested':
        par = rand_tree(rng)
        q.update(parents=par, scales=rand_scales(rng, par))
    else:
        q['m'] = rng.choice([1, 2, 4, 7])
    return q


def g_draws(rng, tier):
    while True:
        yield 'draws', rand_case(rng, [1, 2, 3, 8, 20])


def g_model(rng, tier):
    from .c03 import rand_named_tree
    while True:
        if rng.random() < .5:
            tree = rand_named_tree(rng, max_nodes=6, max_depth=3)
        else:
            tree = [[-1, 'c%d' % i, 1.0] for i in range(rng.randint(2, 4))]
        yield 'model', dict(tree=tree, n=rng.randint(2, 5), draws=rng.choice([1, 1, 3]), seed=rng.choice([0, 0, 1, rng.randint(0, 10**6), rng.randint(0, 2**31 - 1)]), dseed=rng.randint(0, 9999))


def g_big(rng, tier):
    from .c03 import big_tree
    for k in range(6 if tier == 'quick' else 60):
        if k == 0:
            yield 'draws', dict(kind='weights', m=3, n=70000 if tier != 'quick' else 20000, draws=1, seed=rng.randint(0, 2**31 - 1), dseed=rng.randint(0, 9999))
        elif k % 2:
            yield 'draws', dict(rand_case(rng, [700, 5000]), draws=1)
        else:
            yield 'model', dict(tree=big_tree(rng), n=rng.choice([2, 5]), draws=rng.choice([1, 40]), seed=rng.randint(0, 2**31 - 1), dseed=rng.randint(0, 9999))


def gen(rng, tier):
    return interleave(g_big(rng, tier), g_draws(rng, tier), g_draws(rng, tier), g_model(rng, tier))


def gen_jit(rng, tier):
    while True:
        q = rand_case(rng, [1, 2, 8, 9, 64, 301, 5000])
        if q['kind'] == 'nested' and q['n'] > 64:
            q['n'] = 64
        q['threads'] = [rng.choice([1, 2, 8])] + rng.sample([1, 2, 3, 5, 8], 3)
        yield 'draws', q
