from .util import *
from .base import interleave
from .c09 import paths_of


def discrete(q):
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    from .c03 import build
    tree = q['tree']
    paths = paths_of(tree)
    n, m, k = len(q['units']), len(paths), q['n_draws']
    nested_model = any(t[0] >= 0 for t in tree)
    cm = ChoiceModel()
    build(cm, tree)
    units = q['units']
    cm.decision_units = pd.MultiIndex.from_tuples([tuple(u) for u in units], names=['o', 'd']) if isinstance(units[0], list) else pd.Index(units, name='uid')
    U = np.array([[(-INF if x is None else x) for x in row] for row in q['u']])
    cm.add_partial_utilities(pd.DataFrame(U.copy(), index=cm.decision_units, columns=cm.choices))
    labels = ['.'.join(p) for p in paths]
    elem = [i for i in range(m) if not any(t[0] == i for t in tree)]
    # reference distribution of each decision unit
    P, LS = [], []
    for row in U:
        if nested_model:
            p, ls, _ = nested(list(row), [t[0] for t in tree], [t[2] for t in tree], q['scale'])
        else:
            p, ls, _ = mnl(list(row))
        P.append(p); LS.append(ls)
    astype = dict(str=str, object=object, int64='int64', category='category', index='index', O='O', float='f8')[q['astype']]
    kw = dict(n_draws=k, astype=astype, squeeze=q['squeeze'], result_name=q['name'], scale_utilities=q['scale'], n_threads=q['threads'])
    if any(ls <= 0 for ls in LS):
        from cheval.core import UtilityBoundsError
        try:
            cm.run_discrete(random_seed=q['seed'], **kw)
        except UtilityBoundsError:
            return True
        assert False, 'an infeasible decision unit was sampled'
    seed = q['seed']
    if q['seed_kind'] == 'state':
        given = np.random.RandomState(seed)
        seed = np.random.RandomState(seed).randint(1, 10000)
    elif q['seed_kind'] == 'none':
        given = seed = None
    else:
        given = dict(int=int, np=np.int64, float=float)[q['seed_kind']](seed)
    for again in range(2):
        result, logsum = cm.run_discrete(random_seed=given, **kw)
        frame = k > 1 or not q['squeeze']
        assert isinstance(result, pd.DataFrame if frame else pd.Series), 'result is a %s' % type(result).__name__
        assert result.index.equals(cm.decision_units) and logsum.index.equals(cm.decision_units), 'result is not indexed by the decision units'
        assert_close(logsum.values, LS, 'logsum')
        if frame:
            assert result.shape == (n, k) and list(result.columns) == list(range(k)) and result.columns.name == q['name']
        else:
            assert result.name == q['name']
        cols = [result.iloc[:, j] for j in range(k)] if frame else [result]
        for j, c in enumerate(cols):
            if q['astype'] == 'category':
                assert isinstance(c.dtype, pd.CategoricalDtype) and set(c.cat.categories) == set(labels), 'categories %s' % list(c.cat.categories)
            elif q['astype'] in ('index', 'int64'):
                assert c.dtype.kind == 'i', 'dtype %s' % c.dtype
            elif q['astype'] == 'float':
                assert c.dtype.kind == 'f'
            else:
                assert c.dtype == object, 'dtype %s' % c.dtype
            for i in range(n):
                if seed is None:
                    ok = {x for x in elem if P[i][x] > 0}
                else:
                    if k == 1:
                        r = draw_floats(seed, n)[i]
                    else:
                        r = draw_floats(int(draw_ints(seed, n)[i]), k)[j]
                    ok = acceptable(P[i], r, 1e-9)
                names = {x if q['astype'] == 'index' else int(labels[x]) if q['astype'] == 'int64' else float(labels[x]) if q['astype'] == 'float' else labels[x] for x in ok}
                got = c.iloc[i]
                assert got in names, 'draw %d of decision unit %r reports %r, expected %s' % (j, units[i], got, sorted(map(str, names)))
        if q['seed_kind'] == 'state':
            given = np.random.RandomState(q['seed'])
    return True


def refuse(q):
    import pandas as pd
    from cheval import ChoiceModel
    cm = ChoiceModel()
    cm.add_choices(['a', 'b'])
    cm.decision_units = pd.Index([1, 2])
    try:
        cm.run_discrete(n_draws=q['n_draws'], random_seed=1)
    except ValueError:
        return True
    assert False, 'n_draws=%r was not refused' % q['n_draws']


CASES = dict(discrete=discrete, refuse=refuse)


def g_disc(rng, tier):
    from .c03 import rand_named_tree
    while True:
        astype = rng.choice(['category', 'category', 'index', 'str', 'object', 'O', 'int64', 'float'])
        numeric = astype in ('int64', 'float')
        if rng.random() < .6 and not numeric:
            tree = rand_named_tree(rng, max_nodes=rng.choice([4, 6, 9]), max_depth=rng.choice([2, 3]))
        else:
            names = ['10', '2', '7', '0'] if numeric else ['car', 'bus', 'A', 'z', 'b c', '1']
            tree = [[-1, x, 1.0] for x in rng.sample(names, rng.randint(2, 4))]
        units = rng.choice([[5], [3, 1, 2], ['x', 'a'], [[1, 2], [1, 1], [0, 5]], [1.5, -2.0, 7.25], [4, 4, 9], [2, 0, 1, 3]])
        m = len(tree)
        u = []
        for _ in units:
            row = [None if rng.random() < .15 else round(rng.uniform(-3, 3), 2) for _ in range(m)]
            if rng.random() < .04:
                row = [None] * m
            u.append(row)
        yield 'discrete', dict(tree=tree, units=units, u=u, n_draws=rng.choice([1, 1, 2, 3, 5]), astype=astype, squeeze=rng.random() < .7, name=rng.choice([None, 'result', 3]),
                               seed=rng.choice([0, 1, 7, 1234, rng.randint(0, 99999)]), seed_kind=rng.choice(['int', 'int', 'int', 'np', 'float', 'state', 'none']),
                               scale=rng.random() < .7, threads=rng.choice([1, 1, 2]))


def g_big(rng, tier):
    from .c03 import big_tree
    for m in (200, 255, 260):
        for k in (1, 3):
            u = [[round(rng.uniform(-1, 1), 2) for _ in range(m)] for _ in range(12)]
            for a in ('index', 'category', 'str'):
                yield 'discrete', dict(tree=[[-1, 'c%d' % i, 1.0] for i in range(m)], units=list(range(12)), u=u, n_draws=k, astype=a, squeeze=rng.random() < .7, name=None,
                                       seed=rng.randint(0, 2 ** 31 - 1), seed_kind='int', scale=True, threads=1)
    for k in range(8 if tier == 'quick' else 80):
        tree = big_tree(rng) if k % 4 else [[-1, 'c%d' % i, 1.0] for i in range(3)]
        n = rng.choice([2, 3]) if k % 4 else 700
        u = [[None if rng.random() < .15 else round(rng.uniform(-3, 3), 2) for _ in tree] for _ in range(n)]
        yield 'discrete', dict(tree=tree, units=list(range(n)), u=u, n_draws=rng.choice([1, 2, 40]) if k % 4 else 1, astype=rng.choice(['category', 'index', 'index', 'str', 'object']),
                               squeeze=rng.random() < .7, name=None, seed=rng.randint(0, 2 ** 31 - 1), seed_kind='int', scale=True, threads=1)


def g_refuse(rng, tier):
    for k in (0, -1, -5):
        yield 'refuse', dict(n_draws=k)


def gen(rng, tier):
    return interleave(g_disc(rng, tier), g_big(rng, tier), g_refuse(rng, tier))
