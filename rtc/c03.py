from .util import *
from .base import interleave


def _core():
    import numpy as np
    from cheval import core
    return np, core


def tree_args(np, par, sc):
    nest = set(par) - {-1}
    return (np.array(par, dtype='i8'), np.array(levels_of(par), dtype='i8'), np.array(sc, dtype='f8'),
            np.array([i not in nest for i in range(len(par))], dtype='?'))


def check(np, got, u, par, sc, flag, tol):
    p, l, t = got
    P, ls, E = nested(u, par, sc, flag)
    assert close(l, ls, tol) or close(l / ls, 1, tol), 'logsum %r, expected %r' % (l, ls)
    assert len(p) == len(t) == len(u)
    for i, (x, y) in enumerate(zip(t, E)):
        assert close(x, y, tol) or (y and close(x / y, 1, tol)), 'term[%d] = %r, expected %r' % (i, x, y)
    assert_close(p, P, 'p', tol)
    nest = set(par) - {-1}
    for i, x in enumerate(p):
        assert i not in nest or x == 0, 'nest %d has probability %r' % (i, x)
        assert 0 <= x <= 1 + tol
    if ls > 0:
        assert close(sum(p), 1, tol), 'probabilities sum to %r' % sum(p)


def core_tree(q):
    np, core = _core()
    par, sc, flag = q['parents'], q['scales'], q['flag']
    a = np.array(q['u'], dtype='f4' if q['f4'] else 'f8')
    keep = a.copy()
    u = [float(x) for x in a]
    args = tree_args(np, par, sc)
    keeps = [x.copy() for x in args]
    tol = 1e-5 if q['f4'] else 1e-9
    ls = nested(u, par, sc, flag)[1]
    if ls <= 0:
        try:
            core.nested_probabilities(a, *args, flag, True)
            assert False, 'no UtilityBoundsError for an infeasible record'
        except core.UtilityBoundsError:
            pass
    else:
        check(np, core.nested_probabilities(a, *args, flag, True), u, par, sc, flag, tol)
    check(np, core.nested_probabilities(a, *args, flag, False), u, par, sc, flag, tol)
    assert np.array_equal(a, keep) and all(np.array_equal(x, y) for x, y in zip(args, keeps)), 'arguments modified'
    # sampling from the tree reports the same logsum and always checks feasibility
    for f in (lambda: core.nested_sample(a, .5, *args, flag)[1], lambda: core.nested_multisample(a, *args, 2, 3, flag, None)[1]):
        try:
            l = f()
        except core.UtilityBoundsError:
            assert ls <= 0
            continue
        assert ls > 0, 'no UtilityBoundsError when sampling an infeasible record'
        assert close(l / ls, 1, tol)
    return any(x >= 0 for x in par)


def build(cm, tree, rows_like=None):
    """tree: list of (parent position, name, scale) in insertion order"""
    nodes = []
    for par, name, sc in tree:
        nodes.append((cm if par < 0 else nodes[par]).add_choice(name, logsum_scale=sc))
    return nodes


def model_tree(q):
    """run_stochastic of a nested ChoiceModel against the recursive formula on the tree that was declared"""
    np, core = _core()
    import pandas as pd
    from cheval import ChoiceModel
    cm = ChoiceModel()
    tree, rows, flag, chk = q['tree'], q['rows'], q['flag'], q['check']
    build(cm, tree)
    cm.decision_units = pd.Index(['r%d' % i for i in range(len(rows))])
    cm.add_partial_utilities(pd.DataFrame(np.array(rows, dtype='f8'), index=cm.decision_units, columns=cm.choices))
    par, sc = [t[0] for t in tree], [t[2] for t in tree]
    nest = set(par) - {-1}
    infeasible = any(nested(r, par, sc, flag)[1] <= 0 for r in rows)
    try:
        p, l, t = cm.run_stochastic(scale_utilities=flag, check_infeasible=chk)
    except core.UtilityBoundsError:
        assert infeasible and chk, 'UtilityBoundsError although feasible or unchecked'
        return True
    assert not (infeasible and chk), 'no UtilityBoundsError'
    elem = [i for i in range(len(tree)) if i not in nest]
    assert p.shape == (len(rows), len(elem)) and t.shape == (len(rows), len(tree))

    def path(i):
        return (path(par[i]) if par[i] >= 0 else ()) + (tree[i][1],)
    depth = max(len(path(i)) for i in range(len(tree)))
    ids = [path(i) + ('.',) * (depth - len(path(i))) for i in range(len(tree))]
    assert [tuple(c) for c in p.columns] == [ids[i] for i in elem], 'columns %s' % list(p.columns)
    assert [tuple(c) for c in t.columns] == ids
    assert list(p.index) == list(l.index) == list(t.index) == list(cm.decision_units)
    for k, r in enumerate(rows):
        P, ls, E = nested(r, par, sc, flag)
        assert_close(p.iloc[k], [P[i] for i in elem], 'row %d p' % k)
        assert close(l.iloc[k], ls), 'row %d logsum %r, expected %r' % (k, l.iloc[k], ls)
        assert_close(t.iloc[k], E, 'row %d terms' % k)
    return True


CASES = dict(core_tree=core_tree, model_tree=model_tree)


def rand_scales(rng, par):
    # elemental entries of the scales array are 1 in the model, but must not matter
    return [rng.choice([1.0, .5, .3, .9, .05]) if i in par else rng.choice([1.0, 1.0, .4]) for i in range(len(par))]


def g_core(rng, tier):
    while True:
        par = rand_tree(rng, max_nodes=rng.choice([4, 6, 9, 14]), max_depth=rng.choice([2, 3, 5]))
        f4 = rng.random() < .15
        lo, hi = rng.choice([(-3, 3), (-12, 4), (0, 0)])
        yield 'core_tree', dict(parents=par, scales=[1.0 if x < .1 and f4 else x for x in rand_scales(rng, par)], flag=rng.random() < .7,
                                u=rand_util(rng, len(par), rng.choice([0, .2, .5, .9]), lo, hi), f4=f4)


def rand_named_tree(rng, **kw):
    """Random tree in an insertion order (parents first, otherwise arbitrary interleaving); names may repeat across nests"""
    par = rand_tree(rng, **kw)
    n = len(par)
    order, done = [], set()
    while len(order) < n:
        ready = [i for i in range(n) if i not in done and (par[i] < 0 or par[i] in done)]
        i = rng.choice(ready)
        order.append(i)
        done.add(i)
    pos = {i: k for k, i in enumerate(order)}
    names, tree = {}, []
    pool = ['a', 'b', 'c', 'A', 'x_1', 'n2', 'Car', 'walk']
    for i in order:
        used = names.setdefault(par[i], set())
        name = rng.choice([x for x in pool if x not in used] or ['z%d' % len(used)])
        used.add(name)
        tree.append([pos[par[i]] if par[i] >= 0 else -1, name, rng.choice([1.0, .5, .25, .8]) if i in par else 1.0])
    return tree


def big_tree(rng):
    """Trees of a size which the small scope does not reach: many alternatives, many nests, many levels"""
    kind = rng.choice(['flat', 'wide', 'deep'])
    if kind == 'flat':
        return [[-1, 'c%d' % i, 1.0] for i in range(rng.choice([33, 130, 200, 255, 300]))]
    tree = []
    if kind == 'wide':
        k, per = rng.choice([(20, 7), (3, 45), (130, 2)])
        for i in range(k):
            tree.append([-1, 'n%d' % i, rng.choice([1.0, .5, .8])])
            top = len(tree) - 1
            tree += [[top, 'c%d' % j, 1.0] for j in range(per)]
        return tree
    last = -1
    for d in range(rng.randint(6, 11)):
        tree.append([last, 'd%d' % d, rng.choice([1.0, .9, .7])])
        here = len(tree) - 1
        tree.append([last, 'e%d' % d, 1.0])
        last = here
    tree[-1][1] = 'e'
    tree += [[last, 'x', 1.0], [last, 'y', 1.0]]
    return tree


def g_big(rng, tier):
    for _ in range(6 if tier == 'quick' else 60):
        tree = big_tree(rng)
        if all(t[0] < 0 for t in tree):
            continue
        yield 'model_tree', dict(tree=tree, rows=[rand_util(rng, len(tree), rng.choice([0, .3]), -2, 2) for _ in range(rng.choice([1, 2, 70]))],
                                 flag=rng.random() < .7, check=rng.random() < .5)


def g_model(rng, tier):
    while True:
        tree = rand_named_tree(rng, max_nodes=rng.choice([4, 6, 9]), max_depth=rng.choice([2, 3, 4]))
        if all(t[0] < 0 for t in tree):
            continue
        yield 'model_tree', dict(tree=tree, rows=[rand_util(rng, len(tree), rng.choice([0, .3, .8]), -4, 4) for _ in range(rng.randint(1, 3))],
                                 flag=rng.random() < .7, check=rng.random() < .5)


def gen(rng, tier):
    return interleave(g_core(rng, tier), g_core(rng, tier), g_model(rng, tier), g_big(rng, tier))
