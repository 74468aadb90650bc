from .util import *
from .base import interleave

NAMES = ['a', 'ab', 'b', 'A', 'c', 'abc', 'Car2', 'x_1', '_y', 'Car', 'walk', 'z 1', 'é', '_1', '9']


class Spec:
    """The declared tree: paths in insertion order with their logsum scales"""
    def __init__(self):
        self.nodes = {}

    def add(self, path, scale):
        for p in [p for p in self.nodes if p[:len(path)] == path]:
            del self.nodes[p]
        self.nodes[path] = scale

    def kids(self, path):
        return [p for p in self.nodes if len(p) == len(path) + 1 and p[:len(path)] == path]

    def valid(self):
        return len(self.kids(())) >= 2 and all(len(self.kids(p)) != 1 for p in self.nodes)

    def depth(self):
        return max(map(len, self.nodes))


ITERABLES = dict(list=list, tuple=tuple, gen=lambda x: (i for i in x), iter=iter, dict=lambda x: {i: 1 for i in x},
                 keys=lambda x: {i: 1 for i in x}.keys(), map=lambda x: map(str, x))


def iterable(kind, x):
    if kind in ITERABLES:
        return ITERABLES[kind](x)
    import numpy as np
    import pandas as pd
    return dict(series=pd.Series, index=pd.Index, array=lambda y: np.array(y, dtype=object))[kind](x)


def check(cm, spec, rng_seed=None):
    import numpy as np
    from cheval.exceptions import ModelNotReadyError
    if not spec.valid():
        try:
            got = cm.choices
            assert False, 'choices of an incomplete tree'
        except ModelNotReadyError:
            return False
    d = spec.depth()
    nodes = list(spec.nodes)
    ids = [p + ('.',) * (d - len(p)) for p in nodes]
    elem = [i for i, p in enumerate(nodes) if not spec.kids(p)]
    want = [i[0] for i in ids] if d == 1 else ids
    got = list(cm.choices)
    assert got == want, 'choices are %s, expected %s' % (got, want)
    assert cm.choices.nlevels == d
    got = list(cm.elemental_choices)
    assert got == [want[i] for i in elem], 'elemental choices are %s, expected %s' % (got, [want[i] for i in elem])
    assert cm.depth == d
    par = [nodes.index(p[:-1]) if len(p) > 1 else -1 for p in nodes]
    sc = [spec.nodes[p] for p in nodes]
    if d > 1 and hasattr(cm, '_flatten'):
        h, l, s, b = cm._flatten()
        assert [int(x) for x in h] == par, 'parents used in evaluation %s, expected %s' % (list(h), par)
        assert [int(x) for x in l] == [len(p) - 1 for p in nodes], 'levels %s' % list(l)
        assert [bool(x) for x in b] == [i in elem for i in range(len(nodes))], 'bottom flags %s' % list(b)
        for i, x in enumerate(s):
            assert i in elem or x == sc[i], 'logsum scale of %s is %r, expected %r' % (ids[i], x, sc[i])
    return d, nodes, par, sc, elem, want


def evaluate(cm, info, seed):
    """What evaluation makes of the tree (public behaviour)"""
    import numpy as np
    import pandas as pd
    d, nodes, par, sc, elem, want = info
    cm.decision_units = pd.Index(['r0', 'r1'])
    U = np.random.RandomState(seed).uniform(-2, 2, (2, len(nodes)))
    cm.add_partial_utilities(pd.DataFrame(U, index=cm.decision_units, columns=cm.choices))
    p, l, t = cm.run_stochastic()
    assert list(p.columns) == [want[i] for i in elem]
    for k in range(2):
        P, ls, E = nested(list(U[k]), par, sc, True)
        assert_close(p.iloc[k], [P[i] for i in elem], 'probabilities of the declared tree')
        assert close(l.iloc[k], ls)


def seq(q):
    from cheval import ChoiceModel
    cm, spec, handles = ChoiceModel(), Spec(), {}
    nontrivial = False
    for op in q['ops']:
        if op[0] == 'add':
            _, path, scale = op
            path = tuple(path)
            if len(path) > 1:
                if path[:-1] not in spec.nodes:
                    continue
                owner = handles[path[:-1]]
            else:
                owner = cm
            node = owner.add_choice(path[-1]) if scale is None else owner.add_choice(path[-1], logsum_scale=scale)
            spec.add(path, 1.0 if scale is None else scale)
            handles[path] = node
            assert node.full_name == '.'.join(path), node.full_name
        else:
            _, names, scales, kind = op
            if scales is None:
                ret = cm.add_choices(iterable(kind, names))
            else:
                ret = cm.add_choices(iterable(kind, names), logsum_scales=iterable(kind if kind in ('list', 'tuple', 'gen', 'iter') else 'list', scales))
            assert list(ret) == list(names), 'add_choices returned nodes for %s' % list(ret)
            for i, n in enumerate(names):
                spec.add((n,), 1.0 if scales is None else scales[i])
                handles[(n,)] = ret[n]
        if spec.nodes:
            info = check(cm, spec)
            nontrivial = nontrivial or (info and info[0] > 1)
            if info and q.get('eval'):
                evaluate(cm, info, len(spec.nodes))
    if spec.nodes and spec.valid():
        evaluate(cm, check(cm, spec), 7)
        check(cm.copy(), spec)
    return bool(nontrivial)


CASES = dict(seq=seq)


def g_small(rng, tier):
    """All sequences of a few additions over a small alphabet"""
    import itertools
    moves = [['a'], ['b'], ['a', 'a'], ['a', 'b'], ['b', 'a'], ['a', 'a', 'b'], ['a', 'a', 'c'], ['b', 'c']]
    for n in range(2, 5):
        for s in itertools.product(moves, repeat=n):
            have = set()
            ok = True
            for p in s:
                if len(p) > 1 and tuple(p[:-1]) not in have:
                    ok = False
                    break
                have = {x for x in have if x[:len(p)] != tuple(p)} | {tuple(p)}
            if ok:
                yield 'seq', dict(ops=[['add', p, None] for p in s] + [['add', ['z'], None]])


def g_rand(rng, tier):
    while True:
        ops, have = [], []
        for _ in range(rng.randint(2, 14)):
            r = rng.random()
            sc = rng.choice([None, 1.0, .5, .25, .8])
            if r < .15:
                names = rng.sample(NAMES, rng.randint(1, 4))
                scales = None if rng.random() < .5 else [rng.choice([1.0, .5, .3]) for _ in names]
                ops.append(['many', names, scales, rng.choice(list(ITERABLES) + ['series', 'index', 'array'])])
                have = [h for h in have if h[0] not in names] + [[n] for n in names]
                continue
            if r < .35 or not have:
                path = [rng.choice(NAMES)]
            elif r < .45:
                path = rng.choice(have)
            else:
                parent = rng.choice(have)
                if len(parent) > 4:
                    continue
                path = parent + [rng.choice(NAMES[:4])]
                if rng.random() < .8:   # keep nests from having exactly one child
                    ops.append(['add', path, sc])
                    have = [h for h in have if h[:len(path)] != path] + [path]
                    path = parent + [rng.choice([n for n in NAMES if n != path[-1]])]
            ops.append(['add', path, sc])
            have = [h for h in have if h[:len(path)] != path] + [path]
        yield 'seq', dict(ops=ops, eval=rng.random() < .3)


def g_big(rng, tier):
    from .c03 import big_tree
    for _ in range(5 if tier == 'quick' else 50):
        tree, paths, ops = big_tree(rng), [], []
        for p, name, sc in tree:
            paths.append((paths[p] if p >= 0 else []) + [name])
            ops.append(['add', paths[-1], sc])
        if len(ops) > 40:
            ops = [['many', [p[0] for p in paths if len(p) == 1], None, 'list']] + [o for o in ops if len(o[1]) > 1][:60]
        yield 'seq', dict(ops=ops + [ops[rng.randrange(len(ops))]], eval=False)


def gen(rng, tier):
    return interleave(g_big(rng, tier), g_small(rng, tier), g_rand(rng, tier))
