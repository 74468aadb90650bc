from .util import *
from .base import interleave
from .ldfw import *
from .ldfw import values as column

NUMERIC = {'sum': {}, 'max': {}, 'min': {}, 'mean': {}, 'median': {}, 'prod': {}, 'std': {}, 'var': {}, 'quantile': dict(q=.3)}
OTHER = {'count': {}, 'first': {}, 'last': {}, 'nth': dict(n=1)}
INT = {'i': 'i', 'w': 'f', 'b': 'b', 'u': 'u', 'f': 'f', 't': 'o', 'g': 'f', 'c': 'o', 'i8': 'i'}


def table(n, seed):
    import numpy as np
    import pandas as pd
    rs = np.random.RandomState(seed)
    g = rs.randint(-9, 9, n) / 4.
    g[rs.uniform(size=n) < .3] = np.nan
    return dict(i=rs.randint(-9, 9, n), w=rs.randint(-9, 9, n) / 4., b=rs.uniform(size=n) < .5, u=rs.randint(0, 200, n).astype('u1'), f=(rs.randint(-9, 9, n) / 4.).astype('f4'),
                t=np.array([WORDS[i] for i in rs.randint(0, 5, n)], dtype=object), g=g, i8=rs.randint(-9, 9, n).astype('i1'))


EXPRS = {'i': 'i', 'w': 'f', 'b': 'b', 'u': 'u', 'f': 'f', 'g': 'f', 'i8': 'i', 'i + 1': 'i', 'w * 2 - i': 'f', 'i > 0': 'b', '(i > 0) & (w < 1)': 'b', 'where(i > 0, w, 5)': 'f', '-w': 'f', 'w / 2': 'f', 'g * 1': 'f', 't': 'o', '1': 'i'}


def value(expr, d, np):
    env = dict(d)
    env['where'] = np.where
    v = eval(expr, {'where': np.where}, env)
    n = len(d['i'])
    return np.full(n, v) if np.isscalar(v) else np.asarray(v)


def aggregate(q):
    import numpy as np
    import pandas as pd
    n = len(q['target'])
    d = table(n, q['seed'])
    A, ka, la = frame(q['side_a'], q['caller'], {'y': np.arange(len(q['caller']))}, True)
    B, kb, lb = frame(q['side_b'], q['target'], d, q['ldf'], index=list(range(n)) if q['plain_index'] else None)
    r = link(A, ka, la, B, kb, lb, 'L', q['pre'], q['shorthand'])
    assert bool(r.value), 'the link does not report that aggregation is required'
    assert list(A.link_summary()['aggregation']) == [True]
    node, index = A, A.index
    rows = [[j for j, k in enumerate(q['target']) if not missing(k) and tup(k) == tup(c) and not missing(c)] for c in q['caller']]
    if q.get('outer') is not None:      # outer -> A -> B
        O, ko, lo = frame(q['side_o'], q['outer'], {'z': np.arange(len(q['outer']))}, True, label='h')
        A2 = A
        keys = q['inner']
        arr = arrays(keys)
        cols = ['h%d' % i for i in range(len(arr))]
        for c, a in zip(cols, arr):
            A2[c] = a
        r = link(O, ko, lo, A2, 'on', cols, 'M', q['pre'], False)
        assert not bool(r.value)
        node, index = O.M, O.index
        where = {tup(k): j for j, k in enumerate(keys)}
        rows = [None if missing(o) or tup(o) not in where else rows[where[tup(o)]] for o in q['outer']]
    for func, expr, int_fill, as_item, *rest in q['calls']:
        if not q['ldf'] and 'where' in expr:
            continue
        kw = dict(rest[0] if rest else {**NUMERIC, **OTHER}[func])
        kind = EXPRS[expr]
        v = value(expr, d, np)
        args = dict(kw)
        if int_fill is not None:
            args['int_fill'] = int_fill
        try:
            got = getattr(node['L'] if as_item else node.L, func)(expr, **args)
        except RuntimeError as e:
            assert kind == 'o' and func in NUMERIC, 'refused: %s' % e
            continue
        assert not (kind == 'o' and func in NUMERIC), '%s of text was not refused' % func
        fill = float('nan') if kind in 'fo' else (-1 if int_fill is None else int_fill)
        got_cells = cells(got)
        assert got.index.equals(index), 'aggregation is not indexed by the calling frame'
        for i, rr in enumerate(rows):
            if not rr:
                want = norm(fill)
            else:
                s = pd.Series(v[rr])
                s = getattr(s.groupby(np.zeros(len(rr), dtype=int)), func)(**kw)
                want = norm(s.iloc[0]) if len(s) else norm(float('nan'))
            g = got_cells[i]
            same = g == want or (isinstance(g, float) and isinstance(want, float) and close(g, want, 1e-5 if expr == 'f' else 1e-9)) or (g in ('nan', 'None') and want in ('nan', 'None'))
            assert same, '%s(%s) of row %d (target rows %s) is %r, expected %r' % (func, expr, i, rr, g, want)
    return any(len(r or []) > 1 for r in rows)


def report(q):
    """When aggregation is required, and which links are refused"""
    import numpy as np
    A, ka, la = frame(q['side_a'], q['caller'], {'y': np.arange(len(q['caller']))}, True)
    B, kb, lb = frame(q['side_b'], q['target'], {'x': np.arange(len(q['target']))}, q['ldf'])
    ua = len(set(map(str, q['caller']))) == len(q['caller'])
    ub = len(set(map(str, q['target']))) == len(q['target'])
    try:
        r = link(A, ka, la, B, kb, lb, 'L', q['pre'], q['shorthand'])
    except RuntimeError:
        assert not ua and not ub, 'a link was refused although the keys of %s are unique' % ('the caller' if ua else 'the target')
        assert not A._has_link('L') if hasattr(A, '_has_link') else True
        return True
    assert ua or ub, 'repeated keys on both sides were not refused'
    assert bool(r.value) == (ua and not ub), 'aggregation required: %s; caller unique %s, target unique %s' % (r, ua, ub)
    assert bool(A.link_summary()['aggregation'].iloc[0]) == bool(r.value)
    return True


CASES = dict(aggregate=aggregate, report=report)


def sides(rng, kind):
    return rng.choice(SIDES1 if 'pair' not in kind else SIDES2)


ARGS = {'std': [{}, dict(ddof=0), dict(ddof=2)], 'var': [{}, dict(ddof=0)], 'sum': [{}, dict(min_count=2)], 'prod': [{}, dict(min_count=2)], 'quantile': [{}, dict(q=.3), dict(q=.75)], 'nth': [dict(n=0), dict(n=1), dict(n=-1)]}


def rand_call(rng, funcs):
    func = rng.choice(funcs)
    call = [func, rng.choice(list(EXPRS)), rng.choice([None, None, 0, -99, 7]), rng.random() < .3]
    return call + [rng.choice(ARGS[func])] if func in ARGS else call


def g_agg(rng, tier):
    funcs = list(NUMERIC) + list(OTHER)
    while True:
        kind, pool = rand_pool(rng, rng.randint(3, 7))
        caller = rand_keys(rng, rng.randint(1, 7), pool, True)
        target = rand_keys(rng, rng.randint(2, 12), pool[:rng.randint(1, len(pool))], False, rng.choice([0, 0, .2]))
        full = [str(k) for k in target if not missing(k)]
        if len(set(full)) == len(full):
            continue
        if len(arrays(target)) != len(arrays(caller)):
            continue
        q = dict(caller=caller, target=target, side_a=sides(rng, kind), side_b=sides(rng, kind), ldf=rng.random() < .5, pre=rng.random() < .5, shorthand=rng.random() < .3,
                 seed=rng.randint(0, 9999), plain_index=rng.random() < .5,
                 calls=[rand_call(rng, funcs) for _ in range(rng.randint(2, 6))])
        if rng.random() < .3:
            k2, p2 = rand_pool(rng, 8)
            if len(p2) >= len(caller):
                q['inner'] = rng.sample(p2, len(caller))
                q['outer'] = rand_keys(rng, rng.randint(2, 6), p2, False)
                q['side_o'] = sides(rng, k2)
        yield 'aggregate', q


def g_report(rng, tier):
    while True:
        kind, pool = rand_pool(rng, rng.randint(2, 6))
        yield 'report', dict(caller=rand_keys(rng, rng.randint(1, 4), pool, rng.random() < .5), target=rand_keys(rng, rng.randint(1, 4), pool, rng.random() < .5),
                             side_a=sides(rng, kind), side_b=sides(rng, kind), ldf=rng.random() < .5, pre=rng.random() < .5, shorthand=rng.random() < .5)


def gen(rng, tier):
    return interleave(g_agg(rng, tier), g_agg(rng, tier), g_report(rng, tier))
