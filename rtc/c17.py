from .util import *
from .base import interleave
from .ldfw import *
from .ldfw import values as column

# operations on the rows; the link must still be there (True) or may be dropped (False)
OPS = {
    'mask': (lambda f, r: f[f['_id'] % 2 == r % 2], True),
    'mask_array': (lambda f, r: f[(f['_id'] % 3 != r % 3).values], True),
    'mask_list': (lambda f, r: f[[i % 3 != 0 for i in range(len(f))]], True),
    'loc_mask': (lambda f, r: f.loc[(f['_id'] % 2 == r % 2).values], True),
    'loc_mask_cols': (lambda f, r: f.loc[(f['_id'] % 2 == r % 2).values, list(f.columns)], True),
    'loc_list': (lambda f, r: f.loc[[f.index[i] for i in perm(len(f), r)]] if f.index.is_unique else f, True),
    'loc_repeat': (lambda f, r: f.loc[[f.index[i] for i in perm(len(f), r)] + list(f.index[:1])] if f.index.is_unique else f, True),
    'loc_slice': (lambda f, r: f.loc[f.index[r % len(f)]:f.index[-1]] if len(f) and f.index.is_unique else f, True),
    'loc_all': (lambda f, r: f.loc[:], True),
    'iloc_list': (lambda f, r: f.iloc[perm(len(f), r)], True),
    'iloc_some': (lambda f, r: f.iloc[perm(len(f), r)[:max(1, len(f) // 2)]] if len(f) else f, True),
    'iloc_repeat': (lambda f, r: f.iloc[perm(len(f), r) + perm(len(f), r + 1)], True),
    'iloc_negative': (lambda f, r: f.iloc[[-1, 0]] if len(f) else f, True),
    'iloc_slice': (lambda f, r: f.iloc[r % 3:len(f) - r % 2], True),
    'iloc_step': (lambda f, r: f.iloc[::2], True),
    'iloc_reverse': (lambda f, r: f.iloc[::-1], True),
    'iloc_mask': (lambda f, r: f.iloc[[i % 2 == 0 for i in range(len(f))]], True),
    'slice': (lambda f, r: f[1:], True),
    'slice_reverse': (lambda f, r: f[::-1], True),
    'head': (lambda f, r: f.head(1 + r % 4), True),
    'tail': (lambda f, r: f.tail(1 + r % 4), True),
    'head_neg': (lambda f, r: f.head(-1), True),
    'groupby': (lambda f, r: [g for _, g in f.groupby('_g')][r % max(1, f['_g'].nunique())] if len(f) else f, True),
    'get_group': (lambda f, r: f.groupby('_g').get_group(f['_g'].iloc[r % len(f)]) if len(f) else f, True),
    'sort_values': (lambda f, r: f.sort_values('_s', ascending=r % 2 == 0), True),
    'sort_values_ties': (lambda f, r: f.sort_values(['_g', '_s'], kind='mergesort'), True),
    'sort_index': (lambda f, r: f.sort_index(ascending=r % 2 == 0), True),
    'sort_inplace': (lambda f, r: inplace(f.copy(deep=True), lambda x: x.sort_values('_s', inplace=True)), True),
    'sample': (lambda f, r: f.sample(frac=1, random_state=r), True),
    'sample_some': (lambda f, r: f.sample(max(0, len(f) - 1), random_state=r), True),
    'sample_replace': (lambda f, r: f.sample(len(f) + 2, replace=True, random_state=r) if len(f) else f, True),
    'copy': (lambda f, r: f.copy(), True),
    'deepcopy': (lambda f, r: f.copy(deep=True), True),
    'reindex_same': (lambda f, r: f.reindex([f.index[i] for i in perm(len(f), r)]) if f.index.is_unique and f.index.nlevels == 1 and len(f) else f, True),
    'take': (lambda f, r: f.take(perm(len(f), r)), False),
    'query': (lambda f, r: f.query('_id > %d' % (r % 3)), False),
    'drop': (lambda f, r: f.drop(f.index[r % len(f)]) if len(f) > 1 else f, False),
    'drop_inplace': (lambda f, r: inplace(f.copy(deep=True), lambda x: x.drop(x.index[r % len(x)], inplace=True)) if len(f) > 1 else f, False),
    'nlargest': (lambda f, r: f.nlargest(2, '_s'), False),
    'drop_duplicates': (lambda f, r: f.drop_duplicates('_g'), False),
    'reset_index': (lambda f, r: f.reset_index(drop=r % 2 == 0), False),
    'reset_after': (lambda f, r: f.iloc[::-1].reset_index(drop=True), False),
    'cols': (lambda f, r: f[[c for c in f.columns if r % 2 == 0 or not c.startswith('k')]], False),
    'drop_key': (lambda f, r: f.iloc[::-1].drop(columns=[c for c in f.columns if c.startswith('k')]), False),
    'assign': (lambda f, r: f.assign(new=1), False),
    'concat': (lambda f, r: __import__('pandas').concat([f.iloc[1:], f.iloc[:1]]), False),
    'append': (lambda f, r: __import__('pandas').concat([f, f]), False),
    'truncate': (lambda f, r: f.sort_index().truncate(f.index.min(), f.index.max()) if len(f) and f.index.is_unique and f.index.nlevels == 1 else f, False),
    'set_index': (lambda f, r: f.set_index('_s'), False),
    'rename': (lambda f, r: f.rename(columns={'_s': '_s'}), False),
    'merge': (lambda f, r: f.merge(__import__('pandas').DataFrame({'_s': sorted(f['_s'])[::2]}), on='_s'), False),
    'fillna': (lambda f, r: f.fillna(0), False),
    'filter': (lambda f, r: f.filter(items=list(f.index[::-1][:3]), axis=0) if f.index.is_unique and f.index.nlevels == 1 else f, False),
    'isin': (lambda f, r: f[f['_id'].isin([0, 2, 3])], True),
    'reindex_new': (lambda f, r: f.reindex(list(f.index[r % 2:2]) + [new_label(f)]) if f.index.is_unique and f.index.nlevels == 1 and f.index.dtype.kind in 'Oif' and len(f) else f, False),
}


def new_label(f):
    return 'new label' if f.index.dtype == object else 987654


def perm(n, r):
    import numpy as np
    return [int(i) for i in np.random.RandomState(r).permutation(n)]


def inplace(f, g):
    g(f)
    return f


def rows(q):
    import numpy as np
    import pandas as pd
    n = len(q['keys'])
    m = len(q['target'])
    s, v = column(q['kind'], m, q['seed'])
    data = {'val': s.values, 'num': np.arange(m) * 10 + 1}
    other = {}
    if q['chain']:
        data['ck'] = np.arange(m) % 4
    B, kb, lb = frame(q['side_b'], q['target'], data, q['ldf'] or q['chain'])
    if q['chain']:
        C = pd.DataFrame({'deep': [1.5, 2.5, 3.5], 'name': ['x', 'y', 'z']}, index=[1, 3, 0])
        B.link_to(C, 'C', on_self='ck', precompute=q['pre'])
    rs = np.random.RandomState(q['seed'] + 5)
    A, ka, la = frame(q['side_a'], q['keys'], {'_id': np.arange(n), '_g': rs.randint(0, 3, n), '_s': rs.permutation(n) * 2}, True, index=q['labels'])
    r = link(A, ka, la, B, kb, lb, 'L', q['pre'])
    agg = bool(r.value)
    # reference: values by original row
    groups = [[j for j, k in enumerate(q['target']) if not missing(k) and not missing(c) and tup(k) == tup(c)] for c in q['keys']]

    def look(f):
        """{what: cells} of all lookups on the frame"""
        if agg:
            return {'sum': f.L.sum('num'), 'count': f.L.count('num'), 'max': f.L.max('num * 2')}
        out = {'val': f.L.val, 'num': f.L.num}
        if q['chain']:
            out.update(deep=f.L.C.deep, name=f.L.C['name'])
        return out

    def reference():
        if agg:
            return {'sum': [norm(sum(10 * j + 1 for j in g) if g else -1) for g in groups], 'count': [norm(len(g) if g else -1) for g in groups],
                    'max': [norm(max(2 * (10 * j + 1) for j in g) if g else -1) for g in groups]}
        out = {'val': [norm(v[g[0]]) if g else norm(DEFAULTS[q['kind']]) for g in groups], 'num': [norm(10 * g[0] + 1) if g else norm(0) for g in groups]}
        if q['chain']:
            deep, name = {1: 1.5, 3: 2.5, 0: 3.5}, {1: 'x', 3: 'y', 0: 'z'}
            out['deep'] = [norm(deep.get(g[0] % 4, float('nan'))) if g else norm(float('nan')) for g in groups]
            out['name'] = [norm(name.get(g[0] % 4, '')) if g else norm('') for g in groups]
        return out
    ref = reference()
    groups = [[]]
    missed = reference()

    def check(f, must, history):
        if not f._has_link('L'):
            assert not must, 'the link is lost after %s' % history
            return False
        for what, got in look(f).items():
            assert got.index.equals(f.index), 'lookup after %s is not indexed by the frame' % history
            if '_id' not in f.columns:
                continue
            ids = list(f['_id'])
            miss = set(map(str, missed[what])) | {'nan', 'None'}           # rows that are new
            want = [ref[what][int(i)] if i == i else None for i in ids]
            got = cells(got)
            for g, w, i in zip(got, want, ids):
                assert w is not None or str(g) in miss, '%s after %s: a new row gives %r, the fill value is %s' % (what, history, g, sorted(miss))
                assert w is None or g == w, '%s after %s: row %s gives %r, expected %r' % (what, history, i, g, w)
        return True
    if q['look_first']:
        check(A, True, [])
    f, must, history, seen = A, True, [], [A]
    for name, r in q['ops']:
        op, keeps = OPS[name]
        if f['_id'].isna().any():
            break
        try:
            g = op(f, r)
        except Exception as e:
            plain = None
            try:
                plain = op(pd.DataFrame(f), r)
            except Exception:
                pass
            assert plain is None, '%s fails on the linked frame: %s: %s' % (history + [name], type(e).__name__, e)
            break
        f = g
        history = history + [name]
        if not hasattr(f, '_has_link'):
            break
        must = must and keeps
        if '_id' not in f.columns:
            break
        if not check(f, must, history):
            break
        seen.append(f)
        if q['look_all']:
            for x, h in zip(seen, range(len(seen))):
                check(x, False, history[:h] + ['(seen again)'])
    check(A, True, ['(the original, afterwards)'])
    return len(history) > 0


def recompute(q):
    """compute_indexers() brings lookups up to date with changed keys, on either side"""
    import numpy as np
    import pandas as pd
    from cheval import LinkedDataFrame
    def ref(ka, kb):
        if q.get('agg'):
            return [float(sum(j for j, x in enumerate(kb) if x == k)) if k in kb else 'nan' for k in ka]
        where = {k: j for j, k in enumerate(kb)}
        return [float(where[k]) if k in where else 'nan' for k in ka]

    def look(F): return cells(F.L.sum('v') if q.get('agg') else F.L.v)

    A = LinkedDataFrame({'k': q['a'][0], 'i': range(len(q['a'][0]))})
    B = LinkedDataFrame({'k': q['b'][0], 'v': [float(j) for j in range(len(q['b'][0]))]})
    A.link_to(B, 'L', on='k', precompute=q['pre'])
    assert look(A) == ref(q['a'][0], q['b'][0])
    for a, b in zip(q['a'][1:], q['b'][1:]):
        A['k'] = a
        B['k'] = b
        A.compute_indexers()
        assert look(A) == ref(a, b), 'after compute_indexers(): %s, expected %s' % (look(A), ref(a, b))
        S = A.iloc[::-1]
        assert look(S) == ref(a, b)[::-1], 'after compute_indexers() and reversing'
        S = A[A['i'] > 0]
        S.compute_indexers()
        assert look(S) == ref(a, b)[1:], 'after compute_indexers() on a slice'
    return True


CASES = dict(rows=rows, recompute=recompute)


def g_rows(rng, tier):
    names = list(OPS)
    k = 0
    while True:
        kind, pool = rand_pool(rng, rng.randint(3, 7))
        sides = SIDES1 if 'pair' not in kind else SIDES2
        agg = rng.random() < .3
        if agg:
            keys = rand_keys(rng, rng.randint(2, 6), pool, True)
            target = rand_keys(rng, 9, pool[:max(1, len(pool) - 1)], False)
            if len(set(map(str, target))) == len(target):
                continue
        else:
            keys = rand_keys(rng, rng.randint(1, 7), pool, rng.random() < .4, rng.choice([0, 0, .15]))
            target = rand_keys(rng, rng.randint(1, 6), pool, True)
        if len(arrays(keys)) != len(arrays(target)):
            continue
        n = len(keys)
        labels = rng.choice([None, list(range(n)), [10 * i + 3 for i in range(n)][::-1], ['r%d' % i for i in range(n)], ['d%d' % (i % 2) for i in range(n)], [rng.randint(0, 3) for _ in range(n)]])
        first = names[k % len(names)]
        k += 1
        ops = [[first, rng.randint(0, 99)]] + [[rng.choice(names), rng.randint(0, 99)] for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        if rng.random() < .3:
            rng.shuffle(ops)
        yield 'rows', dict(keys=keys, target=target, side_a=rng.choice(['col', 'col'] + sides), side_b=rng.choice(sides), labels=labels, kind=rng.choice(KINDS), ldf=rng.random() < .5,
                           chain=not agg and rng.random() < .35, pre=rng.random() < .5, seed=rng.randint(0, 9999), ops=ops, look_first=rng.random() < .5, look_all=rng.random() < .3)


def g_recompute(rng, tier):
    while True:
        pool = list(range(10))
        n, m = rng.randint(1, 5), rng.randint(1, 5)
        steps = rng.randint(2, 4)
        if rng.random() < .4:     # several rows of the target for a row of the caller
            a, b = [rng.sample(pool, n) for _ in range(steps)], [[rng.choice(pool[:m]) for _ in range(m + 1)] for _ in range(steps)]
            yield 'recompute', dict(a=a, b=b, pre=rng.random() < .5, agg=True)
            continue
        yield 'recompute', dict(a=[[rng.choice(pool) for _ in range(n)] for _ in range(steps)], b=[rng.sample(pool, m) for _ in range(steps)], pre=rng.random() < .5)


def gen(rng, tier):
    return interleave(g_rows(rng, tier), g_rows(rng, tier), g_rows(rng, tier), g_recompute(rng, tier))
