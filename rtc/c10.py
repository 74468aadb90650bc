from .util import *
from .base import interleave
from .c09 import paths_of

# dtype name -> (make Series from small ints, expected number for each)
KINDS = ['int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'bool', 'float64', 'float32', 'Int64', 'Int32', 'Int64na', 'floatna', 'catint', 'text', 'cat', 'cattext2']
WORDS = ['a', 'bb', 'long word', 'x', 'Bus', 'car2']


def make(kind, ints, index, pd, np):
    """Series with the given index from small integers, and what its numbers (or texts) are"""
    nums = [float(i) for i in ints]
    if kind in ('text', 'cat', 'cattext2'):
        w = [WORDS[abs(i) % len(WORDS)] for i in ints]
        s = pd.Series(w, index=index, dtype=object)
        if kind == 'cat':
            s = s.astype('category')
        if kind == 'cattext2':
            s = pd.Series(pd.Categorical(w, categories=['unused category with a long name'] + WORDS[::-1]), index=index)
        return s, w
    if kind == 'bool':
        return pd.Series([i % 2 == 0 for i in ints], index=index), [float(i % 2 == 0) for i in ints]
    if kind in ('Int64na', 'floatna'):
        vals = [None if i % 3 == 0 else i for i in ints]
        s = pd.Series(vals, index=index, dtype='Int64' if kind == 'Int64na' else 'float64')
        return s, [float('nan') if i % 3 == 0 else float(i) for i in ints]
    if kind == 'catint':
        return pd.Series(ints, index=index).astype('category'), nums
    if kind.startswith('uint'):
        return pd.Series([abs(i) for i in ints], index=index, dtype=kind), [float(abs(i)) for i in ints]
    return pd.Series(ints, index=index, dtype=kind), nums


def new_model(q):
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    from .c03 import build
    cm = ChoiceModel()
    build(cm, q['tree'])
    lab = q['units']
    cm.decision_units = pd.MultiIndex.from_tuples([tuple(x) for x in lab]) if isinstance(lab[0], list) else pd.Index(lab)
    return np, pd, cm


def utilities(cm, expr):
    cm.expressions.clear()
    cm.expressions.append(expr)
    return cm._evaluate_utilities(cm.expressions, n_threads=1).values


def numbers(cm, np, name, kind, expect, orientation):
    """What the symbol stands for in expressions, cell by cell"""
    n, m = len(cm.decision_units), len(cm.choices)
    want = np.array(expect, dtype=object).reshape((-1, 1) if orientation == 0 else (1, -1))
    want = np.broadcast_to(want, (n, m))
    if kind in ('text', 'cat', 'cattext2'):
        for w in set(expect) | {'absent', WORDS[2]}:
            got = utilities(cm, 'where(%s == %r, 1, 0)' % (name, w))
            for i in range(n):
                for j in range(m):
                    assert got[i, j] == float(want[i, j] == w), '%s (%s) at [%d, %d] %s %r, expected text %r' % (name, kind, i, j, 'is' if got[i, j] else 'is not', w, want[i, j])
        return
    got = utilities(cm, 'where(%s == %s, %s, -77)' % (name, name, name))
    for i in range(n):
        for j in range(m):
            w = -77.0 if math.isnan(want[i, j]) else want[i, j]
            assert got[i, j] == w, '%s (%s) at [%d, %d] is %r, expected %r' % (name, kind, i, j, got[i, j], w)


def wrong_index(how, index, pd, extra):
    k = list(index)
    if how == 'swap':
        k[0], k[-1] = k[-1], k[0]
    elif how == 'other':
        k[0] = extra
    elif how == 'short':
        k = k[:-1]
    elif how == 'range':
        return pd.RangeIndex(1000, 1000 + len(k))
    return pd.MultiIndex.from_tuples(k, names=index.names) if isinstance(index, pd.MultiIndex) else pd.Index(k)


def refused(f, what):
    try:
        f()
    except Exception:
        return
    assert False, '%s was not refused' % what


def vector(q):
    np, pd, cm = new_model(q)
    o, kind = q['o'], q['kind']
    index = cm.choices if o else cm.decision_units
    L = len(index)
    ints = q['ints'][:L]
    cm.declare_vector('v', o)
    s, expect = make(kind, ints, index, pd, np)
    extra = ('zz',) * index.nlevels if index.nlevels > 1 else 'zz'
    if q['bad'] is not None:
        if q['bad'] == 'type':
            refused(lambda: cm['v'].assign(list(ints)), 'a list')
            refused(lambda: cm['v'].assign(np.zeros((L, 1))), 'a 2-dimensional array')
            refused(lambda: cm['v'].assign(s.to_frame()), 'a DataFrame')
        elif q['bad'] == 'length':
            refused(lambda: cm['v'].assign(np.zeros(L + 1)), 'an array that is too long')
            refused(lambda: cm['v'].assign(np.zeros(L - 1)), 'an array that is too short')
        elif L > 1:
            w = wrong_index(q['bad'], index, pd, extra)
            refused(lambda: cm['v'].assign(pd.Series(s.values[:len(w)], index=w)), 'a Series with %s labels' % q['bad'])
        assert not cm['v'].filled, 'symbol filled by a refused assignment'
    if q['array'] and kind in ('int64', 'int32', 'float64', 'float32', 'bool'):
        a = s.values.copy()
        keep = a.copy()
        cm['v'].assign(a)
        assert a.shape == keep.shape and np.array_equal(a, keep), "the caller's array changed"
    else:
        keep = s.copy()
        cm['v'].assign(s)
        assert s.equals(keep)
    assert cm['v'].filled
    numbers(cm, np, 'v', kind, expect, o)
    return L > 1


def table(q):
    np, pd, cm = new_model(q)
    from cheval import LinkedDataFrame
    o = q['o']
    index = cm.choices if o else cm.decision_units
    L = len(index)
    need = set(q['need'])
    cm.declare_table('t', o, mandatory_attributes=need or None, allow_links=q['links'])
    cols, expect = {}, {}
    for k, kind in enumerate(q['kinds']):
        ints = q['ints'][k:k + L]
        cols['c%d' % k], expect['c%d' % k] = make(kind, ints, index, pd, np)
    df = pd.DataFrame(cols, index=index)
    if q['ldf']:
        df = LinkedDataFrame(df)
        target = pd.DataFrame({'z': [1.5, 2.5, 4.0]}, index=[0, 1, 2])
        df['key'] = [i % 3 for i in range(L)]
        df.link_to(target, 'lnk', on_self='key')
    extra = ('zz',) * index.nlevels if index.nlevels > 1 else 'zz'
    if q['bad'] and L > 1:
        w = wrong_index(q['bad'], index, pd, extra)
        bad = df.iloc[:len(w)].copy()
        bad.index = w
        refused(lambda: cm['t'].assign(bad), 'a table with %s labels' % q['bad'])
        assert not cm['t'].filled
    missing = need - set(df.columns)
    if missing or (q['ldf'] and not q['links']):
        refused(lambda: cm['t'].assign(df), 'a table lacking %s' % missing if missing else 'a linked table')
        assert not cm['t'].filled
        return True
    keep = df.copy()
    cm['t'].assign(df)
    assert df.equals(keep)
    for k, kind in enumerate(q['kinds']):
        numbers(cm, np, 't.c%d' % k, kind, expect['c%d' % k], o)
    if q['ldf']:
        numbers(cm, np, 't.lnk.z', 'float64', [[1.5, 2.5, 4.0][i % 3] for i in range(L)], o)
    return True


def matrix(q):
    np, pd, cm = new_model(q)
    rows, cols = list(cm.decision_units), list(cm.choices)
    fill = q['fill']
    kw = {} if fill is None else dict(fill_value=fill)
    cm.declare_matrix('m', q['o'], reindex_cols=q['rc'], reindex_rows=q['rr'], **kw)
    fill = 0 if fill is None else fill
    ri, ci = q['ri'], q['ci']
    unk = lambda like: tuple(['zz'] * len(like)) if isinstance(like, tuple) else 'zz'
    rl = [rows[i] if i >= 0 else unk(rows[0]) for i in ri]
    cl = [cols[j] if j >= 0 else unk(cols[0]) for j in ci]
    mk = lambda ls, like: pd.MultiIndex.from_tuples(ls, names=like.names) if isinstance(like, pd.MultiIndex) else pd.Index(ls)
    vals = np.array(q['ints'][:len(rl) * len(cl)]).reshape(len(rl), len(cl))
    if q['dtype'] == 'mixed':
        df = pd.DataFrame({j: vals[:, j].astype('f8' if j % 2 else 'i8') for j in range(len(cl))})
        df.index, df.columns = mk(rl, cm.decision_units), mk(cl, cm.choices)
    else:
        df = pd.DataFrame(vals.astype(q['dtype']), index=mk(rl, cm.decision_units), columns=mk(cl, cm.choices))
    if q['o'] == 1:
        df = df.transpose()
    keep = df.copy()
    bad = -1 in ri or -1 in ci or (rl != rows and not q['rr']) or (cl != cols and not q['rc'])
    if bad:
        refused(lambda: cm['m'].assign(df), 'a matrix with unknown labels, or a mismatch without re-indexing')
        assert not cm['m'].filled
        refused(lambda: cm['m'].assign(vals), 'an unlabelled matrix')
        return True
    cm['m'].assign(df)
    assert df.equals(keep), "the caller's matrix was modified"
    want = {(r, c): float(fill) for r in rows for c in cols}
    for i, r in enumerate(rl):
        for j, c in enumerate(cl):
            want[r, c] = float(vals[i, j] != 0 if q['dtype'] == '?' else vals[i, j])
    got = utilities(cm, 'where(m == m, m, -77)')
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            w = want[r, c]
            w = -77.0 if math.isnan(w) else w
            assert got[i, j] == w, 'cell (%s, %s) is %r, expected %r' % (r, c, got[i, j], w)
    return rl != rows or cl != cols


CASES = dict(vector=vector, table=table, matrix=matrix)


def base(rng):
    from .c03 import rand_named_tree
    if rng.random() < .4:
        tree = rand_named_tree(rng, max_nodes=6, max_depth=3)
    else:
        tree = [[-1, 'c%d' % i, 1.0] for i in range(rng.randint(2, 4))]
    n = rng.randint(1, 5)
    units = rng.choice([lambda: ['u%d' % i for i in rng.sample(range(9), n)], lambda: rng.sample(range(50), n), lambda: [[i // 2, 'p%d' % (i % 2)] for i in range(n)]])()
    return dict(tree=tree, units=units, ints=[rng.randint(-20, 20) for _ in range(60)])


def g_vector(rng, tier):
    while True:
        yield 'vector', dict(base(rng), o=rng.randint(0, 1), kind=rng.choice(KINDS), array=rng.random() < .4,
                             bad=rng.choice([None, 'type', 'length', 'swap', 'other', 'short', 'range']))


def g_table(rng, tier):
    while True:
        k = rng.randint(1, 3)
        need = rng.choice([[], [], ['c0'], ['c0', 'c1']])
        yield 'table', dict(base(rng), o=rng.randint(0, 1), kinds=[rng.choice(KINDS) for _ in range(k)], need=need, links=rng.random() < .6,
                            ldf=rng.random() < .4, bad=rng.choice([None, 'swap', 'other', 'short', 'range']))


def g_matrix(rng, tier):
    while True:
        q = base(rng)
        n, m = len(q['units']), len(q['tree'])

        def pick(k):
            how = rng.choice(['same', 'same', 'perm', 'subset', 'subset', rng.choice(['unknown', 'same'])])
            if how == 'same':
                return list(range(k))
            if how == 'perm':
                return rng.sample(range(k), k)
            x = rng.sample(range(k), rng.randint(1, k))
            if how == 'unknown':
                x[rng.randrange(len(x))] = -1
            return x
        dt = rng.choice(['f8', 'f8', 'i8', 'f4', '?', 'mixed', 'i4'])
        fill = rng.choice([None, None, 0, 1, -3] + ([float('nan'), 0.5] if dt in ('f8', 'f4', 'mixed') else []))
        if dt == '?':
            fill = rng.choice([None, 0, 1])
        q.update(o=rng.randint(0, 1), ri=pick(n), ci=pick(m), rr=rng.random() < .8, rc=rng.random() < .8, fill=fill, dtype=dt)
        if dt == 'mixed' and (len(q['ci']) < 2):
            q['dtype'] = 'f8'
        yield 'matrix', q


def gen(rng, tier):
    return interleave(g_vector(rng, tier), g_table(rng, tier), g_matrix(rng, tier))
