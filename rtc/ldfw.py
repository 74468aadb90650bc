"""Frames for the properties of linked frames, from JSON parameters.
Keys are scalars, or lists for joins on several levels; None is a missing key."""
import math

KINDS = ['int', 'int8', 'uint', 'float', 'float32', 'bool', 'text', 'cat', 'time', 'obj']
DEFAULTS = dict(int=0, int8=0, uint=0, float=math.nan, float32=math.nan, bool=False, text='', cat=math.nan, time='NaT', obj=None)
FILL_NAME = dict(int='INT_NAME', int8='INT_NAME', uint='UINT_NAME', float='FLOAT_NAME', float32='FLOAT_NAME', bool='BOOL_NAME', text='TEXT_NAME', cat='CAT_NAME', time='TIME_NAME', obj='OBJ_NAME')
WORDS = ['aa', 'b', 'long text', 'zz', 'q']


def values(kind, n, seed):
    """(Series without index, values as Python objects)"""
    import numpy as np
    import pandas as pd
    rs = np.random.RandomState(seed)
    x = rs.randint(1, 100, n)
    if kind in ('int', 'int8', 'uint'):
        a = x.astype(dict(int='i8', int8='i1', uint='u2')[kind])
        return pd.Series(a), [int(v) for v in a]
    if kind in ('float', 'float32'):
        a = (x / 4.).astype('f8' if kind == 'float' else 'f4')
        return pd.Series(a), [float(v) for v in a]
    if kind == 'bool':
        a = x % 2 == 0
        return pd.Series(a), [bool(v) for v in a]
    if kind in ('text', 'cat'):
        a = [WORDS[v % 5] for v in x]
        if kind == 'text':
            return pd.Series(a, dtype=object), a
        return pd.Series(pd.Categorical(a, categories=WORDS)), a
    if kind == 'time':
        a = pd.to_datetime(['2020-01-%02d' % (v % 28 + 1) for v in x])
        return pd.Series(a), [str(v.date()) for v in a]
    a = [int(v) for v in x]     # numbers stored as objects
    return pd.Series(a, dtype=object), a


def norm(v):
    """Comparable form of a cell"""
    import numpy as np
    import pandas as pd
    if v is None:
        return 'None'
    if isinstance(v, (pd.Timestamp, np.datetime64)) or v is pd.NaT:
        return 'NaT' if pd.isna(v) else str(pd.Timestamp(v).date())
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, (int, float, np.number)):
        return 'nan' if v != v else float(v)
    return str(v)


def cells(s):
    return [norm(v) for v in list(s)]


def missing(key):
    return key is None or (isinstance(key, (list, tuple)) and any(k is None for k in key))


def tup(key):
    return tuple(key) if isinstance(key, (list, tuple)) else key


def arrays(keys):
    """Per level, the array of keys in its natural dtype (missing: NaN for numbers, None for text)"""
    import numpy as np
    levels = [list(x) for x in zip(*keys)] if keys and isinstance(keys[0], list) else [list(keys)]
    out = []
    for lev in levels:
        if any(isinstance(v, str) for v in lev):
            out.append(np.array(lev, dtype=object))
        elif any(v is None for v in lev):
            out.append(np.array([math.nan if v is None else v for v in lev], dtype='f8'))
        elif any(isinstance(v, float) for v in lev):
            out.append(np.array(lev, dtype='f8'))
        else:
            out.append(np.array(lev, dtype='i8'))
    return out


SIDES1 = ['col', 'index', 'level', 'level_pos', 'level_of_two']
SIDES2 = ['col', 'index', 'level', 'level_of_three']


def frame(side, keys, data, ldf, label='k', index=None):
    """Frame with the join keys placed on the given side; returns (frame, kind of argument, labels)"""
    import numpy as np
    import pandas as pd
    from cheval import LinkedDataFrame
    arr = arrays(keys)
    n = len(keys)
    names = [label] if len(arr) == 1 else [label + str(i) for i in range(len(arr))]
    cols = dict(data)
    extra = [100 - 3 * i for i in range(n)]
    kind, lab = 'levels', None
    if side == 'col':
        cols.update(zip(names, arr))
        kind, lab = 'on', (names[0] if len(names) == 1 else names)
        ix = pd.Index(index if index is not None else ['r%d' % (7 * i % 11) + str(i) for i in range(n)], name='rows')
    elif side == 'index':
        ix = pd.Index(arr[0]) if len(arr) == 1 else pd.MultiIndex.from_arrays(arr)
        kind = None
    elif side in ('level', 'level_pos'):
        ix = pd.Index(arr[0], name=names[0]) if len(arr) == 1 else pd.MultiIndex.from_arrays(arr, names=names)
        lab = names[0] if len(names) == 1 else names
        if side == 'level_pos':
            lab = [0]
    elif side == 'level_of_two':
        ix = pd.MultiIndex.from_arrays([extra, arr[0]], names=['x', names[0]])
        lab = names[0]
    else:
        ix = pd.MultiIndex.from_arrays([arr[1], extra, arr[0]], names=[names[1], 'x', names[0]])
        lab = names
    df = pd.DataFrame(cols).set_axis(ix, axis=0) if n or cols else pd.DataFrame(index=ix)
    if ldf:
        df = LinkedDataFrame(df)
    return df, kind, lab


def link(a, ka, la, b, kb, lb, name, precompute, shorthand=False):
    kw = {}
    if shorthand and ka is not None and ka == kb and la == lb:
        kw = {'on' if ka == 'on' else 'levels': la}
    else:
        if ka == 'on':
            kw['on_self'] = la
        elif ka == 'levels':
            kw['self_levels'] = la
        if kb == 'on':
            kw['on_other'] = lb
        elif kb == 'levels':
            kw['other_levels'] = lb
    return a.link_to(b, name, precompute=precompute, **kw)


def rand_keys(rng, n, pool, unique, missing_rate=0.0):
    if unique:
        n = min(n, len(pool))
        keys = rng.sample(pool, n)
    else:
        keys = [rng.choice(pool) for _ in range(n)] if pool else []
    out = []
    for k in keys:
        if missing_rate and rng.random() < missing_rate:
            if isinstance(k, list):
                k = list(k)
                k[rng.randrange(len(k))] = None
            else:
                k = None
        out.append(k)
    return out


def rand_pool(rng, size):
    kind = rng.choice(['int', 'int', 'str', 'float', 'pair', 'pair', 'pairs'])
    ints = rng.sample(range(-20, 60), size)
    if kind == 'int':
        return kind, ints
    if kind == 'str':
        return kind, ['k%d' % i for i in ints]
    if kind == 'float':
        return kind, [i / 2. + .25 for i in ints]
    a = [rng.randint(0, 3) for _ in range(size)]
    pool = []
    for i, x in zip(ints, a):
        k = [x, i % 7] if kind == 'pair' else [('L%d' % x), i % 7]
        if k not in pool:
            pool.append(k)
    return kind, pool
