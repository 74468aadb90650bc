from .util import *
from .base import interleave
from .c12 import World, declare, fill, SYMBOLS, EXPRS


def build_model(q, units=None):
    import pandas as pd
    from cheval import ChoiceModel
    from .c03 import build
    m = ChoiceModel(precision=q['prec'])
    build(m, q['tree'])
    m.decision_units = pd.MultiIndex.from_tuples([tuple(u) for u in q['units']]) if isinstance(q['units'][0], list) else pd.Index(q['units'])
    return m


def setup(q, symbols=None):
    import numpy as np
    import pandas as pd
    w = World()
    m = build_model(q)
    for i, s in enumerate(q['symbols']):
        declare(m, s)
        if symbols is None or s in symbols:
            fill(w, m, s, q['seed'] + i, None)
    for e, g in q['exprs']:
        m.expressions.append(e, group=g)
    if q['partial']:
        rs = np.random.RandomState(q['seed'])
        t = rs.randint(-8, 9, (len(m.decision_units), len(m.choices))) / 8.
        m.add_partial_utilities(pd.DataFrame(t.astype('f%d' % q['prec']), index=m.decision_units, columns=m.choices))
    return w, m


def utils(m, group=None):
    """(utilities, probabilities, logsums) of the model, as evaluated"""
    ex = m.expressions if group is None else m.expressions.get_group(group)
    u = m._evaluate_utilities(ex, n_threads=1)
    assert u.index.equals(m.decision_units) and u.columns.equals(m.choices)
    return u.values.copy()


def assert_table(got, want, tol, what):
    assert got.shape == want.shape, '%s: shape %s, expected %s' % (what, got.shape, want.shape)
    for i in range(got.shape[0]):
        for j in range(got.shape[1]):
            assert close(got[i, j], want[i, j], tol), '%s [%d, %d] = %r, expected %r' % (what, i, j, got[i, j], want[i, j])


def preval(q):
    tol = 1e-4 if q['prec'] == 4 else 1e-9
    w, whole = setup(q)
    want = utils(whole)
    wp = whole.run_stochastic(check_infeasible=False)
    w, m = setup(q)
    for g in q['prevals']:
        if not any(x == g for _, x in q['exprs']):
            continue
        m.preval(g, cleanup_scope=q['cleanup'], n_threads=1)
        try:
            m.expressions.get_group(g)
            assert False, 'group %r still exists' % (g,)
        except KeyError:
            pass
    left = [(e, g) for e, g in q['exprs'] if g not in q['prevals']]
    assert sorted(e.raw.strip() for e in m.expressions) == sorted(e.strip() for e, g in left), 'remaining expressions %s, expected %s' % ([e.raw for e in m.expressions], left)
    m.validate()
    got = utils(m)
    assert_table(got, want, tol, 'utilities after preval(%s)' % q['prevals'])
    if q['copy']:
        assert_table(utils(m.copy()), want, tol, 'utilities of a copy after preval')
    gp = m.run_stochastic(check_infeasible=False)
    assert_table(gp[0].values, wp[0].values, max(tol, 1e-6), 'probabilities after preval')
    assert_table(gp[2].values, wp[2].values, max(tol, 1e-6), 'terms after preval')
    # groups evaluated one by one give the sum (partial utilities counted once)
    return len(left) < len(q['exprs'])


def segments(q):
    """The documented usage: common expressions first, then copies for segments whose own symbols are filled later"""
    import numpy as np
    import pandas as pd
    tol = 1e-4 if q['prec'] == 4 else 1e-9
    common = set(q['common'])
    w, m = setup(q, symbols=common)
    m.preval('g', cleanup_scope=q['cleanup'], n_threads=1)
    mask = np.array(q['mask'])
    w2, full = setup(q)
    want = utils(full)
    for seg in (mask, ~mask):
        ser = pd.Series(seg, index=m.decision_units)
        c = m.copy_subset(ser) if q['subset'] else m.copy()
        for i, s in enumerate(q['symbols']):
            if s in common:
                continue
            symbol = full[s]
            ww = World()
            data = capture(q, s, i)
            if q['subset'] and s != 'num' and s not in ('cvec', 'ctab'):
                data = data[seg] if not hasattr(data, 'loc') else data.loc[seg]
            try:
                c[s].assign(data)
            except KeyError:
                assert not any(s in e for e, g in q['exprs'] if g != 'g'), 'symbol %s is gone although it is needed' % s
        got = utils(c)
        assert_table(got, want[seg] if q['subset'] else want, tol, 'utilities of a segment')
    return True


def capture(q, s, i):
    """The data that fill() assigns to the symbol"""
    class Box:
        pass
    m = build_model(q)
    box = Box()
    box.assign = lambda x: setattr(box, 'data', x)

    class M:
        decision_units, choices = m.decision_units, m.choices

        def __getitem__(self, k):
            return box
    fill(World(), M(), s, q['seed'] + i, None)
    return box.data


def subset(q):
    import numpy as np
    import pandas as pd
    tol = 1e-4 if q['prec'] == 4 else 1e-9
    w, m = setup(q)
    for g in q['prevals']:
        if any(x == g for _, x in q['exprs']):
            m.preval(g, cleanup_scope=q['cleanup'], n_threads=1)
    want = utils(m)
    mask = np.array(q['mask'])
    ser = pd.Series(mask, index=m.decision_units, name='m')
    c = m.copy_subset(ser)
    assert list(c.decision_units) == list(m.decision_units[mask]), 'decision units of the subset'
    got = utils(c)
    assert_table(got, want[mask], tol, 'utilities of the subset')
    assert_table(utils(m), want, 0, 'utilities of the original after copy_subset')
    if q['again'] and mask.sum():
        second = np.array([i % 2 == 0 for i in range(int(mask.sum()))])
        cc = c.copy_subset(pd.Series(second, index=c.decision_units))
        assert_table(utils(cc), want[mask][second], tol, 'utilities of a subset of the subset')
    if mask.sum():
        a = m.run_stochastic(check_infeasible=False, clear_scope=False)
        b = c.run_stochastic(check_infeasible=False)
        assert list(b[0].index) == list(m.decision_units[mask]) == list(b[1].index)
        assert_table(b[0].values, a[0].values[mask], max(tol, 1e-9), 'probabilities of the subset')
        assert_table(b[1].values.reshape(-1, 1), a[1].values[mask].reshape(-1, 1), max(tol, 1e-9), 'logsums of the subset')
    w.check('copy_subset')
    try:
        m.copy_subset(pd.Series(list(mask) + [True], index=range(len(mask) + 1)))
        assert False, 'a mask with another index was accepted'
    except AssertionError as e:
        if 'was accepted' in str(e):
            raise
    except Exception:
        pass
    return 0 < mask.sum()


CASES = dict(preval=preval, subset=subset, segments=segments)


def rand_model(rng):
    tree = [[-1, x, 1.0] for x in 'abc'] if rng.random() < .5 else [[-1, 'a', 1.0], [-1, 'b', .5], [1, 'x', 1.0], [1, 'y', 1.0], [-1, 'c', 1.0]]
    linked = rng.random() < .4
    syms = SYMBOLS if linked else [s for s in SYMBOLS if s != 'hh']
    pool = EXPRS if linked else [e for e in EXPRS if 'hh' not in e]
    units = rng.choice([[3, 1, 2], [10, 20], [4, 3, 2, 1], [7], ['u', 'v', 'w'], [[1, 'x'], [1, 'y'], [2, 'x']]])
    if linked and rng.random() < .3:
        pool = [e for e in pool if 'hh' in e] + pool
    return dict(tree=tree, units=units, prec=rng.choice([8, 8, 4]), seed=rng.randint(0, 9999), symbols=syms, partial=rng.random() < .5,
                exprs=[[rng.choice(pool), rng.choice([None, 'g', 'h', 'g'])] for _ in range(rng.randint(1, 5))], cleanup=rng.random() < .6)


def rand_mask(rng, n):
    k = rng.random()
    return [k < .9 and (k > .8 or rng.random() < .6) for _ in range(n)]


def g_preval(rng, tier):
    while True:
        q = rand_model(rng)
        q.update(prevals=rng.choice([['g'], ['h'], ['g', 'h'], ['h', 'g']]), copy=rng.random() < .3)
        yield 'preval', q


def g_subset(rng, tier):
    while True:
        q = rand_model(rng)
        q.update(prevals=rng.choice([[], [], ['g'], ['g', 'h']]), mask=rand_mask(rng, len(q['units'])), again=rng.random() < .3)
        yield 'subset', q


def g_segments(rng, tier):
    while True:
        q = rand_model(rng)
        q['symbols'] = [s for s in q['symbols'] if s != 'hh']
        q['exprs'] = [[e, g] for e, g in q['exprs'] if 'hh' not in e] + [['rvec * num', 'g'], [rng.choice(['rarr + num', 'mat', 'tab.y * cvec', 'rvec']), 'h']]
        q['units'] = rng.choice([[3, 1, 2], [4, 3, 2, 1]])
        used = {s for s in q['symbols'] if any(s in e for e, g in q['exprs'] if g == 'g')}
        q.update(common=sorted(used), mask=[True, False, True, True][:len(q['units'])], subset=rng.random() < .7)
        yield 'segments', q


def gen(rng, tier):
    return interleave(g_preval(rng, tier), g_subset(rng, tier), g_segments(rng, tier))
