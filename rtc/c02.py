from .util import *
from .base import interleave


def _core():
    import numpy as np
    from cheval import core
    return np, core


def probs(q):
    np, core = _core()
    u, f4 = q['u'], q['f4']
    a = np.array(u, dtype='f4' if f4 else 'f8')
    keep = a.copy()
    P, ls, e = mnl([float(x) for x in a])
    tol = 1e-5 if f4 else 1e-10
    if ls <= 0:
        try:
            core.multinomial_probabilities(a, True)
            assert False, 'no UtilityBoundsError for an infeasible record'
        except core.UtilityBoundsError:
            pass
    else:
        p, l, t = core.multinomial_probabilities(a, True)
        assert_close(p, P, 'p', tol)
        assert close(l / ls, 1, tol), 'logsum %r, expected %r' % (l, ls)
        for x, y in zip(t, e):
            assert (x == y == 0) or close(x / y if y else x, 1, tol), 'terms %r, expected %r' % (x, y)
        assert all((x == 0) == (y == 0) for x, y in zip(p, e)), 'zero exactly for unavailable alternatives'
        assert all(0 <= x <= 1 for x in p) and close(sum(p), 1, tol)
    p, l, t = core.multinomial_probabilities(a, False)
    assert_close(p, P, 'p(unchecked)', tol)
    assert close(l, ls, tol) or close(l / ls, 1, tol)
    assert np.array_equal(a, keep), 'utilities modified'
    return len(u) > 1


def sampling(q):
    """multinomial_sample / multisample / workers on one record: feasibility always checked, logsum reported"""
    np, core = _core()
    u = q['u']
    P, ls, e = mnl(u)
    a = np.array(u)
    calls = [lambda: core.multinomial_sample(a, .3)[1], lambda: core.multinomial_multisample(a, 3, 5, None)[1],
             lambda: core.worker_multinomial_sample(a.reshape(1, -1), 1, 7)[1][0],
             lambda: core.worker_multinomial_sample(a.reshape(1, -1), 2, 7)[1][0]]
    for k, f in enumerate(calls):
        try:
            l = f()
        except core.UtilityBoundsError:
            assert ls <= 0, 'UtilityBoundsError for a feasible record (call %d)' % k
            continue
        assert ls > 0, 'no UtilityBoundsError when sampling an infeasible record (call %d)' % k
        assert close(l / ls, 1), 'logsum %r, expected %r (call %d)' % (l, ls, k)
    return True


def model(q):
    """ChoiceModel.run_stochastic of a multinomial model"""
    np, core = _core()
    import pandas as pd
    from cheval import ChoiceModel
    rows, m, prec = q['rows'], len(q['rows'][0]), q['prec']
    cm = ChoiceModel(precision=prec)
    cm.add_choices(['c%d' % i for i in range(m)])
    cm.decision_units = pd.Index([10 * i + 3 for i in range(len(rows))])
    tab = pd.DataFrame(np.array(rows, dtype='f%d' % prec), index=cm.decision_units, columns=cm.choices)
    cm.add_partial_utilities(tab)
    infeasible = any(mnl(r)[1] <= 0 for r in rows)
    tol = 1e-5 if prec == 4 else 1e-9
    try:
        p, l, t = cm.run_stochastic(check_infeasible=q['check'])
    except core.UtilityBoundsError:
        assert infeasible and q['check'], 'UtilityBoundsError for feasible records, or although the check is off'
        return True
    assert not (infeasible and q['check']), 'no UtilityBoundsError'
    assert p.index.equals(cm.decision_units) and list(p.columns) == list(cm.choices)
    assert l.index.equals(cm.decision_units) and t.index.equals(cm.decision_units) and list(t.columns) == list(cm.choices)
    for i, r in enumerate(rows):
        P, ls, e = mnl([float(x) for x in np.array(r, dtype='f%d' % prec)])
        assert_close(p.iloc[i], P, 'row %d p' % i, tol)
        assert close(l.iloc[i], ls, tol), 'row %d logsum %r, expected %r' % (i, l.iloc[i], ls)
        assert_close(t.iloc[i], e, 'row %d terms' % i, tol)
    return True


CASES = dict(probs=probs, sampling=sampling, model=model)


def g1(rng, tier):
    import itertools
    for n in (1, 2, 3, 4):
        for u in itertools.product([-INF, 0.0, 1.0, -2.5], repeat=n):
            yield 'probs', dict(u=list(u), f4=False)
    while True:
        n = rng.choice([1, 2, 3, 5, 9, 30])
        lo, hi = rng.choice([(-5, 5), (-80, 80), (-700, 30), (-0.001, 0.001), (0, 0), (-60, -30)])
        f4 = rng.random() < .3
        if f4:
            lo, hi = max(lo, -30), min(hi, 30)
        yield 'probs', dict(u=rand_util(rng, n, rng.choice([0, .3, .95]), lo, hi), f4=f4)


def g2(rng, tier):
    while True:
        yield 'sampling', dict(u=rand_util(rng, rng.randint(1, 6), rng.choice([.2, .9])))


def g3(rng, tier):
    while True:
        m = rng.randint(2, 5)
        rows = [rand_util(rng, m, rng.choice([0, .3, .6])) for _ in range(rng.randint(1, 4))]
        yield 'model', dict(rows=rows, prec=rng.choice([8, 8, 4]), check=rng.random() < .5)


def g_big(rng, tier):
    for _ in range(6 if tier == 'quick' else 60):
        m = rng.choice([130, 300])
        yield 'probs', dict(u=rand_util(rng, 1500, .1, -5, 5), f4=False)
        yield 'model', dict(rows=[rand_util(rng, m, .2) for _ in range(3)], prec=8, check=rng.random() < .5)
        yield 'model', dict(rows=[rand_util(rng, 3, .2) for _ in range(600)], prec=8, check=False)


def gen(rng, tier):
    return interleave(g_big(rng, tier), g1(rng, tier), g2(rng, tier), g3(rng, tier))
