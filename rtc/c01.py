import itertools
from .util import *
from .base import interleave


def _core():
    import numpy as np
    from cheval import core
    return np, core


def pick(q):
    """sample_once / logarithmic_search on one distribution and one draw"""
    np, core = _core()
    p, r = q['p'], q['r']
    ok = acceptable(p, r, q.get('tol', 0))
    a = np.array(p, dtype='f8')
    got = int(core.sample_once(a, r))
    assert got in ok, 'sample_once(p, %r) = %d, allowed %s' % (r, got, sorted(ok))
    assert a.tolist() == p, 'sample_once modified the probabilities'
    c = np.array(p, dtype='f8')
    core.nbf_cumsum(c)
    acc = 0.0
    for i, x in enumerate(p):
        acc += x
        assert close(c[i], acc, 1e-12), 'nbf_cumsum[%d] = %r, expected %r' % (i, c[i], acc)
    got = int(core.logarithmic_search(r, np.cumsum(np.array(p))))
    assert got in ok, 'logarithmic_search(%r, cumsum) = %d, allowed %s' % (r, got, sorted(ok))
    return len(p) > 1


def multi(q):
    """sample_multi: n draws = n single draws on the stream of the seed"""
    np, core = _core()
    p, n, seed = q['p'], q['n'], q['seed']
    rs = np.random.RandomState(seed).uniform(TINY, 1.0, n)
    arg = None if not q['out'] else np.full(n, -7, dtype='i8')
    got = core.sample_multi(np.array(p, dtype='f8'), n, seed, arg)
    assert len(got) == n
    for k in range(n):
        assert int(got[k]) in acceptable(p, float(rs[k]), 1e-12), 'draw %d: got %d for r=%r' % (k, got[k], float(rs[k]))
    if arg is not None:
        assert arg.tolist() == list(got), 'out array not filled with the result'
    assert int(core.sample_once(np.array(p, dtype='f8'), float(rs[0]))) == int(got[0])
    return n > 1


def weights(q):
    """simple_sample / simple_multisample: sampling in proportion to weights"""
    np, core = _core()
    w, r = q['w'], q['r']
    s = math.fsum(w)
    p = [x / s for x in w]
    got = int(core.simple_sample(np.array(w, dtype='f8'), r))
    assert got in acceptable(p, r, 1e-12), 'simple_sample = %d' % got
    n, seed = q['n'], q['seed']
    rs = np.random.RandomState(seed).uniform(TINY, 1.0, n)
    got = core.simple_multisample(np.array(w, dtype='f8'), n, seed, None)
    for k in range(n):
        assert int(got[k]) in acceptable(p, float(rs[k]), 1e-12), 'simple_multisample draw %d = %d' % (k, got[k])
    return len(w) > 1


def logit(q):
    """multinomial_(multi)sample / nested_(multi)sample draw from the model's probabilities"""
    np, core = _core()
    u, r, n, seed = q['u'], q['r'], q['n'], q['seed']
    rs = np.random.RandomState(seed).uniform(TINY, 1.0, n)
    if 'parents' in q:
        par = q['parents']
        sc, flag = q['scales'], q['flag']
        P, ls, _ = nested(u, par, sc, flag)
        nest = set(par) - {-1}
        args = (np.array(par), np.array(levels_of(par)), np.array(sc), np.array([i not in nest for i in range(len(u))]))
        one = lambda: core.nested_sample(np.array(u), r, *args, flag)
        many = lambda out: core.nested_multisample(np.array(u), *args, n, seed, flag, out)
    else:
        P, ls, _ = mnl(u)
        one = lambda: core.multinomial_sample(np.array(u), r)
        many = lambda out: core.multinomial_multisample(np.array(u), n, seed, out)
    got, l = one()
    assert int(got) in acceptable(P, r, 1e-9), 'sampled %d for r=%r' % (got, r)
    assert close(l, ls), 'logsum %r, expected %r' % (l, ls)
    got, l = many(None)
    assert close(l, ls), 'logsum %r, expected %r' % (l, ls)
    for k in range(n):
        assert int(got[k]) in acceptable(P, float(rs[k]), 1e-9), 'draw %d = %d' % (k, got[k])
    return True


CASES = dict(pick=pick, multi=multi, weights=weights, logit=logit)


def comps(n, total):
    if n == 1:
        yield (total,)
        return
    for i in range(total + 1):
        for rest in comps(n - 1, total - i):
            yield (i,) + rest


def g_exh(rng, tier):
    for n in range(1, 6 if tier == 'quick' else 8):
        for c in comps(n, 4):
            for r in [0.0, TINY, .125, .25, .375, .5, .75, .875, 1.0]:
                yield 'pick', dict(p=[x / 4 for x in c], r=r)


def rand_p(rng):
    n = rng.choice([1, 2, 3, 5, 8, 17, 40])
    k = [0 if rng.random() < rng.choice([0, .3, .7]) else rng.randint(1, 20) for _ in range(n)]
    if not sum(k):
        k[rng.randrange(n)] = 1
    return [x / sum(k) for x in k]


def g_rand(rng, tier):
    for r in (1.0, 0.99999999999999994, 1 - 1e-16, 1 - 1e-12):
        yield 'pick', dict(p=[.1] * 10 + [0.0], r=r, tol=1e-12)
        yield 'pick', dict(p=[0.0] + [.1] * 10 + [0.0, 0.0], r=r, tol=1e-12)
    while True:
        p = rand_p(rng)
        cs = [sum(p[:i]) for i in range(len(p) + 1)]
        r = rng.choice([rng.random(), 0.0, 1.0, min(1.0, max(0.0, rng.choice(cs))), min(1.0, max(0.0, rng.choice(cs) + rng.choice([-1, 1]) * 1e-9))])
        yield 'pick', dict(p=p, r=r, tol=1e-12)


def g_multi(rng, tier):
    while True:
        yield 'multi', dict(p=rand_p(rng), n=rng.choice([1, 2, 3, 7]), seed=rng.randint(0, 10**6), out=rng.random() < .5)
        w = [rng.choice([0, 0, 1, 2, 5, .25, 1e-3, 1e6]) for _ in range(rng.randint(1, 8))]
        if sum(w) == 0:
            w[-1] = 3
        yield 'weights', dict(w=w, r=rng.random(), n=rng.choice([1, 3]), seed=rng.randint(0, 10**6))


def g_logit(rng, tier):
    while True:
        q = dict(r=rng.choice([0.0, 1.0, rng.random(), rng.random()]), n=rng.choice([1, 4]), seed=rng.randint(0, 10**6))
        if rng.random() < .5:
            par = rand_tree(rng)
            u = rand_util(rng, len(par))
            sc = [rng.choice([1.0, .5, .3, .9]) if i in par else 1.0 for i in range(len(par))]
            flag = rng.random() < .5
            if nested(u, par, sc, flag)[1] <= 0:
                continue
            q.update(parents=par, scales=sc, flag=flag, u=u)
        else:
            u = rand_util(rng, rng.randint(1, 8))
            if mnl(u)[1] <= 0:
                continue
            q['u'] = u
        yield 'logit', q


def gen(rng, tier):
    return interleave(g_exh(rng, tier), g_rand(rng, tier), g_multi(rng, tier), g_logit(rng, tier))
