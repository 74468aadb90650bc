import math
INF = float('inf')
TINY = 2.2250738585072014e-308


def close(a, b, tol=1e-9):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def assert_close(got, want, what, tol=1e-9):
    got, want = list(got), list(want)
    assert len(got) == len(want), '%s: length %d, expected %d' % (what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        assert close(g, w, tol), '%s[%d] = %r, expected %r' % (what, i, g, w)


def acceptable(p, r, tol):
    """Positions that the sampling rule allows for draw r: the first whose cumulative probability reaches r, the last one
    with non-zero probability if none does; with tol > 0 also those within rounding error of an interval boundary."""
    pos = [i for i, x in enumerate(p) if x > 0]
    if not pos:
        return None
    cs, acc, run = [], 0.0, None
    for x in p:
        acc += x
        cs.append(acc)
    ok = set()
    for rr in ({r} if tol == 0 else {r - tol, r, r + tol}):
        rr = max(rr, TINY)
        for i in pos:
            if cs[i] >= rr:
                ok.add(i)
                break
        else:
            ok.add(pos[-1])
    return ok


def mnl(u):
    e = [math.exp(x) if x != -INF else 0.0 for x in u]
    s = math.fsum(e)
    return ([x / s for x in e] if s > 0 else [0.0] * len(u)), s, e


def nested(u, parents, scales, scale_on):
    """Recursive nested logit. parents[i] = -1 for top-level nodes. Returns (probabilities, logsum, terms)."""
    n = len(u)
    kids = {p: [i for i in range(n) if parents[i] == p] for p in range(-1, n)}
    E, L = [0.0] * n, {}

    def ev(i):
        p = parents[i]
        s = scales[p] if scale_on and p >= 0 else 1.0
        if not kids[i]:
            x = u[i]
        else:
            L[i] = math.fsum(ev(k) for k in kids[i])
            x = u[i] + (scales[i] * math.log(L[i]) if L[i] > 0 else -INF)
        E[i] = math.exp(x / s) if x != -INF else 0.0
        return E[i]
    L[-1] = math.fsum(ev(k) for k in kids[-1])
    P = [0.0] * n

    def down(p, prob):
        for k in kids[p]:
            q = prob * (E[k] / L[p]) if L[p] > 0 else 0.0
            if kids[k]:
                down(k, q)
            else:
                P[k] = q
    down(-1, 1.0)
    return P, L[-1], E


def rand_tree(rng, max_nodes=9, max_depth=4):
    """parents list, arbitrary node order; every nest has >= 2 children; >= 2 top-level nodes; at least one nest"""
    while True:
        paths, kids = [], {(): 0}
        depth = rng.randint(1, max_depth)

        def grow(prefix, d, budget):
            k = rng.randint(2, 3)
            for j in range(k):
                if len(paths) >= max_nodes:
                    return
                me = prefix + (j,)
                paths.append(me)
            for j in range(k):
                if d < depth and rng.random() < 0.5 and len(paths) + 2 <= max_nodes:
                    grow(prefix + (j,), d + 1, budget)
        grow((), 1, max_nodes)
        order = paths[:]
        if rng.random() < 0.6:
            rng.shuffle(order)
        idx = {p: i for i, p in enumerate(order)}
        if any(p[:-1] and p[:-1] not in idx for p in order):
            continue
        parents = [idx[p[:-1]] if len(p) > 1 else -1 for p in order]
        cnt = {p: parents.count(p) for p in set(parents)}
        if cnt.get(-1, 0) < 2 or any(v == 1 for v in cnt.values()):
            continue
        return parents


def levels_of(parents):
    def lev(i):
        return 0 if parents[i] < 0 else 1 + lev(parents[i])
    return [lev(i) for i in range(len(parents))]


def rand_util(rng, n, ninf=0.2, lo=-5, hi=5):
    return [(-INF if rng.random() < ninf else round(rng.uniform(lo, hi), rng.choice([0, 1, 6]))) for _ in range(n)]


_own = {}


def draw_floats(seed, n):
    """The first n uniform numbers of the stream started by the seed (NumPy and Numba generate the same)"""
    import numpy as np
    return np.random.RandomState(seed).uniform(TINY, 1.0, n)


def draw_ints(seed, n):
    """The first n integers of the stream started by the seed; Numba's differ from NumPy's"""
    import os
    import numpy as np
    if os.environ.get('NUMBA_DISABLE_JIT') == '1':
        return np.random.RandomState(seed).randint(0, 2**31 - 1, n)
    if 'ints' not in _own:
        import numba
        from rtc import lazyjit

        def ints(seed, n):
            np.random.seed(seed)
            return np.random.randint(0, 2147483647, n)
        _own['ints'] = lazyjit._real('i8[:](i8,i8)')(ints)
    return _own['ints'](seed, n)
