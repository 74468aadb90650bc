from .util import *
from .base import interleave
from .c08 import reference, names_of


def paths_of(tree):
    def path(i):
        return (path(tree[i][0]) if tree[i][0] >= 0 else ()) + (tree[i][1],)
    return [path(i) for i in range(len(tree))]


def symbols(q, paths, np):
    n, m = q['n'], len(paths)
    rs = np.random.RandomState(q['seed'])
    env = dict(num=1.75, rvec=rs.randint(-9, 9, (n, 1)) / 4, cvec=rs.randint(-9, 9, (1, m)) / 4, mat=rs.randint(-9, 9, (n, m)) / 4,
               rnan=rs.randint(-9, 9, (n, 1)) / 4, ivec=rs.randint(-3, 4, (n, 1)))
    env['rnan'][rs.uniform(size=(n, 1)) < .3] = np.nan
    env['t.x'] = rs.randint(-9, 9, (n, 1)) / 4
    env['t.y'] = rs.randint(-9, 9, (n, 1))
    env['c.x'] = rs.randint(-9, 9, (1, m)) / 4
    return env


def declare(cm, env, used, pd, np):
    R, C = cm.decision_units, cm.choices
    simple, chained = used
    if 'num' in simple:
        cm.declare_number('num'); cm['num'].assign(env['num'])
    for v in ('rvec', 'rnan', 'ivec'):
        if v in simple:
            cm.declare_vector(v, 0); cm[v].assign(pd.Series(env[v][:, 0], index=R))
    if 'cvec' in simple:
        cm.declare_vector('cvec', 1); cm['cvec'].assign(env['cvec'][0].copy())
    if 'mat' in simple:
        cm.declare_matrix('mat'); cm['mat'].assign(pd.DataFrame(env['mat'].copy(), index=R, columns=C))
    if 't' in chained:
        cm.declare_table('t', 0); cm['t'].assign(pd.DataFrame({'x': env['t.x'][:, 0], 'y': env['t.y'][:, 0]}, index=R))
    if 'c' in chained:
        cm.declare_table('c', 1); cm['c'].assign(pd.DataFrame({'x': env['c.x'][0]}, index=C))


def literal(d):
    return '{%s}' % ', '.join('%s: %s' % tuple(kv) for kv in d)


def dict_value(d, paths, np):
    """Row of contributions of a dict literal [(key, number text)]"""
    row = np.zeros((1, len(paths)))
    for key, val in d:
        k = tuple(key.strip("'\"").split('.'))
        for j, p in enumerate(paths):
            if (p[:-1] and p[:len(k) - 1] == k[:-1] and len(p) >= len(k)) if k[-1] == '_' else p == k:
                row[0, j] = float(val)
    return row


def value(e, env, paths, np):
    """e: dict(parts=[source or dict literal], ops=[...]) -> (source, value)"""
    src, ref, local = [], [], dict(env)
    for i, p in enumerate(e['parts']):
        if isinstance(p, list):
            local['_d%d' % i] = dict_value(p, paths, np)
            src.append(literal(p)); ref.append('_d%d' % i)
        else:
            src.append(p); ref.append('(%s)' % p)
    s = r = None
    for a, b, op in zip(src, ref, [''] + e['ops']):
        s = a if s is None else '%s %s %s' % (s, op, a)
        r = b if r is None else '%s %s %s' % (r, op, b)
    return s, np.asarray(reference(r, local), dtype=float)


def full(q):
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    from cheval.core import UtilityBoundsError
    from .c03 import build
    tree = q['tree']
    paths = paths_of(tree)
    n, m = q['n'], len(paths)
    cm = ChoiceModel(precision=q['prec'])
    build(cm, tree)
    env = symbols(q, paths, np)
    sources, used = [], (set(), set())
    for e in q['exprs']:
        s = value(e, env, paths, np)[0]
        if e['filter'] is not None:
            s = s + rand_at(q['seed']) + e['filter']
        sources.append(s)
        cm.expressions.append(s, group=e.get('group'))
        a, b = names_of(s.split('@')[0])
        used[0].update(a), used[1].update(b)
    if q.get('moved') is not None:      # evaluate it first with other data and another order of the choices
        cm.decision_units = pd.Index([77, 78])
        declare(cm, symbols(dict(q, n=2, seed=q['seed'] + 3), paths, np), used, pd, np)
        try:
            cm._evaluate_utilities(cm.expressions, n_threads=1)
        except UtilityBoundsError:
            pass
        k = q['moved']
        cm.add_choice(tree[k][1])
        order = [i for i in range(m) if i != k] + [k]
        tree = [[order.index(tree[i][0]) if tree[i][0] >= 0 else -1] + list(tree[i][1:]) for i in order]
        paths = paths_of(tree)
        env = symbols(q, paths, np)
    cm.decision_units = pd.Index([5 * i + 1 for i in range(n)])
    want = np.zeros((n, m))
    if q['partial']:
        want = np.random.RandomState(q['seed'] + 1).randint(-20, 20, (n, m)) / 4.
        cm.add_partial_utilities(pd.DataFrame(want.astype('f%d' % q['prec']), index=cm.decision_units, columns=cm.choices))
    want = want.copy()
    bynames = {}
    for s, e in zip(sources, q['exprs']):
        v = value(e, env, paths, np)[1]
        if e['filter'] is not None:
            j = paths.index(tuple(e['filter'].split('.')))
            col = np.zeros((n, m))
            col[:, j] = np.broadcast_to(v, (n, m))[:, j]
            v = col
        v = np.broadcast_to(v, (n, m))
        g = e.get('group')
        bynames.setdefault(g, []).append(v)
    declare(cm, env, used, pd, np)
    tol = 1e-4 if q['prec'] == 4 else 1e-9
    targets = [(None, cm.expressions, sum(bynames.values(), []))] + [(g, cm.expressions.get_group(g), bynames[g]) for g in bynames if g is not None]
    for g, container, vals in targets:
        w = want + sum(vals) if vals else want
        size = np.abs(want) + sum(np.abs(v) for v in vals)     # for rounding errors
        public = all(t[0] < 0 for t in tree) and not (np.abs(w) > 50).any()
        for mode in ('direct', 'public') if public else ('direct',):
            try:
                if mode == 'direct':
                    got = cm._evaluate_utilities(container, n_threads=1).values
                else:
                    with np.errstate(all='ignore'):
                        got = np.log(cm.run_stochastic(group=g, clear_scope=False, check_infeasible=False)[2].values)
            except UtilityBoundsError:
                assert np.isnan(w).any(), 'UtilityBoundsError although no utility is NaN'
                continue
            assert not np.isnan(w).any(), 'a NaN utility was not reported'
            for i in range(n):
                for j in range(m):
                    assert got[i, j] == w[i, j] or abs(got[i, j] - w[i, j]) <= (max(tol, 1e-8) if mode == 'public' else tol) * max(1, size[i, j]), 'utility [%d] of %s is %r, expected %r (%s, group %r)' % (
                        i, '.'.join(paths[j]), got[i, j], w[i, j], [x.raw for x in cm.expressions], g)
    return True


def rand_at(seed):
    return [' @ ', '@', '  @', '@  '][seed % 4]


def unknown(q):
    """Filters and dict literals naming alternatives that do not exist are errors, not ignored"""
    import pandas as pd
    from cheval import ChoiceModel
    from .c03 import build
    cm = ChoiceModel()
    build(cm, q['tree'])
    cm.decision_units = pd.Index([1, 2])
    cm.expressions.append(q['expr'])
    try:
        cm.run_stochastic()
    except Exception:
        return True
    assert False, '%r evaluated although that choice does not exist' % q['expr']


CASES = dict(full=full, unknown=unknown)
NUMS = ['1', '2', '-1', '0.5', '-2.5', '1e1', '10', '0', '3.25', '-0.125', '123456.5', '1e-3', '16777217', '0.1']
FLAT = ['car', 'bus', 'A', 'x_1', '_y', 'walk_transit', 'B2']


def rand_dict(rng, paths, nested):
    d, taken = [], set()
    heads = [p for p in paths if any(x[:len(p)] == p and x != p for x in paths)]
    for _ in range(rng.randint(1, 4)):
        if nested and heads and rng.random() < .35:
            p = rng.choice(heads)
            if p in taken or any(x in taken for x in paths if x[:len(p)] == p and x != p) or any(h in taken and p[:len(h)] == h for h in [t[:-1] for t in taken if t[-1] == '_']):
                continue
            below = [x for x in paths if x[:len(p)] == p and x != p]
            if any(p + ('_',) == t for t in taken) or any(t[-1] == '_' and (t[:-1] == p[:len(t) - 1] or p == t[:-1][:len(p)]) for t in taken):
                continue
            taken.add(p + ('_',))
            taken.update(below)
            d.append(['.'.join(p) + '._', rng.choice(NUMS)])
        else:
            p = rng.choice(paths)
            if p in taken:
                continue
            taken.add(p)
            k = '.'.join(p)
            if len(p) == 1 and rng.random() < .2:
                k = "'%s'" % k
            d.append([k, rng.choice(NUMS)])
    rng.shuffle(d)
    return d


ATOMS = ['num', 'rvec', 'cvec', 'mat', 'ivec', 't.x', 't.y', 'c.x', 'rvec * cvec', 'where(rvec > 0, 1, -1)', 'where(mat > cvec, t.x, num)', '2.5', '-rvec',
         '(t.y > 0) * c.x', 'abs(mat)', 'rvec / 3', 't.x * mat - 1']


def g_full(rng, tier, big=0):
    from .c03 import rand_named_tree, big_tree
    while True:
        if big:
            tree = big_tree(rng)
        elif rng.random() < .5:
            tree = rand_named_tree(rng, max_nodes=rng.choice([4, 6, 9]), max_depth=rng.choice([2, 3, 4]))
        else:
            tree = [[-1, x, 1.0] for x in rng.sample(FLAT, rng.randint(2, 5))]
        paths = paths_of(tree)
        nested = any(t[0] >= 0 for t in tree)
        grouped = rng.random() < .3
        exprs = []
        for _ in range(rng.randint(1, 5)):
            k = rng.choice([1, 1, 2, 3])
            parts = [rand_dict(rng, paths, nested) if rng.random() < .45 else rng.choice(ATOMS) for _ in range(k)]
            parts = [p for p in parts if p] or ['num']
            ops = [rng.choice(['+', '-', '*']) for _ in parts[1:]]
            parts = [p if isinstance(p, list) or k == 1 else '(%s)' % p for p in parts]
            if rng.random() < .04:
                parts = ['rnan']
                ops = []
            exprs.append(dict(parts=parts, ops=ops, filter='.'.join(rng.choice(paths)) if rng.random() < .4 else None,
                              group=rng.choice([None, 'g', 'h']) if grouped else None))
        leaves = [i for i, t in enumerate(tree) if t[0] < 0 and all(u[0] != i for u in tree)]
        yield 'full', dict(moved=rng.choice(leaves) if leaves and rng.random() < .3 else None, tree=tree, n=rng.choice([1, 2, 3]) if not big else rng.choice([2, 150]), seed=rng.randint(0, 9999), exprs=exprs, partial=rng.random() < .6, prec=rng.choice([8, 8, 8, 4]))
        if big:
            big -= 1
            if not big:
                return


def g_unknown(rng, tier):
    flat = [[-1, 'car', 1.0], [-1, 'bus', 1.0]]
    nest = [[-1, 'A', 1.0], [-1, 'B', 1.0], [0, 'x', 1.0], [0, 'y', 1.0]]
    for t, es in ((flat, ['1 @ walk', '{walk: 1}', '{car: 1, walk: 1}', '1 @ car.x', '{car.x: 1}', '1 @ Car', '{ca: 1}', "{'c': 1}"]),
                  (nest, ['1 @ C', '1 @ A.z', '1 @ x', '{x: 1}', '{A.z: 1}', '{C: 1}', '{C._: 1}', '1 @ A.x.y', '{A.x.y: 1}', '{B.x: 1}', "1 @ A.B"])):
        for e in es:
            yield 'unknown', dict(tree=t, expr=e)


def gen(rng, tier):
    return interleave(g_full(rng, tier), g_full(rng, tier, 6 if tier == 'quick' else 60), g_unknown(rng, tier))
