from .util import *
from .base import interleave
from .c09 import paths_of
from .c08 import world

SYMBOLS = ['num', 'rvec', 'rarr', 'cvec', 'mat', 'tab', 'hh', 'ctab']
KIND = dict(num='number', rvec='row', rarr='row', cvec='col', mat='row', tab='row', hh='row', ctab='col')
EXPRS = ['num', 'rvec', 'rvec * num', 'rarr + cvec', 'mat', 'mat * tab.x', 'tab.y', 'hh.size', 'hh.zone.area', 'hh.persons.sum(age)', 'ctab.z', 'where(rvec > 0, 1, num)',
         '{a: 1.5}', '{a: 2} * rvec', 'rarr @ a', '0.25']


class World:
    """Caller's side: data handed to models and what it was"""
    def __init__(self):
        self.given = []

    def give(self, x):
        import copy
        self.given.append((x, self.snap(x)))
        return x

    @staticmethod
    def snap(x):
        import numpy as np
        import pandas as pd
        if isinstance(x, np.ndarray):
            return x.shape, x.dtype, x.tobytes() if x.dtype != object else x.tolist()
        if isinstance(x, pd.Series):
            return tuple(x.index), x.dtype, tuple(x.values), x.name
        if isinstance(x, pd.DataFrame):
            return tuple(x.index), tuple(x.columns), tuple(x.dtypes), x.values.tolist()
        return tuple(x)

    def check(self, what):
        for x, s in self.given:
            assert self.snap(x) == s, "%s changed the caller's %s" % (what, type(x).__name__)


def frames_equal(a, b):
    return len(a) == len(b) and all(close(x, y, 0) for x, y in zip(a, b))


def outcome(m, group=None, seed=None):
    try:
        if seed is None:
            p, l, t = m.run_stochastic(group=group, clear_scope=False, check_infeasible=False)
            return ['ok', list(p.index), list(p.columns), p.values.ravel().tolist(), l.values.tolist(), t.values.ravel().tolist()]
        r, l = m.run_discrete(random_seed=seed, clear_scope=False)
        return ['ok', list(r.index), r.astype(str).tolist(), l.values.tolist()]
    except Exception as e:
        return ['error', type(e).__name__]


def observe(m, seed=None):
    ex = m.expressions
    out = dict(choices=list(m.choices), precision=m.precision)
    try:
        out['units'] = list(m.decision_units)
    except Exception as e:
        out['units'] = type(e).__name__
    out['exprs'] = [(e.raw, e.filter_) for e in ex]
    out['symbols'] = [sorted(set(ex.itersimple())), sorted(set(ex.iterchained()))]
    out['outcome'] = outcome(m)
    for g in ('g', 'h'):
        try:
            sub = ex.get_group(g)
        except KeyError:
            out[g] = None
            continue
        out[g] = [[(e.raw, e.filter_) for e in sub], sorted(set(sub.itersimple())), sorted(set(sub.iterchained())), outcome(m, g)]
    for s in SYMBOLS:
        try:
            out[s] = bool(m[s].filled)
        except KeyError:
            out[s] = None
    if seed is not None:
        out['discrete'] = outcome(m, None, seed)
    return out


def same(a, b, what):
    for k in a:
        x, y = a[k], b[k]
        assert repr(x) == repr(y), '%s: %s was %s, is now %s' % (what, k, str(x)[:300], str(y)[:300])


def fill(w, m, s, seed, n):
    import numpy as np
    import pandas as pd
    rs = np.random.RandomState(seed)
    R, C = m.decision_units, m.choices
    n, k = len(R), len(C)
    r = lambda *sh: rs.randint(-8, 9, sh) / 8.
    if s == 'num':
        x = float(r(1)[0])
    elif s == 'rvec':
        x = w.give(pd.Series(r(n), index=R))
    elif s == 'rarr':
        x = w.give(r(n))
    elif s == 'cvec':
        x = w.give(pd.Series(r(k), index=C))
    elif s == 'mat':
        x = w.give(pd.DataFrame(r(n, k), index=R, columns=C))
    elif s == 'tab':
        x = w.give(pd.DataFrame({'x': r(n), 'y': rs.randint(0, 3, n)}, index=R))
    elif s == 'ctab':
        x = w.give(pd.DataFrame({'z': r(k)}, index=C))
    else:
        x = world(seed, n)[0]
        x.index = R
        w.give(x)
    m[s].assign(x)


def declare(m, s):
    if s == 'num':
        m.declare_number(s)
    elif s == 'mat':
        m.declare_matrix(s)
    elif s in ('tab', 'hh', 'ctab'):
        m.declare_table(s, 1 if s == 'ctab' else 0)
    else:
        m.declare_vector(s, 1 if s == 'cvec' else 0)


def step(w, m, op, seed):
    """Applies one operation; refusals are fine (they must have no effect elsewhere either)"""
    import numpy as np
    import pandas as pd
    k = op[0]
    try:
        if k == 'expr':
            m.expressions.append(op[1], group=op[2])
        elif k == 'drop':
            m.expressions.drop_group(op[1])
        elif k == 'clear_expr':
            m.expressions.clear()
        elif k == 'clear_scope':
            m.clear_scope()
        elif k == 'declare':
            declare(m, op[1])
        elif k == 'assign':
            fill(w, m, op[1], seed, None)
        elif k == 'empty':
            m[op[1]].empty()
        elif k == 'units':
            m.decision_units = pd.Index(op[1])
        elif k == 'partial':
            t = np.random.RandomState(seed).randint(-8, 9, (len(m.decision_units), len(m.choices))) / 8.
            t = pd.DataFrame(t.astype('f%d' % m.precision), index=m.decision_units, columns=m.choices)
            if op[1] == 1:
                t = t.iloc[:, ::-1]
            if op[1] == 2:
                t = t.iloc[::-1]
            m.add_partial_utilities(w.give(t), reindex_rows=True)
            if op[2]:
                w.given.pop()
                t.iloc[:, :] = 77.       # the caller may go on using the table
        elif k == 'preval':
            m.preval(op[1], cleanup_scope=op[2], drop_group=op[3])
        elif k == 'stoch':
            p, l, t = m.run_stochastic(group=op[1], clear_scope=op[2], check_infeasible=False)
            if op[3]:
                p.iloc[:, :] = -9.
                t.iloc[:, :] = -9.
                l.iloc[:] = -9.
        elif k == 'disc':
            m.run_discrete(random_seed=op[1], clear_scope=op[2], n_draws=op[3])
        elif k == 'validate':
            m.validate()
        elif k == 'readonly':
            m.choices, m.depth, m.elemental_choices, len(m.expressions), list(m.expressions), m.decision_units
    except Exception:
        pass


def start(w, q):
    import pandas as pd
    from cheval import ChoiceModel
    from .c03 import build
    m = ChoiceModel(precision=q['prec'])
    build(m, q['tree'])
    m.decision_units = pd.Index(q['units'])
    for i, op in enumerate(q['setup']):
        step(w, m, op, q['seed'] + i)
    return m


def isolated(q):
    w = World()
    m = start(w, q)
    base = observe(m, 3)
    w.check('Evaluating a model')
    same(base, observe(m, 3), 'Running the model once more')
    kind = q['copy']
    if kind == 'subset':
        import pandas as pd
        c = m.copy_subset(pd.Series(q['mask'][:len(m.decision_units)], index=m.decision_units, dtype=bool))
    else:
        c = m.copy(**q['flags'])
    same(base, observe(m, 3), 'Copying the model')
    models = [m, c]
    if kind == 'copy' and all(q['flags'].values()):
        same(base, observe(c, 3), 'The copy')
    seen = [observe(x, 3) for x in models]
    for i, (who, op) in enumerate(q['ops']):
        step(w, models[who], op, q['seed'] + 100 + i)
        w.check('%s' % op)
        other = 1 - who
        same(seen[other], observe(models[other], 3), '%s on the %s changed the %s' % (op, ['original', 'copy'][who], ['original', 'copy'][other]))
        mine = observe(models[who], 3)
        if op[0] in ('readonly', 'validate') or (op[0] in ('stoch', 'disc') and not op[2]):
            same(seen[who], mine, 'Evaluation (%s) changed the model' % op)
        same(mine, observe(models[who], 3), 'Running the model once more')
        seen[who] = mine
    return base['outcome'][0] == 'ok'


def units(q):
    """New decision units discard row data and partial utilities"""
    import numpy as np
    import pandas as pd
    w = World()
    m = start(w, q)
    had = {s: m[s].filled for s in SYMBOLS if s in m._scope} if hasattr(m, '_scope') else {}
    m.decision_units = pd.Index(q['new'])
    assert list(m.decision_units) == list(q['new'])
    for s in had:
        if KIND[s] == 'row':
            assert not m[s].filled, 'data of %s survives a change of the decision units' % s
        if KIND[s] == 'number':
            assert m[s].filled == had[s]
    m.expressions.clear()
    p, l, t = m.run_stochastic()
    assert list(p.index) == list(q['new']) and list(l.index) == list(q['new']) and list(t.index) == list(q['new'])
    ref = start(World(), dict(q, setup=[], units=q['new'])).run_stochastic()
    assert (t.values == ref[2].values).all() and (p.values == ref[0].values).all(), 'partial utilities survive a change of the decision units'
    w.check('Setting decision units')
    return True


CASES = dict(isolated=isolated, units=units)


def rand_op(rng):
    k = rng.choice(['expr', 'expr', 'drop', 'clear_expr', 'clear_scope', 'declare', 'assign', 'assign', 'assign', 'empty', 'units', 'partial', 'partial', 'preval', 'preval', 'stoch', 'disc', 'validate', 'readonly'])
    return {'expr': lambda: [k, rng.choice(EXPRS), rng.choice([None, 'g', 'h'])], 'drop': lambda: [k, rng.choice('gh')], 'clear_expr': lambda: [k], 'clear_scope': lambda: [k],
            'declare': lambda: [k, rng.choice(SYMBOLS)], 'assign': lambda: [k, rng.choice(SYMBOLS)], 'empty': lambda: [k, rng.choice(SYMBOLS)],
            'units': lambda: [k, rng.choice([[5, 6], [100, 101, 102, 103], [1, 2, 3], [3, 1, 2]])], 'partial': lambda: [k, rng.randint(0, 2), rng.random() < .3],
            'preval': lambda: [k, rng.choice('gh'), rng.random() < .5, rng.random() < .7], 'stoch': lambda: [k, rng.choice([None, None, 'g']), rng.random() < .3, rng.random() < .5],
            'disc': lambda: [k, rng.randint(0, 99), rng.random() < .3, rng.randint(1, 2)], 'validate': lambda: [k], 'readonly': lambda: [k]}[k]()


def rand_model(rng):
    from .c03 import rand_named_tree
    tree = [[-1, x, 1.0] for x in 'abc'] if rng.random() < .5 else [[-1, 'a', 1.0], [-1, 'b', .5], [1, 'x', 1.0], [1, 'y', 1.0]]
    syms = SYMBOLS if rng.random() < .3 else [s for s in SYMBOLS if s != 'hh']
    setup = [['declare', s] for s in syms] + [['assign', s] for s in syms]
    pool = EXPRS if 'hh' in syms else [e for e in EXPRS if 'hh' not in e]
    setup += [['expr', rng.choice(pool), rng.choice([None, 'g', 'h'])] for _ in range(rng.randint(1, 4))]
    if rng.random() < .6:
        setup.append(['partial', 0, False])
    if rng.random() < .3:
        setup.append(['preval', rng.choice('gh'), rng.random() < .5, True])
    return dict(tree=tree, units=rng.choice([[3, 1, 2], [10, 20], [4, 3, 2, 1]]), prec=rng.choice([8, 8, 4]), seed=rng.randint(0, 9999), setup=setup)


def g_iso(rng, tier):
    while True:
        q = rand_model(rng)
        q['copy'] = rng.choice(['copy', 'copy', 'subset'])
        q['flags'] = {k: rng.random() < .8 for k in ('decision_units', 'scope_declared', 'scope_assigned', 'expressions', 'utilities')} if rng.random() < .6 else \
            {k: True for k in ('decision_units', 'scope_declared', 'scope_assigned', 'expressions', 'utilities')}
        q['mask'] = [rng.random() < .6 for _ in range(6)]
        q['mask'][rng.randrange(2)] = True
        q['ops'] = [[rng.randint(0, 1), rand_op(rng)] for _ in range(rng.randint(1, 5))]
        yield 'isolated', q


def g_units(rng, tier):
    while True:
        q = rand_model(rng)
        q['new'] = rng.choice([[1, 2], [3, 1, 2], [7, 8, 9, 10], [10, 20], [4, 3, 2, 1]])
        yield 'units', q


def gen(rng, tier):
    return interleave(g_iso(rng, tier), g_iso(rng, tier), g_units(rng, tier))
