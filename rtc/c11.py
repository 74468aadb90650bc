from .util import *
from .base import interleave
from .c07 import Spec
from .c08 import names_of


def run(q):
    """Random construction histories; after each step the model must be refused or run as the readiness conditions say"""
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    from cheval.exceptions import ModelNotReadyError
    cm, spec, handles = ChoiceModel(), Spec(), {}
    exprs, scope, units = [], {}, None       # [(group, simple|chained names)], name -> assigned?

    def ready(group):
        missing = [n for g, names in exprs if group is None or g == group for n in names if not scope.get(n)]
        return spec.valid() and units is not None and not missing

    def attempt(f):
        try:
            f()
        except ModelNotReadyError as e:
            return False
        return True
    runs = 0
    for op in q['ops']:
        k = op[0]
        if k == 'choice':
            path = tuple(op[1])
            if len(path) > 1 and path[:-1] not in spec.nodes:
                continue
            handles[path] = (cm if len(path) == 1 else handles[path[:-1]]).add_choice(path[-1])
            spec.add(path, 1.0)
            if 'mat' in scope:      # data aligned with the choices has to be assigned after the choices
                cm.declare_matrix('mat')
                scope['mat'] = False
        elif k == 'units':
            cm.decision_units = pd.Index(op[1])
            units = op[1]
            for n in scope:
                if kinds[n] != 'number':
                    scope[n] = False
        elif k == 'expr':
            cm.expressions.append(op[1], group=op[2])
            s, c = names_of(op[1].split('@')[0])
            exprs.append((op[2], sorted((s | c) - {'NEG_INF', 'OUT'})))
        elif k == 'drop':
            if any(g == op[1] for g, _ in exprs):
                cm.expressions.drop_group(op[1])
                exprs = [x for x in exprs if x[0] != op[1]]
        elif k == 'clear_expr':
            cm.expressions.clear()
            exprs = []
        elif k == 'declare':
            n = op[1]
            {'num': cm.declare_number, 'vec': lambda x: cm.declare_vector(x, 0), 'vec2': lambda x: cm.declare_vector(x, 0), 'tab': lambda x: cm.declare_table(x, 0),
             'mat': cm.declare_matrix}[n](n)
            scope[n] = False
        elif k == 'assign':
            n = op[1]
            if n not in scope:
                continue
            if n != 'num' and (units is None or (n == 'mat' and not spec.valid())):
                continue
            z = op[2] if len(op) > 2 else 1      # the data may be all zero
            if n == 'num':
                cm[n].assign(2 * z)
            elif n in ('vec', 'vec2'):
                cm[n].assign(z * np.arange(len(units), dtype=float))
            elif n == 'tab':
                cm[n].assign(pd.DataFrame({'x': z * np.arange(len(units)), 'y': z * 1.5}, index=pd.Index(units)))
            else:
                cm[n].assign(pd.DataFrame(1. * z, index=pd.Index(units), columns=cm.choices))
            scope[n] = True
        elif k == 'clear_scope':
            cm.clear_scope()
            scope = {}
        elif k == 'preval':
            g = op[1]
            if not any(x == g for x, _ in exprs) or not ready(g) or units is None:
                continue
            cm.preval(g, cleanup_scope=False)
            exprs = [x for x in exprs if x[0] != g]
        groups = [None] + sorted({g for g, _ in exprs if g is not None}, key=str)
        for g in groups:
            want = ready(g)
            got = attempt(lambda: cm.validate(group=g))
            assert got == want, 'validate(group=%r) %s although %s' % (g, 'passes' if got else 'fails', describe(spec, units, exprs, scope, g))
            if q['each'] or (runs < 2 and want):
                runs += want
                got = attempt(lambda: cm.run_stochastic(group=g, clear_scope=False, check_infeasible=False))
                assert got == want, 'run_stochastic(group=%r) %s although %s' % (g, 'runs' if got else 'is refused', describe(spec, units, exprs, scope, g))
                if g is None:
                    got = attempt(lambda: cm.run_discrete(clear_scope=False, random_seed=1))
                    assert got == want, 'run_discrete() %s although %s' % ('runs' if got else 'is refused', describe(spec, units, exprs, scope, g))
    if ready(None) and q['clear']:
        cm.run_stochastic(check_infeasible=False)      # clears the scope
        want = not any(n for _, names in exprs for n in names)
        assert attempt(lambda: cm.run_stochastic(check_infeasible=False)) == want, 'second run after the scope has been cleared'
    return runs > 0


kinds = dict(num='number', vec='vector', vec2='vector', tab='table', mat='matrix')


def describe(spec, units, exprs, scope, g):
    return 'tree %s is %s, decision units %s, used symbols %s, scope (assigned) %s' % (
        ['.'.join(p) for p in spec.nodes], 'valid' if spec.valid() else 'invalid', units, [n for x, n in exprs if g is None or x == g], scope)


def refusals(q):
    import numpy as np
    from cheval import ChoiceModel
    what, arg = q['what'], q['arg']
    arg = {'nan': float('nan'), 'inf': INF, '-inf': -INF}.get(arg, arg) if isinstance(arg, str) and what in ('scale', 'node_scale', 'set_scale', 'scales') else arg
    cm = ChoiceModel()
    node = cm.add_choice('first')
    ok = q['ok']
    before = None
    f = {'name': lambda: cm.add_choice(arg), 'names': lambda: cm.add_choices([arg, 'zzz']), 'node_name': lambda: node.add_choice(arg),
         'scale': lambda: cm.add_choice('second', logsum_scale=arg), 'node_scale': lambda: node.add_choice('second', logsum_scale=arg),
         'scales': lambda: cm.add_choices(['x', 'y'], logsum_scales=[1.0, arg]), 'set_scale': lambda: setattr(node, 'logsum_scale', arg),
         'number': lambda: cm.declare_number(arg), 'vector': lambda: cm.declare_vector(arg, 0), 'table': lambda: cm.declare_table(arg, 0), 'matrix': lambda: cm.declare_matrix(arg),
         'vector_o': lambda: cm.declare_vector('v', arg), 'table_o': lambda: cm.declare_table('v', arg), 'matrix_o': lambda: cm.declare_matrix('v', arg),
         'precision': lambda: ChoiceModel(precision=arg), 'set_precision': lambda: setattr(cm, 'precision', arg)}[what]
    try:
        f()
    except Exception:
        assert not ok, '%s %r was refused' % (what, arg)
        if what == 'set_precision':
            assert cm.precision == 8
        if what == 'set_scale':
            assert node.logsum_scale == 1.0
        return True
    assert ok, '%s %r was not refused' % (what, arg)
    return True


CASES = dict(run=run, refusals=refusals)


def g_ref(rng, tier):
    for w in ('name', 'names', 'node_name'):
        for a, ok in (('_', False), ('a.b', False), ('.', False), ('.a', False), ('a.', False), ('a_b', True), ('__', True), ('_a', True), ('x y', True)):
            yield 'refusals', dict(what=w, arg=a, ok=ok)
    for w in ('scale', 'node_scale', 'scales', 'set_scale'):
        for a, ok in ((0, False), (0.0, False), (-0.5, False), (1.0000001, False), (2, False), ('nan', False), ('inf', False), ('-inf', False), (1, True), (1.0, True), (1e-9, True), (.5, True)):
            yield 'refusals', dict(what=w, arg=a, ok=ok)
    for w in ('number', 'vector', 'table', 'matrix'):
        for a, ok in (('NAN', False), ('OUT', False), ('NEG_INF', False), ('x', True), ('out', True)):
            yield 'refusals', dict(what=w, arg=a, ok=ok)
    for w in ('vector_o', 'table_o', 'matrix_o'):
        for a, ok in ((0, True), (1, True), (2, False), (-1, False), (None, False), (.5, False), ('0', False)):
            yield 'refusals', dict(what=w, arg=a, ok=ok)
    for w in ('precision', 'set_precision'):
        for a, ok in ((4, True), (8, True), (2, False), (0, False), (16, False), (-8, False), (6, False), (None, False), ('8', False)):
            yield 'refusals', dict(what=w, arg=a, ok=ok)


EXPRS = ['vec', 'num * vec', 'tab.x', 'tab.x + num', 'mat', 'vec + vec2', '1.5', 'where(vec > num, 1, 0)', 'tab.x * tab.y', 'vec2 @ a', '{a: 1}', '{a: 1} * num', 'NEG_INF * 0 + 1' ,
         'where(vec > 90, NEG_INF, 0)', 'where(vec == vec, 1, nan)', 'mat + tab.y', 'num']
EXPRS.remove('NEG_INF * 0 + 1')


def g_run(rng, tier):
    paths = [['a'], ['b'], ['c'], ['b', 'x'], ['b', 'y'], ['c', 'x'], ['c', 'z'], ['b', 'x', 'p'], ['b', 'x', 'q']]
    while True:
        good = rng.random() < .8
        ops = []
        if good:        # most symbols are in place before the rest of the history
            ops = [['choice', ['a']], ['choice', ['b']], ['units', [3, 1, 2]]]
            ops += [['declare', s] for s in kinds] + [['assign', s, rng.choice([1, 1, 0, -1])] for s in kinds]
            if rng.random() < .5:
                ops += [['choice', p] for p in rng.choice([paths[3:5], paths[3:5] + paths[7:9], [['c'], ['c', 'x'], ['c', 'z']]])]
            if rng.random() < .3:
                ops.pop(rng.randrange(len(ops)))
        for _ in range(rng.randint(2, 9)):
            k = rng.choice(['choice', 'units', 'expr', 'expr', 'expr', 'expr', 'drop', 'clear_expr', 'declare', 'assign', 'assign', 'assign', 'clear_scope', 'preval'])
            if k == 'choice':
                ops.append([k, rng.choice(paths)])
            elif k == 'units':
                ops.append([k, rng.choice([[3, 1, 2], ['u', 'v'], [7]])])
            elif k == 'expr':
                ops.append([k, rng.choice(EXPRS), rng.choice([None, None, 'g', 'h', 3])])
            elif k in ('drop', 'preval'):
                ops.append([k, rng.choice(['g', 'h', 3])])
            elif k in ('declare', 'assign'):
                ops.append([k, rng.choice(list(kinds))] + ([rng.choice([1, 1, 0, -1])] if k == 'assign' else []))
            else:
                ops.append([k])
        # depth changes make the filter / dict literal on `a` address ('a', '.'), which always exists if `a` does
        if not any(o[0] == 'choice' and o[1] == ['a'] for o in ops):
            ops.insert(0, ['choice', ['a']])
        yield 'run', dict(ops=ops, each=rng.random() < .3, clear=rng.random() < .5)


def gen(rng, tier):
    return interleave(g_run(rng, tier), g_run(rng, tier), g_ref(rng, tier))
