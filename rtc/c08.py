"""Random expression programs, evaluated by the real parser + evaluator and by an independent evaluator of the Python AST."""
import ast
from .util import *
from .base import interleave

NUM_VARS = ['a', 'b', 'speed', 'x_1', 'Income', 'None_']
INT_VARS = ['k', 'n2']
BOOL_VARS = ['flag', 'is_worker']
TEXT_VARS = ['mode', 'zone_type']
WORDS = ['car', 'bus', 'walk', 'no']
FUN1 = ['abs', 'sqrt', 'exp', 'log', 'log10', 'log1p', 'expm1', 'floor', 'ceil', 'sin', 'cos', 'arctan', 'tanh', 'sinh', 'cosh']
EXACT = {'abs', 'floor', 'ceil', 'minimum', 'maximum', 'copysign'}
FUN2 = ['arctan2', 'minimum', 'maximum', 'hypot']


# ---- generator --------------------------------------------------------------------------------------------------

class Gen:
    def __init__(self, rng, num, ints, bools, texts, nan=False):
        self.r, self.num_atoms, self.int_atoms, self.bool_atoms, self.text_atoms, self.nan = rng, num, ints, bools, texts, nan

    def num(self, d, exact=False):
        r = self.r
        if d <= 0 or r.random() < .15:
            k = r.random()
            if k < .6 or (exact and k < .75):
                return r.choice(self.num_atoms + (self.int_atoms if r.random() < .5 else []))
            if k < .95:
                return r.choice(['1', '2', '3', '0.5', '0.25', '2.75', '1.0', '10', '0', '1e1'] + ([] if exact else ['0.1', '1e-3', '123456.789', '3.3333333333333335']))
            return '(%s)' % r.choice(self.num_atoms)
        k = r.random()
        if k < .55:
            ops = ['+', '-', '*'] + ([] if exact else ['/', '/'])
            op = r.choice(ops)
            a, b = self.num(d - 1, exact), self.num(d - 1, exact)
            if op == '/':
                b = r.choice(['2', '4.0', '3', '(abs(%s) + 1)' % b, '(0.5 + %s * %s)' % (self.pn(b), self.pn(b))])
            return self.par('%s %s %s' % (self.maybe(a), op, self.maybe(b)))
        if k < .65:
            return self.par('-%s' % self.pn(self.num(d - 1, exact)))
        if k < .72:
            return self.par('%s ** %s' % (r.choice([self.pn(self.num(d - 1, exact)), '-' + r.choice(self.num_atoms)]), r.choice(['2', '3', '1'])))
        if k < .75 and not exact:
            return '(abs(%s) + 0.5) ** %s' % (self.num(d - 1), r.choice(['-1', '0.5', '-2', '1.5']))
        if k < .79:
            return '(abs(%s) %% %s)' % (self.num(d - 1, True), r.choice(['3', '2', '4']))
        if k < .90:
            return 'where(%s, %s, %s)' % (self.bool(d - 1), self.num(d - 1, exact), self.num(d - 1, exact))
        if exact:
            return '%s(%s)' % (r.choice(['abs', 'floor', 'ceil']), self.num(d - 1, True))
        if k < .97:
            f = r.choice(FUN1)
            x = self.num(d - 1, f in ('floor', 'ceil'))
            if f in ('log', 'log10', 'log1p', 'sqrt'):
                x = 'abs(%s) + 0.25' % self.maybe(x)
            if f in ('exp', 'expm1', 'sinh', 'cosh'):
                x = '%s / 100' % self.pn(x)
            return '%s(%s)' % (f, x)
        f, x, y = r.choice(FUN2), self.num(d - 1), self.num(d - 1)
        return '%s(%s, %s)' % (f, x, y if f != 'arctan2' else 'abs(%s) + 0.25' % self.pn(y))    # no signed zeros

    def var(self, d):       # NumExpr cannot combine comparisons of constants only with arrays
        for _ in range(5):
            e = self.num(d, True)
            s, c = names_of(e)
            if s | c:
                return e
        return self.r.choice(self.num_atoms)

    def bool(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .1:
            if self.bool_atoms and r.random() < .4:
                return r.choice(self.bool_atoms)
            k = .2
        if k < .35:
            return self.par('%s %s %s' % ((lambda x: x if r.random() < .5 else x[::-1])((self.var(d - 1), r.choice(['<', '<=', '>', '>=', '==', '!=']), self.num(d - 1, True)))))
        if k < .5:
            n = r.randint(2, 4)
            even = r.random() < .5
            e = self.num(d - 1, True) if even else self.var(d - 1)
            for i in range(n):
                e += ' %s %s' % (r.choice(['<', '<=', '>', '>=', '==', '!=']), self.var(d - 2) if even == (i % 2 == 0) else self.num(d - 2, True))
            return self.par(e)
        if k < .6 and self.text_atoms:
            x, w = r.choice(self.text_atoms), "'%s'" % r.choice(WORDS)
            if r.random() < .3:
                x, w = w, x
            return self.par('%s %s %s' % (x, r.choice(['==', '!=']), w))
        if k < .72:
            return self.par('not %s' % self.pb(self.bool(d - 1)))
        n, op = r.randint(2, 4), r.choice([' and ', ' or '])
        return '(' + op.join(self.pb(self.bool(d - 1)) for _ in range(n)) + ')'

    def par(self, s):
        return '(%s)' % s if self.r.random() < .5 else s

    def pn(self, s):        # operand that must be a unit
        return s if s.isidentifier() or s.replace('.', '').isalnum() else '(%s)' % s

    def maybe(self, s):     # let precedence rules apply now and then
        return s if self.r.random() < .3 else self.pn(s)

    def pb(self, s):
        if s.startswith('not') or self.r.random() < .3:
            return s
        return '(%s)' % s


# ---- independent evaluator ----------------------------------------------------------------------------------------

def reference(src, env, eps=0):
    """The value of the expression as written, element by element. eps disturbs the results of inexact operations."""
    import numpy as np
    eps += 1
    fn = {f: (lambda *x, g=getattr(np, f), k=1 if f in EXACT else eps: g(*x) * k) for f in FUN1 + FUN2}
    fn['where'] = np.where

    def cmp(op, x, y):
        return {ast.Lt: np.less, ast.LtE: np.less_equal, ast.Gt: np.greater, ast.GtE: np.greater_equal,
                ast.Eq: lambda p, q: p == q, ast.NotEq: lambda p, q: p != q}[type(op)](x, y)

    def ev(n):
        if isinstance(n, (ast.Attribute,)) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
            return env[ast.unparse(n)]
        if isinstance(n, ast.Constant):
            return n.value.encode() if isinstance(n.value, str) else float(n.value)
        if isinstance(n, ast.Name):
            if n.id.lower() in ('nan', 'none'):
                return float('nan')
            return env[n.id]
        if isinstance(n, ast.BinOp):
            x, y = np.asarray(ev(n.left), dtype=float), np.asarray(ev(n.right), dtype=float)
            k = eps if isinstance(n.op, (ast.Div, ast.Pow)) else 1
            return k * {ast.Add: np.add, ast.Sub: np.subtract, ast.Mult: np.multiply, ast.Div: np.true_divide, ast.Pow: np.power,
                    ast.Mod: np.fmod}[type(n.op)](x, y)
        if isinstance(n, ast.UnaryOp):
            x = ev(n.operand)
            return -np.asarray(x, dtype=float) if isinstance(n.op, ast.USub) else np.logical_not(x)
        if isinstance(n, ast.BoolOp):
            vals = [ev(v) for v in n.values]
            r = vals[0]
            for v in vals[1:]:
                r = np.logical_and(r, v) if isinstance(n.op, ast.And) else np.logical_or(r, v)
            return r
        if isinstance(n, ast.Compare):
            left, r = ev(n.left), None
            for op, c in zip(n.ops, n.comparators):
                right = ev(c)
                x = cmp(op, left, right)
                r = x if r is None else np.logical_and(r, x)
                left = right
            return r
        if isinstance(n, ast.Call):
            return fn[n.func.id](*[ev(a) for a in n.args])
        raise AssertionError(ast.dump(n))
    return ev(ast.parse(src, mode='eval').body)


def names_of(src):
    """(plain names, heads of attribute chains) that the expression uses; arguments of aggregations belong to the linked table"""
    simple, chained = set(), set()

    def head(n):
        while isinstance(n, ast.Attribute):
            n = n.value
        return n.id

    def walk(n):
        if isinstance(n, ast.Attribute):
            chained.add(head(n))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            chained.add(head(n.func))
        elif isinstance(n, ast.Call):
            for a in n.args:
                walk(a)
        elif isinstance(n, ast.Dict):
            pass    # keys are names of choices
        elif isinstance(n, ast.Name):
            if n.id.lower() not in ('nan', 'none'):
                simple.add(n.id)
        else:
            for c in ast.iter_child_nodes(n):
                walk(c)
    walk(ast.parse(src, mode='eval').body)
    return simple, chained


def data(seed, n):
    import numpy as np
    rs = np.random.RandomState(seed)
    d = {v: rs.randint(-16, 17, n) / 4 for v in NUM_VARS}
    d.update({v: rs.randint(-3, 6, n) for v in INT_VARS})
    d.update({v: rs.uniform(size=n) < .5 for v in BOOL_VARS})
    d.update({v: np.array(WORDS, dtype='S4')[rs.randint(0, 4, n)] for v in TEXT_VARS})
    return d


def same(got, want, what):
    import numpy as np
    got, want, alt = np.asarray(got), np.broadcast_to(np.asarray(want[0]), np.shape(got)), np.broadcast_to(np.asarray(want[1]), np.shape(got))
    for i in range(got.size):
        g, w = got.flat[i], want.flat[i]
        # ill-conditioned cancellations amplify rounding errors
        assert close(g, w, 1e-9) or abs(float(g) - float(w)) <= 1e4 * abs(float(w) - float(alt.flat[i])), '%s: element %d is %r, but %r as written' % (what, i, g, w)


# ---- cases --------------------------------------------------------------------------------------------------------

def frame(q):
    """LinkedDataFrame.evaluate on plain symbols"""
    import numpy as np
    import pandas as pd
    from cheval import LinkedDataFrame
    n = 7
    d = data(q['seed'], n)
    cols = {k: (v if v.dtype.kind != 'S' else (pd.Categorical if i % 2 else pd.Series)(v.astype(str))) for i, (k, v) in enumerate(d.items())}
    f = LinkedDataFrame(cols)
    if q['local']:
        extra = {'loc_1': 2.5}
        d.update(extra)
        got = f.evaluate(q['expr'], local_dict=extra)
    else:
        got = f.evaluate(q['expr'])
    assert got.index.equals(f.index)
    same(got.values, (reference(q['expr'], d), reference(q['expr'], d, 1e-13)), 'evaluate(%r)' % q['expr'])
    return len(q['expr']) > 8


def parse(q):
    """Expression.parse: symbols, chains, filter, raw text"""
    from cheval.parsing.expressions import Expression
    e = Expression.parse(q['expr'] + (' @ A.B' if q.get('filter') else ''))
    simple, chained = names_of(q['expr'])
    assert set(e.symbols) == simple, 'symbols %s recorded, %s used' % (sorted(e.symbols), sorted(simple))
    assert set(e.chains) == chained, 'chained symbols %s recorded, %s used' % (sorted(e.chains), sorted(chained))
    assert set(e.all_symbols) == simple | chained
    assert e.filter_ == ('A.B' if q.get('filter') else None)
    return bool(simple)


def world(seed, n):
    """Decision units with a linked table: hh -> zone (LDF) -> city (DataFrame); hh -> persons (many)"""
    import numpy as np
    import pandas as pd
    from cheval import LinkedDataFrame
    rs = np.random.RandomState(seed)
    hh = LinkedDataFrame({'size': rs.randint(1, 6, n), 'inc': rs.randint(0, 40, n) / 4., 'zid': rs.randint(0, 5, n), 'own': rs.uniform(size=n) < .5},
                         index=pd.Index(100 + rs.permutation(n), name='hid'))
    zone = LinkedDataFrame({'area': rs.randint(1, 30, 5) / 2., 'cid': rs.randint(0, 2, 5)}, index=pd.Index(rs.permutation(5), name='zid'))
    city = pd.DataFrame({'rate': [.25, .75], 'pop': [7, 9]}, index=pd.Index([1, 0]))
    m = 3 * n
    per = LinkedDataFrame({'hid': rs.choice(hh.index.values, m), 'age': rs.randint(0, 90, m), 'w': rs.randint(0, 9, m) / 2.})
    zone.link_to(city, 'city', on_self='cid')
    hh.link_to(zone, 'zone', on_self='zid', other_levels='zid')
    hh.link_to(per, 'persons', self_levels='hid', on_other='hid')
    env = {}
    for c in ('size', 'inc', 'own'):
        env['hh.' + c] = hh[c].values
    zi = [list(zone.index).index(z) for z in hh['zid']]
    env['hh.zone.area'] = zone['area'].values[zi]
    ci = [list(city.index).index(zone['cid'].values[i]) for i in zi]
    env['hh.zone.city.rate'] = city['rate'].values[ci]
    env['hh.zone.city.pop'] = city['pop'].values[ci]
    groups = [[j for j in range(m) if per['hid'].values[j] == h] for h in hh.index]
    age, w = per['age'].values, per['w'].values
    for func, f, empty_int in (('sum', np.sum, -1), ('max', np.max, -1), ('min', np.min, -1), ('count', len, -1), ('first', lambda x: x[0], -1), ('mean', np.mean, -1)):
        for ex, arr, isint in (('age', age, True), ('w', w, False), ('w * 2 + age', w * 2 + age, False), ('age > 17', age > 17, True)):
            env['hh.persons.%s(%s)' % (func, ex)] = np.array([f(arr[g]) if g else (empty_int if isint else np.nan) for g in groups], dtype=float)
    env['hh.persons.sum(age > 17)'] = np.array([np.sum(age[g] > 17) if g else -1 for g in groups], dtype=float)
    return hh, env


def model(q):
    """One expression evaluated by a ChoiceModel with every kind of symbol"""
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    from cheval.core import UtilityBoundsError
    n, m = 4, 3
    hh, env = world(q['seed'], n)
    rs = np.random.RandomState(q['seed'] + 1)
    cm = ChoiceModel()
    cm.add_choices(['A', 'B', 'C'])
    cm.decision_units = hh.index
    env = {k: v.reshape(-1, 1) for k, v in env.items()}
    env.update(num=2.25, rvec=rs.randint(-9, 9, (n, 1)) / 4, cvec=rs.randint(-9, 9, (1, m)) / 4, mat=rs.randint(-9, 9, (n, m)) / 4)
    simple, chained = names_of(q['expr'])
    if 'num' in simple:
        cm.declare_number('num'); cm['num'].assign(2.25)
    if 'rvec' in simple:
        cm.declare_vector('rvec', 0); cm['rvec'].assign(pd.Series(env['rvec'][:, 0], index=hh.index))
    if 'cvec' in simple:
        cm.declare_vector('cvec', 1); cm['cvec'].assign(env['cvec'][0].copy())
    if 'mat' in simple:
        cm.declare_matrix('mat'); cm['mat'].assign(pd.DataFrame(env['mat'], index=hh.index, columns=cm.choices))
    if 'hh' in chained:
        cm.declare_table('hh', 0); cm['hh'].assign(hh)
    for e in q['before']:
        cm.expressions.append(e)
    cm.expressions.append(q['expr'])
    want = np.zeros((n, m)) + np.asarray(reference(q['expr'], env), dtype=float)
    try:
        got = cm._evaluate_utilities(cm.expressions, n_threads=1).values
    except UtilityBoundsError:
        assert np.isnan(want).any(), 'NaN reported although no value is NaN'
        return True
    assert not np.isnan(want).any(), 'a NaN value was not reported'
    same(got, (want, np.zeros((n, m)) + np.asarray(reference(q['expr'], env, 1e-13), dtype=float)), 'utilities of %r' % q['expr'])
    return True


BADARGS = ['hh.p.%s(%s)' % (f, a) for f in ('sum', 'max', 'count') for a in ('', 'a, b', 'a, *b', '*a', '*a, b', 'a, b, a', 'a, x=b', 'a, **b', '**b')]
REJECT = BADARGS + ['a if b else c', 'a[0]', 'a[b]', '[x for x in a]', '{x: 1 for x in a}', 'foo(a)', 'exec(a)', 'a is b', 'a is not b', 'a in b', 'a not in b',
          'exp(*a)', 'a @ b @ c', 't.mode(x)', 't.foo.apply(x)', 't.agg(x)', 't.link.sum(x, axis=1)', 't.link.sum(x=1)', 'f(a).b', 'a[0].b', '(a + b).c',
          "{A: 'x'}", '{A: b}', '{A: 1 + 2}', '{1: 2}', '{A: +1}', 'a if b', 'a +', '', 'a = 3', 'lambda x: x', '(a, b)', '[a, b]', '{a, b}', 'a; b',
          '+a', '~a', 'a.b[0]', "t.link.sum(*x)", "t.b.sum(**x)", 'where(a, b, c=1)', 'exp(x=a)', '(x for x in a)', '(y := a)', "f'{a}'", 'a @', 'not', '...',
          'a.b.lower(x)', 'a[1:2]', 'a < b in c', 'a == b is c', '{**a}', 'await a', 'yield a', '1 if a > b else 2', '(1 if a > b else 2) + c',
          '-(a if b else c)', 'not (a in b)', 'a and (b is c)', 'where(a in b, 1, 2)', 'abs(a[0])', '{A: [1]}', 'a + {x for x in b}']


def reject(q):
    """Unsupported syntax is an error when parsed or evaluated, and leaves nothing behind"""
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    cm = ChoiceModel()
    cm.add_choices(['A', 'B'])
    cm.decision_units = pd.Index([1, 2])
    for s in 'abcxy':
        cm.declare_vector(s, 0)
        cm[s].assign(np.array([1., 2.]))
    cm.expressions.append('a')
    keep = set(cm.expressions.itersimple()), set(cm.expressions.iterchained()), [e.raw for e in cm.expressions]
    try:
        cm.expressions.append(q['expr'], group=q['group'])
    except Exception:
        now = set(cm.expressions.itersimple()), set(cm.expressions.iterchained()), [e.raw for e in cm.expressions]
        assert now == keep, 'the rejected expression %r changed the symbols or expressions: %s' % (q['expr'], now)
        return True
    assert q['expr'] not in BADARGS, '%r was accepted' % q['expr']
    try:
        cm.validate()
        got = cm.run_stochastic()
    except Exception:
        return True
    assert False, '%r was accepted: %s' % (q['expr'], got[2].values.tolist())


def inconsistent(q):
    """One symbol cannot be used both plainly and as an attribute chain, in one expression or in several, in any group"""
    from cheval.api import ExpressionGroup
    g = ExpressionGroup()
    exprs = q['exprs']
    use = {}
    for k, e in enumerate(exprs):
        if k in q.get('copied', ()):
            g = g.copy()            # a copy knows the same symbols
        s, c = names_of(e)
        bad = bool(s & c) or any(use.get(x) == 'c' for x in s) or any(use.get(x) == 's' for x in c)
        try:
            g.append(e, group=q['groups'][k])
            ok = True
        except SyntaxError:
            ok = False
        assert ok == (not bad), ('%r accepted although it uses a symbol inconsistently with %s' if ok else '%r rejected after %s') % (e, exprs[:k])
        if ok:
            use.update({x: 's' for x in s})
            use.update({x: 'c' for x in c})
    assert set(g.itersimple()) == {x for x in use if use[x] == 's'}, set(g.itersimple())
    assert set(g.iterchained()) == {x for x in use if use[x] == 'c'}, set(g.iterchained())
    for name in set(q['groups']) - {None}:
        try:
            sg = g.get_group(name)
        except KeyError:
            continue
        s, c = set(), set()
        for e in sg:
            s |= names_of(e.raw)[0]; c |= names_of(e.raw)[1]
        assert set(sg.itersimple()) == s and set(sg.iterchained()) == c, 'symbols of group %s' % name
    return len(exprs) > 1


def tables(q):
    """Many attribute chains of several tables, in one expression: each denotes its own data"""
    import numpy as np
    import pandas as pd
    from cheval import ChoiceModel
    cm = ChoiceModel()
    cm.add_choices(['A', 'B'])
    cm.decision_units = pd.Index([5, 3, 4])
    rs = np.random.RandomState(q['seed'])
    data = {}
    for name, cols in q['tables'].items():
        o = q['orient'].get(name, 0)
        data[name] = pd.DataFrame(rs.randint(-99, 99, (2 if o else 3, cols)) / 4., columns=['c%d' % i for i in range(cols)], index=cm.choices if o else cm.decision_units)
        cm.declare_table(name, o)
        cm[name].assign(data[name])
    terms, want = [], np.zeros((3, 2))
    for k, t in enumerate(q['terms']):
        w = (k * 7) % 5 + 1
        if isinstance(t, str):
            terms.append('{A: %d.5}' % w)
            want += np.array([[w + .5, 0]])
        else:
            name, col = t
            terms.append('%d * %s.c%d' % (w, name, col))
            v = data[name]['c%d' % col].to_numpy()
            want += w * (v.reshape(1, 2) if q['orient'].get(name, 0) else v.reshape(3, 1))
    for part in (terms[:q['cut']], terms[q['cut']:]):
        if part:
            cm.expressions.append(' + '.join(part))
    got = cm._evaluate_utilities(cm.expressions, n_threads=1).values
    assert np.array_equal(got, want), 'utilities of %r: %s instead of %s' % (' + '.join(terms), got.tolist(), want.tolist())
    return len(q['terms']) > 2


def g_tables(rng, tier):
    pool = ['a', 'a1', 'a_1', 'a11', 'b', 'b_', 't0', 't', 'a_', 'sub_a', '_a']
    for names in (['a', 'a1'], ['a', 'a_1'], ['t', 't0'], ['a_', 'a'], ['a', 'a11']):
        for k in (11, 12):
            ts = [(names[0], i) for i in range(k)] + [(names[1], i) for i in range(3)]
            yield 'tables', dict(tables={names[0]: k, names[1]: 3}, orient={}, terms=ts, cut=len(ts), seed=k)
            yield 'tables', dict(tables={names[0]: k, names[1]: 3}, orient={names[1]: 1}, terms=ts[::-1], cut=len(ts), seed=k)
    yield 'tables', dict(tables={'a': 2}, orient={}, terms=['{}'] * 12 + [('a', 1)], cut=13, seed=1)
    while True:
        names = rng.sample(pool, rng.randint(1, 3))
        tabs = {n: rng.choice([1, 2, 3, 11, 13]) for n in names}
        ts = []
        for _ in range(rng.choice([2, 5, 14, 26])):
            n = rng.choice(names)
            ts.append((n, rng.randrange(tabs[n])) if rng.random() < .85 else '{}')
        yield 'tables', dict(tables=tabs, orient={n: 1 for n in names if rng.random() < .3}, terms=ts, cut=rng.randint(0, len(ts)), seed=rng.randint(0, 999))


CASES = dict(tables=tables, frame=frame, parse=parse, model=model, reject=reject, inconsistent=inconsistent)


def g_frame(rng, tier):
    for e in ['-a ** 2', '(-a) ** 2', '-(-a)', '--a', 'not not flag', 'not (a < b)', 'not a < b', 'not flag and is_worker', 'not (flag and is_worker)',
              'a - (b - speed)', 'a - b - speed', 'a / (b * b + 1) / 2', 'a * (b + 1)', '2 ** -(k * 0 + 1.0)', 'a < b < speed < x_1', 'a < b == flag',
              'flag or is_worker and a < b', '(flag or is_worker) and a < b', 'where(a > b, a, b)', 'where(not flag, a, -b)', 'where(mode == "car", 1, 0)',
              "'bus' != mode", 'mode == zone_type', 'flag and not is_worker or a >= 1 and b <= 1', '-where(flag, a, b)', 'abs(-a)', '-abs(a)', 'a + -b', 'a - -b',
              'a < b != flag', 'where(a == a, a, nan)', 'where(flag, NaN, 1)', 'a < 1 < b', 'a == b == speed', 'a * -b', '(a < b) == (b > a)', 'k / n2', '(k + 1) / 2', '1 / 2 + a', 'k ** 2']:
        yield 'frame', dict(expr=e, seed=3, local=False)
        yield 'parse', dict(expr=e, filter=False)
    long = ' + '.join('(a * %d - b)' % i for i in range(60))
    yield 'frame', dict(expr=long, seed=1, local=False)
    yield 'frame', dict(expr=' or '.join('a * b < -%d + speed' % i for i in range(40)), seed=1, local=False)
    yield 'frame', dict(expr=' < '.join(['a * 0 + %d' % i for i in range(30)]), seed=1, local=False)
    while True:
        loc = rng.random() < .2
        g = Gen(rng, NUM_VARS + (['loc_1'] * 3 if loc else []), INT_VARS, BOOL_VARS, TEXT_VARS)
        d = rng.choice([1, 2, 3, 4, 6])
        e = g.num(d) if rng.random() < .6 else g.bool(d)
        if len(e) > 900:
            continue
        try:
            tree = ast.parse(e, mode='eval')
        except (SyntaxError, RecursionError):
            continue
        simple, _ = names_of(e)
        if not simple - {'loc_1'}:
            continue
        yield 'frame', dict(expr=e, seed=rng.randint(0, 999), local=loc)
        yield 'parse', dict(expr=e, filter=rng.random() < .3)


def g_model(rng, tier):
    hh_num = ['hh.size', 'hh.inc', 'hh.zone.area', 'hh.zone.city.rate', 'hh.zone.city.pop', 'hh.persons.sum(age)', 'hh.persons.max(age)',
              'hh.persons.count(age)', 'hh.persons.sum(w * 2 + age)', 'hh.persons.sum(age > 17)', 'hh.persons.min(w)', 'hh.persons.first(w)']
    before = [[], [], ['hh.zone.area * 0'], ['num * 0', 'hh.inc * 0 + hh.persons.sum(w) * 0'], ['{A: 1.5}', '{A: -1.5}']]
    while True:
        g = Gen(rng, ['num', 'rvec', 'cvec', 'mat'] + rng.sample(hh_num, 4), [], ['hh.own'] if rng.random() < .5 else [], [])
        e = g.num(rng.choice([1, 2, 3]))
        if len(e) > 600:
            continue
        try:
            ast.parse(e, mode='eval')
        except SyntaxError:
            continue
        b = rng.choice(before)
        if any('num' in x for x in b) and 'num' not in names_of(e)[0] or any('hh' in x for x in b) and 'hh' not in names_of(e)[1]:
            b = []
        if any('persons.sum(w)' in x for x in b):
            b = []
        yield 'model', dict(expr=e, seed=rng.randint(0, 999), before=b)


def g_reject(rng, tier):
    for e in REJECT:
        for g in (None, 'grp'):
            yield 'reject', dict(expr=e, group=g)


def g_incons(rng, tier):
    pool = ['x', 'x.a', 'x + y', 'y.a.b', 'x.a + y', 'x + x.a', 'x.a + x', 'y.l.sum(x)', 'x.l.sum(y) + x', 'x + x.l.sum(y)', 'where(x > 1, y, 0)',
            'where(x.a > 1, y.b, 0)', '-x', 'not x', 'x < y < z', 'x.a < y.b', 'z.k.sum(x + y)', 'z', 'z.q', 'x.a * x.b', 'y.a + y.a', 'exp(x) + z', '{A: 1} + x', 'nan + x']
    while True:
        n = rng.randint(1, 4)
        yield 'inconsistent', dict(exprs=[rng.choice(pool) for _ in range(n)], groups=[rng.choice([None, None, 'g', 'h']) for _ in range(n)],
                                  copied=[k for k in range(1, n) if rng.random() < .3])


def gen(rng, tier):
    return interleave(g_frame(rng, tier), g_frame(rng, tier), g_model(rng, tier), g_tables(rng, tier), g_reject(rng, tier), g_incons(rng, tier))
