from .util import *
from .base import interleave
from .ldfw import *
from .ldfw import values as column

# values of every kind that can be set as fill for columns of that kind
FILLS = dict(int=[-1, 7, 1000, 2.5, 0.0, float('inf')], int8=[-1, 7, 1000, 0.0], uint=[3, -2, 70000, 0], float=[0.0, -9.5, 4, 0], float32=[0.5, -2.0, 0], bool=[True, False, 5, 'no', 0, 0.0],
             text=['none', '?', 'a rather long replacement', 0, None, False], cat=['missing', 'zz', 0.5, '', 0], time=['2000-02-29', '1999-12-31'], obj=['nothing', -3, None, 0, ''])


class Boom(Exception):
    pass


def conv(kind, v):
    import pandas as pd
    return pd.Timestamp(v) if kind == 'TIME_NAME' or kind == 'time' else v


def history(q):
    import numpy as np
    import pandas as pd
    from cheval import LinkedDataFrame
    n_frames = len(q['ldf'])
    # targets: one column per kind; the caller misses some rows
    targets, data = [], []
    callers = []
    for t, ldf in enumerate(q['ldf']):
        cols, vals = {}, {}
        for k in KINDS:
            s, v = column(k, 3, q['seed'] + t)
            cols['c_' + k] = s.values
            vals['c_' + k] = [norm(x) for x in v]
        f = (LinkedDataFrame if ldf else pd.DataFrame)(cols, index=pd.Index([10, 20, 30]))
        a = LinkedDataFrame({'k': [20, 99, 10, 99]})
        a.link_to(f, 'L', on_self='k', precompute=q['pre'])
        targets.append(f); data.append(vals); callers.append(a)
    doc = {FILL_NAME[k]: DEFAULTS[k] for k in KINDS}
    klass = dict(doc)
    inst = [dict(doc) for _ in targets]
    cols_fill = [{} for _ in targets]
    others = []        # (caller, what its lookups gave): copies of the targets with their own defaults

    def check(what):
        for t in range(n_frames):
            for k in KINDS:
                c = 'c_' + k
                if q['ldf'][t]:
                    fill = cols_fill[t].get(c, inst[t][FILL_NAME[k]])
                else:
                    fill = klass[FILL_NAME[k]]
                fill = norm(conv(k, fill))
                v = data[t][c]
                want = [v[1], fill, v[0], fill]
                got = cells(callers[t].L[c])
                assert got == want, '%s of %s %d after %s: %s, expected %s' % (c, 'linked frame' if q['ldf'][t] else 'DataFrame', t, what, got, want)

    def unchanged(what):
        for a, seen in others:
            got = {k: cells(a.L['c_' + k]) for k in KINDS}
            bad = [k for k in KINDS if got[k] != seen[k]]
            assert not bad, 'c_%s of a copy of a linked frame after %s on the frame it was copied from: %s, before %s' % (bad[0], what, got[bad[0]], seen[bad[0]])

    def values_of(op):
        return {FILL_NAME[k]: conv(k, v) for k, v in op}

    def run(ops, what):
        for op in ops:
            name, who = op[0], op[1]
            store = klass if who == 'class' else inst[who] if isinstance(who, int) else None
            obj = LinkedDataFrame if who == 'class' else targets[who]
            label = what + [name, who]
            if name == 'set':
                obj.set_fill_defaults(**values_of(op[2]))
                store.update(values_of(op[2]))
            elif name == 'reset':
                obj.reset_fill_defaults()
                store.clear(); store.update(doc)
            elif name == 'column':
                k, v = op[2]
                obj.set_column_fill('c_' + k, conv(k, v))
                cols_fill[who]['c_' + k] = conv(k, v)
            elif name == 'badcolumn':
                try:
                    obj.set_column_fill('no such column', 0)
                    assert False, 'a fill was set for a column that does not exist'
                except KeyError:
                    pass
            elif name == 'copy':
                f = targets[who]
                b = dict(copy=lambda: f.copy(), deep=lambda: f.copy(deep=True), rows=lambda: f.iloc[[1, 0, 2]], mask=lambda: f[[True, True, False]], columns=lambda: f[list(f.columns)])[op[2]]()
                a = LinkedDataFrame({'k': [20, 99, 10]})
                a.link_to(b, 'L', on_self='k', precompute=q['pre'])
                b.set_fill_defaults(**values_of(op[3]))
                k, v = op[4]
                b.set_column_fill('c_' + k, conv(k, v))
                others.append((a, {k: cells(a.L['c_' + k]) for k in KINDS}))
            elif name == 'temp':
                before = dict(store)
                new = values_of(op[2])
                try:
                    with obj.temporary_fill_defaults(**new):
                        store.update(new)
                        check(label + ['(inside)'])
                        run(op[3], label)
                        if op[4]:
                            raise Boom()
                except Boom:
                    pass
                for key in new:
                    store[key] = before[key]
            elif name == 'badtemp':
                new = values_of(op[2])
                try:
                    with obj.temporary_fill_defaults(**dict(new, NO_SUCH_TYPE=1)):
                        assert False, 'an unknown kind of data was accepted'
                except KeyError:
                    pass
            check(label)
            unchanged(label)
    try:
        check([])
        run(q['ops'], [])
        LinkedDataFrame.reset_fill_defaults()
        klass.clear(); klass.update(doc)
        for t in range(n_frames):
            if q['ldf'][t]:
                targets[t].reset_fill_defaults()
                inst[t] = dict(doc)
        check(['resetting all'])
        a, b = LinkedDataFrame({'k': [1, 2]}), LinkedDataFrame({'v': [5]}, index=[1])      # new frames start with the documented defaults
        a.link_to(b, 'L', on_self='k')
        assert cells(a.L.v) == [5.0, 0.0]
    finally:
        LinkedDataFrame.reset_fill_defaults()
    return True


def chained(q):
    """A miss at any link gives the fill value of the frame that holds the column"""
    from cheval import LinkedDataFrame
    import pandas as pd
    A = LinkedDataFrame({'k': [1, 2, 9, 1]})
    B = LinkedDataFrame({'c': [7, 8], 'v': [1, 2]}, index=[1, 2])
    C = (LinkedDataFrame if q['ldf'] else pd.DataFrame)({'x': [50]}, index=[7])
    A.link_to(B, 'B', on_self='k', precompute=q['pre'])
    B.link_to(C, 'C', on_self='c', precompute=q['pre'])
    try:
        fill = 0
        LinkedDataFrame.set_fill_defaults(INT_NAME=q['klass'])
        B.set_fill_defaults(INT_NAME=q['b'])
        if q['ldf']:
            if q['c'] is not None:
                C.set_fill_defaults(INT_NAME=q['c'])
                fill = q['c']
            if q['col'] is not None:
                C.set_column_fill('x', q['col'])
                fill = q['col']
        else:
            fill = q['klass']
        assert cells(A.B.C.x) == [50.0, float(fill), float(fill), 50.0], 'chained lookup gives %s, fill value %s' % (cells(A.B.C.x), fill)
        assert cells(A.B.v) == [1.0, 2.0, float(q['b']), 1.0]
    finally:
        LinkedDataFrame.reset_fill_defaults()
    return True


CASES = dict(history=history, chained=chained)


def some(rng):
    return [[k, rng.choice(FILLS[k])] for k in rng.sample(['int', 'uint', 'float', 'bool', 'text', 'cat', 'time', 'obj'], rng.randint(1, 3))]


def rand_ops(rng, ldf, depth=0):
    ops = []
    who = ['class'] + [i for i, l in enumerate(ldf) if l]
    for _ in range(rng.randint(1, 4) if depth == 0 else rng.randint(0, 2)):
        name = rng.choice(['set', 'set', 'reset', 'column', 'temp', 'temp', 'badcolumn', 'badtemp', 'copy'])
        w = rng.choice(who)
        if name in ('column', 'badcolumn', 'copy'):
            ws = [x for x in who if x != 'class']
            if not ws:
                continue
            k = rng.choice(KINDS)
            if name == 'copy':
                ops.append([name, rng.choice(ws), rng.choice(['copy', 'deep', 'rows', 'mask', 'columns']), some(rng), [k, rng.choice(FILLS[k])]])
                continue
            ops.append([name, rng.choice(ws), [k, rng.choice(FILLS[k])]])
        elif name == 'set' or name == 'badtemp':
            ops.append([name, w, some(rng)])
        elif name == 'reset':
            ops.append([name, w])
        elif name == 'temp':
            ops.append([name, w, some(rng), rand_ops(rng, ldf, depth + 1) if depth < 2 else [], rng.random() < .4])
    return ops


def g_hist(rng, tier):
    while True:
        ldf = [rng.random() < .6 for _ in range(rng.randint(2, 3))]
        yield 'history', dict(ldf=ldf, ops=rand_ops(rng, ldf), seed=rng.randint(0, 9999), pre=rng.random() < .5)


def g_chain(rng, tier):
    while True:
        yield 'chained', dict(ldf=rng.random() < .6, pre=rng.random() < .5, klass=rng.choice([0, -5, 11]), b=rng.choice([0, 3]), c=rng.choice([None, -1, 99]), col=rng.choice([None, None, 123, 1.5]))


def gen(rng, tier):
    return interleave(g_hist(rng, tier), g_hist(rng, tier), g_chain(rng, tier))
