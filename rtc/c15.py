from .util import *
from .base import interleave
from .ldfw import *
from .ldfw import values as column


def lookup(q):
    """Every placement of the same keys gives the same, correct lookup"""
    import numpy as np
    import pandas as pd
    from cheval import LinkedDataFrame
    steps = q['steps']      # per frame: keys towards the previous frame, keys towards the next frame, kinds
    n0 = len(steps[0]['out'])
    frames = []
    for i, st in enumerate(steps):
        last = i == len(steps) - 1
        n = len(st['out']) if not last else len(st['in'])
        data, vals = {}, {}
        for kind in st['kinds']:
            s, v = column(kind, n, q['seed'] + i)
            data['c_' + kind] = s.values
            vals['c_' + kind] = [norm(x) for x in v]
        ldf = True if not last else st['ldf']
        side_in, side_out = st.get('side_in'), st.get('side_out')
        if i == 0:
            f, k_out, l_out = frame(side_out, st['out'], data, ldf)
            k_in = l_in = None
        elif last:
            f, k_in, l_in = frame(side_in, st['in'], data, ldf)
            k_out = l_out = None
        else:   # keys of both links: the outgoing one in a column
            arr = arrays(st['out'])
            l_out = ['o%d' % j for j in range(len(arr))]
            data = dict(data)
            data.update(zip(l_out, arr))
            k_out = 'on'
            f, k_in, l_in = frame(side_in, st['in'], data, ldf)
        frames.append(dict(f=f, k_in=k_in, l_in=l_in, k_out=k_out, l_out=l_out, vals=vals))
    fill_later = []
    order = range(len(frames) - 1)
    for i in (reversed(order) if q['reverse'] else order):
        a, b = frames[i], frames[i + 1]
        r = link(a['f'], a['k_out'], a['l_out'], b['f'], b['k_in'], b['l_in'], 'L%d' % i, q['pre'][i], q['shorthand'])
        assert not bool(r.value), 'aggregation reported for a link to unique keys'
    # positions of the matching rows, link by link
    pos = list(range(n0))
    head = frames[0]['f']
    node = head
    for i in range(len(frames) - 1):
        where = {tup(k): j for j, k in enumerate(steps[i + 1]['in']) if not missing(k)}
        pos = [where.get(tup(steps[i]['out'][p])) if p is not None and not missing(steps[i]['out'][p]) else None for p in pos]
        node = node['L%d' % i] if q['item'] else getattr(node, 'L%d' % i)
        for c, v in frames[i + 1]['vals'].items():
            for again in range(2):
                got = node[c] if q['item'] else getattr(node, c)
                want = [norm(DEFAULTS[c[2:]]) if p is None else v[p] for p in pos]
                assert got.index.equals(head.index), 'lookup is not indexed by the calling frame'
                assert cells(got) == want, 'lookup through %d link(s) of %s: %s, expected %s' % (i + 1, c, cells(got), want)
    for f in frames[1:]:
        for c, v in f['vals'].items():
            assert cells(f['f'][c]) == v, 'a lookup changed the target'
    return any(p is None for p in pos) and any(p is not None for p in pos)


CASES = dict(lookup=lookup)


def g_lookup(rng, tier):
    while True:
        depth = rng.choice([1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 6])
        steps = []
        n = rng.choice([0, 1, 3, 5, 8]) if rng.random() < .15 else rng.randint(2, 7)
        pools = []
        for i in range(depth):
            kind, pool = rand_pool(rng, rng.randint(3, 8))
            pools.append((kind, pool))
        for i in range(depth + 1):
            st = dict(kinds=rng.sample(KINDS, rng.randint(1, 3)), ldf=rng.random() < .5)
            if i == 0:
                kind, pool = pools[0]
                st['out'] = rand_keys(rng, n, pool, rng.random() < .3, rng.choice([0, 0, .15]))
                st['side_out'] = rng.choice(SIDES1 if 'pair' not in kind else SIDES2)
            else:
                kind, pool = pools[i - 1]
                drop = rng.random() < .7
                keys = rng.sample(pool, max(1, len(pool) - (rng.randint(1, 3) if drop else 0)))
                if rng.random() < .03:
                    keys = keys[:0] if 'pair' not in kind else keys
                if rng.random() < .3 and i == 1:     # the very same keys in the same order
                    seen = []
                    for k in steps[0]['out']:
                        if k not in seen and not missing(k):
                            seen.append(k)
                    keys = seen or keys
                st['in'] = keys
                st['side_in'] = rng.choice(SIDES1 if 'pair' not in kind else SIDES2)
                if i < depth:
                    k2, p2 = pools[i]
                    st['out'] = rand_keys(rng, len(keys), p2, False, rng.choice([0, 0, .15]))
            steps.append(st)
        if not steps[0]['out'] or any(not s.get('in', [1]) for s in steps[:-1]):
            continue
        if len(steps[-1]['in']) == 0 and 'obj' in steps[-1]['kinds']:
            continue
        if not all(len(arrays(s['out'])) == (2 if 'pair' in pools[i][0] else 1) for i, s in enumerate(steps[:-1])):
            continue
        yield 'lookup', dict(steps=steps, seed=rng.randint(0, 9999), pre=[rng.random() < .5 for _ in range(depth)], shorthand=rng.random() < .5, item=rng.random() < .4, reverse=rng.random() < .5)


def gen(rng, tier):
    return interleave(g_lookup(rng, tier))
