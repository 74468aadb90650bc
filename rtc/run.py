import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import argparse
from rtc import base
if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default='quick'); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jit', action='store_true'); ap.add_argument('--budget', type=float, default=8.0)
    ap.add_argument('--out', default='/dev/stdout'); ap.add_argument('--replay')
    a = ap.parse_args()
    rp = None
    if a.replay:
        d = json.load(open(a.replay))
        d = d.get('input', d)
        rp = d['case'], d['params']
        a.jit = d.get('jit', a.jit)
    base.run(a.prop, a.tier, a.seed, a.jit, a.budget, a.out, rp)
