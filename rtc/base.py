"""Run-time contract layer (bounded stand-in; never counted as proved).

Every property module rtc/cNN.py defines
    CASES = {name: function(params)}   -- evaluates pre/postconditions of the real code in /repo on one concrete input;
                                          an AssertionError, or any other exception, means that the contract is broken;
                                          returns True if the case was non-trivial
    gen(rng, tier)                     -- yields (case name, JSON-serialisable params)
"""
import json, os, sys, time, traceback, importlib, random, warnings

REPO = os.environ.get('CHEVAL_REPO', '/repo')


def setup_repo(jit):
    """Makes the real code in /repo importable. jit=False runs the very same functions in pure Python
    (NUMBA_DISABLE_JIT); jit=True compiles them as declared in the code, but only when they are first called."""
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if not jit:
        os.environ['NUMBA_DISABLE_JIT'] = '1'
    else:
        os.environ.pop('NUMBA_DISABLE_JIT', None)
        from rtc import lazyjit
        lazyjit.install()
    import numpy as np
    np.seterr(all='ignore')
    import cheval
    assert os.path.realpath(os.path.dirname(cheval.__file__)) == os.path.realpath(os.path.join(REPO, 'cheval')), cheval.__file__


def run(prop, tier, seed, jit, budget, out, replay=None):
    t0 = time.time()
    res = dict(property=prop, jit=jit, evaluations=0, nontrivial=0, violation=None, samples=[], by_case={}, exhausted=False)

    def finish():
        res['wall_s'] = round(time.time() - t0, 2)
        with open(out, 'w') as f:
            json.dump(res, f)

    def violation(name, params, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%s %s' % (f.filename, f.lineno, f.name) for f in tb if '/cheval/' in f.filename or 'rtc' in f.filename][-4:]
        res['violation'] = dict(case=name, params=params, error='%s: %s' % (type(e).__name__, str(e)[:2000]), where=where, jit=jit)

    try:
        setup_repo(jit)
    except BaseException as e:
        violation('import', None, e)
        return finish()
    mod = importlib.import_module('rtc.' + prop.lower())
    if replay is not None:
        name, params = replay
        try:
            mod.CASES[name](params)
        except Exception as e:
            violation(name, params, e)
        return finish()
    rng = random.Random('%s-%s-%s' % (prop, seed, jit))
    gen = mod.gen(rng, tier) if not jit else mod.gen_jit(rng, tier)
    seen = set()
    for name, params in gen:
        key = name + json.dumps(params, sort_keys=True)
        try:
            nontrivial = mod.CASES[name](params)
        except Exception as e:
            violation(name, params, e)
            break
        res['evaluations'] += 1
        res['by_case'][name] = res['by_case'].get(name, 0) + 1
        if nontrivial and key not in seen:
            seen.add(key)
            res['nontrivial'] += 1
            if sum(1 for s in res['samples'] if s[0] == name) < 1 and len(key) < 1500:
                res['samples'].append([name, params])
        if time.time() - t0 > budget:
            break
    else:
        res['exhausted'] = True
    finish()


def interleave(*gens):
    """Round robin over generators of cases"""
    gens = list(gens)
    while gens:
        for g in list(gens):
            try:
                yield next(g)
            except StopIteration:
                gens.remove(g)
            except RuntimeError:
                raise
