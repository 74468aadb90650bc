"""Verifies the contracts a property depends on:  main.py <property> <tier> <out.json>"""
import json, multiprocessing as mp, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
from pydv import engine, contract
from pydv.registry import ALL, PROPERTIES, TRUSTED, ASSUMPTIONS, CONFORMANCE

LIMIT = 330


def one(args):
    name, tier = args
    t = time.time()
    st = engine.Stats()
    con = ALL[name]
    try:
        if hasattr(con, 'verify_with'):
            con.verify_with(st)
        else:
            contract.verify(con, list(ALL.values()), st, label=name)
    except BaseException as e:
        engine._ctx = None
        st.failed.append(dict(name=name + '/supported', reason='the verifier cannot interpret the code: %r' % (e,), output=traceback.format_exc()[-2000:]))
    if not st.obligations and not st.failed and not st.skipped:
        st.failed.append(dict(name=name + '/vacuity', reason='no obligations were generated'))
    ok = sum(1 for o in st.obligations if o[1] == 'proved')
    if ok < len(st.obligations) and not st.failed:
        st.failed.append(dict(name=name, reason='undischarged obligations', output=str([o for o in st.obligations if o[1] != 'proved'][:10])))
    return dict(contract=name, function='%s:%s' % (con.module, con.name), obligations=len(st.obligations), discharged=ok, failed=st.failed, by=st.by_back_end,
                solver_s=round(st.solver_s, 2), wall_s=round(time.time() - t, 2), vacuity=st.vacuity, skipped=st.skipped)


def worker(q, item):
    import signal
    try:
        q.put(one(item))
    except BaseException as e:
        q.put(dict(contract=item[0], function=item[0], obligations=1, discharged=0, failed=[dict(name=item[0], reason=repr(e))], by={}, solver_s=0, wall_s=0, vacuity=0, skipped=False))


def main():
    prop, tier, out = sys.argv[1:4]
    t0 = time.time()
    names = PROPERTIES[prop]
    todo = [(n, tier) for n in names]
    results, running = [], []
    width = int(os.environ.get('PYDV_JOBS', '6'))
    while todo or running:
        while todo and len(running) < width:
            item = todo.pop(0)
            q = mp.Queue()
            p = mp.Process(target=worker, args=(q, item))
            p.start()
            running.append((item, p, q))
        for r in list(running):
            item, p, q = r
            try:
                results.append(q.get(timeout=0.05))
                p.join()
                running.remove(r)
            except Exception:
                if not p.is_alive() and q.empty() or time.time() - t0 > LIMIT:
                    p.kill()
                    p.join()
                    running.remove(r)
                    results.append(dict(contract=item[0], function=item[0], obligations=1, discharged=0, by={}, solver_s=0, wall_s=round(time.time() - t0, 1), vacuity=0, skipped=False,
                                        failed=[dict(name=item[0] + '/time', reason='not finished after %d s' % (time.time() - t0))]))
    conf = []
    for name, f in CONFORMANCE.get(prop, ()):
        try:
            n = f()
        except Exception as e:
            n = 0
            results.append(dict(contract=name, function=name, obligations=1, discharged=0, by={}, solver_s=0, wall_s=0, vacuity=0, skipped=False,
                                failed=[dict(name='conformance/' + name, reason=repr(e), output=traceback.format_exc()[-1500:])]))
        conf.append(dict(assumed_contract=name, concrete_comparisons=n))
    by = {}
    for r in results:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    failed = [f for r in results for f in r['failed']]
    total, ok = sum(r['obligations'] for r in results), sum(r['discharged'] for r in results)
    if not total and not failed:
        failed.append(dict(name='%s/vacuity' % prop, reason='no obligations were generated'))
    res = dict(obligations=total, discharged=ok, failed=failed, trusted_base=TRUSTED, functions=sorted({r['function'] for r in results if not r['skipped']}), by_back_end=by,
               solver_s=round(sum(r['solver_s'] for r in results), 2), vacuity=sum(r['vacuity'] for r in results), harnesses=[
                   {k: r[k] for k in ('contract', 'function', 'obligations', 'discharged', 'solver_s', 'wall_s', 'vacuity', 'skipped')} for r in results] + conf,
               assumptions=ASSUMPTIONS['*'] + ASSUMPTIONS.get(prop, []), wall_s=round(time.time() - t0, 1))
    with open(out, 'w') as f:
        json.dump(res, f, indent=1, default=str)
    print('%s: %d/%d obligations, %.1f s' % (prop, ok, total, time.time() - t0))
    for x in failed[:20]:
        print('  FAILED', x['name'], str(x['reason'])[:300])


if __name__ == '__main__':
    main()
