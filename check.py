#!/usr/bin/env python3
"""Decides one property of wsp-sag/cheval on the current working tree of /repo.

    python3 check.py <property> [quick|thorough]

Two layers, run side by side:
 * pydv (proof): the deductive verifier of /verif/pydv generates and discharges the obligations of the contracts listed
   for the property, from the source text that is in /repo now.
 * rtc (bounded): the same contracts evaluated at run time on generated inputs of the real code. Never counted as proved;
   it supplies failing inputs and covers what the proof layer has to assume.
Exit 0: everything held. Exit 1: VIOLATION line (with a replay file).
"""
import json, os, signal, subprocess, sys, tempfile, shutil, time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
JIT = {'C04', 'C05', 'C06'}
try:
    PROVED = set(json.load(open(os.path.join(HERE, 'tools', 'levels.json'))))       # every contract the property needs is discharged
    PARTLY = set(json.load(open(os.path.join(HERE, 'tools', 'partly.json'))))       # some of them are; the rest is bounded
except OSError:
    PROVED, PARTLY = set(), set()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    quick = tier == 'quick'
    budget = float(os.environ.get('RTC_BUDGET', '30' if quick else '240'))
    shards = int(os.environ.get('RTC_SHARDS', '4' if quick else '6'))
    hard = 420 if quick else 1500
    work = tempfile.mkdtemp(prefix='chk_%s_' % prop)
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', NUMBA_CACHE_DIR=os.path.join(work, 'numba'), OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMEXPR_MAX_THREADS='1', PYTHONHASHSEED=str(seed),
               TMPDIR=work)
    for k in ('PYTHONPATH', 'NUMBA_DISABLE_JIT', 'PYTHONOPTIMIZE'):
        env.pop(k, None)
    jobs = []

    def launch(kind, name, cmd, out, log):
        f = open(log, 'w')
        p = subprocess.Popen(cmd, cwd=work, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        jobs.append(dict(kind=kind, name=name, cmd=cmd, out=out, log=log, p=p))

    try:
        if os.path.exists(os.path.join(HERE, 'pydv', 'main.py')) and prop in PROVED | PARTLY:
            out = os.path.join(work, 'proof.json')
            launch('proof', 'proof', [VT, os.path.join(HERE, 'pydv', 'main.py'), prop, tier, out], out, out + '.log')
        for k in range(shards):
            out = os.path.join(work, 'rtc%d.json' % k)
            launch('rtc', 'rtc%d' % k, [VENV, os.path.join(HERE, 'rtc', 'run.py'), prop, '--tier', tier, '--seed', str(seed * 1000 + k),
                                         '--budget', str(budget), '--out', out], out, out + '.log')
        if prop in JIT:
            out = os.path.join(work, 'rtcjit.json')
            launch('rtc', 'rtc-jit', [VENV, os.path.join(HERE, 'rtc', 'run.py'), prop, '--tier', tier, '--seed', str(seed), '--jit',
                                      '--budget', str(budget + 50), '--out', out], out, out + '.log')      # (compiling takes about 25 s)
        end = t0 + hard
        for j in sorted(jobs, key=lambda j: j['kind'] == 'proof'):          # (the proof last: a failing input decides already)
            if j['kind'] == 'proof' and any(violated(x) for x in jobs):
                end = min(end, time.time() + 20)
            try:
                j['p'].wait(timeout=max(1, end - time.time()))
                j['rc'] = j['p'].returncode
            except subprocess.TimeoutExpired:
                os.killpg(j['p'].pid, signal.SIGKILL)
                j['p'].wait()
                j['rc'] = 'timeout after %d s' % (time.time() - t0)
            try:
                j['res'] = json.load(open(j['out']))
            except Exception:
                j['res'] = None
        return conclude(prop, tier, seed, jobs, t0)
    finally:
        for j in jobs:
            if j['p'].poll() is None:
                os.killpg(j['p'].pid, signal.SIGKILL)
        shutil.rmtree(work, ignore_errors=True)


def violated(j):
    try:
        return j['kind'] == 'rtc' and json.load(open(j['out']))['violation']
    except Exception:
        return False


def finite(x):
    """JSON has no infinities"""
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return repr(x)
    if isinstance(x, dict):
        return {k: finite(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [finite(v) for v in x]
    return x


def known_findings():
    try:
        lines = open(os.path.join(HERE, 'known-findings.txt')).read().splitlines()
    except OSError:
        return []
    return [l for l in lines if l.startswith('KNOWN-FINDING:')]


def conclude(prop, tier, seed, jobs, t0):
    rtc = [j for j in jobs if j['kind'] == 'rtc']
    proof = next((j for j in jobs if j['kind'] == 'proof'), None)
    found = [j for j in rtc if j['res'] and j['res']['violation']]
    broken = [j for j in rtc if not j['res']]

    def log(j):
        try:
            return open(j['log']).read()[-4000:]
        except OSError:
            return ''
    evals = sum(j['res']['evaluations'] for j in rtc if j['res'])
    nontriv = sum(j['res']['nontrivial'] for j in rtc if j['res'])
    samples, by_case = [], {}
    for j in rtc:
        if j['res']:
            for k, v in j['res']['by_case'].items():
                by_case[k] = by_case.get(k, 0) + v
            for s in j['res']['samples']:
                if len(samples) < 6 and s[0] not in [x[0] for x in samples]:
                    samples.append(s)
    bounded = dict(evaluations=evals, distinct_nontrivial=nontriv, by_case=by_case, samples=samples,
                   shards=[dict(name=j['name'], evaluations=j['res'] and j['res']['evaluations'], wall_s=j['res'] and j['res']['wall_s']) for j in rtc],
                   rule='contracts of rtc/%s.py evaluated on the real code with generated inputs (bounded: only the generated inputs; see the '
                        'generators for sizes); non-trivial: the case reports that it exercised what it is about, and differs from all '
                        'others of its shard' % prop.lower())
    pres = proof and proof['res']
    failed = (pres or {}).get('failed') or []
    if prop in PARTLY:
        # not claimed as proved: code the verifier cannot interpret is then left to the bounded layer (and listed in the evidence)
        failed = [f for f in failed if not str(f.get('name', '')).endswith(('/supported', '/time'))]
        if not pres and proof and str(proof.get('rc')).startswith('timeout'):
            pres = dict(failed=[dict(name='timeout')])
    replay = os.path.join(HERE, 'evidence', '%s.replay.json' % prop)
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    violation, noinput = None, False
    if found:
        v = found[0]['res']['violation']
        violation = dict(property=prop, kind='failing input', input=v, how_to_replay='%s %s/rtc/run.py %s --replay %s%s' % (
            VENV, HERE, prop, replay, ' --jit' if v.get('jit') else ''),
            failed_obligations=(pres or {}).get('failed', [])[:20])
    elif proof and (not pres or failed):
        noinput = True
        violation = dict(property=prop, kind='failed obligation', failed=failed or [dict(
            name='%s.verifier' % prop, reason='the verifier did not finish (%s)' % proof.get('rc'), output=log(proof))])
        cex = [f for f in violation['failed'] if f.get('replayed')]
        if cex:
            noinput = False
    elif broken:
        noinput = True
        violation = dict(property=prop, kind='run-time contract', failed=[dict(
            name='%s.%s' % (prop, j['name']), reason='the contract evaluation did not finish (%s)' % j.get('rc'), output=log(j)) for j in broken])
    level, assumptions, coverage = 'exploration', [], dict(bounded)
    if proof:
        pr = pres or {}
        proved = dict(obligations=pr.get('obligations', 0), discharged=pr.get('discharged', 0),
                      checker_cmd='%s %s/pydv/main.py %s %s' % (VT, HERE, prop, tier),
                      trusted_base=pr.get('trusted_base', []), functions_under_contract=pr.get('functions', []),
                      by_back_end=pr.get('by_back_end', {}), solver_s=pr.get('solver_s', 0), vacuity_checks=pr.get('vacuity', 0),
                      harnesses=pr.get('harnesses', []))
        if prop in PROVED:
            level, coverage = 'proof', dict(proved, bounded_run_time_contracts=bounded)
        else:
            coverage = dict(bounded, contracts_discharged=proved,
                            not_decided=[f.get('name') for f in pr.get('failed') or [] if f not in failed])
        assumptions = pr.get('assumptions', [])
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=coverage,
              wall_s=round(time.time() - t0, 2), assumptions=assumptions, violations=1 if violation else 0)
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(finite(ev), f, indent=1)
    for l in known_findings():
        if 'property=%s ' % prop in l:
            print(l)
    if violation:
        with open(replay, 'w') as f:
            json.dump(violation, f, indent=1)
        if found:
            print('%s: %s' % (violation['input']['case'], violation['input']['error']))
        else:
            for x in violation['failed'][:5]:
                print('%s: %s' % (x.get('name'), str(x.get('reason'))[:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, ' no-failing-input-found' if noinput else ''))
        return 1
    print('%s held: %s%d run-time contract evaluations (%d distinct non-trivial), %.1f s' % (
        prop, '%d/%d obligations discharged, ' % (proved['discharged'], proved['obligations']) if proof else '', evals, nontriv, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
