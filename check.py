#!/opt/veriftools/pyvenv/bin/python3
"""check.py Cxx [--tier quick|thorough]: decides one property on /repo's working tree.

1. extracts the functions of /repo mechanically (clang AST) and discharges every obligation of the property's contracts (z3);
2. runs the executable contracts against the compiled code (bounded stand-in, conformance of the assumed contracts, witness search).
"""
import argparse, json, multiprocessing as mp, os, re, sys, threading, time
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf.extract import TU, REPO
from vf import run as vrun, registry
from vf.tasks_tree import Task
from vf.harness import Harness

_TUS = {}
def work(job):
    prop, i, scale = job
    t = registry.PROPS[prop]()[i]
    sys.setrecursionlimit(20000)
    tu = _TUS if t.get('tu') == 'both' else _TUS.get(t.get('tu', 'src'))
    r = vrun.run_task(tu, Task(t['name'], t['fn'], [prop]), t['budget'] * scale)
    m = getattr(r['ctx'], 'machine', None)
    off = registry.OFF.get(prop)
    if off and r['status'] == 'refuted' and all(re.search(off, o.name) for o in r['refuted']): r['status'] = 'unknown'
    obs = {}
    for o in r['obs']:
        k = obs.setdefault(o.name, [0, 0]); k[0] += 1; k[1] += o.status == 'proved'
    bad = []
    for o in r['refuted'] + r['unknown']:
        bad.append(dict(obligation=o.name, status=o.status, where=str(o.where), path=['%s%s' % ('' if k else 'not ', str(c)[:300]) for c, k in (o.path or [])][-40:], model=str(o.model)[:6000] if o.model is not None else None))
    return dict(name=t['name'], status=r['status'], err=r['err'], obs=obs, bad=bad[:20], diff=[dict(obligation=o['obligation']) for o in bad if o['obligation'].startswith('same-code:')], paths=r['paths'], checks=r['checks'], solver=r['solver_time'], time=r['time'],
                functions=sorted(m.executed) if m else [], contracts=sorted(m.used_contracts) if m else [], trusted=sorted(m.trusted) if m else [], notes=sorted(r['ctx'].notes))

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); a = ap.parse_args()
    prop = a.prop; tier = 'thorough' if a.tier == 'thorough' else 'quick'; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    hs = [Harness(prop, e) for e in registry.EDITIONS.get(prop, ['src'])]
    th = [threading.Thread(target=h.build) for h in hs]
    jobs = []
    try:
        tasks = registry.PROPS[prop]()
        ext_err = None
        try:
            for k in sorted({k for t in tasks for k in (('src', 'single') if t.get('tu') == 'both' else (t.get('tu', 'src'),))}): _TUS[k] = TU(k)
        except Exception as e: ext_err = str(e)[:1500]
        for t in th: t.start()
        results = []
        if ext_err is None and tasks:
            scale = 5 if tier == 'thorough' else 1
            order = sorted(range(len(tasks)), key=lambda i: -tasks[i]['budget'])
            ctx = mp.get_context('fork')
            with ctx.Pool(min(7, len(tasks))) as pool:
                results = pool.map(work, [(prop, i, scale) for i in order], chunksize=1)
        for t in th: t.join()
        code = decide(prop, tier, seed, t0, tasks, results, ext_err, hs)
    finally:
        for h in hs: h.close()
    sys.stdout.flush()
    sys.exit(code)

def decide(prop, tier, seed, t0, tasks, results, ext_err, hs):
    refuted = [r for r in results if r['status'] == 'refuted']
    undec = [r for r in results if r['status'] in ('unknown', 'unsupported')]
    tl = registry.TLIMIT.get(prop, 8) if tier == 'quick' else registry.TLIMIT_T.get(prop, 90)
    runs = []
    for h in hs:
        if h.bin is None: runs.append(dict(status='error', what='the harness does not build: ' + (h.err or ''), cases=0, distinct=0, samples=[], case='', seed=seed, edition=h.edition)); continue
        r = h.run(seed, tl); r['edition'] = h.edition; runs.append(r)
        if (refuted or undec or ext_err) and r['status'] == 'ok':
            if prop in registry.EDITIONS: continue
            # no input found yet for a failed obligation: look longer
            for k in range(1, 3 if tier == 'quick' else 6):
                r2 = h.run(seed + 1000 * k, tl * 2); r2['edition'] = h.edition
                runs.append(r2)
                if r2['status'] != 'ok': break
    if len([r for r in runs if 'digest' in r]) > 1 and len({r['digest'] for r in runs if 'digest' in r and r['seed'] == seed}) > 1:
        case = '; '.join('%s: %s' % (r['edition'], r['digest']) for r in runs if 'digest' in r)
        for x, y in zip(*[open(os.path.join(h.dir, 'trace'), errors='replace') for h in hs[:2]]):
            if x != y: case = x.split(' ', 1)[1].strip(); break
        runs.append(dict(status='fail', what='the two editions give different results', case=case, seed=seed, cases=0, distinct=0, samples=[], edition='both'))
    fails = [r for r in runs if r['status'] == 'fail']
    edrep = None
    if prop in registry.EDITIONS and not fails and undec and not ext_err:
        # functions whose code differs: their contracts decide
        names = [o['obligation'].split(':', 1)[1] for r in undec for o in r['diff']]
        if names:
            from vf import editions
            try: more, bad, edrep = editions.run(names, _TUS, seed, tier)
            except Exception as e: more, bad, edrep = [], [], dict(differing=names, error=str(e)[:300])
            fails += more; refuted += bad
    errors = [r for r in runs if r['status'] == 'error']
    nobs = sum(v[0] for r in results for v in r['obs'].values()); ndis = sum(v[1] for r in results for v in r['obs'].values())
    proved = [r for r in results if r['status'] == 'proved']
    fns = sorted({f for r in results for f in r['functions']}); trusted = sorted({f for r in results for f in r['trusted']})
    ev = dict(property=prop, tier=tier, seed=seed, level=registry.level(prop), wall_s=0, violations=0,
              coverage=dict(obligations=nobs, discharged=ndis, checker_cmd='cd /verif && ./check.py %s' % prop,
                            trusted_base=registry.trusted(prop, trusted),
                            back_end='z3 %s (python API)' % __import__('z3').get_version_string() + ('; Lean 4 (lean/*.lean, kernel-checked on this run)' if any(o.startswith('lean:') for r in results for o in r['obs']) else ''), solver_seconds=round(sum(r['solver'] for r in results), 2),
                            functions_under_contract=fns, assumed_callee_contracts=sorted({f for r in results for f in r['contracts']} - set(fns)), callee_contracts_verified_here=sorted({f for r in results for f in r['contracts']} & set(fns)),
                            tasks=[dict(task=r['name'], status=r['status'], obligations={k: '%d/%d' % (v[1], v[0]) for k, v in r['obs'].items()}, paths=r['paths'], seconds=round(r['time'], 2), **({'reason': r['err']} if r['err'] else {})) for r in results],
                            tasks_total=len(results), tasks_proved=len(proved), not_proved=[r['name'] + ': ' + (r['err'] or r['status']) for r in refuted + undec] + ([ext_err] if ext_err else []),
                            bounded=registry.BOUNDED.get(prop, []),
                            evaluations=sum(r['cases'] for r in runs), distinct_nontrivial=sum(r['distinct'] for r in runs),
                            rule='executable contracts on generated inputs (bounded; never counted as proved); distinct by the printed case',
                            samples=[s for r in runs for s in r['samples']][:5]),
              assumptions=registry.ASSUME_ALL + registry.ASSUME.get(prop, []))
    if edrep: ev['coverage']['differing_functions'] = edrep
    if not results: ev['coverage']['explanation'] = 'bounded check only'
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    code = 0
    rp = os.path.join(rdir, prop + '.json')
    for r in proved: pass
    print('%s: %d tasks, %d proved, %d refuted, %d undecided; %d/%d obligations discharged; %d cases run' % (prop, len(results), len(proved), len(refuted), len(undec), ndis, nobs, ev['coverage']['evaluations']))
    for r in refuted:
        for b in r['bad'][:3]: print('  failed obligation: %s: %s (%s)' % (r['name'], b['obligation'], b['status']))
    for r in undec: print('  not proved: %s: %s' % (r['name'], r['err'] or ', '.join(sorted({b['obligation'] for b in r['bad']}))))
    if ext_err: print('  extraction: ' + ext_err.splitlines()[0])
    if fails or refuted:
        code = 1; ev['violations'] = len(fails) + len(refuted)
        rep = dict(property=prop, repo=REPO, failed_obligations=[dict(task=r['name'], failures=r['bad']) for r in refuted],
                   failing_input=[dict(case=f['case'], what=f['what'], edition=f['edition'], seed=f['seed'], stderr=f.get('err', '')[-2000:]) for f in fails],
                   rerun='cd /verif && VERIF_SEED=%d ./check.py %s' % (seed, prop))
        json.dump(rep, open(rp, 'w'), indent=1)
        for f in fails: print('  failing input: %s\n    %s' % (f['case'][:500], f['what'][:500]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fails else ' no-failing-input-found'))
    elif errors and (undec or ext_err or not results):
        print('  ' + errors[0]['what'][:2000])
        code = 2
    elif errors: print('  the bounded run beside the proof is not available: ' + errors[0]['what'][:500])
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    return code
if __name__ == '__main__': main()
