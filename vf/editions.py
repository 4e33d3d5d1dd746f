"""C21, for functions whose code differs between the two editions: their contracts decide.

A contract that holds of the library's function and is violated by the single header's one tells the editions apart.  The executable contracts of the
properties that the differing functions belong to are run against both editions, and their proof tasks are done again on the single header's code: an
obligation refuted there and discharged on the library's code is a difference."""
import re, multiprocessing as mp, concurrent.futures as cf, sys, time
from . import registry, run as vrun
from .harness import Harness
from .tasks_tree import Task

MAP = [(r'SymMat|SymVec|Jacobian', 'C17 C12 C20'), (r'(?<!Sym)(Mat|Vec)\b|Det\b|Adjoint|Cofactor|IsZero|AllIsLess|EachDivide|MaxAbsRow|Dot\b|operator\*', 'C13 C14 C15'), (r'VarsTable', 'C18 C06 C16'), (r'Subs', 'C06 C17'),
       (r'Diff', 'C07 C05'), (r'Simplif|FoldNumbers', 'C08 C05'), (r'Calc|MathOperator|IsFunction|Rank|GetOperatorNum|Associative|IsLeft2Right', 'C02 C01 C10 C11'),
       (r'Parse|Token|StringView|VarNameIsLegal|fnv|PostOrder|ExpressionTree', 'C09 C10'), (r'Solve|Newton|LM\b|Armijo', 'C16 C15'),
       (r'NodeImpl|Clone|Equal|CopyOrMove|Move|Num\b|Var\b|Op\b|Operator', 'C04 C03 C01 C05 C11 C12 C19 C20'), (r'ToString|operator<<', 'C11 C13'),
       (r'::operator[-+/^&|%]|::(sin|cos|tan|asin|acos|atan|sqrt|log|log2|log10|exp)\b|functions', 'C03'), (r'Error', 'C09 C20')]
ALL = ['C%02d' % i for i in range(1, 21)]
def props(names):
    out = []
    for n in names:
        hit = [x for r, ps in MAP if re.search(r, n) for x in ps.split()]
        if not hit: return ALL
        out += hit
    return [p for p in ALL if p in out]

_TUS = {}
def _work(job):
    p, i, k, scale = job
    sys.setrecursionlimit(20000)
    t = registry.PROPS[p]()[i]
    try: r = vrun.run_task(_TUS[k], Task(t['name'], t['fn'], [p]), t['budget'] * scale)
    except Exception as e: return dict(prop=p, i=i, name=t['name'], status='unsupported', bad=[], obs=0)
    return dict(prop=p, i=i, name=t['name'], status=r['status'], obs=len(r['obs']), solver=r['solver_time'],
                bad=[dict(obligation=o.name, status=o.status, where=str(o.where), path=['%s%s' % ('' if c else 'not ', str(x)[:300]) for x, c in (o.path or [])][-40:], model=str(o.model)[:6000] if o.model is not None else None) for o in r['refuted']][:5])

def run(names, tus, seed, tier):
    """(failing runs, refuted obligations, report)"""
    _TUS.update(tus); ps = props(names); t0 = time.time()
    tl = 8 if tier == 'quick' else 60
    def one(p):
        hs = [Harness(p, 'single'), Harness(p, 'src')]
        try:
            hs[0].build()
            if hs[0].bin is None: return None
            r = hs[0].run(seed, tl)
            if r['status'] != 'fail': return r
            hs[1].build()
            if hs[1].bin is None: return None
            q = hs[1].run(seed, tl * 4)
            if q['status'] != 'ok': return dict(r, status='same')
            return dict(r, edition='single', what='executable contract of %s, which the library meets: %s' % (p, r['what']))
        finally:
            for h in hs: h.close()
    with cf.ThreadPoolExecutor(3) as ex: rs = list(ex.map(one, ps))
    fails = [r for r in rs if r and r['status'] == 'fail']
    rep = dict(differing=names, contracts_of=ps, cases=sum(r['cases'] for r in rs if r))
    if fails: return fails, [], rep
    jobs = []; seen = set()
    for p in ps:
        for i, t in enumerate(registry.PROPS[p]()):
            if t.get('tu', 'src') == 'src' and not t['name'].startswith('lemma') and t['name'] not in seen: seen.add(t['name']); jobs.append((p, i, 'single', 1))
    jobs.sort(key=lambda j: -registry.PROPS[j[0]]()[j[1]]['budget'])
    bad = []
    with mp.get_context('fork').Pool(7) as pool:
        res = pool.map(_work, jobs, chunksize=1)
        ref = [r for r in res if r['status'] == 'refuted']
        for r, q in zip(ref, pool.map(_work, [(r['prop'], r['i'], 'src', 2) for r in ref], chunksize=1)):
            if q['status'] == 'proved': bad.append(dict(name='single header: ' + r['name'], status='refuted', err=None, obs={}, solver=0, time=0, paths=0, functions=[], contracts=[], trusted=[], bad=r['bad']))
    rep.update(tasks=len(res), proved=sum(r['status'] == 'proved' for r in res), refuted=len(bad), obligations=sum(r['obs'] for r in res), seconds=round(time.time() - t0, 1))
    return [], bad, rep
