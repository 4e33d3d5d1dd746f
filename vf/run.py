import signal, sys, time, traceback, z3
from .core import *
from .extract import TU

def run_task(tu, task, budget=60):
    """returns dict(status=proved|refuted|unknown|unsupported, obligations, ...)"""
    ctx = Ctx(task.name)
    ctx.deadline = time.time() + budget
    ctx.theory = getattr(task.fn, 'theory', None)
    t0 = time.time()
    err = None
    def over(sig, fr): raise Unsupported('time budget of the proof exhausted')
    try: signal.signal(signal.SIGALRM, over); signal.setitimer(signal.ITIMER_REAL, budget * 1.2 + 5)
    except ValueError: pass
    try:
        while True:
            try: ctx.explore(lambda: task.fn(tu, ctx)); break
            except Restart: ctx.st = None; ctx.obs = []; ctx.qcache = {}; ctx.seen_obs = set(); ctx.known_sub.pop('steps', None)
    except Unsupported as e: err = 'unsupported: %s' % e
    except RecursionError as e: err = 'unsupported: recursion depth'
    except Exception as e:
        if __import__('os').environ.get('VF_DEBUG'): traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = 'unsupported: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], tb.filename.split('/')[-1], tb.lineno)
    finally:
        try: signal.setitimer(signal.ITIMER_REAL, 0)
        except ValueError: pass
    ref = [o for o in ctx.obs if o.status == 'refuted']
    unk = [o for o in ctx.obs if o.status == 'unknown']
    st = 'refuted' if ref else ('unsupported' if err else ('unknown' if unk else 'proved'))
    if st == 'proved' and not ctx.obs: st = 'unsupported'; err = 'unsupported: no obligation was generated (vacuous)'
    return dict(name=task.name, status=st, err=err, obs=ctx.obs, refuted=ref, unknown=unk, paths=ctx.paths, checks=ctx.nchecks,
                solver_time=ctx.solver_time, time=time.time() - t0, ctx=ctx)

def summary(r):
    byname = {}
    for o in r['obs']: byname.setdefault(o.name, []).append(o.status)
    return byname
