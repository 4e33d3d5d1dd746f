"""Symbolic state, path exploration and obligations (the VC generator's back end)."""
import time, z3

class Unsupported(Exception):
    """The code (or the proof state) is outside the fragment the contracts can express."""
class Kill(Exception):
    """Current path ends (infeasible, or its obligations are complete)."""
class Restart(Exception):
    """a loop invariant changed: the proof starts again"""
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ReturnEx(Exception):
    def __init__(s, v): s.v = v
class CppThrow(Exception):
    def __init__(s, obj, tname): s.obj, s.tname = obj, tname
    def __str__(s): return 'C++ exception ' + s.tname

# ---------------------------------------------------------------- values
class Cell:
    __slots__ = ('v', 'born', 'frozen', 'tag')
    def __init__(s, v=None, born=0): s.v = v; s.born = born; s.frozen = None; s.tag = None
    def __repr__(s): return 'Cell(%r)' % (s.v,)

class Uninit:
    def __repr__(s): return 'UNINIT'
UNINIT = Uninit()

class Obj:
    """An object of a class defined in /repo."""
    def __init__(s, cls, fields, born=0):
        s.cls, s.f, s.born = cls, fields, born
        s.freed = False; s.poison = None; s.owner = None; s.region = None; s.src = None
    def __repr__(s): return '<%s #%x>' % (s.cls, id(s) & 0xffff)

class Lazy:
    """A subtree known only through its tree term."""
    def __init__(s, tt, parent, maybe_nil=False, region=None):
        s.tt, s.parent, s.maybe_nil, s.region = tt, parent, maybe_nil, region
        s.owner = None
    def __repr__(s): return 'Lazy(%s)' % (s.tt,)

class UP:
    """std::unique_ptr"""
    def __init__(s, p=None, born=0):
        s._p = None; s.born = born; s.host = None
        s.set(p)
    def set(s, p):
        if s._p is not None and getattr(s._p, 'owner', None) is s: s._p.owner = None
        s._p = p
        if p is not None: p.owner = s
    @property
    def p(s): return s._p
    def __repr__(s): return 'UP(%r)' % (s._p,)

class Str:
    def __init__(s, v='', born=0): s.v = v; s.born = born; s.frozen = None
    def __repr__(s): return 'Str(%r)' % (s.v,)

class RefWrap:
    def __init__(s, o): s.o = o
class Tuple:
    def __init__(s, items): s.items = list(items)
class Pair(Tuple): pass
class Closure:
    def __init__(s, rec, body, params, caps, fn): s.rec, s.body, s.params, s.caps, s.fn = rec, body, params, caps, fn
class FnRef:
    def __init__(s, decl): s.decl = decl
class Stream:
    def __init__(s, born=0): s.parts = []; s.born = born; s.frozen = None
class Ext:
    """An object of a library class we only carry around (exceptions, regex, ...)."""
    def __init__(s, tname, args=()): s.tname, s.args = tname, list(args)
class CPtr:
    """Pointer into a character sequence / array."""
    def __init__(s, base, off): s.base, s.off = base, off
class It:
    """Iterator / pointer into a Seq."""
    def __init__(s, seq, i, rev=False): s.seq, s.i, s.rev = seq, i, rev
    def moved(s, i, *seq): return type(s)(seq[0] if seq else s.seq, i, s.rev)

class Seq:
    """std::stack/queue/vector/deque/list/forward_list. items: objects or Cells, or Seg markers."""
    def __init__(s, kind, elem, born=0):
        s.kind, s.elem, s.items, s.born = kind, elem, [], born
        s.frozen = None; s.popped = None
    def __repr__(s): return 'Seq<%s>%r' % (s.kind, s.items)

class Seg:
    """A symbolic run of elements inside a Seq."""
    def __init__(s, kind, data=None): s.kind, s.data = kind, data
    def __repr__(s): return 'Seg(%s,%r)' % (s.kind, s.data)
REST = 'rest'

class SetV:
    def __init__(s, born=0): s.items = []; s.born = born; s.frozen = None     # entries: ('name', z3) or ('vars', tt) or ('rest',)
class MapV:
    def __init__(s, born=0): s.born = born; s.frozen = None; s.entries = []; s.base = None

class Poison: pass

# ---------------------------------------------------------------- exploration
class Obligation:
    __slots__ = ('name', 'status', 'model', 'where', 'path', 'ms')
    def __init__(s, name, status, model=None, where='', path=None, ms=0):
        s.name, s.status, s.model, s.where, s.path, s.ms = name, status, model, where, path, ms

class Ctx:
    """One verification task: explores every path of fn(ctx)."""
    TIMEOUT = 8000
    def __init__(self, name):
        self.name = name
        self.obs = []
        self.solver_time = 0.0
        self.nchecks = 0
        self.paths = 0
        self.notes = set()
        self.nest = 0
        self.fresh_n = 0
        self.max_paths = 20000
        self.deadline = None
        self.known_sub = {}
        self.time = 1
        self.vacuity = {}
        self.probe = 0         # >0: looking for the effect of a loop body from a state that is not yet known to be invariant
        self.rawcmp = False
        self.mute = 0          # >0: exploring a loop body to find its effect; obligations are assumed here and discharged in the inductive step
        self.theory = None     # class of the defined-function theory (matrix tasks)
        self.qcache = {}
        self.loops = {}; self.recs = {}       # functions defined by the recursion a loop performs
        self.explores = 0
        self.seen_obs = set()

    # -- exploration
    def explore(self, fn):
        """Runs fn() on every feasible path (depth first, re-executing from the start)."""
        saved = getattr(self, 'st', None)
        self.explores += 1; xid = self.explores
        work = [()]
        results = []
        while work:
            prefix = work.pop()
            self.st = St(self, prefix, work, saved); self.st.xid = xid
            self.paths += 1
            if self.paths > self.max_paths: raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the proof exhausted')
            try:
                results.append(fn())
            except Kill:
                pass
        self.st = saved
        return results

    # -- path-state facade
    def fresh(self, sort, hint='x'):
        self.st.n += 1
        nm = '%s!%s%d' % (hint, self.st.tag, self.st.n)
        self.st.freshlog.append(nm)
        return z3.Const(nm, sort)
    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise Kill()
            return
        self.st.add(c)
    def assume_global(self, c):
        """a precondition of the task: also available inside loop-contract steps"""
        self.st.facts.setdefault('globals', []).append(c)
        self.st.add(c)
    def forget(self):
        """start of an inductive step: keep the task's preconditions only"""
        st = self.st
        st.solver = z3.Solver(); st.solver.set('timeout', Ctx.TIMEOUT)
        for c in st.facts.get('globals', ()): st.solver.add(c)
        st.asserted = list(st.facts.get('globals', ())); st.h = hash(tuple(c.hash() for c in st.asserted))
        st.facts['unfolded'] = {}
        st.facts.pop('calculus', None); st.facts.pop('rels', None)
        st.log.append(('-- inductive step --', True))
    def check(self, *extra):
        return self.st.check(*extra)
    def choose(self, n, why=''):
        return self.st.choose(n)
    def decide(self, c):
        return self.st.decide(c)
    def entails(self, c):
        """True iff the path condition implies c."""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return self.check() == z3.unsat
        return self.check(z3.Not(c)) == z3.unsat
    def prove(self, c):
        if isinstance(c, bool):
            if c: return 'proved', None
            r = self.check()
            return ('proved', None) if r == z3.unsat else (('refuted', self.st.model()) if r == z3.sat else ('unknown', None))
        c = z3.simplify(c)
        if z3.is_true(c): return 'proved', None
        r = self.check(z3.Not(c))
        if r == z3.unsat: return 'proved', None
        if r == z3.sat: return 'refuted', self.st.model()
        return 'unknown', None
    def oblige(self, name, c, where=''):
        if self.mute:
            self.assume(c); return True
        t0 = time.time()
        st, m = self.prove(c)
        if st == 'refuted' and (self.st.facts.get('weak') or (self.st.th is not None and self.st.th.table)): st = 'unknown'    # the facts may be too weak
        key = (self.st.xid, tuple(self.st.taken), self.st.qn, self.st.h, name, c if isinstance(c, bool) else c.hash())
        if self.st.i < len(self.st.prefix) and key in self.seen_obs: pass
        else:
            self.seen_obs.add(key)
            self.obs.append(Obligation(name, st, m, where, list(self.st.log), int(1000 * (time.time() - t0))))
        if st != 'proved':
            if isinstance(c, bool): raise Kill()
            self.st.add(c)
            if self.st.check() == z3.unsat: raise Kill()
        return st == 'proved'
    def fail(self, name, where=''):
        """This path must be infeasible."""
        self.oblige(name, False, where)
        raise Kill()

class St:
    def __init__(self, ctx, prefix, work, outer):
        self.ctx, self.prefix, self.work = ctx, prefix, work
        self.i = 0
        self.taken = []
        self.n = 0
        self.tag = (outer.tag + 'n%d_' % outer.n) if outer is not None else ''
        self.solver = z3.Solver()
        self.solver.set('timeout', Ctx.TIMEOUT)
        self.log = []; self.forced = set()
        self.facts = {}        # free-form path-local storage
        self.asserted = []
        self.qn = 0; self.h = 0; self.freshlog = []
        self.th = ctx.theory() if ctx.theory else None
        self.thn = 0
        if outer is not None and getattr(ctx, 'global_facts', None):
            for c in ctx.global_facts: self.solver.add(c)
    def add(self, c):
        self.asserted.append(c); self.h = hash((self.h, c.hash()))
        if self.th is not None: c = self.th.abstract(c); self.lemmas()
        self.solver.add(c)
    def lemmas(self):
        th = self.th
        while self.thn < len(th.pend):
            l = th.pend[self.thn]; self.thn += 1
            self.solver.add(l)
    def check(self, *extra):
        if self.th is not None:
            extra = [self.th.abstract(c) for c in extra]; self.lemmas()
        self.qn += 1; hx = (self.h,) + tuple(c.hash() for c in extra)
        if self.i < len(self.prefix):       # replaying: the same queries were answered before
            r = self.ctx.qcache.get((self.xid, self.prefix[:self.i], self.qn, hx))
            if r is not None:
                self._m = None
                return r
        r = self.check_(*extra)
        self.ctx.qcache[(self.xid, tuple(self.taken), self.qn, hx)] = r
        return r
    def check_(self, *extra):
        t0 = time.time()
        self.ctx.nchecks += 1
        r = self.solver.check(*extra)
        if r == z3.unknown:
            # second opinion: a fresh, non-incremental solver
            s = z3.Solver(); s.set('timeout', Ctx.TIMEOUT)
            for c in self.solver.assertions(): s.add(c)
            for c in extra: s.add(c)
            r = s.check()
            if r == z3.sat: self._m = s.model()
        elif r == z3.sat:
            self._m = self.solver.model()
        self.ctx.solver_time += time.time() - t0
        return r
    def model(self):
        try: return self._m
        except Exception: return None
    def choose(self, n):
        if self.i < len(self.prefix):
            k = self.prefix[self.i]
        else:
            k = 0
            for j in range(n - 1, 0, -1): self.work.append(tuple(self.taken) + (j,))
        self.i += 1; self.taken.append(k)
        return k
    def decide(self, c):
        if isinstance(c, bool): return c
        if isinstance(c, int): return c != 0
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.i < len(self.prefix):
            k = self.prefix[self.i]
            self.i += 1; self.taken.append(k)
            if k > 1: self.forced.add(len(self.log)); k -= 2       # the other side was infeasible
            self.add(c if k else z3.Not(c))
            self.log.append((c, bool(k)))
            return bool(k)
        t = self.check(c); f = self.check(z3.Not(c))
        if t == z3.unsat and f == z3.unsat: raise Kill()
        forced = 2
        if t == z3.unsat: k = False
        elif f == z3.unsat: k = True
        else:
            k = True; forced = 0
            self.work.append(tuple(self.taken) + (0,))
        self.i += 1; self.taken.append((1 if k else 0) + forced)
        if forced: self.forced.add(len(self.log))
        self.add(c if k else z3.Not(c))
        self.log.append((c, k))
        return k
