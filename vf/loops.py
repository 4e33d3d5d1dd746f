"""Loops over arrays of symbolic size: finds an inductive invariant from the effect of one iteration, then verifies it.

The body is executed at a generic iteration (muted: nothing is reported) to see which locations change and how; every changed location gets a closed
form as a function of the iteration (linear counters, sign flips, finite sums, array contents written so far, or a function defined by the recursion the
body itself performs) or becomes arbitrary.  The candidate is then checked: it holds initially (by construction), the body preserves it (queries of the
check phases), the body meets its obligations from it (live phase), and execution goes on from it at the end (complete phase) and from every early exit
(exit phase).  Only the check decides; a wrong guess costs precision, never soundness.
"""
import re
import z3
from .core import *
from .interp import head, ty, Frame
from .stl import N, conv_str
from .tree import T, NIL
from .theory import *

QA, RA, OLD = z3.Int('q?'), z3.Int('r?'), 'old?'
from .maps import KEY
ROUNDS, CHECKS = 4, 3
SAME = 'same'

class K_:
    def __init__(s, q, r, flat): s.q, s.r, s.flat = q, r, flat

class Out:
    """what one path through the body did"""
    def __init__(s, kind): s.kind = kind; s.pc = []; s.new = {}; s.fresh = (); s.arr = {}

class Info:
    def __init__(s):
        s.outs = {}; s.plans = {}; s.status = {}; s.known = set(); s.tests = []; s.N = None; s.exits = False; s.bad = set(); s.why = {}
        s.cands = []; s.dropped = set(); s.solved = False; s.tested = None; s.ill = False; s.nexts = []; s.exact = True

def member(h):
    from .tspecs import member as m
    return m(h)
def is_real(v): return isinstance(v, float) or (isinstance(v, z3.ArithRef) and v.is_real())
def is_int(v): return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef) and v.is_int())
LOOPFN = re.compile(r'^(free!|kq![0-9.]*\.\d+h?$)')
def is_bool(v): return isinstance(v, (bool, z3.BoolRef))
def z(v): 
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, float): return z3.RealVal(v)
    return v
def same(a, b):
    if a is b: return True
    if isinstance(a, It) and isinstance(b, It): return a.seq is b.seq and a.rev == b.rev and same(a.i, b.i) and same(getattr(a, 'key', None), getattr(b, 'key', None))
    if isinstance(a, CPtr) and isinstance(b, CPtr): return a.base is b.base and same(a.off, b.off)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        try:
            a, b = z(a), z(b)
            if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)): return False
            if a.eq(b): return True
            if a.sort() != b.sort(): return False
            if is_int(a): return not padd(poly(a), pscale(poly(b), -1))
            return z3.simplify(a).eq(z3.simplify(b))
        except z3.Z3Exception: return False
    try: return type(a) == type(b) and bool(a == b)
    except Exception: return False

class Loc:
    def __init__(s, kind, h): s.kind, s.h = kind, h

class LoopRule:
    def __init__(s, lib): s.lib = lib
    @property
    def ctx(s): return s.lib.ctx
    @property
    def I(s): return s.lib.I
    # ---------------------------------------------------------------- the state
    def locations(s, roots, fr):
        from .mat import Arr, ElemCell, ElemStr, ElemUP, View, Expr
        from .maps import DMap, DCell, DIt
        out = {}; seen = set(); live = set()
        def go(path, v):
            if v is None or isinstance(v, (int, float, bool, str, z3.ExprRef)) or v is UNINIT: return
            if isinstance(v, (ElemCell, ElemStr)): go(path + ('arr',), v.arr); return
            if isinstance(v, DCell): go(path + ('map',), v.map); return
            if isinstance(v, ElemUP): live.add(id(v)); go(path + ('arr',), v.arr); return
            if id(v) in seen: return
            seen.add(id(v))
            if isinstance(v, Cell):
                out[path] = Loc('cell', v); go(path + ('*',), v.v)
            elif isinstance(v, Arr): out[path] = Loc('arr', v)
            elif isinstance(v, DMap): out[path] = Loc('dmap', v)
            elif isinstance(v, UP):
                if isinstance(v.p, Arr): out[path] = Loc('own', v); go(path + ('->',), v.p)
                elif isinstance(v.p, Obj) and v.p.cls != s.lib.NI: out[path] = Loc('own', v); go(path + ('->',), v.p)
                else: out[path] = Loc('up', v)
            elif isinstance(v, Obj):
                if v.cls == s.lib.NI and (v.owner is not None): return
                if v.region == 'global': return
                for k, x in v.f.items(): go(path + (k,), x)
            elif isinstance(v, Str): out[path] = Loc('str', v)
            elif isinstance(v, Stream): out[path] = Loc('stream', v)
            elif isinstance(v, Seq):
                out[path] = Loc('seq', v)
                for i, x in enumerate(v.items): go(path + (i,), x)
            elif isinstance(v, SetV): out[path] = Loc('bset', v)
            elif isinstance(v, MapV): out[path] = Loc('set', v)
            elif isinstance(v, Tuple):
                for i, x in enumerate(v.items): go(path + (i,), x)
            elif isinstance(v, RefWrap): go(path + ('ref',), v.o)
            elif isinstance(v, It): go(path + ('seq',), v.seq)
            elif isinstance(v, CPtr): go(path + ('base',), v.base)
            elif isinstance(v, Closure):
                for k, x in v.caps.items(): go(path + ('cap', k), x)
            elif isinstance(v, View): go(path + ('arr',), v.arr)
            elif isinstance(v, Expr):
                for i, (a, _) in enumerate(v.srcs): go(path + ('src', i), a)
        for i, x in enumerate(roots): go(('root', i), x)
        frs = list(s.I.frames)
        if fr is not None and not any(f is fr for f in frs): frs.append(fr)
        for i, f in enumerate(frs):
            for k, x in f.env.items(): go(('f', i, k), x)
            go(('f', i, 'this'), f.this)
            for j, x in enumerate(f.temps): go(('f', i, 'tmp', j), x)
        for k, x in s.I.statics.items(): go(('static', k), x)
        for k, x in s.lib.globals.items(): go(('glob', k), x)
        for p, l in out.items():
            if l.kind == 'arr':
                l.h.sync(); l.h.live = [e for e in l.h.live if id(e) in live]
        return out
    def snap(s, l):
        h = l.h
        if l.kind == 'cell': return h.v
        if l.kind == 'own': return h.p
        if l.kind == 'up':
            p = h.p
            if isinstance(p, Lazy) and p.mat is None: return p.tt if not p.freed else p
            return s.lib.tree(h)
        if l.kind == 'str': return conv_str(h.v) if h.v is not None else None
        if l.kind == 'arr':
            h.sync(); return (len(h.log), h.n, h.R, h.C, h.fn)
        if l.kind == 'dmap': return (len(h.log), h.has, h.val, h.n)
        if l.kind == 'stream': return len(h.parts)
        if l.kind == 'seq': return tuple(id(x) for x in h.items)
        if l.kind == 'bset': return z3.simplify(member(h))
        if l.kind == 'set': return (tuple(map(repr, getattr(h, 'items', ()))), tuple(id(v) for k, v in getattr(h, 'entries', ())), id(getattr(h, 'base', None)))
    def changed(s, l, a, b):
        if l.kind == 'arr':
            if not (same(a[1], b[1]) and same(a[2], b[2]) and same(a[3], b[3])): return 'size'
            return a[0] != b[0]
        if l.kind == 'dmap': return a[0] != b[0]
        if l.kind in ('stream', 'seq', 'set', 'own'): return a != b if l.kind != 'own' else a is not b
        return not same(a, b)
    # ---------------------------------------------------------------- running
    def run(s, key, roots, test, step, N, shape, fr=None):
        """A counting loop over all elements of a matrix is first taken as a loop over (row, column), else over its counter."""
        ctx = s.ctx; st = ctx.st
        ik = (st.xid, key, tuple(st.taken))
        kq, kr = ctx.fresh(I_, 'kq'), ctx.fresh(I_, 'kr')
        PH = ROUNDS + CHECKS
        if shape is None and N is None and test is not None:
            det = ctx.loops.get(ik)
            if det is None: det = ctx.loops[ik] = Info(); det.cand = None; det.fail = False
            ph = st.choose(1 + 2 * PH + 3)
            if ph == 0:
                ctx.mute += 1; ctx.probe += 1; ctx.rawcmp = True
                try: det.cand = s.flat_shape(test())
                finally: ctx.mute -= 1; ctx.probe -= 1; ctx.rawcmp = False
                if det.cand is None: s.dead(ik[2], range(1, 1 + PH))
                raise Kill()
            ph -= 1
            A = ctx.loops.get(ik + ('2d',))
            num2 = lambda k: 1 + k if k < PH else 1 + PH + k
            num1 = lambda k: 1 + PH + k
            if ph < PH:
                if det.cand is None or det.fail: s.dead(ik[2], range(1 + ph + 1, 1 + PH)); raise Kill()
                try: return s.phase(ik + ('2d',), ph, roots, test, step, det.cand[0] * det.cand[1], det.cand, fr, kq, kr, num2)
                except Unsupported as e:
                    if 'budget' in str(e) or 'too many' in str(e): raise
                    det.fail = True; raise Kill()
            use = det.cand is not None and not det.fail and A is not None and not A.bad and not A.ill and not any(t[0] == 'free' for t in A.status.values())
            if ph < 2 * PH:
                if use: s.dead(ik[2], range(1 + ph + 1, 1 + 2 * PH)); raise Kill()
                return s.phase(ik + ('1d',), ph - PH, roots, test, step, None, None, fr, kq, kr, num1)
            if use: return s.phase(ik + ('2d',), ph - PH, roots, test, step, det.cand[0] * det.cand[1], det.cand, fr, kq, kr, num2)
            return s.phase(ik + ('1d',), ph - PH, roots, test, step, None, None, fr, kq, kr, num1)
        return s.phase(ik, st.choose(PH + 3), roots, test, step, N, shape, fr, kq, kr, lambda k: k)
    def dead(s, base, ks):
        """phases that have nothing to do need not be visited"""
        w = s.ctx.st.work
        for k in ks:
            t = base + (k,)
            if t in w: w.remove(t)
    def flat_shape(s, c):
        """(R, C) if the loop condition c at the start is 0 < R*C for the shape of a matrix"""
        if isinstance(c, bool): return None
        while z3.is_not(c): c = c.arg(0)
        if c.num_args() != 2 or c.arg(0).sort() != I_: return None
        a, b = c.arg(0), c.arg(1)
        for R, C in s.ctx.st.facts.get('shapes', ()):
            for x, y in ((a, b), (b, a)):
                d = padd(poly(x), pscale(poly(y), -1)); n = poly(R * C)
                if d == n or (z3.is_eq(c) and d == pscale(n, -1)): return R, C
        return None
    def phase(s, ik, ph, roots, test, step, N, shape, fr, kq, kr, num):
        ctx = s.ctx; st = ctx.st
        info = ctx.loops.get(ik)
        if info is None: info = ctx.loops[ik] = Info()
        two = shape is not None and not (is_lit(shape[1]) and lit(shape[1]) == 1)
        info.two, info.shape, info.kq, info.kr, info.test = two, shape, kq, kr, test
        if N is not None: info.N = S(N)
        locs = s.locations(roots, fr)
        init = {p: s.snap(l) for p, l in locs.items()}
        info.init = init; info.locs = locs; info.tag = str(kq)
        gen = s.gen(info, kq, kr)
        if N is not None and not isinstance(info.N, int): ctx.assume(info.N >= 0)
        if ph < ROUNDS:
            plan = s.plan(info, ph); st.facts['solved'] = False
            if plan is None: s.dead(ik[2], [num(k) for k in range(ph + 1, ROUNDS)]); raise Kill()
            ctx.mute += 1; ctx.probe += 1
            try: s.iterate(info, ph, plan, gen, step)
            finally: ctx.mute -= 1; ctx.probe -= 1
            raise Kill()
        if ph < ROUNDS + CHECKS:
            s.settle(info, ph)
            if ph > ROUNDS and not info.recheck: s.dead(ik[2], [num(k) for k in range(ph + 1, ROUNDS + CHECKS)]); raise Kill()
            if ctx.mute: s.dead(ik[2], [num(ROUNDS + CHECKS)])
            ctx.mute += 1
            try: s.inductive(info, ph, gen, step)
            finally: ctx.mute -= 1
            raise Kill()
        if info.dropped: raise Unsupported('no inductive invariant found for a loop (counters)')
        if info.bad: raise Unsupported('no inductive invariant found for a loop (%s)' % ', '.join(str(info.locs[p].kind) for p in info.bad))
        ph -= ROUNDS + CHECKS
        if ph == 0:
            if ctx.mute: raise Kill()
            s.enter(info, gen)
            s.state(info, gen)
            if not s.guard(info, gen): raise Kill()
            before = {p: l.h.v for p, l in locs.items() if l.kind == 'cell'}
            try: step(gen)
            except (BreakEx, ReturnEx, CppThrow): raise Kill()
            if info.solved and s.bounds: s.progress(info, before)
            raise Kill()
        if ph == 1:
            if not s.final(info): raise Kill()
            return True
        if not info.exits: raise Kill()
        e = K_(ctx.fresh(I_, 'eq'), ctx.fresh(I_, 'er') if two else 0, None)
        e.flat = s.flat(info, e.q, e.r)
        s.enter(info, e); s.state(info, e)
        if not s.guard(info, e): raise Kill()
        s.univ(info, e)
        ctx.st.facts.setdefault('witness', []).append((e.q, e.r)); ctx.st.facts['weak'] = True
        ctx.mute += 1
        try:
            try: step(e)
            finally: ctx.mute -= 1
        except BreakEx: 
            return False
        raise Kill()
    def flat(s, info, q, r): return S(q * info.shape[1] + r) if info.two else q
    def gen(s, info, q, r): return K_(q, r if info.two else 0, s.flat(info, q, r))
    def enter(s, info, K):
        """0 <= K < N"""
        ctx = s.ctx
        if info.two:
            R, C = info.shape
            for c in (0 <= K.q, K.q < R, 0 <= K.r, K.r < C): ctx.assume(c)
            if info.test is not None: ctx.assume(K.flat >= 0); ctx.assume(K.flat < R * C)       # follows
        else:
            ctx.assume(K.q >= 0)
            if info.N is not None: ctx.assume(K.q < info.N)
    def guard(s, info, K):
        """the loop condition at K: assumed"""
        if info.test is None: return True
        c = info.test()
        if isinstance(c, bool): return c
        s.ctx.assume(c)
        return True
    def raw(s, info, p, l, fresh=False):
        """an arbitrary value of the type of location p"""
        v0 = info.init[p]; nm = '%s.%d' % (info.tag, list(info.locs).index(p))
        if fresh: s.ctx.st.n += 1; nm = 'free!%s%d' % (s.ctx.st.tag, s.ctx.st.n); s.ctx.st.freshlog += [nm, nm + 'h', nm + 'n']
        mk = lambda sort: z3.Const(nm, sort)
        if l.kind == 'cell':
            if is_bool(v0): return mk(z3.BoolSort())
            if is_int(v0): return mk(I_)
            if is_real(v0): return mk(R_)
            if isinstance(v0, It) and v0.seq is not None and is_int(v0.i): return v0.moved(mk(I_))
            if isinstance(v0, CPtr) and is_int(v0.off): return CPtr(v0.base, mk(I_))
            if isinstance(v0, z3.ExprRef): return mk(v0.sort())
            return Poison()
        if l.kind == 'up': return mk(T)
        if l.kind == 'str': return mk(N)
        if l.kind == 'bset': return mk(z3.BoolSort())
        if l.kind == 'arr':
            from .mat import SORT
            f = z3.Function(nm, I_, I_, SORT[l.h.kind])
            return lambda q, r: f(Z(q), Z(r))
        if l.kind == 'dmap':
            f = z3.Function(nm, N, v0[2](KEY).sort()); g = z3.Function(nm + 'h', N, z3.BoolSort())
            return (lambda k: g(k)), (lambda k: f(k)), z3.Const(nm + 'n', I_)
        if l.kind == 'stream': return None
        raise Unsupported('loop changes a container (%s)' % l.kind)
    def set(s, info, p, l, v, region=None):
        h = l.h
        if l.kind == 'cell': h.v = v
        elif l.kind == 'up':
            old = h.p
            h._p = None
            h.set(None if (z3.is_app(v) and v.decl().eq(T.nil)) else s.lib.lazy(v, None, True, 'own'))
            if isinstance(old, Obj): old.poison = 'a node of a tree the loop modifies'
            elif isinstance(old, Lazy): old.opaque = 'a tree the loop modifies'
        elif l.kind == 'str': h.v = v
        elif l.kind == 'bset': h.items = [('rest', v)]
        elif l.kind == 'arr':
            if h.live: raise Unsupported('reference to an element of an array the loop modifies')
            h.fn = v; h.uniform = False; h.version += 1
            h.log.append((region or (lambda q, r: True), v))
        elif l.kind == 'dmap':
            h.has, h.val, h.n = v; h.order = None; h.log.append((lambda k: z3.BoolVal(True), h.val))
        elif l.kind == 'stream':
            del h.parts[info.init[p]:]; h.parts.append(s.ctx.fresh(N, 'str'))
    def state(s, info, K, plan=None):
        """puts the loop state at iteration K"""
        plan = info.status if plan is None else plan
        for p, stt in plan.items():
            l = info.locs[p]
            if stt[0] == 'raw': v = s.raw(info, p, l)
            elif stt[0] == 'free':
                v = s.raw(info, p, l, True); s.ctx.st.facts['weak'] = True
                if s.entry_facts: v = s.since_entry(info, p, l, v, K)
                if p in info.inv:
                    for f in info.inv[p](K, v): s.ctx.assume(f)
            else: v = stt[1](K)
            rg = getattr(stt[1], 'region', None) if stt[0] == 'guess' else None
            s.ctx.st.freshlog += getattr(stt[1], 'fresh', ()) if stt[0] == 'guess' else ()
            if l.kind == 'up' and isinstance(v, z3.ExprRef): s.lib.about(v)
            s.set(info, p, l, v, rg(K) if rg else None)
        for c in info.cands if plan is info.status else (): s.ctx.assume(s.cand(info, c, K))
        if getattr(info, 'recfacts', None): s.ctx.st.facts['weak'] = True
        for f in info.recfacts if hasattr(info, 'recfacts') else ():
            for c in f(K): s.ctx.assume(c)
    inv_default = {}
    # ---------------------------------------------------------------- integer invariants (chosen by elimination: what the body does not preserve is dropped)
    entry_facts = False; bounds = ()
    def since_entry(s, info, p, l, v, K):
        """arbitrary, but in the first iteration what it was before the loop"""
        first = Z(K.flat) == 0
        if l.kind == 'arr':
            i0 = info.init[p][4]
            return lambda q, r: z3.If(first, real(z(i0(q, r))), v(q, r))
        if l.kind == 'cell' and isinstance(v, z3.ExprRef):
            i0 = z(info.init[p])
            if isinstance(i0, z3.ExprRef) and i0.sort() == v.sort(): return z3.If(first, i0, v)
        return v
    def candidates(s, info):
        if not s.bounds: return
        ints = [p for p, l in info.locs.items() if l.kind == 'cell' and is_int(info.init[p]) and p in info.status]
        for p in ints:
            info.cands += [('ge', p), ('up', p)] + [('le', p, i) for i in range(len(s.bounds))]
        info.cands += [('diff', p, q) for i, p in enumerate(ints) for q in ints[:i]]
        K = K_(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
        info.cands = [c for c in info.cands if s.ctx.entails(s.cand(info, c, K, info.init))]
    def cand(s, info, c, K, vals=None):
        v = lambda p: Z(vals[p] if vals is not None else info.locs[p].h.v)
        i = lambda p: Z(info.init[p])
        if c[0] == 'ge': return v(c[1]) >= i(c[1])
        if c[0] == 'up': return v(c[1]) >= i(c[1]) + Z(K.flat)
        if c[0] == 'le': return v(c[1]) <= s.bounds[c[2]]
        return v(c[1]) - v(c[2]) == i(c[1]) - i(c[2])
    def progress(s, info, before):
        """a loop that solves linear systems: every iteration advances a counter that is bounded"""
        up = [Z(info.locs[c[1]].h.v) >= Z(before[c[1]]) + 1 for c in info.cands if c[0] == 'le']
        s.ctx.oblige('terminates:a-bounded-counter-advances-in-every-iteration', z3.Or(up) if up else False)
    # ---------------------------------------------------------------- finding the effect
    def plan(s, info, j):
        if j in info.plans: return info.plans[j]
        if j == 0: info.plans[0] = {}; return info.plans[0]
        if info.plans[j - 1] is None: info.plans[j] = None; return None
        stt = s.analyse(info, j - 1)
        prev = info.plans[j - 1]
        if j > 1 and set(stt) == set(prev) and all(stt[p][0] == prev[p][0] for p in stt): 
            info.status = stt; info.plans[j] = None; return None
        info.plans[j] = stt
        return stt
    def iterate(s, info, j, plan, K, step):
        ctx = s.ctx; st = ctx.st
        info.inv = s.inv_default
        s.enter(info, K)
        s.state(info, K, plan)
        mark = len(st.log); f0 = len(st.freshlog)
        if info.test is not None:
            c = info.test()
            clean = len(st.log) == mark
            info.tests.append((j, clean, c))
            if isinstance(c, bool):
                if not c: raise Kill()
            else: ctx.assume(c)
        before = {p: s.snap(l) for p, l in info.locs.items()}
        mark = len(st.log); nu = len(st.facts.get('univ', ()))
        try: step(K); kind = 'next'
        except BreakEx: kind = 'break'
        except ReturnEx: kind = 'return'
        except CppThrow: kind = 'throw'
        if ctx.check() == z3.unsat: raise Kill()
        o = Out(kind)
        o.pc = [(c if b else z3.Not(c)) for i, (c, b) in enumerate(st.log[mark:], mark) if isinstance(c, z3.ExprRef) and i not in st.forced]
        o.fresh = set(st.freshlog[f0:])
        o.lenient = st.facts.get('lenient', False); o.solved = st.facts.get('solved', False)
        o.univ = [f(s.UQ, z3.IntVal(0)) for f in st.facts.get('univ', ())[nu:]]
        for p, l in info.locs.items():
            a = s.snap(l)
            ch = s.changed(l, before[p], a)
            if not ch: continue
            if ch == 'size': raise Unsupported('loop changes the size of an array')
            if l.kind == 'arr':
                v = z3.Const('old?', l.h.fn(QA, RA).sort()) if isinstance(l.h.fn(QA, RA), z3.ExprRef) else None
                old = v
                w = False
                from .mat import Or, ite
                for cond, val in l.h.log[before[p][0]:]:
                    c = cond(QA, RA); v0 = v
                    v = ite(c, lambda: val(QA, RA), lambda: v0); w = Or(w, c)
                o.new[p] = (v, z3.simplify(z(w)), old)
            elif l.kind == 'dmap':
                from .mat import Or, ite
                v = old = z3.Const('old?', l.h.val(KEY).sort()); w = False
                if any(len(x) == 1 for x in l.h.log[before[p][0]:]): raise Unsupported('loop replaces a map')
                for cond, val in l.h.log[before[p][0]:]:
                    c = cond(KEY); v0 = v
                    v = ite(c, lambda: val(KEY), lambda: v0); w = Or(w, c)
                o.new[p] = (v, w, old, Z(l.h.n))
            elif isinstance(a, It): o.new[p] = a.moved(a.i, SAME if isinstance(before[p], It) and a.seq is before[p].seq else None)
            elif isinstance(a, CPtr): o.new[p] = CPtr(SAME if isinstance(before[p], CPtr) and a.base is before[p].base else None, a.off)
            else: o.new[p] = a
        info.outs.setdefault(j, []).append(o)
    # ---------------------------------------------------------------- closed forms
    def names(s, e):
        out = set()
        if isinstance(e, It): e = e.i
        if isinstance(e, CPtr): e = e.off
        if isinstance(e, tuple):
            for x in e: out |= s.names(x)
            return out
        if isinstance(e, z3.ExprRef):
            for c in consts(e).values(): out.add(c.decl().name())
            out |= set(funs(e))
        return out
    def analyse(s, info, j, last=False):
        plan = info.plans[j]
        outs = [o for o in info.outs.get(j, ()) if o.kind == 'next']
        info.exits = any(o.kind != 'next' for o in info.outs.get(j, ()))
        info.nexts = outs; info.allouts = info.outs.get(j, ())
        stt = dict(plan)
        ch = [p for o in outs for p in o.new]
        for p in ch:
            if p not in stt: stt[p] = ('raw',)
        fresh = set().union(*[o.fresh for o in outs]) if outs else set()
        rawname = {}
        for p in stt: rawname['%s.%d' % (info.tag, list(info.locs).index(p))] = p; rawname['%s.%dh' % (info.tag, list(info.locs).index(p))] = p; rawname['%s.%dn' % (info.tag, list(info.locs).index(p))] = p
        info.rawname = rawname
        if j == 0: 
            for p in stt: stt[p] = ('raw',)
            return stt
        cand = [p for p in stt if stt[p][0] == 'raw' and p in plan]
        newp = [p for p in stt if p not in plan]
        ints = lambda p: info.locs[p].kind == 'cell' and (is_int(info.init[p]) or isinstance(info.init[p], (It, CPtr)))
        def leak(e, own=()):
            for n in s.names(e):
                if n in fresh: return True
                if n in rawname and rawname[n] not in own and stt[rawname[n]][0] != 'guess': return True
            return False
        def subst(e):
            """raw symbols of the locations with a closed form replaced by it"""
            if not isinstance(e, z3.ExprRef): return e
            for n in s.names(e):
                if n in rawname and stt[rawname[n]][0] == 'guess' and plan.get(rawname[n], ('raw',))[0] == 'raw':
                    q = rawname[n]; l = info.locs[q]; g = stt[q][1](s.gen(info, info.kq, info.kr))
                    e = s.replace(info, e, q, l, g)
            return e
        progress = True
        while progress:
            progress = False
            for p in cand:
                if stt[p][0] != 'raw' or not ints(p): continue
                g = s.guess_int(info, p, outs, leak, subst)
                if g is not None: stt[p] = ('guess', g); progress = True
        if any(ints(p) and stt[p][0] == 'raw' for p in cand + newp) and not last: return stt
        if any(ints(p) and plan[p][0] == 'raw' for p in cand) and not last: return stt       # look again with the counters in closed form
        progress = True
        while progress:
            progress = False
            for p in cand:
                if stt[p][0] != 'raw' or ints(p): continue
                g = s.guess_val(info, p, outs, leak, subst)
                if g is not None: stt[p] = ('guess', g); progress = True
        return stt
    def replace(s, info, e, p, l, g):
        """e with the arbitrary value of p replaced by g"""
        r = s.raw(info, p, l)
        if l.kind == 'arr':
            f = r(QA, RA).decl()
            body = z3.substitute(real(z(g(QA, RA))), (QA, z3.Var(0, I_)), (RA, z3.Var(1, I_)))
            return z3.substitute_funs(e, (f, body))
        if l.kind == 'dmap':
            for i in (0, 1):
                f = r[i](KEY).decl()
                e = z3.substitute_funs(e, (f, z3.substitute(z(g[i](KEY)), (KEY, z3.Var(0, N)))))
            return z3.substitute(e, (r[2], Z(g[2])))
        if isinstance(r, It): return z3.substitute(e, (r.i, z(g.i)))
        if isinstance(r, CPtr): return z3.substitute(e, (r.off, z(g.off)))
        if isinstance(r, Poison) or r is None: return e
        g = z(g)
        if g.sort() != r.sort() and g.sort() == I_: g = z3.ToReal(g)
        return z3.substitute(e, (r, g))
    def val(s, info, o, p):
        """value of p after the body on path o"""
        if p in o.new: return o.new[p]
        return s.raw(info, p, info.locs[p]) 
    def at(s, info, e, K):
        """term e (of the generic iteration) at iteration K"""
        if not isinstance(e, z3.ExprRef): return e
        sub = [(info.kq, Z(K.q))]
        if info.two: sub.append((info.kr, Z(K.r)))
        return z3.substitute(e, *sub)
    def pc(s, info, o, leak, subst):
        from .mat import And
        cs = [subst(c) for c in o.pc]
        if any(leak(c) for c in cs): return None
        return And(*cs)
    def guess_int(s, info, p, outs, leak, subst):
        l = info.locs[p]; v0 = info.init[p]; h = s.raw(info, p, l)
        if isinstance(v0, It): wrap = lambda x: info.init[p].moved(x)
        elif isinstance(v0, CPtr): wrap = lambda x: CPtr(info.init[p].base, x)
        else: wrap = lambda x: x
        un = lambda v: v.i if isinstance(v, It) else v.off if isinstance(v, CPtr) else v
        i0, hh = un(v0), un(h)
        for o in outs:
            if p not in o.new: continue
            v = o.new[p]
            if isinstance(v0, It) and not (isinstance(v, It) and v.seq is SAME and v.rev == v0.rev): return None
            if isinstance(v0, CPtr) and not (isinstance(v, CPtr) and v.base is SAME): return None
            if not isinstance(v0, (It, CPtr)) and isinstance(v, (It, CPtr)): return None
        es = []
        for o in outs:
            e = un(s.val(info, o, p)); e = subst(z(e))
            if leak(e, (p,)): return None
            es.append(e)
        ds = [S(unpoly(padd(poly(e), pscale(poly(hh), -1)))) for e in es]
        kn = {str(info.kq), str(info.kr), str(hh)}
        if all(same(d, ds[0]) for d in ds) and not (s.names(z(ds[0])) & kn):
            d = ds[0]
            if is_lit(d): return lambda K: wrap(S(i0 + lit(d) * K.flat))
            return lambda K: wrap(S(i0 + d * K.flat))
        if all(same(e, -hh) for e in es):
            return lambda K: wrap(S(z3.If(Z(K.flat) % 2 == 0, Z(i0), -Z(i0))))
        if all(not (s.names(e) & kn) and same(e, es[0]) for e in es):
            e0 = es[0]; return lambda K: wrap(S(z3.If(Z(K.flat) == 0, Z(i0), e0)))
        if info.two:
            R, C = info.shape
            for g in (lambda K: z3.If(Z(K.r) == 0, z3.If(Z(K.q) == 0, Z(i0), Z(i0) + C), Z(i0) + K.r), lambda K: Z(i0) + K.r,
                      lambda K: Z(i0) + z3.If(Z(K.r) == 0, z3.If(Z(K.q) == 0, Z(0), K.q - 1), K.q), lambda K: Z(i0) + K.q):
                if s.try_int(info, p, hh, outs, un, g, leak, subst): return lambda K, g=g: wrap(S(g(K)))
        # the recursion itself, as long as nothing is known about it
        return s.recursive(info, p, outs, leak, subst, wrap=wrap, un=un)
    def succ(s, info, K):
        if not info.two: return [(True, K_(S(K.q + 1), 0, S(K.q + 1)))]
        R, C = info.shape
        return [(K.r + 1 < C, K_(K.q, S(K.r + 1), s.flat(info, K.q, S(K.r + 1)))), (K.r + 1 == C, K_(S(K.q + 1), 0, s.flat(info, S(K.q + 1), 0)))]
    def try_int(s, info, p, hh, outs, un, g, leak, subst):
        ctx = s.ctx; K = s.gen(info, info.kq, info.kr)
        i0 = un(info.init[p])
        if not ctx.entails(g(K_(0, 0, 0)) == i0): return False
        R, C = info.shape
        rng = [0 <= K.q, K.q < R, 0 <= K.r, K.r < C]
        for o in outs:
            e = subst(z(un(s.val(info, o, p))))
            pc = []
            for c in o.pc:
                c = subst(c)
                if not leak(c, (p,)): pc.append(z3.substitute(c, (hh, z(S(g(K))))))
            e = z3.substitute(z(e), (hh, z(S(g(K)))))
            for c, k in s.succ(info, K):
                if not ctx.entails(z3.Implies(z3.And(*rng, c, *pc), e == g(k))): return False
        return True
    def recursive(s, info, p, outs, leak, subst, wrap=lambda x: x, un=lambda x: x):
        """f(0) = initial value, f(k+1) = what the body computes from f(k)"""
        l = info.locs[p]; v0 = info.init[p]; h = un(s.raw(info, p, l))
        if not isinstance(h, z3.ExprRef): return None
        es = []
        for o in outs:
            e = subst(z(un(s.val(info, o, p))))
            if not isinstance(e, z3.ExprRef) or leak(e, (p,)): return None
            pc = [subst(c) for c in o.pc]
            if len(outs) > 1 and any(leak(c, (p,)) for c in pc): return None
            es.append((pc, e))
        if not es: return None
        e = es[-1][1]
        for pc, x in reversed(es[:-1]):
            if x.sort() != e.sort(): return None
            e = z3.If(z3.And(*pc) if pc else z3.BoolVal(True), x, e)
        srt = h.sort()
        if e.sort() != srt: return None
        info.recdone = getattr(info, 'recdone', {})
        if not hasattr(info, 'recfacts'): info.recfacts = []
        if p not in info.recdone:
            v = un(v0); v = z(v) if not (l.kind == 'up' and v is None) else NIL
            if isinstance(v, z3.ExprRef) and v.sort() != srt: v = z3.ToReal(v)
            # everything the definition refers to is an argument: enclosing loops see how it depends on their iteration
            if any(LOOPFN.match(n) for t in (v, e) for n in funs(t)): return None
            ps = {}
            for t in (v, e):
                for c in consts(t).values():
                    if not any(c.eq(x) for x in (h, info.kq, info.kr)): ps[c.decl().name()] = c
            ps = [ps[n] for n in sorted(ps)]
            # one function symbol per definition
            ren = [(c, z3.Const('rec#%d.%s' % (i, c.sort()), c.sort())) for i, c in enumerate(ps)]
            ren2 = ren + [(h, z3.Const('rec#h.%s' % srt, srt)), (info.kq, z3.Int('rec#q')), (info.kr, z3.Int('rec#r'))]
            cv, ce = z3.substitute(v, *ren), z3.substitute(e, *ren2)
            C = info.shape[1] if info.two else 1
            key = (cv.get_id(), ce.get_id(), str(C), tuple(str(c.sort()) for c in ps))
            rd = s.ctx.recs
            if key not in rd:
                F = z3.Function('rec#%d' % len(rd), *[c.sort() for c in ps], I_, srt)
                at = lambda t, k, g: z3.substitute(t, (ren2[-3][1], g), (z3.Int('rec#q'), Z(k)))
                rd[key] = rd[F.name()] = (F, [c for _, c in ren], cv, lambda k, g: at(ce, k, g), info.two)
            F = rd[key][0]
            G = lambda k: F(*ps, Z(k))
            step = lambda K, g: s.at(info, z3.substitute(e, (h, g)), K)
            info.recdone[p] = (G, v, step, l)
            def facts(K):
                out = [G(0) == v]
                out.append(z3.Implies(Z(K.flat) >= 0, G(Z(K.flat) + 1) == step(K, G(K.flat))) if not (info.two and K.flat is info.N) else z3.BoolVal(True))
                return out
            info.recfacts.append(facts)
        G = info.recdone[p][0]
        return lambda K: wrap(G(K.flat))
    def guess_val(s, info, p, outs, leak, subst):
        l = info.locs[p]
        if l.kind == 'arr': return s.guess_arr(info, p, outs, leak, subst)
        if l.kind == 'dmap': return s.guess_dmap(info, p, outs, leak, subst)
        if l.kind == 'cell' and is_real(info.init[p]) and s.ctx.theory is not None:
            h = s.raw(info, p, l); d = []
            for o in outs:
                e = subst(s.I.dom.co(s.val(info, o, p)))
                if leak(e, (p,)): d = None; break
                x = z3.simplify(e - h, som=False)
                pc = s.pc(info, o, leak, subst)
                if str(h) in s.names(x) or (pc is None and len(outs) > 1): d = None; break
                d.append((pc, x))
            if d:
                x = d[-1][1]
                for pc, y in reversed(d[:-1]): x = z3.If(pc if not isinstance(pc, bool) else z3.BoolVal(pc), y, x)
                v0 = s.I.dom.co(info.init[p])
                return lambda K: v0 + s.total(info, x, K)
        if l.kind in ('cell', 'up', 'str', 'bset') and not isinstance(s.raw(info, p, l), Poison):
            return s.recursive(info, p, outs, leak, subst)
        return None
    def total(s, info, x, K):
        """sum of x over the iterations before K"""
        if is_lit(K.flat) and lit(K.flat) == 0: return z3.RealVal(0)
        if not info.two: return mksum(K.flat, lambda k: z3.substitute(x, (info.kq, k)))
        R, C = info.shape
        if K.flat is info.N: return mksum2(R, C, lambda q, r: z3.substitute(x, (info.kq, q), (info.kr, r)))
        return mksum(K.flat, lambda k: z3.substitute(x, (info.kq, QUO(Z(C), k)), (info.kr, REM(Z(C), k))))
    def solve(s, info, w):
        """the iteration (tq, tr) that writes position (QA, RA), from the equalities of the region w; None if not determined"""
        def conjuncts(w):
            conj = []; todo = [w]
            while todo:
                x = todo.pop()
                if z3.is_and(x): todo += x.children()
                elif z3.is_not(x) and z3.is_or(x.arg(0)): todo += [z3.Not(c) for c in x.arg(0).children()]
                elif z3.is_not(x) and z3.is_not(x.arg(0)): todo.append(x.arg(0).arg(0))
                elif z3.is_or(x):
                    alts = [conjuncts(c) for c in x.children()]
                    conj += [c for c in alts[0] if all(any(c.eq(d) for d in a) for a in alts[1:])]
                else: conj.append(x)
            return conj
        eqs = [x for x in conjuncts(w) if z3.is_eq(x) and x.arg(0).sort() == I_]
        kq, kr = info.kq, info.kr
        tq = tr = None
        def iso(e, k, other):
            l = linear(e, k)
            if l is None or l[1] not in (1, -1): return None
            a = z(l[0])
            if mentions(a, k) or (other is not None and mentions(a, other)): return None
            return S(-l[0] if l[1] == 1 else l[0])
        for x in eqs:
            e = x.arg(0) - x.arg(1)
            if not info.two:
                if tq is None and mentions(e, kq): tq = iso(e, kq, None)
            else:
                if tq is None and mentions(e, kq) and not mentions(e, kr): tq = iso(e, kq, kr)
                if tr is None and mentions(e, kr) and not mentions(e, kq): tr = iso(e, kr, kq)
        if not info.two: return None if tq is None else (tq, 0)
        if tq is not None and tr is not None: return tq, tr
        R, C = info.shape
        for x in eqs:
            e = x.arg(0) - x.arg(1)
            if mentions(e, kq) and mentions(e, kr):
                d = S(unpoly(padd(poly(e), pscale(poly(kq * C + kr), -1)))); 
                if not mentions(z(d), kq) and not mentions(z(d), kr): i = S(-d)
                else:
                    d = S(unpoly(padd(poly(e), poly(kq * C + kr))))
                    if mentions(z(d), kq) or mentions(z(d), kr): continue
                    i = d
                return QUO(Z(C), Z(i)), REM(Z(C), Z(i))
        return None
    def before(s, info, t, K):
        from .mat import And, Or, lt, le, eq
        if not info.two: return And(le(0, t[0]), lt(t[0], K.q))
        R, C = info.shape
        return And(le(0, t[0]), lt(t[0], R), le(0, t[1]), lt(t[1], C), Or(lt(t[0], K.q), And(eq(t[0], K.q), lt(t[1], K.r))))
    def guess_arr(s, info, p, outs, leak, subst):
        from .mat import And, ite, Or
        l = info.locs[p]; init = info.init[p][4]; H = s.raw(info, p, l)(QA, RA).decl()
        i0 = real(z(init(QA, RA)))
        bodyv = z3.substitute(i0, (QA, z3.Var(0, I_)), (RA, z3.Var(1, I_)))
        parts = []
        for o in outs:
            if p not in o.new: continue
            v, w, old = o.new[p]
            w = subst(z(w)); v = subst(z(v))
            if leak(w, (p,)): return None
            if str(H.name()) in s.names(w): return None
            pc = s.pc(info, o, lambda e: leak(e, (p,)), subst)
            if pc is None: return None
            parts.append([w, v, old, pc])
        if not parts: return None
        kn = [info.kq] + ([info.kr] if info.two else [])
        if all(not any(mentions(w, k) for k in kn) for w, v, old, pc in parts):
            # the same elements in every iteration: an accumulation, or arbitrary
            reg = z(Or(*[w for w, v, old, pc in parts]))
            if len(parts) == 1 and len(outs) == 1 and l.h.kind == 'real' and s.ctx.theory is not None and not leak(parts[0][1], (p,)):
                v = z3.simplify(z3.substitute(z3.If(reg, parts[0][1], OLDc(R_)), (reg, z3.BoolVal(True))))
                v = parts[0][1]
                while z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and v.arg(0).eq(reg): v = v.arg(1)
                apps = {}
                todo = [v]
                while todo:
                    x = todo.pop()
                    if z3.is_quantifier(x): continue
                    if z3.is_app(x) and x.decl().eq(H): apps[x.get_id()] = x; continue
                    todo += x.children()
                if len(apps) == 1:
                    a = list(apps.values())[0]
                    d = z3.simplify(v - a)
                    if H.name() not in s.names(d) and 'old?' not in s.names(d):
                        ia = real(z(init(a.arg(0), a.arg(1))))
                        def g(K):
                            t = z3.If(reg, ia + s.total(info, d, K), i0)
                            return lambda q, r: z3.substitute(t, (QA, Z(q)), (RA, Z(r)))
                        g.region = lambda K: (lambda q, r: z3.substitute(reg, (QA, Z(q)), (RA, Z(r))))
                        return g
            free = z3.Function('free!%s.%d' % (info.tag, list(info.locs).index(p)), I_, I_, I_, i0.sort())
            s.ctx.st.facts['weak'] = True
            def g(K):
                t = z3.If(z3.And(reg, Z(K.flat) != 0) if s.entry_facts else reg, free(Z(K.flat), QA, RA), i0)
                return lambda q, r: z3.substitute(t, (QA, Z(q)), (RA, Z(r)))
            g.weak = reg; g.fresh = [free.name()]
            g.region = lambda K: (lambda q, r: z3.substitute(reg, (QA, Z(q)), (RA, Z(r))))
            return g
        t0 = None
        for w, v, old, pc in parts:
            if leak(v, (p,)): return None
            t = s.solve(info, w)
            if t is None: return None
            if t0 is None: t0 = t
            elif not (same(t[0], t0[0]) and same(t[1], t0[1])): return None
        tpl = i0; cs = []
        for w, v, old, pc in parts:
            v = z3.substitute_funs(v, (H, bodyv)); v = z3.substitute(v, (old, i0))
            c = z(And(w, pc))
            c = z3.substitute_funs(c, (H, bodyv))
            c = s.at(info, c, K_(t0[0], t0[1], None)); v = s.at(info, v, K_(t0[0], t0[1], None))
            tpl = z3.If(z3.simplify(c), v, tpl); cs.append(c)
        reg = z3.simplify(z3.Or(*cs))
        def g(K):
            b = s.before(info, t0, K)
            tt = i0 if b is False else z3.If(z(b), tpl, i0)
            def fn(q, r): 
                return z3.substitute(tt, (QA, Z(q)), (RA, Z(r)))
            return fn
        def region(K):
            rr = z3.And(z(s.before(info, t0, K)), reg)
            return lambda q, r: z3.simplify(z3.substitute(rr, (QA, Z(q)), (RA, Z(r))))
        g.region = region
        return g
    def guess_dmap(s, info, p, outs, leak, subst): return s.lib.guess_dmap(s, info, p, outs, leak, subst)
    # ---------------------------------------------------------------- checking
    def settle(s, info, ph):
        """first check phase: fix the candidate; later ones: weaken what was not preserved"""
        if ph in info.plans: return
        info.plans[ph] = True
        info.inv = s.inv_default
        if ph == ROUNDS:
            js = [j for j in range(ROUNDS) if info.plans.get(j) is not None]
            stt = s.analyse(info, js[-1], last=True)
            info.recheck = True
        else:
            stt = info.status
            info.recheck = bool(info.bad or info.dropped)
            for p in info.bad: stt[p] = ('free',)
            info.cands = [c for c in info.cands if c not in info.dropped]
        info.bad = set(); info.dropped = set()
        for p in stt:
            if stt[p][0] == 'raw': stt[p] = ('free',)
        info.status = stt
        if ph == ROUNDS: info.solved = any(o.solved for o in info.allouts); s.candidates(info)
        if ph == ROUNDS: s.bound(info)
    def bound(s, info):
        """number of iterations, from the loop condition at the generic iteration"""
        if info.N is not None or info.test is None: return
        j = max([t[0] for t in info.tests] or [0])
        ts = [t for t in info.tests if t[0] == j]
        info.cond = None
        if not ts or not all(t[1] and same(t[2], ts[0][2]) for t in ts): return
        c = ts[0][2]
        if isinstance(c, bool): return
        for n in s.names(c):
            if n in info.rawname or n.startswith('free!'): return
        info.cond = c
        x = c; neg = False
        while z3.is_not(x): x = x.arg(0); neg = not neg
        k = info.kq; n = None
        kind = x.decl().kind()
        if kind in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and x.arg(0).sort() == I_:
            a, b = x.arg(0), x.arg(1)
            strict = kind in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            if kind in (z3.Z3_OP_GE, z3.Z3_OP_GT): a, b = b, a
            if neg: a, b = b, a; strict = not strict        # not(a<=b) is b<a
            l = linear(a - b, k)                            # alpha + beta*k < 0 (or <= 0)
            if l is not None and l[1] == 1: n = S(-l[0]) if strict else S(1 - l[0])
        elif z3.is_eq(x) and neg and x.arg(0).sort() == I_:
            l = linear(x.arg(0) - x.arg(1), k)
            if l is not None and l[1] in (1, -1): n = S(-l[0]) if l[1] == 1 else S(l[0])
        elif z3.is_distinct(x) and not neg:
            l = linear(x.arg(0) - x.arg(1), k)
            if l is not None and l[1] in (1, -1): n = S(-l[0]) if l[1] == 1 else S(l[0])
        if n is None or mentions(z(n), k): return
        ctx = s.ctx
        at = lambda v: z3.substitute(c, (k, Z(v)))
        for cand in ([n] if is_lit(n) else [n, S(z3.If(n > 0, n, z3.IntVal(0)))]):
            if is_lit(cand) and lit(cand) < 0: cand = 0
            if ctx.entails(Z(cand) >= 0) and ctx.entails(z3.Not(at(cand))) and ctx.entails(z3.Implies(z3.And(k >= 0, k < cand), c)):
                info.N = cand; return
    def inductive(s, info, ph, K, step):
        ctx = s.ctx; st = ctx.st
        s.enter(info, K); s.state(info, K)
        if info.two and info.test is not None:
            c = info.test()
            if not ctx.entails(c): info.ill = True; raise Kill()
        elif not s.guard(info, K): raise Kill()
        before = {p: s.snap(l) for p, l in info.locs.items() if p not in info.status}
        mark = len(st.log); f0 = len(st.freshlog)
        try: step(K)
        except (BreakEx, ReturnEx, CppThrow):
            info.exits = True; raise Kill()
        if ctx.check() == z3.unsat: raise Kill()
        ss = s.succ(info, K)
        c, k = ss[st.choose(len(ss))]
        if c is not True: ctx.assume(c)
        if ctx.check() == z3.unsat: raise Kill()
        for cd in info.cands:
            if cd not in info.dropped and not ctx.entails(s.cand(info, cd, k)): info.dropped.add(cd)
        for p, l in info.locs.items():
            a = s.snap(l)
            if p not in info.status:
                if s.changed(l, before[p], a):
                    info.bad.add(p); info.status[p] = ('free',)
                continue
            if info.status[p][0] == 'free': 
                if p in info.inv:
                    pass
                continue
            g = info.status[p][1](k)
            if not s.agree(l, a, g, getattr(info.status[p][1], 'weak', None)):
                info.bad.add(p)
                if s.debug:
                    x = l.h.fn(QA, RA) if l.kind == 'arr' else a
                    print('NOT INDUCTIVE', p, l.kind, '\n  end:', x, '\n  guess:', g(QA, RA) if l.kind == 'arr' else g)
    debug = bool(__import__('os').environ.get('VF_LOOPS'))
    def agree(s, l, a, g, weak=None):
        from .mat import And, le, lt
        ctx = s.ctx
        if l.kind == 'arr':
            h = l.h
            q, r = ctx.fresh(I_, 'cq'), (0 if is_lit(h.C) and lit(h.C) == 1 else ctx.fresh(I_, 'cr'))
            x, y = h.fn(q, r), g(q, r)
            if same(x, y): return True
            rng = z(And(le(0, q), lt(q, h.R), le(0, r), lt(r, h.C)))
            if weak is not None: rng = z3.And(rng, z3.Not(z3.substitute(weak, (QA, Z(q)), (RA, Z(r)))))
            return ctx.entails(z3.Implies(rng, z(x) == z(y)))
        if l.kind == 'dmap':
            n = ctx.fresh(N, 'ck')
            s.lib.names_known(n); l.h.name_facts(n)
            return ctx.entails(z3.And(z(l.h.has(n)) == z(g[0](n)), z3.Implies(z(l.h.has(n)), l.h.val(n) == g[1](n)), Z(l.h.n) == Z(g[2])))
        if same(a, g): return True
        if isinstance(a, It): return isinstance(g, It) and a.seq is g.seq and ctx.entails(Z(a.i) == Z(g.i))
        if isinstance(a, CPtr): return isinstance(g, CPtr) and a.base is g.base and ctx.entails(Z(a.off) == Z(g.off))
        if l.kind == 'up' and a is None: a = NIL
        a, g = z(a), z(g)
        if isinstance(a, z3.ExprRef) and isinstance(g, z3.ExprRef):
            if a.sort() != g.sort():
                if a.sort() == I_: a = z3.ToReal(a)
                if g.sort() == I_: g = z3.ToReal(g)
            if a.sort() == g.sort(): return ctx.entails(a == g)
        return False
    # ---------------------------------------------------------------- afterwards
    UQ = z3.Int('u?')
    def univ(s, info, K):
        """every iteration before K went on"""
        from .mat import And, Or, Not
        if any(o.lenient for o in info.allouts): return
        s.univ_inner(info, K)
        if not info.exits: return
        outs = [o for o in info.allouts if o.kind == 'next']
        if not outs: s.lib.univ_false(info, K); return
        fresh = set().union(*[o.fresh for o in outs])
        cs = []
        for o in outs:
            for c in o.pc:
                for n in s.names(c):
                    if n in fresh: return
                    if n in info.rawname and info.status.get(info.rawname[n], ('free',))[0] == 'free': return
            cs.append(And(*o.pc))
        c = z(Or(*cs))
        for n in list(s.names(c)):
            if n in info.rawname:
                q = info.rawname[n]
                if info.status[q][0] == 'guess': c = s.replace(info, c, q, info.locs[q], info.status[q][1](s.gen(info, info.kq, info.kr)))
        def f(q, r):
            k = K_(q, r, None)
            return z3.Implies(z(s.before(info, (q, r), K)), s.at(info, c, k))
        s.lib.univ(f)
    def univ_inner(s, info, K):
        """what the loops inside the body established for all of their iterations, in every iteration before K"""
        outs = [o for o in info.allouts if o.kind == 'next']
        if info.two or not outs or not all(o.univ for o in outs): return
        alts = []
        for o in outs:
            fs = []
            for c in o.univ + o.pc:
                bad = False
                for n in list(s.names(c)):
                    if n in o.fresh or (n in info.rawname and info.status.get(info.rawname[n], ('free',))[0] == 'free'): bad = True; break
                    if n in info.rawname:
                        p = info.rawname[n]; c = s.replace(info, c, p, info.locs[p], info.status[p][1](s.gen(info, info.kq, info.kr)))
                if not bad: fs.append(c)
            alts.append(z3.And(*fs) if fs else z3.BoolVal(True))
        c = z3.Or(*alts)
        if z3.is_true(z3.simplify(c)): return
        s.lib.univ(lambda q, r: z3.Implies(z(s.before(info, (q, 0), K)), z3.substitute(s.at(info, c, K_(q, 0, None)), (s.UQ, Z(r)))))
    def final(s, info):
        ctx = s.ctx
        if info.two:
            R, C = info.shape
            K = K_(R, 0, info.N)
        elif info.N is not None:
            K = K_(info.N, 0, info.N)
            if not is_lit(info.N): ctx.assume(info.N >= 0)
        else:
            if info.test is None: return False
            k = ctx.fresh(I_, 'kend'); K = K_(k, 0, k); ctx.assume(k >= 0)
        s.state(info, K)
        if info.two and info.test is not None:
            c = info.test()
            if not ctx.entails(z3.Not(c) if isinstance(c, z3.ExprRef) else not c): raise Unsupported('end of a loop over a matrix')
        if info.N is None:
            c = info.test()
            if isinstance(c, bool):
                if c: raise Kill()
            else: ctx.assume(z3.Not(c))
            if getattr(info, 'cond', None) is not None:
                ctx.assume(z3.Or(K.q == 0, z3.substitute(info.cond, (info.kq, Z(K.q) - 1))))
            ctx.st.facts['weak'] = True
        s.univ(info, K)
        for p, (G, v, stp, l) in getattr(info, 'recdone', {}).items():
            if info.status.get(p, ('x',))[0] == 'guess':
                if v.sort() == z3.BoolSort(): s.sticky(info, K, G, v, stp)
                s.lib.on_recursion(s, info, K, G, v, stp, l)
        if ctx.check() == z3.unsat: raise Kill()
        return True

    def sticky(s, info, K, G, v, step):
        """a flag that is never cleared (or never set) again: its value is 'some iteration set (cleared) it'"""
        ctx = s.ctx
        g = s.gen(info, info.kq, info.kr)
        for val in (True, False):
            keep = z3.simplify(step(g, z3.BoolVal(val)))
            if not (z3.is_true(keep) if val else z3.is_false(keep)): continue
            hit = z3.simplify(step(g, z3.BoolVal(not val)))
            if not val: hit = z3.Not(hit)
            end = G(Z(K.flat)) if val else z3.Not(G(Z(K.flat)))
            v0 = v if val else z3.Not(v)
            w = K_(ctx.fresh(I_, 'wq'), ctx.fresh(I_, 'wr') if info.two else 0, None)
            inside = lambda k: z3.And(tob(s.before(info, (k.q, k.r), K)), s.at(info, hit, k))
            ctx.assume(z3.Implies(end, z3.Or(v0, inside(w))))
            ctx.assume(z3.Implies(v0, end))
            s.lib.univ(lambda q, r: z3.Implies(z3.Not(end), z3.Not(inside(K_(q, r, None)))))
            ctx.st.facts.setdefault('witness', []).append((w.q, w.r))
            return

def tob(c): return z3.BoolVal(c) if isinstance(c, bool) else c
def OLDc(sort): return z3.Const('old?', sort)
