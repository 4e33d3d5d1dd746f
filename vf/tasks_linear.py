"""Solving linear systems (C15): invariants of the elimination, of the reordering and of the back substitution in SolveLinear.

X is an arbitrary vector.  dot(q) is the sum of A(q,r)*X(r) over a row of the current matrix; the elimination keeps "X solves the original system" equivalent to
"X solves the current one", and keeps the matrix in echelon form (pivot column of row q: TrueRowNumber[q], or q where that is 0)."""
import time
import z3
from .core import *
from .extract import params_of
from .interp import ty
from .tasks_tree import NS, c_str
from .tasks_mat import *
from .tasks_mat import task, A_
from .tasks_det import els
from .mat import *
from .theory import *

def And_(*c): return z3.And(*[tob(x) for x in c])
def rng(lo, x, hi): return z3.And(Z(lo) <= Z(x), Z(x) < Z(hi))

class Sys:
    """a system A x = b of the elimination, with what is known about it"""
    def __init__(s, name):
        s.A = z3.Function(name, I_, I_, R_); s.b = z3.Function(name + '_b', I_, R_); s.dot = z3.Function(name + '_dot', I_, R_)
        s.f1, s.f2, s.f11 = [], [], []         # facts about a row, a row and a column, two rows
        s.terms = []

class LEnv(MEnv):
    def __init__(E, tu, ctx):
        MEnv.__init__(E, tu, ctx)
        ctx.assume_global(E.eps > 0)
        ctx.st.facts['weak'] = True        # the invariants describe one way to solve a system: a refuted one is not a wrong result
        E.lib.rule.entry_facts = True
        E.I.loop_hooks.insert(0, E.loop)
        E.discover = False; E.swapped = None; E.rolequery = None
        E.R, E.C = E.dim('R'), E.dim('C')
        E.X = z3.Function('X', I_, R_); E.solves = z3.Bool('X_solves')
        for n, c in E.contracts().items(): E.I.contracts[NS + n] = c
        s = E.orig = E.cur = Sys('A0'); w = z3.Int('w0')
        # definition: X solves the original system iff every row holds
        s.f1.append(lambda q: z3.Implies(z3.And(E.solves, rng(0, q, E.R)), s.dot(q) == s.b(q)))
        ctx.assume(z3.Or(E.solves, z3.And(rng(0, w, E.R), s.dot(w) != s.b(w)))); s.terms.append(w)
        E.terms = []; E.final = None; E.phase = 'start'
    def system(E):
        s = E.orig; lib = E.lib
        mk = lambda cls, R, C, f: Obj(cls, {'rows': Cell(R), 'cols': Cell(C), 'data': Arr(lib, S(R * C) if not is_lit(C) else R, 'real', f, (R, C), 0)})
        return mk('Mat', E.R, E.C, lambda q, r: s.A(Z(q), Z(r))), mk('Vec', E.R, 1, lambda q, r: s.b(Z(q)))
    # ---------------------------------------------------------------- contracts of the callees (proved with C13)
    def contracts(E):
        ctx, lib = E.ctx, E.lib
        def swap(I, this, args, d):
            """Mat::SwapRow: rows i and j exchanged"""
            i, j = args[0], args[1]; i, j = I.get(i), I.get(j); R, C = E.shape(this)
            ctx.oblige('precondition:SwapRow', And(le(0, i), lt(i, R), le(0, j), lt(j, R)))
            if E.swapped is not None: E.swapped[0] = True
            f = els(E, this); a = this.f['data']; i, j = Z(i), Z(j)
            a.write(lambda q, r: True, lambda q, r: f(z3.If(Z(q) == i, j, z3.If(Z(q) == j, i, Z(q))), r))
            return this
        def maxrow(I, this, args, d):
            """GetMaxAbsRowIndex: the row of [first, last] with the largest absolute value in a column"""
            A, lo, hi, c = args[0], *[I.get(x) for x in args[1:]]
            R, C = E.shape(A)
            if E.rolequery is not None: E.rolequery(lo, c)
            ctx.oblige('precondition:GetMaxAbsRowIndex', And(le(0, lo), le(lo, hi), lt(hi, R), le(0, c), lt(c, C)))
            f = els(E, A); m = ctx.fresh(I_, 'maxrow'); ctx.assume(And(le(lo, m), le(m, hi))); E.terms.append(m)
            lo, hi, c = Z(lo), Z(hi), Z(c)
            E.cur.f1.append(lambda q: z3.Implies(z3.And(lo <= q, q <= hi), A_(f(q, c)) <= A_(f(m, c))))
            return m
        def resize(I, this, args, d):
            """Mat::Resize: the elements that fit are kept, new ones are zero"""
            n = [I.get(x) for x in args]; n = n if len(n) == 2 else n + [1]
            ctx.oblige('precondition:Resize', And(lt(0, n[0]), lt(0, n[1])))
            R, C = E.shape(this); f = els(E, this)
            if is_lit(C) and lit(C) == 1 and is_lit(n[1]) and lit(n[1]) == 1: g = lambda q, r: z3.If(Z(q) < R, f(q, r), z3.RealVal(0))
            else: g = lambda q, r: z3.If(z3.And(Z(q) < R, Z(r) < C), f(q, r), z3.RealVal(0))
            a = Arr(lib, S(n[0] * n[1]) if not is_lit(n[1]) else n[0], 'real', g, (n[0], n[1]), ctx.time)
            I.set_value(this.f['data'], a); I.set_value(this.f['rows'], n[0]); I.set_value(this.f['cols'], n[1])
            return None
        return {'Mat::SwapRow': swap, 'GetMaxAbsRowIndex': maxrow, 'Mat::Resize': resize, 'Vec::Resize': resize}
    # ---------------------------------------------------------------- instances of the facts about the current system
    def know(E, s, rows, cols=()):
        """the facts about s at these rows and columns"""
        done = E.ctx.st.facts.setdefault('known', {})
        rows = uniq([Z(x) for x in rows]); cols = uniq([Z(x) for x in cols])
        for a in rows:
            for i, f in enumerate(s.f1):
                k = (id(s), 1, i, a.get_id())
                if k not in done: done[k] = (a, s); E.ctx.assume(f(a))
            for b in cols:
                for i, f in enumerate(s.f2):
                    k = (id(s), 2, i, a.get_id(), b.get_id())
                    if k not in done: done[k] = (a, b, s); E.ctx.assume(f(a, b))
            for b in rows:
                for i, f in enumerate(s.f11):
                    k = (id(s), 11, i, a.get_id(), b.get_id())
                    if k not in done: done[k] = (a, b, s); E.ctx.assume(f(a, b))
    def combination(E, G, r):
        """G, a term in the elements of column r of the current matrix, as [(row, coefficient)]"""
        A = E.cur.A; atoms = []
        seen = set(); todo = [G]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if is_app_of(x, A) and mentions(x.arg(1), r):
                if not any(x.eq(a) for a in atoms): atoms.append(x)
                continue
            todo += x.children()
        out = []
        for a in atoms:
            al = z3.substitute(G, *[(y, z3.RealVal(1 if y.eq(a) else 0)) for y in atoms])
            al = z3.simplify(z3.substitute(al, (r, Z(E.C) - 1)))
            if mentions(a.arg(0), r): raise Unsupported('row operation')
            out.append((a.arg(0), a.arg(1), al))
        return out
    # ---------------------------------------------------------------- proofs by cases, with reciprocals instead of divisions
    def linear(E):
        """a solver with the linear facts of the path only (fewer hypotheses: what follows from them holds)"""
        st = E.ctx.st
        s = z3.Solver(); s.set('timeout', Ctx.TIMEOUT)
        for c in st.solver.assertions():
            if not nonlinear(c): s.add(c)
        return s
    def ask(E, s, *cs):
        ctx = E.ctx; t0 = time.time(); ctx.nchecks += 1
        th = ctx.st.th
        if th is not None: cs = [th.abstract(c) for c in cs]
        r = s.check(*cs); ctx.solver_time += time.time() - t0
        return r
    def cases(E, s, c, hyp=()):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        k = inner_condition(c)
        if k is None:
            inv, todo = [], c
            while True:
                d = a_division(todo)
                if d is None: break
                y = d.arg(1)
                if E.ask(s, *hyp, y == 0) != z3.unsat: return False
                inv.append(y * INV(y) == 1); todo = z3.substitute(todo, (d, d.arg(0) * INV(y)))
            return E.ask(s, *hyp, *inv, z3.Not(z3.simplify(todo))) == z3.unsat
        for val in (True, False):
            h = k if val else z3.Not(k)
            if a_division(k) is None and E.ask(s, *hyp, h) == z3.unsat: continue
            if not E.cases(s, z3.substitute(c, (k, z3.BoolVal(val))), hyp + (h,)): return False
        return True
    def cached(E, kind, c, f):
        ctx = E.ctx; m = ctx.__dict__.setdefault('by_cases_cache', {}); l = m.setdefault((kind, ctx.st.h, c.hash()), [])
        for x, r in l:
            if x.eq(c): return r
        r = f(); l.append((c, r)); return r
    def by_cases(E, c): return E.cached('cases', c, lambda: E.cases(E.linear(), c))
    def follows(E, c): return E.cached('follows', c, lambda: E.ask(E.linear(), z3.Not(c)) == z3.unsat)
    def oblige(E, name, c):
        ctx = E.ctx
        if not ctx.mute and not isinstance(c, bool):
            t0 = time.time()
            if E.by_cases(c):
                key = (ctx.st.xid, tuple(ctx.st.taken), ctx.st.h, name, c.hash())
                if not (ctx.st.i < len(ctx.st.prefix) and key in ctx.seen_obs):
                    ctx.seen_obs.add(key); ctx.obs.append(Obligation(name, 'proved', None, '', list(ctx.st.log), int(1000 * (time.time() - t0))))
                return True
        return ctx.oblige(name, c)
    def rowsum(E, A, b, q, terms, name):
        """row q of a matrix and of its right-hand side as the same linear combination of rows of the current system (lean/Sum.lean: sum_comb): [(row, coefficient)]"""
        ctx = E.ctx; r = ctx.fresh(I_, 'col'); ctx.assume(rng(0, r, E.C))
        G = z3.simplify(A(q, r)); co = E.combination(G, r)
        if any(not a[1].eq(r) for a in co): raise Unsupported('row operation across columns')
        E.know(E.cur, uniq([a for a, _, _ in co] + [q] + list(terms)), [r, E.ycell_x()] if E.ycell_x() is not None else [r])
        E.oblige(name + ':row-is-a-combination-of-rows', G == z3.Sum([z3.RealVal(0)] + [al * E.cur.A(a, r) for a, _, al in co]))
        E.oblige(name + ':right-hand-side-is-the-same-combination', b(q) == z3.Sum([z3.RealVal(0)] + [al * E.cur.b(a) for a, _, al in co]))
        return [(a, al) for a, _, al in co]
    xcell = None
    def ycell_x(E): return None if E.xcell is None else E.xcell.v
    # ---------------------------------------------------------------- the invariant of the elimination
    def echelon(E, y, x, A, b, T, largest):
        """(facts about a row, about a row and a column, about two rows)"""
        R, C = E.R, E.C; y, x = Z(y), Z(x)
        p = lambda q: z3.If(T(q) != 0, T(q), q)
        f0 = [And_(0 <= y, y <= R, y <= x, x <= C)]
        f1 = [('pivot-columns', lambda q: z3.Implies(rng(0, q, C), z3.And(z3.Or(T(q) == 0, T(q) > q), z3.Implies(q >= y, T(q) == 0)))),
              ('pivots-are-one', lambda q: z3.Implies(rng(0, q, y), z3.And(p(q) < x, p(q) - q <= x - y, A(q, p(q)) == 1)))]
        f2 = [('zero-below', lambda q, r: z3.Implies(z3.And(rng(y, q, R), rng(0, r, x)), A(q, r) == 0)),
              ('zero-left-of-pivots', lambda q, r: z3.Implies(z3.And(rng(0, q, y), rng(0, r, p(q))), A(q, r) == 0))]
        f11 = [('pivots-move-right', lambda q, k: z3.Implies(z3.And(0 <= q, q < k, k < y), p(q) - q <= p(k) - k))]
        if largest: f1.append(('largest-first', lambda q: z3.Implies(z3.And(rng(y, q, R), x < C), A_(A(q, x)) <= A_(A(y, x)))))
        return f0, f1, f2, f11
    def content(E):
        """element functions of the matrix, the right-hand side and the table of pivot columns, as they are now"""
        fa, fb = els(E, E.A), els(E, E.b); ft = E.T.snapshot()
        return (lambda q, r: fa(Z(q), Z(r))), (lambda q: fb(Z(q), Z(0))), (lambda q: Z(ft(Z(q), Z(0))))
    def prove(E, name, y, x, largest):
        ctx = E.ctx; A, b, T = E.content(); cur = E.cur
        f0, f1, f2, f11 = E.echelon(y, x, A, b, T, largest)
        ints = uniq([Z(y), Z(x)] + E.terms + cur.terms + list(E.old_terms))
        for c in f0: ctx.oblige(name + ':bounds', c)
        q, k, r = ctx.fresh(I_, 'q'), ctx.fresh(I_, 'k'), ctx.fresh(I_, 'r')
        E.know(cur, [q, k] + ints, [r] + ints + [T(q), T(k)])
        for n, f in f1: E.oblige(name + ':' + n, f(q))
        for n, f in f2: E.oblige(name + ':' + n, f(q, r))
        for n, f in f11: E.oblige(name + ':' + n, f(q, k))
        # X solves the original system: then it solves the current one; it does not: then it does not
        ctx.assume(rng(0, q, E.R))
        res = lambda a: cur.dot(a) - cur.b(a)
        left = lambda co: z3.Sum([z3.RealVal(0)] + [al * res(a) for a, al in co])
        E.oblige(name + ':solutions-are-kept', z3.Implies(E.solves, left(E.rowsum(A, b, q, ints, name)) == 0))
        new = ctx.fresh(z3.BoolSort(), 'X_solves_new'); hyp = []
        for t in ints:
            if ctx.entails(z3.Not(rng(0, t, E.R))): continue
            hyp.append((t, E.rowsum(A, b, t, ints, name)))
        for rnd in (1, 2):
            for t, co in hyp:
                if E.follows(z3.Implies(new, E.solves)): break
                for a, _ in co:
                    lemma = res(a) == 0
                    if not E.follows(z3.Implies(new, lemma)) and E.by_cases(z3.Implies(z3.And(new, rng(0, t, E.R), left(co) == 0), lemma)): ctx.assume(z3.Implies(z3.And(new, rng(0, t, E.R)), lemma))
        E.oblige(name + ':no-solutions-are-added', z3.Implies(new, E.solves))
    old_terms = ()
    def abstract(E, y, x, largest, newT=True):
        """forget the contents of the matrix, keep the invariant"""
        ctx = E.ctx; st = ctx.st; nm = ctx.fresh(I_, 'M').decl().name(); s = Sys(nm); st.freshlog += [nm, nm + '_b', nm + '_dot', nm + '_T']
        R, C = E.R, E.C
        E.wipe(E.A, lambda q, r: s.A(Z(q), Z(r))); E.wipe(E.b, lambda q, r: s.b(Z(q)))
        if newT:
            T_ = z3.Function(nm + '_T', I_, I_); E.I.wrote(E.T); E.T.sync(); f = lambda q, r: T_(Z(q)); E.T.fn = f; E.T.version += 1; E.T.log.append((lambda q, r: True, f)); E.T.uniform = False
        A, b, T = E.content()
        f0, f1, f2, f11 = E.echelon(y, x, A, b, T, largest)
        for c in f0: ctx.assume(c)
        s.f1 += [f for _, f in f1]; s.f2 += [f for _, f in f2]; s.f11 += [f for _, f in f11]
        # assumption: what is compared with the tolerance is zero or not smaller than it
        y, x = Z(y), Z(x); eps = E.eps
        s.f2.append(lambda q, r: z3.Implies(z3.And(rng(y, q, R), rng(x, r, C)), z3.Or(s.A(q, r) == 0, A_(s.A(q, r)) >= eps)))
        s.f1.append(lambda q: z3.Implies(rng(y, q, R), z3.Or(s.b(q) == 0, A_(s.b(q)) >= eps)))
        s.f1.append(lambda q: z3.Implies(z3.And(E.solves, rng(0, q, R)), s.dot(q) == s.b(q)))
        w = ctx.fresh(I_, 'w'); ctx.assume(z3.Or(E.solves, z3.And(rng(0, w, R), s.dot(w) != s.b(w)))); s.terms.append(w)
        s.y, s.x, s.T = y, x, T
        E.old_terms = uniq([y, x]); E.terms = []
        E.cur = s
        E.know(s, [y, w], [x, y])
        return s
    def wipe(E, m, f):
        a = m.f['data']; a.sync(); E.I.wrote(a); a.fn = f; a.version += 1; a.log.append((lambda q, r: True, f)); a.uniform = False
    def aside(E):
        """a proof on a path of its own: its facts are not needed by what follows"""
        return E.ctx.choose(2) == 0
    # ---------------------------------------------------------------- loops
    def places(E, fr):
        """matrices, arrays and scalars in scope"""
        out = {}; seen = set()
        def go(name, v):
            if isinstance(v, RefWrap): v = v.o
            if v is None or id(v) in seen or isinstance(v, (int, float, bool, str, z3.ExprRef)): return
            seen.add(id(v))
            if isinstance(v, Cell) or isinstance(v, Arr): out[name] = v
            elif isinstance(v, Obj) and v.region != 'global':
                for k, x in v.f.items():
                    go(name + '.' + k, x)
                    if isinstance(x, Arr) and v.cls in ('Mat', 'Vec'): x.holder = v
        for i, f in enumerate([fr] + [x for x in E.I.frames if x is not fr]):
            for k, v in f.env.items(): go('%s' % (k,), v)
        return out
    def mark(E, v): return (v.version, v.fn) if isinstance(v, Arr) else v.v
    def same_mark(E, a, b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
        if isinstance(a, tuple) and isinstance(b, tuple): return a[0] == b[0]
        return a is b or (type(a) == type(b) and isinstance(a, (int, bool, float)) and a == b)
    def loop(E, I, node, fr, init, cond, inc, body):
        ctx, K = E.ctx, E.ctx.known_sub; key = node['id']
        if init == 'range' or not E.lib.symbolic_loop(I, fr, cond): return False
        kind = K.get(('kind', key))
        if kind == 'rule': return False
        if node['kind'] == 'DoStmt': return False
        test = lambda: I.truth(I.full(cond, fr)) if cond else True
        def once():
            try: I.scoped(body, fr)
            except ContinueEx: pass
            if inc: I.full(inc, fr)
        if E.discover:
            # only looking for what an enclosing loop modifies
            for i in range(1 + ctx.choose(2)):
                if i == 1 or not ctx.decide(test()): break
                try: once()
                except BreakEx: break
            return True
        pl = E.places(fr); mod = K.setdefault(('mod', key), set())
        before = {k: E.mark(v) for k, v in pl.items()}
        def changed(): return {k for k, v in pl.items() if not E.same_mark(E.mark(v), before[k])}
        if kind is None:
            # what does the body modify?
            old = E.swapped; E.swapped = [False]
            if ctx.choose(2) == 0:
                if not ctx.decide(test()): raise Kill()
                E.discover = True; ctx.mute += 1; ctx.probe += 1
                try: once()
                except (BreakEx, ReturnEx, CppThrow): pass
                finally: E.discover = False; ctx.mute -= 1; ctx.probe -= 1
                mod |= changed()
                if E.swapped[0]: K[('swaps', key)] = True
                raise Kill()
            E.swapped = old
            mats = [pl[k] for k in mod if isinstance(pl[k], Arr) and hasattr(pl[k], 'holder')]
            if K.get(('swaps', key)): kind = 'reorder' if E.phase == 'eliminated' else 'eliminate'
            elif len(mats) == 1 and E.phase == 'eliminated': kind = 'back'
            else: kind = 'rule'
            K[('kind', key)] = kind; raise Restart()
        getattr(E, 'l_' + kind)(I, key, pl, mod, test, once, changed)
        return True
    def modset(E, key, new):
        mod = E.ctx.known_sub[('mod', key)]
        if not new <= mod: mod |= new; raise Restart()
    def havoc_ints(E, pl, mod):
        out = {}
        for k in sorted(mod):
            v = pl[k]
            if isinstance(v, Cell):
                if isinstance(v.v, bool) or isinstance(v.v, z3.BoolRef): v.v = E.ctx.fresh(z3.BoolSort(), 'b')
                elif isinstance(v.v, (int, z3.ArithRef)) and not (isinstance(v.v, z3.ArithRef) and v.v.is_real()): v.v = E.ctx.fresh(I_, k)
                else: raise Unsupported('loop changes %r' % (v.v,))
                out[k] = v
        return out
    def l_eliminate(E, I, key, pl, mod, test, once, changed):
        ctx, K = E.ctx, E.ctx.known_sub
        arrs = [pl[k] for k in mod if isinstance(pl[k], Arr)]
        if E.phase == 'start':
            ms = [a.holder for a in arrs if hasattr(a, 'holder')]
            A = [m for m in ms if m.cls == 'Mat']; b = [m for m in ms if m.cls == 'Vec']
            T = [a for a in pl.values() if isinstance(a, Arr) and a.kind == 'int' and a.container == 'vector']
            if len(A) != 1 or len(b) != 1 or len(T) != 1: raise Unsupported('elimination loop')
            E.A, E.b, E.T = A[0], b[0], T[0]
        elif any(a is not E.A.f['data'] and a is not E.b.f['data'] and a is not E.T for a in arrs): raise Unsupported('elimination loop')
        outer = E.phase == 'start'
        if ('roles', key) not in K:
            if outer:
                # which counters are the row and the column: the arguments of the search for a pivot
                ints = E.havoc_ints(pl, mod)
                def ask(lo, c):
                    ys = [k for k, v in ints.items() if isinstance(lo, z3.ExprRef) and v.v.eq(lo)]; xs = [k for k, v in ints.items() if isinstance(c, z3.ExprRef) and v.v.eq(c)]
                    if len(ys) == 1 and len(xs) == 1: K[('roles', key)] = (ys[0], xs[0]); raise Restart()
                    raise Unsupported('counters of the elimination loop')
                E.rolequery = ask; ctx.mute += 1
                try:
                    if ctx.decide(test()): once()
                except Restart: ctx.mute = 0; raise
                raise Unsupported('counters of the elimination loop')
            K[('roles', key)] = None
        if outer: E.ycell, E.xcell = pl[K[('roles', key)][0]], pl[K[('roles', key)][1]]
        name = 'elimination' if outer else 'search-for-a-pivot'
        y, x = E.ycell, E.xcell
        drop = K.setdefault(('drop', key), set())
        def cands():
            out = {'column-exists': Z(x.v) < Z(E.C)}
            for k in mod:
                v = pl[k]
                if not isinstance(v, Cell) or v is y or v is x: continue
                if isinstance(v.v, (int, z3.ArithRef)): out[k + '==row'] = Z(v.v) == Z(y.v)
            return {k: c for k, c in out.items() if k not in drop}
        def check():
            bad = {k for k, c in cands().items() if not ctx.entails(c)}
            if bad: drop.update(bad); raise Restart()
        largest = 'largest' not in drop
        def largest_holds():
            if not largest: return
            q = ctx.fresh(I_, 'q'); E.know(E.cur, [q] + E.terms + E.cur.terms + [Z(y.v)], [x.v])
            A, b, T = E.content(); f = E.echelon(y.v, x.v, A, b, T, True)[1][-1][1]
            if not ctx.entails(f(q)): drop.add('largest'); raise Restart()
        if outer: E.phase = 'eliminating'
        if E.aside():
            check(); largest_holds()
            E.prove(name + ':at-loop-entry', y.v, x.v, largest); raise Kill()
        E.havoc_ints(pl, mod)
        newT = any(pl[k] is E.T for k in mod)
        before = {k: E.mark(v) for k, v in pl.items()}
        s = E.abstract(y.v, x.v, largest, newT)
        start = {k: E.mark(v) for k, v in pl.items()}
        def new(): return {k for k, v in pl.items() if not E.same_mark(E.mark(v), start[k])}
        for c in cands().values(): ctx.assume(c)
        if ctx.check() == z3.unsat: raise Kill()
        if not ctx.decide(test()):
            if outer: E.done(s, y.v)
            return
        try: once()
        except BreakEx:
            E.modset(key, new())
            if E.aside(): E.prove(name + ':at-break', y.v, x.v, False); raise Kill()
            s = E.abstract(y.v, x.v, False, newT)
            if outer: E.done(s, y.v)
            return
        E.modset(key, new())
        check(); largest_holds()
        E.prove(name + ':preserved-by-the-loop', y.v, x.v, largest)
        raise Kill()
    def done(E, s, rank):
        E.phase = 'eliminated'; E.final = s; s.rank = rank
    # ---------------------------------------------------------------- after the elimination
    def pivot(E, q): T = E.final.T; return z3.If(T(q) != 0, T(q), q)
    def zero_rows(E, q):
        """what the check of the remaining rows left: the right-hand side of a row without pivot is zero"""
        E.lib.inst(S(q - E.final.rank), 0); E.lib.inst(q, 0)
    def owners(E):
        """own(k): the row whose pivot column is k, or -1"""
        if hasattr(E, 'own'): return
        ctx = E.ctx; s = E.final; own = E.own = z3.Function('own', I_, I_); p = E.pivot
        j, k = ctx.fresh(I_, 'j'), ctx.fresh(I_, 'k')
        E.know(s, [j, k])
        ctx.oblige('pivot-columns-differ', z3.Implies(z3.And(rng(0, j, s.rank), rng(0, k, s.rank), p(j) == p(k)), j == k))
        s.f1.append(lambda k: z3.Or(own(k) == -1, z3.And(rng(0, own(k), s.rank), p(own(k)) == k)))
        s.f1.append(lambda j: z3.Implies(rng(0, j, s.rank), own(p(j)) == j))
    def counter(E, pl, mod):
        ints = [pl[k] for k in mod if isinstance(pl[k], Cell)]
        if len(ints) != 1: raise Unsupported('counters of a loop')
        return ints[0]
    def l_reorder(E, I, key, pl, mod, test, once, changed):
        ctx = E.ctx; s = E.final; i = E.counter(pl, mod); R, C = E.R, E.C
        if any(pl[k] is not E.A.f['data'] and pl[k] is not E.b.f['data'] and pl[k] is not i for k in mod): raise Unsupported('reordering loop')
        E.owners(); own, p = E.own, E.pivot
        fa, fb, _ = E.content()
        def moved(f, n): return lambda q, *r: z3.If(Z(q) <= n, f(q, *r), z3.If(own(Z(q)) > n, f(own(Z(q)), *r), z3.RealVal(0)))
        def prove(name):
            A, b, _ = E.content(); n = Z(i.v); q, r = ctx.fresh(I_, 'q'), ctx.fresh(I_, 'r'); ctx.assume(rng(0, q, C)); ctx.assume(rng(0, r, C))
            ctx.oblige(name + ':bounds', z3.And(-1 <= n, n < C))
            rows = uniq([q, n, n + 1, own(q), own(n), own(n + 1), p(n), p(n + 1), s.y])
            for x in rows: E.zero_rows(x)
            E.know(s, rows, [r, q, n])
            ctx.oblige(name + ':rows-at-their-pivots', A(q, r) == moved(fa, n)(q, r))
            ctx.oblige(name + ':right-hand-sides-at-their-pivots', b(q) == moved(fb, n)(q))
        if E.aside(): prove('reordering:at-loop-entry'); raise Kill()
        i.v = ctx.fresh(I_, 'i'); n = Z(i.v); ctx.assume(z3.And(-1 <= n, n < C))
        E.wipe(E.A, moved(fa, n)); E.wipe(E.b, lambda q, r, g=moved(fb, n): g(q))
        start = {k: E.mark(v) for k, v in pl.items()}
        if not ctx.decide(test()): return
        E.know(s, [n], [n])
        try: once()
        except BreakEx: raise Unsupported('break out of the reordering loop')
        E.modset(key, {k for k, v in pl.items() if not E.same_mark(E.mark(v), start[k])})
        prove('reordering:preserved-by-the-loop')
        raise Kill()
    def l_back(E, I, key, pl, mod, test, once, changed):
        ctx = E.ctx; C = E.C; i = E.counter(pl, mod)
        arrs = [pl[k] for k in mod if isinstance(pl[k], Arr)]
        if len(arrs) != 1 or not hasattr(arrs[0], 'holder') or arrs[0].holder.cls != 'Vec': raise Unsupported('back substitution loop')
        ret = E.ret = arrs[0].holder
        if ret is E.b: raise Unsupported('back substitution in place')
        fa, fb, _ = E.content()
        def row(Y): return lambda q: Y(q) == fb(q) - mksum(S(C - q - 1), lambda k: fa(q, S(q + 1 + k)) * Y(S(q + 1 + k)))
        def now():
            f = els(E, ret); return lambda q: f(Z(q), Z(0))
        def prove(name):
            n = Z(i.v); q = ctx.fresh(I_, 'q')
            ctx.oblige(name + ':size', z3.And(tob(eq(E.shape(ret)[0], C)), tob(eq(E.shape(ret)[1], 1))))
            ctx.oblige(name + ':bounds', z3.And(-1 <= n, n < C))
            if ctx.check(n < q, q < C) == z3.unsat: return       # no entry yet
            ctx.assume(z3.And(n < q, q < C))
            E.know_back(q)
            ctx.oblige(name + ':entries-so-far', row(now())(q))
        E.backfacts = None
        if E.aside(): prove('back-substitution:at-loop-entry'); raise Kill()
        nm = ctx.fresh(I_, 'Y').decl().name(); ctx.st.freshlog.append(nm); Y = z3.Function(nm, I_, R_)
        i.v = ctx.fresh(I_, 'i'); n = Z(i.v); ctx.assume(z3.And(-1 <= n, n < C))
        E.wipe(ret, lambda q, r: Y(Z(q)))
        E.backfacts = lambda q: z3.Implies(z3.And(n < q, q < C), row(Y)(q)); E.Y = Y; E.system_back = (fa, fb)
        start = {k: E.mark(v) for k, v in pl.items()}
        if not ctx.decide(test()): return
        try: once()
        except BreakEx: raise Unsupported('break out of the back substitution')
        E.modset(key, {k for k, v in pl.items() if not E.same_mark(E.mark(v), start[k])})
        prove('back-substitution:preserved-by-the-loop')
        raise Kill()
    backfacts = None
    def know_back(E, q):
        if E.backfacts is not None: E.ctx.assume(E.backfacts(q))
    # ---------------------------------------------------------------- sums
    def sum_pivot(E, name, f, k0, n):
        """sum of f over [0,n) where f is zero left of k0 (lean/Sum.lean: sum_pivot)"""
        ctx = E.ctx; r = ctx.fresh(I_, 'r'); ctx.assume(z3.Implies(rng(0, r, k0), rng(0, r, n)))
        ctx.oblige(name + ':pivot-in-row', rng(0, k0, n))
        E.know(E.final, [k0] + E.rows_now, [r])
        ctx.oblige(name + ':zero-left-of-the-pivot', z3.Implies(rng(0, r, k0), f(r) == 0))
        tail = mksum(S(n - k0 - 1), lambda k: f(S(k0 + 1 + k)))
        t = mksum(n, f)
        ctx.assume(t == f(k0) + tail)
        return t, tail
    def sum_same(E, name, n, f, g, know=lambda k: None):
        """equal terms, equal sums (lean/Sum.lean: sum_ext)"""
        ctx = E.ctx; k = ctx.fresh(I_, 'k'); ctx.assume(z3.Or(k == -1, rng(0, k, n)))
        know(k)
        ctx.oblige(name, z3.Implies(rng(0, k, n), f(k) == g(k)))
        ctx.assume(mksum(n, f) == mksum(n, g))
    def zero_row(E, q, name):
        """a row without pivot"""
        ctx = E.ctx; s = E.final; r = ctx.fresh(I_, 'r'); ctx.assume(rng(0, r, E.C)); E.know(s, [q], [r]); E.zero_rows(q)
        ctx.oblige(name + ':row-without-pivot-is-zero', s.A(q, r) == 0)
    def solves_final(E, name, V, row_fact):
        """vector V satisfies every row of the eliminated system, hence (no-solutions-are-added) the original one"""
        ctx = E.ctx; s = E.final; C = E.C; q = ctx.fresh(I_, 'q'); ctx.assume(rng(0, q, E.R))
        E.know(s, [q])
        f = lambda r: s.A(q, r) * V(r)
        if ctx.decide(q >= s.rank):
            E.zero_row(q, name); total = mksum(C, f)
            k = ctx.fresh(I_, 'k'); ctx.assume(rng(0, k, C)); E.know(s, [q], [k]); ctx.oblige(name + ':terms-are-zero', f(k) == 0); ctx.assume(total == 0)
        else:
            E.owners(); k0 = ctx.fresh(I_, 'k0'); ctx.assume(k0 == E.pivot(q)); E.rows_now = [q]
            E.know(s, [q, E.pivot(q), k0], [k0]); ctx.assume(E.own(k0) == q)
            total, tail = E.sum_pivot(name, f, k0, C)
            row_fact(q, k0)
        ctx.oblige(name, total == s.b(q))
    def infinitely_many(E, name):
        """for every t there is a solution whose entry in a certain column is t"""
        ctx = E.ctx; s = E.final; C = E.C; E.owners(); own, p = E.own, E.pivot
        f = ctx.fresh(I_, 'free'); t = ctx.fresh(R_, 't'); V = z3.Function(ctx.fresh(I_, 'V').decl().name(), I_, R_)
        ctx.oblige(name + ':fewer-pivots-than-columns', Z(s.rank) < C)
        # f: the first row whose pivot is not on the diagonal, or the number of pivots (least number principle)
        ctx.assume(z3.And(0 <= f, f <= s.rank, z3.Implies(f < s.rank, s.T(f) != 0)))
        least = lambda j: z3.Implies(rng(0, j, f), s.T(j) == 0)
        o = own(f); E.know(s, [f, o]); ctx.assume(least(o))
        ctx.oblige(name + ':a-column-without-pivot', o == -1)
        # V: defined from the last column to the first
        V_ = lambda k: V(Z(k))
        def rec(k, j): return z3.Implies(rng(0, k, C), z3.And(z3.Implies(own(k) == j, z3.Implies(j >= 0, V(k) == s.b(j) - mksum(S(C - k - 1), lambda i: s.A(j, S(k + 1 + i)) * V_(S(k + 1 + i))))), z3.Implies(own(k) == -1, V(k) == z3.If(k == f, t, z3.RealVal(0)))))
        ctx.assume(rec(f, o))
        ctx.oblige(name + ':entry-is-the-parameter', V(f) == t)
        E.solves_final(name + ':every-parameter-gives-a-solution', V_, lambda q, k0: ctx.assume(rec(k0, q)))
    def unique(E, name):
        """any solution X of the original system is the returned vector: entry q, given the entries right of it"""
        ctx = E.ctx; s = E.final; C = E.C; q = ctx.fresh(I_, 'q'); ctx.assume(rng(0, q, C)); ctx.assume(E.solves); X, Y = lambda k: E.X(Z(k)), lambda k: E.Y(Z(k))
        E.know(s, [q], [q]); E.rows_now = [q]
        f = lambda r: s.A(q, r) * X(r)
        total, tail = E.sum_pivot(name, f, q, C); ctx.assume(s.dot(q) == total)
        fa, fb = E.system_back; E.know_back(q)
        def ih(k): E.ctx.assume(z3.Implies(z3.And(q + 1 + k > q, q + 1 + k < C), X(q + 1 + k) == Y(q + 1 + k)))
        E.sum_same(name + ':same-terms', S(C - q - 1), lambda k: f(S(q + 1 + k)), lambda k: fa(q, S(q + 1 + k)) * Y(S(q + 1 + k)), ih)
        ctx.oblige(name, X(q) == Y(q))

INV = z3.Function('reciprocal', R_, R_)
def find_term(c, p):
    seen = set()
    def go(x):
        if x.get_id() in seen: return None
        seen.add(x.get_id())
        for y in x.children():
            f = go(y)
            if f is not None: return f
        return x if p(x) else None
    return go(c)
def a_division(c): return find_term(c, lambda x: z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)))
NONLIN = {}
def nonlinear(c):
    k = c.get_id()
    if k not in NONLIN:
        def p(x):
            if not z3.is_app(x): return False
            o = x.decl().kind()
            if o == z3.Z3_OP_DIV: return not z3.is_rational_value(x.arg(1))
            if o == z3.Z3_OP_MUL: return sum(1 for y in x.children() if not (z3.is_rational_value(y) or z3.is_int_value(y))) > 1
            return False
        NONLIN[k] = (find_term(c, p) is not None, c)
    return NONLIN[k][0]
def inner_condition(c):
    x = find_term(c, lambda x: z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE)
    return None if x is None else x.arg(0)

def uniq(l):
    out = []
    for x in l:
        x = Z(x) if isinstance(x, int) else x
        x = z3.simplify(x)
        if not any(x.eq(y) for y in out): out.append(x)
    return out

def t_linear(log):
    @task
    def t(tu, ctx):
        E = LEnv(tu, ctx); A, b = E.system(); R, C = E.R, E.C
        l = E.cfg.f['logLevel'].v; tr = E.enum('TRACE'); ctx.assume_global(l >= tr if log else l < tr)
        allow = E.cfg.f['allowIndeterminateEquation'].v
        try: r = E.I.get(E.run(E.fn('SolveLinear'), None, [A, b]))
        except CppThrow as e:
            if E.error_is(e, 'MathError', 'ERROR_OVER_DETERMINED_EQUATIONS'): ctx.oblige('ensures:over-determined-error-only-for-more-equations-than-unknowns', R > C); return
            ctx.oblige('ensures:more-equations-than-unknowns-are-reported-as-over-determined', R <= C)
            if E.final is None: ctx.fail('ensures:errors-are-thrown-after-the-elimination')
            s = E.final
            if E.error_is(e, 'MathError', 'ERROR_SINGULAR_MATRIX'):
                # some row without pivot has a right-hand side that is not zero: X (arbitrary) does not solve the original system
                ws = [x for q, _ in E.lib.witnesses() for x in (S(q + s.rank), q)]
                for w in ws:
                    if ctx.entails(rng(s.rank, w, R)): E.zero_row(w, 'singular'); ctx.assume(s.dot(w) == 0)
                ctx.oblige('ensures:singular-error-only-if-there-is-no-solution', z3.Not(E.solves)); return
            if E.error_is(e, 'MathError', 'ERROR_INFINITY_SOLUTIONS'):
                ctx.oblige('ensures:infinitely-many-error-only-for-square-systems', R == C)
                E.infinitely_many('ensures:infinitely-many-error-only-if-there-are'); return
            if E.error_is(e, 'MathError', 'ERROR_INDETERMINATE_EQUATION'):
                ctx.oblige('ensures:indeterminate-error-only-for-fewer-equations-than-unknowns', R < C)
                ctx.oblige('ensures:indeterminate-error-only-if-not-allowed', z3.Not(tob(allow)))
                E.infinitely_many('ensures:indeterminate-error-only-if-there-are-infinitely-many'); return
            ctx.fail('ensures:throws-only-these-errors')
        ctx.oblige('ensures:more-equations-than-unknowns-are-reported-as-over-determined', R <= C)
        if E.final is None or not hasattr(E, 'Y'): ctx.fail('ensures:returns-after-back-substitution')
        s = E.final
        if not (isinstance(r, Obj) and r.cls == 'Vec'): raise Unsupported('result of SolveLinear')
        ctx.oblige('ensures:one-entry-per-unknown', And(eq(E.shape(r)[0], C), eq(E.shape(r)[1], 1)))
        q, _ = E.point(C, 1); ctx.oblige('ensures:returns-the-result-of-the-back-substitution', E.at(r, q, 0) == E.Y(Z(q)))
        square = ctx.decide(eq(R, C))
        which = ctx.choose(2)
        if square:
            k = ctx.fresh(I_, 'k'); E.know(s, [k]); ctx.oblige('ensures:square:pivots-on-the-diagonal', z3.And(Z(s.rank) == C, z3.Implies(rng(0, k, C), s.T(k) == 0)))
            s.f1.append(lambda k: z3.Implies(rng(0, k, C), s.T(k) == 0))
        else: ctx.oblige('ensures:under-determined-systems-only-if-allowed', tob(allow))
        if which and square: E.unique('ensures:the-only-solution'); return
        if which: return
        fa, fb = E.system_back; Y = lambda k: E.Y(Z(k))
        def back(q, k0):
            E.know_back(k0); E.know(s, [q, k0], [k0])
            E.sum_same('ensures:solves-the-system:same-terms', S(C - k0 - 1), lambda k: s.A(q, S(k0 + 1 + k)) * Y(S(k0 + 1 + k)), lambda k: fa(k0, S(k0 + 1 + k)) * Y(S(k0 + 1 + k)))
        E.solves_final('ensures:solves-the-system', Y, back)
    return t
def c15(): return {'SolveLinear, logging off': t_linear(False), 'SolveLinear, logging on': t_linear(True)}
