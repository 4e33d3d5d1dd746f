"""The nonlinear solver (C16): its loops against the contracts of the table (C18), of matrices of expressions (C17), of matrices (C13) and of linear solving (C15)."""
import z3
from .core import *
from .extract import params_of
from .tree import T, NIL, nilq, mk, proj, isnode, WF
from .tspecs import *
from .tasks_tree import NS
from .tasks_mat import *
from .tasks_mat import task, A_
from .tasks_sym import smat, num, setup as sym_setup, elements, same as same_sym, DIFFT, DTHROW
from .tasks_vars import names, ctor
from .maps import *
from .mat import *

TID = z3.DeclareSort('Assignment')                 # an assignment of values to the names of a table
VALS = z3.Function('value_of', TID, I_, R_)        # its k-th value
OCCN = z3.Function("occurs_in_expression", T, N, B)
SUBT = z3.Function('substitute', T, TID, T)        # an expression with the table's values for the variables (C06)
EVT = z3.Function('evaluate', T, R_)               # value of an expression (C01)

class SEnv(MEnv):
    def __init__(s, tu, ctx):
        MEnv.__init__(s, tu, ctx)
        s.maxit = s.cfg.f['maxIterations'].v; ctx.assume_global(s.maxit >= 0)
        s.lib.rule.entry_facts = True; s.lib.rule.bounds = (s.maxit, s.maxit + 1)
        s.solves = Cell(0); s.lib.globals['linear systems solved'] = s.solves
        s.first = None
        for n in list(s.contracts()): s.I.contracts[NS + n] = s.contracts()[n]
        s.E = s
    def new_vec(s, n, fn, cls='Vec', C=1):
        a = Arr(s.lib, n if isinstance(C, int) and C == 1 else S(n * C), 'real', fn, (n, C), s.ctx.time)
        return Obj(cls, {'rows': Cell(n, s.ctx.time), 'cols': Cell(C, s.ctx.time), 'data': a}, s.ctx.time)
    def fresh_mat(s, R, C, hint, cls='Mat'):
        f = z3.Function(s.ctx.fresh(I_, hint).decl().name(), I_, I_, R_); s.ctx.st.freshlog.append(f.name())
        return s.new_vec(R, lambda q, r: f(Z(q), Z(r)), cls, C), f
    def table(s, n, hint='x'):
        ns = names(s, n, hint + '_name'); t = z3.Const(hint, TID)
        o = Obj('VarsTable', {'vars': ns, 'values': s.new_vec(n, lambda q, r: VALS(t, Z(q))), 'table': Cell(t)})
        o.ns, o.n, o.t = ns, n, t
        return o
    def tid(s, o):
        c = o.f['table']
        if not isinstance(c, Cell): raise Unsupported('another table')
        return c.v
    def math_error(s, which=None):
        c = s.ctx.fresh(I_, 'error')
        return CppThrow(Obj('MathError', {'errorType': Cell(c), 'errInfo': Str('')}), 'MathError')
    # ---------------------------------------------------------------- contracts of the callees
    def contracts(E):
        lib, ctx = E.lib, E.ctx
        def names_unchanged(I, this, args, d): return None
        def setvalues(I, this, args, d):
            """VarsTable::SetValues (C18): the k-th name gets the k-th value; requires as many values as names"""
            v = args[0]; n = this.f['vars'].n
            ctx.oblige('precondition:SetValues-as-many-values-as-names', And(eq(E.shape(v)[0], n), eq(E.shape(v)[1], 1)))
            f = v.f['data'].snapshot()
            lib.I.wrote(this)
            lib.I.set_value(this.f['values'], v)
            c = this.f['table']; lib.I.wrote(c); c.v = ctx.fresh(TID, 'assignment')
            E.start(lambda: E.step_from_start(f, n))
            return None
        def values(I, this, args, d): return this.f['values']
        def vars_(I, this, args, d): return this.f['vars']
        def varnums(I, this, args, d): return this.f['vars'].n
        def sclone(I, this, args, d):
            """SymMat::Clone (C17)"""
            R, C = E.shape(this); f = elements(E, this).snapshot()
            return E.sym(R, C, f)
        def subs(I, this, args, d):
            """SymMat::Subs(VarsTable) (C17, C06)"""
            if not (isinstance(args[0], Obj) and args[0].cls == 'VarsTable'): return NotImplemented
            t = E.tid(args[0]); a = elements(E, this); f = a.snapshot()
            E.start(lambda: ctx.oblige('starts-from-the-given-values', z3.Implies(Z(E.solves.v) == 0, t == E.t0)))
            E.replace(this, lambda q, r: SUBT(f(q, r), t))
            return this
        def calc(I, this, args, d):
            """SymMat::Calc (C17, C01): every element becomes its value, or an error is thrown"""
            if ctx.choose(2): raise E.math_error()
            f = elements(E, this).snapshot()
            E.replace(this, lambda q, r: num(E.ops, ev(f(q, r))))
            return this
        def ev(t): return t.arg(2) if is_app_of(t, T.node) else EVT(t)
        def tomat(I, this, args, d):
            """SymMat::ToMat (C17)"""
            R, C = E.shape(this); f = elements(E, this).snapshot()
            q, r = ctx.fresh(I_, 'q'), ctx.fresh(I_, 'r')
            if not is_app_of(f(q, r), T.node) and ctx.choose(2): raise CppThrow(Ext('runtime_error'), 'runtime_error')
            return E.new_vec(R, lambda q, r: ev(f(Z(q), Z(r))), 'Mat', C)
        def jac(I, this, args, d):
            """Jacobian (C17)"""
            a, ns = args; R = E.shape(a)[0]; f = elements(E, a).snapshot()
            ctx.oblige('precondition:Jacobian-one-column', eq(E.shape(a)[1], 1))
            if ctx.choose(2): raise CppThrow(Ext('runtime_error'), 'runtime_error')
            return E.sym(R, ns.n, lambda q, r: DIFFT(f(q, z3.IntVal(0)), ns.at(r, 0)))
        def linear(I, this, args, d):
            """SolveLinear (C15): a vector with one entry per column, or a math error; requires as many right-hand sides as rows"""
            A, b = args
            ctx.oblige('precondition:SolveLinear-shapes', And(eq(E.shape(A)[0], E.shape(b)[0]), eq(E.shape(b)[1], 1)))
            ctx.oblige('at-most-one-linear-system-per-allowed-iteration', Z(E.solves.v) <= E.maxit)
            lib.I.wrote(E.solves); E.solves.v = S(E.solves.v + 1); ctx.st.facts['solved'] = True
            if ctx.choose(2): raise E.math_error()
            v, f = E.fresh_mat(E.shape(A)[1], 1, 'step', 'Vec')
            E.step = f
            return v
        def meq(I, this, args, d):
            """Mat==double (C13)"""
            if not isinstance(args[0], (int, float, z3.ArithRef)): return NotImplemented
            k = I.dom.co(I.get(args[0])); R, C = E.shape(this); f = this.f['data'].snapshot()
            near = lambda q, r: A_(f(Z(q), Z(r)) - k) < E.eps
            b = ctx.fresh(B, 'all_near')
            if ctx.decide(b): lib.univ(lambda q, r: z3.Implies(z3.And(0 <= q, q < R, 0 <= r, r < C), near(q, r)))
            else:
                q, r = ctx.fresh(I_, 'wq'), ctx.fresh(I_, 'wr')
                ctx.assume(z3.And(0 <= q, q < R, 0 <= r, r < C, z3.Not(near(q, r))))
            return b
        def transpose(I, this, args, d):
            """Mat::Transpose (C13)"""
            R, C = E.shape(this); f = this.f['data'].snapshot()
            return E.new_vec(C, lambda q, r: f(r, q), 'Mat', R)
        def product(I, this, args, d):
            """Mat*Mat (C13); requires fitting shapes; only the shape of the result is used"""
            if not isinstance(args[0], Obj): return NotImplemented
            if 'Vec' in ty(d).split('(')[0]: return NotImplemented
            (R, M), (M2, C) = E.shape(this), E.shape(args[0])
            if not ctx.decide(eq(M, M2)): raise E.math_error()
            return E.fresh_mat(R, C, 'product', 'Mat')[0]
        def norm2(I, this, args, d):
            """Norm2 (C13); only that it is not negative is used"""
            x = ctx.fresh(R_, 'norm2'); ctx.assume(x >= 0); return x
        def ones(I, this, args, d):
            """Ones (C13)"""
            R, C = E.shape(this)
            ctx.oblige('precondition:Ones-square', eq(R, C))
            m = E.new_vec(R, lambda q, r: z3.If(Z(q) == Z(r), z3.RealVal(1), z3.RealVal(0)), 'Mat', C)
            lib.I.set_value(this, m); return this
        return {'VarsTable::SetValues': setvalues, 'VarsTable::Values': values, 'VarsTable::Vars': vars_, 'VarsTable::VarNums': varnums, 'VarsTable::ToString': c_str(lib),
                'SymMat::Clone': sclone, 'SymMat::Subs': subs, 'SymMat::Calc': calc, 'SymMat::ToMat': tomat, 'Jacobian': jac, 'SolveLinear': linear,
                'Mat::operator==': meq, 'Mat::Transpose': transpose, 'Mat::operator*': product, 'Mat::Norm2': norm2, 'Mat::Ones': ones, 'GetErrorInfo': c_str(lib)}
    def sym(E, R, C, f):
        a = Arr(E.lib, S(R * C), 'tree', f, (R, C), E.ctx.time); a.region = 'fresh'
        u = UP(None, E.ctx.time); u.set(a)
        return Obj('SymMat', {'rows': Cell(R, E.ctx.time), 'cols': Cell(C, E.ctx.time), 'data': u}, E.ctx.time)
    def replace(E, o, f):
        a = elements(E, o); a.sync()
        if a.frozen: raise Unsupported('modification of the arguments')
        a.put(lambda q, r: True, f)
    def start(E, f): 
        if E.t0 is not None: f()
    t0 = None; step = None
    def step_from_start(E, f, n):
        """after one linear system is solved, new values are the given ones plus a multiple of its solution"""
        ctx = E.ctx
        if E.step is None: return
        i, j = ctx.fresh(I_, 'i'), ctx.fresh(I_, 'j'); ctx.assume(z3.And(0 <= i, i < n, 0 <= j, j < n))
        d = E.step; x = lambda k: f(k, z3.IntVal(0)) - VALS(E.t0, k)
        ctx.oblige('first-step-starts-from-the-given-values', z3.Implies(Z(E.solves.v) == 1, x(i) * d(j, 0) == x(j) * d(i, 0)))

def equations(E, R, cls='SymVec'):
    return smat(E, R, 1, 'equation', cls)
def is_root(E, eqs, R, t, name):
    q, _ = E.point(R, 1); E.lib.inst(q, 0, 1)
    E.ctx.oblige(name, A_(EVT(SUBT(eqs.spec(q, Z(0)), t))) <= E.eps)
def same_table(E, o, name='ensures:initial-table-unchanged'):
    q, _ = E.point(o.n, 1)
    E.ctx.oblige(name, z3.And(E.tid(o) == o.t, tob(eq(o.f['vars'].n, o.n)), o.f['vars'].at(q, 0) == o.ns.nm(q), E.at(o.f['values'], q, 0) == VALS(o.t, q)))
def same_names(E, r, o, name='ensures:exactly-the-unknowns-of-the-table'):
    if not (isinstance(r, Obj) and r.cls == 'VarsTable'): raise Unsupported('result of the solver')
    q, _ = E.point(o.n, 1)
    E.ctx.oblige(name, z3.And(tob(eq(r.f['vars'].n, o.n)), r.f['vars'].at(q, 0) == o.ns.nm(q)))
def t_solver(fn, square=False, level=None):
    @task
    def t(tu, ctx):
        E = SEnv(tu, ctx)
        if level is not None:
            l = E.cfg.f['logLevel'].v; ctx.assume_global(l < E.enum('INFO') if level == 'quiet' else l >= E.enum('INFO'))
        n = E.dim('n'); R = n if square else E.dim('R')
        eqs = equations(E, R); o = E.table(n); E.t0 = o.t; ctx.assume_global(E.solves.v == 0) if isinstance(E.solves.v, z3.ExprRef) else None
        try: r = E.run(E.fn(fn), None, [eqs, o])
        except CppThrow as e:
            same_table(E, o); same_sym(E, eqs); return
        r = E.I.get(r)
        same_names(E, r, o)
        is_root(E, eqs, R, E.tid(r), 'ensures:every-equation-holds-within-epsilon')
        same_table(E, o); same_sym(E, eqs)
    return t


# ---------------------------------------------------------------- the two entry points
def solver_contract(E, square):
    def c(I, this, args, d):
        """SolveByNewtonRaphson / SolveByLM / Solve(equations, table): throws, or a table of the same names where every equation holds within epsilon"""
        ctx = E.ctx; eqs, tab = args
        if not (isinstance(tab, Obj) and tab.cls == 'VarsTable'): return NotImplemented
        R, C = E.shape(eqs)
        if square and not ctx.decide(eq(R, tab.f['vars'].n)): raise Kill()         # LM: as many equations as unknowns (precondition)
        if ctx.choose(2): raise CppThrow(Ext('runtime_error'), 'runtime_error')
        n = tab.f['vars'].n; t = ctx.fresh(TID, 'solution'); f = elements(E, eqs).snapshot()
        r = Obj('VarsTable', {'vars': tab.f['vars'], 'values': E.new_vec(n, lambda q, r: VALS(t, Z(q))), 'table': Cell(t, ctx.time)}, ctx.time)
        E.lib.univ(lambda q, r: z3.Implies(z3.And(0 <= q, q < R), A_(EVT(SUBT(f(q, z3.IntVal(0)), t))) <= E.eps))
        E.calls.append((r, tab, eqs, I.get(tab.f['start']) if 'start' in tab.f else None))
        return r
    return c
@task
def t_solve_table(tu, ctx):
    E = SEnv(tu, ctx); E.calls = []; n = E.dim('n'); R = E.dim('R')
    eqs = equations(E, R); o = E.table(n)
    m = E.cfg.f['nonlinearMethod'].v; lm = m == E.enum('LM'); ctx.assume_global(z3.Or(lm, m == E.enum('NEWTON_RAPHSON')))
    E.I.contracts[NS + 'SolveByNewtonRaphson'] = solver_contract(E, False); E.I.contracts[NS + 'SolveByLM'] = solver_contract(E, True)
    try: r = E.run(E.fn('Solve', 2), None, [eqs, o])
    except CppThrow as e:
        ctx.oblige('ensures:throws-only-what-the-chosen-method-throws', tob(e.tname == 'runtime_error' and isinstance(e.obj, Ext) and not e.obj.args)); same_table(E, o); same_sym(E, eqs); return
    r = E.I.get(r); same_names(E, r, o); is_root(E, eqs, R, E.tid(r), 'ensures:every-equation-holds-within-epsilon')
    ctx.oblige('ensures:called-with-the-given-table-and-equations', tob(len(E.calls) >= 1 and all(c[1] is o and c[2] is eqs for c in E.calls)))
    same_table(E, o); same_sym(E, eqs)
@task
def t_solve(tu, ctx):
    E = SEnv(tu, ctx); E.calls = []; lib = E.lib; n = E.dim('n'); R = E.dim('R'); eqs = equations(E, R)
    HAS = z3.Function('occurs', N, B); W = z3.Function('occurs_in', N, I_)
    def gavn(I, this, args, d):
        """SymMat::GetAllVarNames (C17): exactly the names that occur in an element"""
        if this is not eqs: raise Unsupported('names of other equations')
        f = elements(E, eqs).snapshot()
        lib.onname.append(lambda k: [z3.Implies(HAS(k), z3.And(W(k) >= 0, W(k) < Z(R), OCCN(f(W(k), z3.IntVal(0)), k)))])
        E.occ = lambda k, q: ctx.assume(z3.Implies(z3.And(Z(q) >= 0, Z(q) < Z(R), OCCN(f(q, z3.IntVal(0)), k)), HAS(k)))
        return lib.name_set(lambda k: HAS(k), n)
    def ctor(I, this, args, d):
        """VarsTable(names, value) (C18): those names in that order, every value the given one; requires distinct names"""
        p = [ty(x) for x in params_of(d)]
        if len(p) != 2 or 'vector' not in p[0]: return NotImplemented
        ns = args[0]; v = I.dom.co(I.get(args[1]))
        if not isinstance(ns, Arr) or not hasattr(ns, 'idx'): raise Unsupported('names of the table')
        ns2 = ns.copy_value(I) if hasattr(ns, 'copy_value') else ns
        for a in ('idx', 'nm', 'has', 'facts'): setattr(ns2, a, getattr(ns, a))
        t = ctx.fresh(TID, 'start')
        this.f['vars'] = ns2; this.f['values'] = E.new_vec(ns.n, lambda q, r: v); this.f['table'] = Cell(t, ctx.time); this.f['start'] = Cell(v, ctx.time)
        return None
    E.I.contracts[NS + 'SymMat::GetAllVarNames'] = gavn
    E.I.contracts[NS + 'VarsTable::VarsTable'] = ctor
    E.I.contracts[NS + 'Solve'] = solver_contract(E, False)
    fs = [f for f in tu.funcs.get('Solve', ()) if len(params_of(f)) == 1]
    
    old = E.I.contracts[NS + 'Solve']
    E.I.contracts[NS + 'Solve'] = lambda I, this, args, d: old(I, this, args, d) if len(args) == 2 else NotImplemented
    try: r = E.run(E.fn('Solve', 1), None, [eqs])
    except CppThrow as e: same_sym(E, eqs); return
    r = E.I.get(r)
    if not (isinstance(r, Obj) and r.cls == 'VarsTable'): raise Unsupported('result of Solve')
    if len(E.calls) != 1: raise Unsupported('calls of the solver')
    ctx.oblige('ensures:solves-the-given-equations', tob(E.calls[0][2] is eqs))
    ctx.oblige('ensures:starts-from-the-configured-initial-value', E.calls[0][3] == E.I.dom.co(E.cfg.f['initialValue'].v))
    q, _ = E.point(n, 1); lib.inst(q, 0, 1); vs = r.f['vars']
    ctx.oblige('ensures:number-of-unknowns', eq(vs.n, n))
    for c in vs.facts(q, 0): ctx.assume(c)
    x = vs.at(q, 0); lib.names_known(x)
    ctx.oblige('ensures:every-unknown-occurs-in-an-equation', z3.And(W(x) >= 0, W(x) < R, OCCN(eqs.spec(W(x), Z(0)), x)))
    y = ctx.fresh(N, 'name'); e, _ = E.point(R, 1); ctx.assume(OCCN(eqs.spec(e, Z(0)), y)); E.occ(y, e); lib.names_known(y)
    k = vs.idx(y); 
    for c in vs.facts(k, 0): ctx.assume(c)
    ctx.oblige('ensures:every-variable-that-occurs-is-an-unknown', z3.And(k >= 0, k < n, vs.at(k, 0) == y))
    is_root(E, eqs, R, E.tid(r), 'ensures:every-equation-holds-within-epsilon')
    same_sym(E, eqs)

def c16():
    return {'SolveByNewtonRaphson': t_solver('SolveByNewtonRaphson'), 'SolveByLM, logging off': t_solver('SolveByLM', True, 'quiet'), 'SolveByLM, logging on': t_solver('SolveByLM', True, 'log'),
            'Solve(equations, table)': t_solve_table, 'Solve(equations)': t_solve}
