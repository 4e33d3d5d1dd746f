"""Verification tasks over matrices and vectors of any size (C13)."""
import z3
from .core import *
from .dom import RealDom
from .interp import Interp, Frame, ty, strip, head, is_ref
from .extract import params_of, body_of
from .tspecs import u_size
from .tasks_tree import Env, c_str, NS, tree_contracts
from .tasks_num import config_obj
from .theory import *
from .mat import *

class MEnv(Env):
    def __init__(self, tu, ctx, contracts=()):
        self.tu, self.ctx = tu, ctx
        self.lib = MatLib(tu)
        self.I = Interp(tu, ctx, RealDom(), self.lib)
        self.lib.unfolders += [u_size]
        self.I.loop_hooks.append(self.lib.worklist_hook)
        self.I.loop_hooks.append(self.lib.loop_hook)
        self.ops = self.lib.ops
        self.lib.specs = []
        for n, c in dict(contracts).items(): self.I.contracts[n] = c
        ctx.machine = self.I
        self.cfg = config_obj(self, self.I.dom)
        self.I.contracts[NS + 'ToString'] = c_str(self.lib)
        self.I.contracts[NS + 'GetErrorInfo'] = c_str(self.lib)
        self.I.contracts[NS + 'Mat::ToString'] = c_str(self.lib)
        self.I.contracts[NS + 'SymMat::ToString'] = c_str(self.lib)
        self.eps = self.cfg.f['epsilon'].v; ctx.assume_global(self.eps >= 0)
    def dim(self, hint, low=1):
        n = self.ctx.fresh(I_, hint); self.ctx.assume_global(n >= low); return n
    def mat(self, R, C, hint='A', cls='Mat'):
        lib = self.lib
        f = z3.Function(hint, I_, I_, R_)
        n = R * C
        a = Arr(lib, n, 'real', lambda q, r: f(Z(q), Z(r)), (R, C), 0)
        o = Obj(cls, {'rows': Cell(R), 'cols': Cell(C), 'data': a})
        o.spec = f
        return o
    def vec(self, R, hint='v'): return self.mat(R, 1, hint, 'Vec')
    # ---------------------------------------------------------------- what a matrix holds
    def shape(self, m): return self.I.get(m.f['rows']), self.I.get(m.f['cols'])
    def at(self, m, q, r):
        """element (q, r) of matrix object m, at its current layout"""
        R, C = self.shape(m); d = m.f['data']
        if eq(d.C, C) is True or self.ctx.entails(eq(d.C, C)): return d.at(q, r)
        return d.at(*self.lib.split(d, S(q * C + r)))
    def point(self, R, C):
        """an arbitrary position inside R x C"""
        ctx = self.ctx
        q = ctx.fresh(I_, 'q'); ctx.assume(And(le(0, q), lt(q, R)))
        if is_lit(C) and lit(C) == 1: return q, 0
        r = ctx.fresh(I_, 'r'); ctx.assume(And(le(0, r), lt(r, C)))
        return q, r
    def expect(self, m, R, C, f, name='ensures'):
        ctx = self.ctx
        r, c = self.shape(m)
        ctx.oblige(name + ':rows', eq(r, R)); ctx.oblige(name + ':cols', eq(c, C))
        ctx.oblige(name + ':size', eq(m.f['data'].n, S(R * C)))
        q, s = self.point(R, C)
        self.lib.inst(q, s, C)
        ctx.oblige(name + ':elements', self.at(m, q, s) == f(q, s))
    def same(self, m, name='ensures:operand-unchanged'):
        f = m.spec
        q, r = self.point(*m.dims) if hasattr(m, 'dims') else self.point(*self.shape(m))
        self.ctx.oblige(name, self.at(m, q, r) == f(Z(q), Z(r)))
    def all_iff(self, res, R, C, p, name):
        """res is true iff p holds everywhere"""
        ctx = self.ctx
        res = self.I.truth(res)
        if ctx.decide(res):
            q, r = self.point(R, C); self.lib.inst(q, r, C)
            ctx.oblige(name + ':true-only-if-all', p(q, r))
        else:
            w = self.lib.witnesses(C)
            ctx.oblige(name + ':false-only-if-one-fails', z3.Or([z3.And(tob(self.lib.inside(FakeShape(R, C), q, r)), z3.Not(p(q, r))) for q, r in w]) if w else False)
    def error_is(self, e, cls, code=None):
        """the exception is of class cls (and carries the error code)"""
        if head(e.tname).split('::')[-1] != cls: return False
        if code is None: return True
        o = e.obj
        return isinstance(o, Obj) and self.I.get(o.f['errorType']) == self.enum(code)
    def enum(self, name):
        for n in self.tu.byid.values():
            if n.get('kind') == 'EnumConstantDecl' and n.get('name') == name and n['id'] in self.tu.enumvals: return self.tu.enumvals[n['id']]
        raise Unsupported('enumerator ' + name)
    def run(self, f, this, args):
        return self.I.call_function(f, this, args)
class FakeShape:
    def __init__(s, R, C): s.R, s.C = R, C

def task(fn):
    fn.theory = Theory
    return fn
def par(*ts):
    """picks the overload by the types of its parameters (and constness of the result when given)"""
    def p(f): 
        ps = [strip(ty(x)).replace('tomsolver::', '') for x in params_of(f)]
        return ps == list(ts)
    return p
A_ = lambda x: z3.If(x >= 0, x, -x)

def setup(tu, ctx): 
    return MEnv(tu, ctx)

def unary_op(qn, spec, cls='Mat', pick=None, scalar=None, twoway=False, friend=False, vec=False, result='value'):
    """one operand (and a scalar)"""
    @task
    def t(tu, ctx):
        E = setup(tu, ctx)
        R = E.dim('R'); C = 1 if vec else E.dim('C')
        a = E.vec(R, 'A') if vec else E.mat(R, C, 'A')
        k = ctx.fresh(R_, 'k')
        args = [k] if scalar else []
        if friend: args = [k, a] if scalar == 'left' else [a]
        f = E.fn(qn, None, pick)
        r = E.run(f, None if friend else a, args)
        E.expect(r, R, C, lambda q, s: spec(a.spec(Z(q), Z(s)), k))
        E.same(a)
    return t
def binary_op(qn, spec, pick=None, friend=False, vec=False, inplace=False):
    @task
    def t(tu, ctx):
        E = setup(tu, ctx)
        R = E.dim('R'); C = 1 if vec else E.dim('C')
        mk = (lambda h: E.vec(R, h)) if vec else (lambda h: E.mat(R, C, h))
        a, b = mk('A'), mk('B')
        alias = ctx.choose(2)
        if alias: b = a
        f = E.fn(qn, None, pick)
        A, B = a.spec, b.spec
        r = E.run(f, None if friend else a, [a, b] if friend else [b])
        if inplace: ctx.oblige('ensures:returns-itself', r is a)
        E.expect(r, R, C, lambda q, s: spec(A(Z(q), Z(s)), B(Z(q), Z(s))))
        if not inplace: E.same(a)
        if b is not a: E.same(b)
    return t
def predicate(qn, p, pick=None, n=2, friend=False, vec=False, scalar=False):
    @task
    def t(tu, ctx):
        E = setup(tu, ctx)
        R = E.dim('R'); C = 1 if vec else E.dim('C')
        mk = (lambda h: E.vec(R, h)) if vec else (lambda h: E.mat(R, C, h))
        a, b = mk('A'), mk('B')
        k = ctx.fresh(R_, 'k')
        args = [k] if scalar else [b]
        if n == 1: args = []
        f = E.fn(qn, None, pick)
        r = E.run(f, None if friend else a, [a] + args if friend else args)
        E.all_iff(r, R, C, lambda q, s: p(E, a.spec(Z(q), Z(s)), k if scalar else b.spec(Z(q), Z(s))), 'ensures')
        E.same(a); E.same(b)
    return t

@task
def t_ctor(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); v = ctx.fresh(R_, 'init')
    rec = E.I.rec_by_name['Mat']
    m = E.I.construct(rec, 'Mat', 'void (int, int, double)', [R, C, v])
    E.expect(m, R, C, lambda q, s: v)
    ctx.oblige('ensures:Rows', eq(E.I.get(E.run(E.fn('Mat::Rows'), m, [])), R)); ctx.oblige('ensures:Cols', eq(E.I.get(E.run(E.fn('Mat::Cols'), m, [])), C))
@task
def t_vctor(tu, ctx):
    E = setup(tu, ctx); R = E.dim('R'); v = ctx.fresh(R_, 'init')
    if ctx.choose(2):
        m = E.I.construct(E.I.rec_by_name['Vec'], 'Vec', 'void (int, double)', [R, v])
        E.expect(m, R, 1, lambda q, s: v)
    else:
        a = E.vec(R, 'A')
        m = E.I.construct(E.I.rec_by_name['Vec'], 'Vec', 'void (std::valarray<double>)', [E.I.copy(a.f['data'])])
        E.expect(m, R, 1, lambda q, s: a.spec(Z(q), Z(s)))
@task
def t_copy(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = E.mat(R, C, 'A')
    if ctx.choose(2):
        b = E.I.copy(a)
    else:
        R2, C2 = E.dim('R2'), E.dim('C2'); b = E.mat(R2, C2, 'B'); E.I.set_value(b, a)
    E.expect(b, R, C, lambda q, s: a.spec(Z(q), Z(s))); E.same(a)
@task
def t_product(tu, ctx):
    E = setup(tu, ctx); R, M, C = E.dim('R'), E.dim('M'), E.dim('C')
    if ctx.choose(2): C = 1
    a, b = E.mat(R, M, 'A'), E.mat(M, C, 'B')
    r = E.run(E.fn('Mat::operator*', None, par('Mat')), a, [b])
    E.expect(r, R, C, lambda q, s: mksum(M, lambda k: a.spec(Z(q), k) * b.spec(k, Z(s))))
    E.same(a); E.same(b)
@task
def t_transpose(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = E.mat(R, C, 'A')
    r = E.run(E.fn('Mat::Transpose'), a, [])
    E.expect(r, C, R, lambda q, s: a.spec(Z(s), Z(q))); E.same(a)
def t_swap(row, vec=False):
    @task
    def t(tu, ctx):
        E = setup(tu, ctx); R = E.dim('R'); C = 1 if vec else E.dim('C'); a = E.vec(R, 'A') if vec else E.mat(R, C, 'A')
        i, j = ctx.fresh(I_, 'i'), ctx.fresh(I_, 'j')
        lim = R if row else C
        for x in (i, j): ctx.assume(And(le(0, x), lt(x, lim)))
        r = E.run(E.fn('Mat::SwapRow' if row else 'Mat::SwapCol'), a, [i, j])
        ctx.oblige('ensures:returns-itself', r is a)
        p = lambda x: z3.If(x == i, j, z3.If(x == j, i, x))
        E.expect(a, R, C, (lambda q, s: a.spec(p(Z(q)), Z(s))) if row else (lambda q, s: a.spec(Z(q), p(Z(s)))))
    return t
@task
def t_resize(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = E.mat(R, C, 'A')
    R2, C2 = E.dim('R2'), E.dim('C2')
    if ctx.choose(2): C2 = C            # same number of columns
    f = E.fn('Mat::Resize')
    E.run(f, a, [R2, C2])
    E.expect(a, R2, C2, lambda q, s: z3.If(z3.And(Z(q) < R, Z(s) < C), a.spec(Z(q), Z(s)), 0))
@task
def t_vresize(tu, ctx):
    E = setup(tu, ctx); R, R2 = E.dim('R'), E.dim('R2'); a = E.vec(R, 'A')
    E.run(E.fn('Vec::Resize'), a, [R2])
    E.expect(a, R2, 1, lambda q, s: z3.If(Z(q) < R, a.spec(Z(q), Z(s)), 0))
@task
def t_setvalue(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = E.mat(R, C, 'A'); k = ctx.fresh(R_, 'k')
    if ctx.choose(2):
        E.run(E.fn('Mat::SetValue'), a, [k]); E.expect(a, R, C, lambda q, s: k)
    else:
        r = E.run(E.fn('Mat::Zero'), a, []); ctx.oblige('ensures:returns-itself', r is a); E.expect(a, R, C, lambda q, s: z3.RealVal(0))
@task
def t_ones(tu, ctx):
    E = setup(tu, ctx); R = E.dim('R'); a = E.mat(R, R, 'A')
    r = E.run(E.fn('Mat::Ones'), a, []); ctx.oblige('ensures:returns-itself', r is a)
    E.expect(a, R, R, lambda q, s: z3.If(Z(q) == Z(s), z3.RealVal(1), z3.RealVal(0)))
@task
def t_norm2(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C')
    if ctx.choose(2): C = 1
    a = E.mat(R, C, 'A')
    r = E.I.get(E.run(E.fn('Mat::Norm2'), a, []))
    ctx.oblige('ensures:sum-of-squares', r == mksum2(R, C, lambda q, s: a.spec(q, s) * a.spec(q, s))); E.same(a)
@task
def t_dot(tu, ctx):
    E = setup(tu, ctx); R = E.dim('R'); a, b = E.vec(R, 'A'), E.vec(R, 'B')
    r = E.I.get(E.run(E.fn('Dot'), None, [a, b]))
    ctx.oblige('ensures:sum-of-products', r == mksum(R, lambda q: a.spec(q, 0) * b.spec(q, 0))); E.same(a); E.same(b)
def t_extremum(fn, g, biggest):
    @task
    def t(tu, ctx):
        E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = E.mat(R, C, 'A')
        m = E.I.get(E.run(E.fn('Mat::' + fn), a, []))
        q, s = E.point(R, C); E.lib.inst(q, s, C)
        x = g(a.spec(Z(q), Z(s)))
        ctx.oblige('ensures:bounds-every-element', x <= m if biggest else x >= m)
        w = E.lib.witnesses(C)
        ctx.oblige('ensures:is-an-element', z3.Or([z3.And(tob(E.lib.inside(FakeShape(R, C), q, r)), g(a.spec(Z(q), Z(r))) == m) for q, r in w]) if w else False)
        E.same(a)
    return t
@task
def t_value(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = E.mat(R, C, 'A')
    i, j = E.point(R, C)
    fs = [f for f in E.tu.funcs.get('Value', ()) if E.I.qname(f) == NS + 'Mat::Value']
    f = fs[ctx.choose(len(fs))]
    c = E.run(f, a, [i, j])
    ctx.oblige('ensures:the-element', E.I.get(c) == a.spec(i, Z(j)))
    if 'const' in (f.get('type') or {}).get('qualType', ''): return
    v = ctx.fresh(R_, 'v'); E.I.assign(c, v)
    E.expect(a, R, C, lambda q, s: z3.If(z3.And(Z(q) == i, Z(s) == j), v, a.spec(Z(q), Z(s))))
def t_rowcol(row):
    @task
    def t(tu, ctx):
        E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = E.mat(R, C, 'A')
        nm = 'Row' if row else 'Col'
        fs = [f for f in E.tu.funcs.get(nm, ()) if E.I.qname(f) == NS + 'Mat::' + nm]
        f = fs[ctx.choose(len(fs))]
        i, o = ctx.fresh(I_, 'i'), ctx.fresh(I_, 'off')
        if ctx.choose(2): o = 0
        ctx.assume(And(le(0, i), lt(i, R if row else C), le(0, o), lt(o, C if row else R)))
        v = E.run(f, a, [i, o])
        n = S((C if row else R) - o)
        ctx.oblige('ensures:length', eq(v.n, n))
        k = ctx.fresh(I_, 'k'); ctx.assume(And(le(0, k), lt(k, n)))
        ctx.oblige('ensures:elements', v.at(k, 0) == (a.spec(i, k + o) if row else a.spec(k + o, i)))
    return t
@task
def t_tovec(tu, ctx):
    E = setup(tu, ctx); R = E.dim('R')
    one = ctx.choose(2)
    C = 1 if one else E.dim('C')
    a = E.mat(R, C, 'A')
    try: v = E.run(E.fn('Mat::ToVec'), a, [])
    except CppThrow: ctx.oblige('ensures:throws-only-for-several-columns', Not(eq(C, 1))); E.same(a); return
    if not one: ctx.oblige('ensures:throws-for-several-columns', eq(C, 1)); return
    E.expect(v, R, 1, lambda q, s: a.spec(Z(q), Z(s))); E.same(a)
@task
def t_maxrow(tu, ctx):
    E = setup(tu, ctx); R, C = E.dim('R'), E.dim('C'); a = E.mat(R, C, 'A')
    lo, hi, c = ctx.fresh(I_, 'lo'), ctx.fresh(I_, 'hi'), ctx.fresh(I_, 'c')
    ctx.assume(And(le(0, lo), le(lo, hi), lt(hi, R), le(0, c), lt(c, C)))
    r = E.I.get(E.run(E.fn('GetMaxAbsRowIndex'), None, [a, lo, hi, c]))
    ctx.oblige('ensures:in-range', And(le(lo, r), le(r, hi)))
    k = ctx.fresh(I_, 'k'); ctx.assume(And(le(lo, k), le(k, hi))); E.lib.inst(S(k - lo), 0); E.lib.inst(k, c)
    ctx.oblige('ensures:largest', A_(a.spec(k, c)) <= A_(a.spec(r, c)))
    ctx.oblige('ensures:first', z3.Implies(k < r, A_(a.spec(k, c)) < A_(a.spec(r, c))))
    E.same(a)
@task
def t_index(tu, ctx):
    E = setup(tu, ctx); R = E.dim('R'); a = E.vec(R, 'A')
    fs = [f for f in E.tu.funcs.get('operator[]', ()) if E.I.qname(f) == NS + 'Vec::operator[]']
    i, _ = E.point(R, 1)
    c = E.run(fs[ctx.choose(len(fs))], a, [i])
    ctx.oblige('ensures:the-element', E.I.get(c) == a.spec(i, 0))

def c13():
    near = lambda E, x, y: A_(x - y) < E.eps
    return {
        'Mat(rows,cols,init), Rows, Cols': t_ctor, 'Vec constructors': t_vctor, 'copy, assignment': t_copy,
        'Mat::Value': t_value, 'Mat::Row': t_rowcol(True), 'Mat::Col': t_rowcol(False), 'Vec::operator[]': t_index,
        'Mat==double': predicate('Mat::operator==', near, par('double'), scalar=True), 'Mat==Mat': predicate('Mat::operator==', near, par('Mat')),
        'IsZero': predicate('IsZero', lambda E, x, y: A_(x) <= E.eps, n=1, friend=True), 'AllIsLessThan': predicate('AllIsLessThan', lambda E, x, y: x < y, friend=True),
        'Vec<Vec': predicate('Vec::operator<', lambda E, x, y: x < y, vec=True),
        '-Mat': unary_op('Mat::operator-', lambda x, k: -x, pick=par()), 'Mat*double': unary_op('Mat::operator*', lambda x, k: x * k, pick=par('double'), scalar='right'),
        'double*Mat': unary_op('operator*', lambda x, k: k * x, pick=par('double', 'Mat'), scalar='left', friend=True),
        'Mat+Mat': binary_op('Mat::operator+', lambda x, y: x + y, par('Mat')), 'Mat-Mat': binary_op('Mat::operator-', lambda x, y: x - y, par('Mat')),
        'Mat+=Mat': binary_op('Mat::operator+=', lambda x, y: x + y, inplace=True), 'EachDivide': binary_op('EachDivide', lambda x, y: x / y, friend=True),
        '-Vec': unary_op('Vec::operator-', lambda x, k: -x, pick=par(), vec=True), 'Vec*double': unary_op('Vec::operator*', lambda x, k: x * k, pick=par('double'), scalar='right', vec=True),
        'double*Vec': unary_op('operator*', lambda x, k: k * x, pick=par('double', 'Vec'), scalar='left', friend=True, vec=True),
        'Vec+Vec': binary_op('Vec::operator+', lambda x, y: x + y, par('Vec'), vec=True), 'Vec-Vec': binary_op('Vec::operator-', lambda x, y: x - y, par('Vec'), vec=True),
        'Vec*Vec': binary_op('Vec::operator*', lambda x, y: x * y, par('Vec'), vec=True), 'Vec/Vec': binary_op('Vec::operator/', lambda x, y: x / y, par('Vec'), vec=True),
        'Mat*Mat': t_product, 'Transpose': t_transpose, 'SwapRow': t_swap(True), 'SwapCol': t_swap(False), 'Vec SwapRow': t_swap(True, True),
        'Mat::Resize': t_resize, 'Vec::Resize': t_vresize, 'SetValue, Zero': t_setvalue, 'Ones': t_ones, 'Norm2': t_norm2, 'Dot': t_dot,
        'NormInfinity': t_extremum('NormInfinity', A_, True), 'NormNegInfinity': t_extremum('NormNegInfinity', A_, False), 'Min': t_extremum('Min', lambda x: x, False),
        'ToVec': t_tovec, 'GetMaxAbsRowIndex': t_maxrow,
    }
