"""Determinant, adjugate and inverse (C14).  DET(n, M) is the mathematical determinant, characterised by Laplace expansion along row 0; lean/Det.lean proves
that this is Mathlib's Matrix.det and that the matrix of signed minors multiplies to det * identity."""
import os, subprocess, z3
from .core import *
from .extract import params_of
from .tasks_mat import *
from .tasks_mat import A_, task
LEAN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean')

def sgn(k): return z3.If(Z(k) % 2 == 0, z3.RealVal(1), z3.RealVal(-1))
def minor(f, p, q): return lambda i, j: f(z3.If(Z(i) < p, Z(i), Z(i) + 1), z3.If(Z(j) < q, Z(j), Z(j) + 1))
def det(n, f): return DET(S(n) if not isinstance(S(n), int) else Z(S(n)), lam2(f))
def unfold(n, f):
    """the definition of DET(n, f)"""
    d = det(n, f)
    two = f(Z(0), Z(0)) * f(Z(1), Z(1)) - f(Z(0), Z(1)) * f(Z(1), Z(0))
    return [z3.Implies(n == 1, d == f(Z(0), Z(0))), z3.Implies(n == 2, d == two), z3.Implies(n >= 2, d == mksum(n, lambda k: sgn(k) * f(Z(0), k) * det(n - 1, minor(f, 0, k))))]
def els(E, m):
    """the elements of a matrix object, as a function"""
    d = m.f['data']; R, C = E.shape(m)
    if eq(d.C, C) is not True and not E.ctx.entails(eq(d.C, C)): raise Unsupported('layout of a matrix')
    f = d.snapshot()
    return lambda q, r: f(q, r)

def c_cofactor(E):
    def c(I, this, args, d):
        A, co = I.get(args[0]), I.get(args[1]); p, q, n = [I.get(x) for x in args[2:5]]
        ctx = E.ctx
        R, C = E.shape(A); r, c_ = E.shape(co)
        ctx.oblige('GetCofactor:requires', And(le(2, n), le(n, R), le(n, C), le(0, p), lt(p, n), le(0, q), lt(q, n), eq(r, S(n - 1)), eq(c_, S(n - 1))))
        if A is co: raise Unsupported('GetCofactor onto itself')
        f = els(E, A); g = minor(f, p, q)
        a = co.f['data']; els(E, co)
        a.write(lambda i, j: True, lambda i, j: g(i, j))
        return None
    return c
def c_det(E, measure=None):
    def c(I, this, args, d):
        A, n = I.get(args[0]), I.get(args[1])
        ctx = E.ctx; R, C = E.shape(A)
        ctx.oblige('Det:requires', And(le(1, n), le(n, R), le(n, C)))
        if measure is not None: ctx.oblige('Det:terminates', And(le(0, n), lt(n, measure)))
        return det(n, els(E, A))
    return c
def adj_f(n, f): return lambda i, j: sgn(i + j) * det(n - 1, minor(f, j, i))
def c_adjoint(E):
    def c(I, this, args, d):
        A, adj = I.get(args[0]), I.get(args[1]); ctx = E.ctx
        R, C = E.shape(A); r, c_ = E.shape(adj)
        ctx.oblige('Adjoint:requires', And(eq(R, C), eq(r, R), eq(c_, R)))
        if A is adj: raise Unsupported('Adjoint onto itself')
        f = els(E, A); els(E, adj)
        adj.f['data'].write(lambda i, j: True, lambda i, j: z3.If(R == 1, z3.RealVal(1), adj_f(R, f)(i, j)))
    return c

@task
def t_cofactor(tu, ctx):
    E = setup(tu, ctx); n = E.dim('n', 2)
    R, C = E.dim('R', 2), E.dim('C', 2)
    if ctx.choose(2): R = C = n
    ctx.assume(And(le(n, R), le(n, C)))
    A, co = E.mat(R, C, 'A'), E.mat(S(n - 1), S(n - 1), 'B')
    p, q = ctx.fresh(I_, 'p'), ctx.fresh(I_, 'q'); ctx.assume(And(le(0, p), lt(p, n), le(0, q), lt(q, n)))
    E.run(E.fn('GetCofactor'), None, [A, co, p, q, n])
    g = minor(A.spec, p, q)
    E.expect(co, S(n - 1), S(n - 1), lambda i, j: g(i, j)); E.same(A)
@task
def t_det(tu, ctx):
    E = setup(tu, ctx); n = E.dim('n'); R, C = E.dim('R'), E.dim('C')
    if ctx.choose(2): R = C = n
    ctx.assume(And(le(n, R), le(n, C)))
    A = E.mat(R, C, 'A')
    E.I.contracts[NS + 'GetCofactor'] = c_cofactor(E); E.I.contracts[NS + 'Det'] = c_det(E, n)
    d = E.I.get(E.run(E.fn('Det'), None, [A, n]))
    for l in unfold(n, A.spec): ctx.assume(l)
    ctx.oblige('ensures:determinant', E.I.dom.co(d) == det(n, A.spec)); E.same(A)
@task
def t_adjoint(tu, ctx):
    E = setup(tu, ctx); n = E.dim('n')
    A, adj = E.mat(n, n, 'A'), E.mat(n, n, 'B')
    E.I.contracts[NS + 'GetCofactor'] = c_cofactor(E); E.I.contracts[NS + 'Det'] = c_det(E)
    E.run(E.fn('Adjoint'), None, [A, adj])
    g = adj_f(n, A.spec)
    E.expect(adj, n, n, lambda i, j: z3.If(n == 1, z3.RealVal(1), g(i, j))); E.same(A)
@task
def t_inverse(tu, ctx):
    E = setup(tu, ctx); n = E.dim('n'); A = E.mat(n, n, 'A')
    E.I.contracts[NS + 'Adjoint'] = c_adjoint(E); E.I.contracts[NS + 'Det'] = c_det(E)
    D = det(n, A.spec)
    try: X = E.run(E.fn('Mat::Inverse'), A, [])
    except CppThrow as e:
        ctx.oblige('ensures:throws-only-if-singular', A_(D) <= E.eps)
        ctx.oblige('ensures:singular-matrix-error', E.error_is(e, 'MathError', 'ERROR_SINGULAR_MATRIX')); E.same(A); return
    ctx.oblige('ensures:returns-only-if-invertible', A_(D) > E.eps)
    r, c = E.shape(X); ctx.oblige('ensures:rows', eq(r, n)); ctx.oblige('ensures:cols', eq(c, n)); ctx.oblige('ensures:size', eq(X.f['data'].n, S(n * n)))
    x = els(E, X)
    q, s = E.point(n, n)
    g = lambda i, j: z3.If(n == 1, z3.RealVal(1), adj_f(n, A.spec)(i, j))
    k = ctx.fresh(I_, 'k'); i, j = E.point(n, n)
    ctx.oblige('ensures:adjugate-over-determinant', x(i, j) * D == g(i, j))
    ctx.assume(D != 0)
    for side in (0, 1):
        sp = (lambda k: A.spec(q, k) * g(k, s)) if side == 0 else (lambda k: g(q, k) * A.spec(k, s))
        re = (lambda k: A.spec(q, k) * x(k, s)) if side == 0 else (lambda k: x(q, k) * A.spec(k, s))
        P, Q = mksum(n, sp), mksum(n, re)
        # lean/Det.lean: mul_ADJ, ADJ_mul (n = 1: the empty minor has determinant 1)
        ctx.assume(P == z3.If(q == s, D, z3.RealVal(0)))
        # a sum with a common factor (lean/Sum.lean: sum_mul)
        y = ctx.fresh(I_, 'y'); ctx.assume(z3.Implies(z3.Implies(z3.And(0 <= y, y < n), sp(y) == D * re(y)), P == D * Q))
        # what was just proved about the elements, at the element the lemma asks about
        ctx.assume(z3.Implies(z3.And(0 <= y, y < n), (x(y, s) * D == g(y, s)) if side == 0 else (x(q, y) * D == g(q, y))))
        ctx.oblige('ensures:product-is-identity:' + ('left', 'right')[side], Q == z3.If(q == s, z3.RealVal(1), z3.RealVal(0)))
    E.same(A)
@task
def t_positive(tu, ctx):
    E = setup(tu, ctx); n = E.dim('n'); A = E.mat(n, n, 'A')
    E.I.contracts[NS + 'Det'] = c_det(E)
    r = E.I.truth(E.run(E.fn('Mat::PositiveDetermine'), A, []))
    k = ctx.fresh(I_, 'k')
    if ctx.decide(r):
        ctx.assume(And(le(1, k), le(k, n)))
        E.lib.inst(S(k - 1)); E.lib.inst(k)
        ctx.oblige('ensures:true-only-if-all-minors-positive', det(k, A.spec) > 0)
    else:
        w = [x for q, _ in E.lib.witnesses() for x in (q, q + 1)]
        ctx.oblige('ensures:false-only-if-one-is-not', z3.Or([z3.And(x >= 1, x <= n, det(x, A.spec) <= 0) for x in w]) if w else False)
    E.same(A)

def lean_task(name, theorems):
    """the mathematical lemmas, checked by Lean on every run"""
    def t(tu, ctx):
        f = os.path.join(LEAN, name)
        r = subprocess.run(['lean', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        out = r.stdout.decode()
        ok = r.returncode == 0 and 'sorryAx' not in out and 'error' not in out
        for th in theorems: ctx.oblige('lean:' + th, ok and ("'%s' depends on axioms: [" % th in out or "'%s' does not depend on any axioms" % th in out))
    return t

SUMS = lean_task('Sum.lean', ['VF.' + x for x in 'sum_empty sum2_empty sum_ext sum2_ext sum_succ sum_shift sum_scale sum_add sum_nested sum_flat flat_inj flat_split quo_rem flat_bound quo_bound quo_succ'.split()])
def c14():
    return {'GetCofactor': t_cofactor, 'Det': t_det, 'Adjoint': t_adjoint, 'Mat::Inverse': t_inverse, 'Mat::PositiveDetermine': t_positive,
            'lemma: signed minors are the adjugate': lean_task('Det.lean', ['mul_ADJ', 'ADJ_mul']), 'lemmas: sums and flat indices': SUMS}
